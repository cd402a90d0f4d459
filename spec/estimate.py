"""Reference model of the buffer size estimate."""
from acetimetools.datatypes.attyping import CountAndYear
from acetime.zone_processor import ZoneProcessor

LIMIT = 8


def inline(t):
    """the database in the form the zone processor consumes"""
    policies = {}
    for name, policy in t.policies_map.items():
        policies[name] = {'name': name, 'rules': [
            {
                'from_year': r['from_year'],
                'to_year': r['to_year'],
                'in_month': r['in_month'],
                'on_day_of_week': r['on_day_of_week'],
                'on_day_of_month': r['on_day_of_month'],
                'at_seconds': r['at_seconds_truncated'],
                'at_time_suffix': r['at_time_suffix'],
                'delta_seconds': r['delta_seconds_truncated'],
                'letter': r['letter'],
            } for r in policy['rules']]}
    zones = {}
    for name, info in t.zones_map.items():
        zones[name] = {'name': name, 'eras': [
            {
                'offset_seconds': e['offset_seconds_truncated'],
                'zone_policy': None if e['policy_name'] is None else policies[e['policy_name']],
                'era_delta_seconds': e['era_delta_seconds_truncated'],
                'format': e['format'],
                'until_year': e['until_year'],
                'until_month': e['until_month'],
                'until_day': e['until_day'],
                'until_seconds': e['until_seconds_truncated'],
                'until_time_suffix': e['until_time_suffix'],
            } for e in info['eras']]}
    return zones, policies


def estimate(t, start, until, ignore):
    first = min(t.generated_min_year, start)
    last = max(t.generated_max_year + 1, until)
    zones, policies = inline(t)
    sizes = {}
    final = 0
    for name, info in zones.items():
        size, terminal = widest(ZoneProcessor(info), first - 1, last + 1)
        sizes[name] = size
        if terminal > final:
            final = terminal
    sizes = dict(sorted(sizes.items()))
    largest = max([s.number for s in sizes.values()])
    if largest > LIMIT and not ignore:
        raise Exception('buffer too large')
    return sizes, largest, first, final


def some_year(t, start, until):
    """follows from start < until"""
    return min(t.generated_min_year, start) - 1 < max(t.generated_max_year + 1, until) + 1


def widest(processor, first, last):
    best = CountAndYear(0, 0)
    for year in range(first, last):
        processor.init_for_year(year)
        n = processor.get_buffer_sizes().buffer_size
        if n > best.number:
            best = CountAndYear(n, year)
        if processor.is_terminal_year(year - 2):
            break
    return best, year
