"""Reference model of the zone/policy/link stages: what each stage must keep, drop with a reason, note and compute.

A method `removes`/`notes` through note(); it returns the surviving map.  The analyser lifts each method on the same
symbolic input as the corresponding stage of the program and compares what both leave behind.
"""
from spec.common import (note, trunc_zero, off_grid, MAX_UNTIL, MAX_UNTIL_TINY, MAX_TO, MAX_TO_TINY, MINUS_INF,
                     MINUS_INF_TINY, INVALID_YEAR, INVALID_YEAR_TINY, BAD_TIME)
from spec.helpers import (fits_tiny, seconds_of, day_rule, resolve_day, tiny_until, tiny_from_to, djb2, identifier, policies_used)


class Ref:
    def __init__(self, scope, start_year, until_year, until_at_granularity, offset_granularity, delta_granularity,
                 strict, generate_tiny_years, tiny_base_year, include_list):
        self.scope = scope
        self.lo = start_year
        self.hi = until_year
        self.grid_time = until_at_granularity
        self.grid_offset = offset_granularity
        self.grid_delta = delta_granularity
        self.strict = strict
        self.tiny = generate_tiny_years
        self.base = tiny_base_year
        self.include = include_list
        self.all_removed_zones = {}
        self.all_removed_policies = {}
        self.all_removed_links = {}
        self.all_notable_zones = {}
        self.all_notable_policies = {}
        self.all_notable_links = {}

    # ---- zones -------------------------------------------------------------------------------------------

    def _filter_include_zones(self, zones_map, include_list):
        if not include_list:
            return zones_map
        kept = {}
        for name, info in zones_map.items():
            if name not in include_list:
                note(self.all_removed_zones, name, 'not requested')
                continue
            kept[name] = info
        return kept

    def _filter_include_links(self, links_map, include_list):
        if not include_list:
            return links_map
        kept = {}
        for name, target in links_map.items():
            if name not in include_list:
                note(self.all_removed_links, name, 'not requested')
                continue
            kept[name] = target
        return kept

    def _remove_zone_eras_too_old(self, zones_map):
        kept = {}
        for name, info in zones_map.items():
            late = [era for era in info['eras'] if not era['until_year'] < self.lo - 1]
            dropped = any([era['until_year'] < self.lo - 1 for era in info['eras']])
            if dropped and len(late) == 0:
                note(self.all_removed_zones, name, 'ends before the window')
                continue
            if dropped:
                info['eras'] = late
                info['lower_era_truncated'] = True
            kept[name] = info
        return kept

    def _remove_zone_eras_too_new(self, zones_map):
        kept = {}
        for name, info in zones_map.items():
            begin = MINUS_INF
            early = []
            dropped = False
            for era in info['eras']:
                if begin > self.hi + 1:
                    dropped = True
                else:
                    early.append(era)
                begin = era['until_year']
            if dropped and len(early) == 0:
                note(self.all_removed_zones, name, 'begins after the window')
                continue
            if dropped:
                info['eras'] = early
                info['upper_era_truncated'] = True
                note(self.all_notable_zones, name, 'eras dropped')
            kept[name] = info
        return kept

    def _extend_zone_eras_until(self, zones_map):
        for name, info in zones_map.items():
            last = info['eras'][-1]
            if last['until_year'] != MAX_UNTIL:
                last['until_year'] = MAX_UNTIL
                last['until_year_only'] = True
                last['until_month'] = 1
                last['until_day_string'] = '1'
                last['until_time'] = '00:00'
                last['until_time_suffix'] = 'w'
        return zones_map

    def _remove_zones_without_eras(self, zones_map):
        kept = {}
        for name, info in zones_map.items():
            if len(info['eras']) > 0:
                kept[name] = info
            else:
                note(self.all_removed_zones, name, 'empty')
        return kept

    def _remove_zone_with_non_simple_until_year(self, zones_map):
        kept = {}
        for name, info in zones_map.items():
            if all([era['until_year_only'] for era in info['eras']]):
                kept[name] = info
            else:
                note(self.all_removed_zones, name, 'complex UNTIL')
        return kept

    def _create_zones_with_until_day(self, zones_map):
        kept = {}
        for name, info in zones_map.items():
            ok = True
            for era in info['eras']:
                weekday, dom = day_rule(era['until_day_string'])
                if weekday == 0 and dom == 0:
                    ok = False
                    break
                month, day = resolve_day(era['until_year'], era['until_month'], weekday, dom)
                if month < 1 or month > 12:
                    ok = False
                    break
                if month != era['until_month']:
                    note(self.all_notable_zones, name, 'month shifted')
                era['until_month'] = month
                era['until_day'] = day
            if ok:
                kept[name] = info
            else:
                note(self.all_removed_zones, name, 'UNTIL day')
        return kept

    def _create_zones_with_expanded_until_time(self, zones_map):
        kept = {}
        for name, info in zones_map.items():
            ok = True
            for era in info['eras']:
                t = seconds_of(era['until_time'])
                if t == BAD_TIME or t < 0:
                    ok = False
                    break
                r = trunc_zero(t, self.grid_time)
                if t % 900 != 0:
                    note(self.all_notable_zones, name, 'odd')
                if r != t:
                    if self.strict:
                        ok = False
                        break
                    note(self.all_notable_zones, name, 'truncated')
                era['until_seconds'] = t
                era['until_seconds_truncated'] = r
            if ok:
                kept[name] = info
            else:
                note(self.all_removed_zones, name, 'UNTIL time')
        return kept

    def _remove_zones_invalid_until_time_suffix(self, zones_map):
        kept = {}
        for name, info in zones_map.items():
            ok = True
            for era in info['eras']:
                s = era['until_time_suffix']
                if not s:
                    s = 'w'
                era['until_time_suffix'] = s
                if s == 'w':
                    continue
                if self.scope != 'basic' and (s == 's' or s == 'u'):
                    continue
                ok = False
                break
            if ok:
                kept[name] = info
            else:
                note(self.all_removed_zones, name, 'suffix')
        return kept

    def _create_zones_with_expanded_offset_string(self, zones_map):
        kept = {}
        for name, info in zones_map.items():
            ok = True
            for era in info['eras']:
                t = seconds_of(era['offset_string'])
                if t == BAD_TIME:
                    ok = False
                    break
                if t % 1800 != 0:
                    note(self.all_notable_zones, name, 'odd')
                r = trunc_zero(t, self.grid_offset)
                if r != t:
                    if self.strict:
                        ok = False
                        break
                    note(self.all_notable_zones, name, 'truncated')
                quarter = trunc_zero(r, 900)
                if quarter < -127 * 900 or quarter > 127 * 900:
                    ok = False
                    break
                era['offset_seconds'] = t
                era['offset_seconds_truncated'] = r
            if ok:
                kept[name] = info
            else:
                note(self.all_removed_zones, name, 'STDOFF')
        return kept

    def _create_zones_with_rules_expansion(self, zones_map):
        kept = {}
        for name, info in zones_map.items():
            ok = True
            for era in info['eras']:
                text = era['rules']
                t = 0
                r = 0
                policy = None
                if ':' in text:
                    if self.scope == 'basic':
                        ok = False
                        break
                    t = seconds_of(text)
                    if t == BAD_TIME or t == 0:
                        ok = False
                        break
                    r = trunc_zero(t, self.grid_delta)
                    if r != t and self.strict:
                        if t != 3600:
                            note(self.all_notable_zones, name, 'odd')
                        ok = False
                        break
                    if t != 3600 or r != t:
                        note(self.all_notable_zones, name, 'odd')
                elif text != '-':
                    policy = text
                era['era_delta_seconds'] = t
                era['era_delta_seconds_truncated'] = r
                era['policy_name'] = policy
            if ok:
                kept[name] = info
            else:
                note(self.all_removed_zones, name, 'RULES')
        return kept

    def _remove_zones_with_invalid_rules_format_combo(self, zones_map):
        for name, info in zones_map.items():
            for era in info['eras']:
                f = era['format']
                if f == '':
                    raise Exception('empty FORMAT')
                if '%z' in f and f != '%z':
                    raise Exception('FORMAT mixes %z')
                if era['policy_name'] is None:
                    if '%s' in f:
                        raise Exception('FORMAT without LETTER')
                elif '%s' not in f and '/' not in f:
                    note(self.all_notable_zones, name, 'FORMAT')
        return zones_map

    def _remove_zones_with_non_monotonic_until(self, zones_map):
        kept = {}
        for name, info in zones_map.items():
            ok = True
            last = None
            now = (0, 0, 0, 0)
            for era in info['eras']:
                m = era['until_month']
                d = era['until_day'] if era['until_day_string'] else 0
                now = (era['until_year'], m, d, era['until_seconds'])
                if last is not None and not now > last:
                    ok = False
                    break
                last = now
            if ok and now[0] != MAX_UNTIL:
                ok = False
            if ok:
                kept[name] = info
            else:
                note(self.all_removed_zones, name, 'UNTIL order')
        return kept

    def _create_short_format_strings(self, zones_map):
        for name, info in zones_map.items():
            for era in info['eras']:
                f = era['format']
                if '%z' in f and f != '%z':
                    raise Exception('FORMAT mixes %z')
                era['format_short'] = f.replace('%z', '').replace('%s', '%')
        return zones_map

    def _create_tiny_until_years(self, zones_map):
        for name, info in zones_map.items():
            for era in info['eras']:
                y = tiny_until(era['until_year'], self.base)
                if y == INVALID_YEAR_TINY:
                    raise Exception('year')
                era['until_year_tiny'] = y
        return zones_map

    def _remove_zones_without_rules(self, zones_map, policies_map):
        kept = {}
        for name, info in zones_map.items():
            ok = True
            for era in info['eras']:
                p = era['policy_name']
                if p and p not in policies_map:
                    ok = False
            if ok:
                kept[name] = info
            else:
                note(self.all_removed_zones, name, 'policy missing')
        return kept

    def _remove_links_to_missing_zones(self, links_map, zones_map):
        kept = {}
        for name, target in links_map.items():
            if target in zones_map:
                kept[name] = target
            else:
                note(self.all_removed_links, name, 'zone missing')
        return kept

    def _verify_zones_until_year(self, zones_map):
        for name, info in zones_map.items():
            last = info['eras'][-1]
            if last['until_year'] != MAX_UNTIL:
                raise Exception('open end')
            if self.tiny and last['until_year_tiny'] != MAX_UNTIL_TINY:
                raise Exception('open end')

    def _verify_policies_from_year(self, policies_map):
        for name, policy in policies_map.items():
            first = policy['rules'][0]
            if first['from_year'] != MINUS_INF:
                raise Exception('open start')
            if self.tiny and first['from_year_tiny'] != MINUS_INF_TINY:
                raise Exception('open start')

    def _verify_zones_and_links_count(self, zones_map, links_map, expected_zones_count, expected_links_count):
        if self.scope == 'basic':
            return
        if len(zones_map) != expected_zones_count:
            raise Exception('zones lost')
        if len(links_map) != expected_links_count:
            raise Exception('links lost')

    def _update_truncation_status(self, zones_map, policies_map):
        for name, info in zones_map.items():
            low = info['lower_era_truncated']
            high = info['upper_era_truncated']
            for era in info['eras']:
                p = era['policy_name']
                if p:
                    low = low or policies_map[p]['lower_rule_truncated']
                    high = high or policies_map[p]['upper_rule_truncated']
            info['lower_zone_truncated'] = low
            info['upper_zone_truncated'] = high
        return zones_map

    def _calc_accurate_years(self, zones_map, lower_truncated, upper_truncated):
        return (self.lo if lower_truncated else MINUS_INF, self.hi if upper_truncated else MAX_UNTIL)

    def _generate_zone_ids(self, zones_map):
        ids = {}
        for name in sorted(zones_map.keys()):
            h = djb2(name)
            if h == 0:
                raise Exception('id')
            ids[name] = h
        return ids

    def _generate_link_ids(self, links_map):
        ids = {}
        for name in sorted(links_map.keys()):
            h = djb2(name)
            if h == 0:
                raise Exception('id')
            ids[name] = h
        return ids

    # ---- policies ----------------------------------------------------------------------------------------

    def _remove_unused_policies(self, zones_map, policies_map):
        kept = {}
        used = policies_used(zones_map)
        for name, policy in policies_map.items():
            if name in used:
                kept[name] = policy
            else:
                note(self.all_removed_policies, name, 'unused')
        return kept

    def _remove_rules_too_old_or_new(self, policies_map):
        lo = self.lo - 1
        hi = self.hi + 1
        kept = {}
        for name, policy in policies_map.items():
            rules = policy['rules']
            latest = (0, 0)
            for rule in rules:
                d = (rule['to_year'], rule['in_month'])
                if d[0] < lo and d > latest:
                    latest = d
            used = []
            low = False
            high = False
            for rule in rules:
                d = (rule['to_year'], rule['in_month'])
                if d[0] < lo and d != latest:
                    low = True
                elif d[0] >= lo and rule['from_year'] >= hi:
                    high = True
                else:
                    used.append(rule)
            if (low or high) and len(used) == 0:
                note(self.all_removed_policies, name, 'outside the window')
                continue
            if low or high:
                policy['rules'] = used
                policy['lower_rule_truncated'] = low
                policy['upper_rule_truncated'] = high
            kept[name] = policy
        return kept

    def _create_rules_with_expanded_at_time(self, policies_map, policies_to_zones):
        kept = {}
        for name, policy in policies_map.items():
            ok = True
            for rule in policy['rules']:
                t = seconds_of(rule['at_time'])
                if t == BAD_TIME or t < 0:
                    ok = False
                    break
                if t % 900 != 0:
                    note(self.all_notable_policies, name, 'odd')
                r = trunc_zero(t, self.grid_time)
                if r != t:
                    if self.strict:
                        ok = False
                        break
                    note(self.all_notable_policies, name, 'truncated')
                rule['at_seconds'] = t
                rule['at_seconds_truncated'] = r
            if ok:
                kept[name] = policy
            else:
                note(self.all_removed_policies, name, 'AT')
        return kept

    def _remove_policies_invalid_at_time_suffix(self, policies_map):
        kept = {}
        for name, policy in policies_map.items():
            ok = True
            for rule in policy['rules']:
                s = rule['at_time_suffix']
                if not s:
                    s = 'w'
                rule['at_time_suffix'] = s
                if s != 'w' and s != 's' and s != 'u':
                    ok = False
                    break
            if ok:
                kept[name] = policy
            else:
                note(self.all_removed_policies, name, 'suffix')
        return kept

    def _update_rules_with_expanded_delta_offset(self, policies_map):
        kept = {}
        for name, policy in policies_map.items():
            ok = True
            for rule in policy['rules']:
                t = seconds_of(rule['delta_offset'])
                if t == BAD_TIME:
                    ok = False
                    break
                if t != 0 and t != 3600:
                    note(self.all_notable_policies, name, 'odd')
                r = trunc_zero(t, self.grid_delta)
                if r != t:
                    if self.strict:
                        ok = False
                        break
                    note(self.all_notable_policies, name, 'truncated')
                if r // 900 < -4 or r // 900 > 11:
                    ok = False
                    break
                rule['delta_seconds'] = t
                rule['delta_seconds_truncated'] = r
            if ok:
                kept[name] = policy
            else:
                note(self.all_removed_policies, name, 'SAVE')
        return kept

    def _create_rules_with_on_day_expansion(self, policies_map):
        kept = {}
        for name, policy in policies_map.items():
            ok = True
            for rule in policy['rules']:
                weekday, dom = day_rule(rule['on_day'])
                if weekday == 0 and dom == 0:
                    ok = False
                    break
                if weekday != 0 and rule['in_month'] == 1 and -7 <= dom and dom < 0:
                    ok = False
                    break
                if weekday != 0 and rule['in_month'] == 12 and dom >= 26:
                    ok = False
                    break
                rule['on_day_of_week'] = weekday
                rule['on_day_of_month'] = dom
            if ok:
                kept[name] = policy
            else:
                note(self.all_removed_policies, name, 'ON')
        return kept

    def _verify_rules_have_anchors(self, policies_map):
        for name, policy in policies_map.items():
            if len(policy['rules']) == 0 or policy['rules'][0]['from_year'] != MINUS_INF:
                raise Exception('anchor')
        return policies_map

    def _normalize_rule_letters(self, policies_map):
        for name, policy in policies_map.items():
            for rule in policy['rules']:
                letter = rule['letter']
                if letter == '-':
                    letter = ''
                rule['letter'] = letter
                if len(letter) >= 2:
                    note(self.all_notable_policies, name, 'letter')
        return policies_map

    def _remove_policies_with_border_transitions(self, policies_map):
        kept = {}
        for name, policy in policies_map.items():
            ok = True
            for rule in policy['rules']:
                finite = rule['from_year'] > MINUS_INF and rule['to_year'] > MINUS_INF
                if finite and rule['in_month'] == 1 and rule['on_day_of_month'] == 1:
                    ok = False
            if ok:
                kept[name] = policy
            else:
                note(self.all_removed_policies, name, 'border')
        return kept

    def _update_rules_tiny_from_to_years(self, policies_map):
        for name, policy in policies_map.items():
            for rule in policy['rules']:
                y = tiny_from_to(rule['from_year'], self.base)
                z = tiny_from_to(rule['to_year'], self.base)
                if y == INVALID_YEAR_TINY or z == INVALID_YEAR_TINY:
                    raise Exception('year')
                rule['from_year_tiny'] = y
                rule['to_year_tiny'] = z
        return policies_map

    def _remove_policies_multiple_transitions_in_month(self, policies_map):
        kept = {}
        for name, policy in policies_map.items():
            seen = {}
            crowded = False
            for rule in policy['rules']:
                for year in range(rule['from_year'], rule['to_year'] + 1):
                    n = seen.get((year, rule['in_month']))
                    if n:
                        crowded = True
                    seen[(year, rule['in_month'])] = True
            if crowded:
                note(self.all_removed_policies, name, 'more than one transition in a month')
            else:
                kept[name] = policy
        return kept

    def _create_rules_with_anchor_transition(self, policies_map):
        for name, policy in policies_map.items():
            rules = policy['rules']
            if len(rules) == 1:
                make_anchor(rules[0])
            else:
                rules.insert(0, earliest_standard(rules))
        return policies_map

    # ---- the whole pipeline

    def transform(self, tresult):
        zones = tresult.zones_map
        policies = tresult.policies_map
        links = tresult.links_map
        if self.tiny:
            if not fits_tiny(self.lo, self.base):
                raise Exception('start year')
            if not fits_tiny(self.hi, self.base):
                raise Exception('until year')
        _detect_links_to_links(links)
        _detect_hash_collisions(zones, links)
        _detect_zones_and_links_with_similar_names(zones, links)
        first, last = _detect_tzdb_years(zones, policies)
        zones = self._filter_include_zones(zones, self.include)
        links = self._filter_include_links(links, self.include)
        zones_wanted = len(zones)
        links_wanted = len(links)
        zones = self._remove_zone_eras_too_old(zones)
        zones = self._remove_zone_eras_too_new(zones)
        zones = self._extend_zone_eras_until(zones)
        zones = self._remove_zones_without_eras(zones)
        if self.scope == 'basic':
            zones = self._remove_zone_with_non_simple_until_year(zones)
        zones = self._create_zones_with_until_day(zones)
        zones = self._create_zones_with_expanded_until_time(zones)
        zones = self._remove_zones_invalid_until_time_suffix(zones)
        zones = self._create_zones_with_expanded_offset_string(zones)
        zones = self._create_zones_with_rules_expansion(zones)
        zones = self._remove_zones_with_invalid_rules_format_combo(zones)
        zones = self._remove_zones_with_non_monotonic_until(zones)
        zones = self._create_short_format_strings(zones)
        if self.tiny:
            zones = self._create_tiny_until_years(zones)
        policies = self._remove_unused_policies(zones, policies)
        users = _create_policies_to_zones(zones)
        policies = self._remove_rules_too_old_or_new(policies)
        if self.scope == 'basic':
            policies = self._remove_policies_multiple_transitions_in_month(policies)
        policies = self._create_rules_with_expanded_at_time(policies, users)
        policies = self._remove_policies_invalid_at_time_suffix(policies)
        policies = self._update_rules_with_expanded_delta_offset(policies)
        policies = self._create_rules_with_on_day_expansion(policies)
        policies = self._create_rules_with_anchor_transition(policies)
        policies = self._verify_rules_have_anchors(policies)
        policies = self._normalize_rule_letters(policies)
        if self.scope == 'basic':
            policies = self._remove_policies_with_border_transitions(policies)
        if self.tiny:
            policies = self._update_rules_tiny_from_to_years(policies)
        zones = self._remove_zones_without_rules(zones, policies)
        links = self._remove_links_to_missing_zones(links, zones)
        self._verify_zones_until_year(zones)
        self._verify_policies_from_year(policies)
        self._verify_zones_and_links_count(zones, links, zones_wanted, links_wanted)
        zones = self._update_truncation_status(zones, policies)
        below = any([info['lower_zone_truncated'] for _, info in zones.items()])
        above = any([info['upper_zone_truncated'] for _, info in zones.items()])
        lo, hi = self._calc_accurate_years(zones, below, above)
        tresult.zones_map = zones
        tresult.policies_map = policies
        tresult.links_map = links
        tresult.zone_ids = self._generate_zone_ids(zones)
        tresult.link_ids = self._generate_link_ids(links)
        tresult.removed_zones = self.all_removed_zones
        tresult.removed_policies = self.all_removed_policies
        tresult.removed_links = self.all_removed_links
        tresult.notable_zones = self.all_notable_zones
        tresult.notable_policies = self.all_notable_policies
        tresult.notable_links = self.all_notable_links
        tresult.original_min_year = first
        tresult.original_max_year = last
        tresult.generated_min_year, tresult.generated_max_year = _detect_tzdb_years(zones, policies)
        tresult.lower_truncated = below
        tresult.upper_truncated = above
        tresult.start_year_accurate = lo
        tresult.until_year_accurate = hi


def earliest_standard(rules):
    best = None
    date = (MAX_UNTIL, 12, 31)
    for rule in rules:
        m, d = resolve_day(rule['from_year'], rule['in_month'], rule['on_day_of_week'], rule['on_day_of_month'])
        now = (rule['from_year'], m, d)
        if now < date and rule['delta_seconds'] == 0:
            date = now
            best = rule
    if best is None:
        raise Exception('no standard time rule')
    rule = best.copy()
    make_anchor(rule)
    return rule


def make_anchor(rule):
    rule['from_year'] = MINUS_INF
    rule['to_year'] = MINUS_INF
    rule['in_month'] = 1
    rule['on_day_of_week'] = 0
    rule['on_day_of_month'] = 1
    rule['at_time'] = '0'
    rule['at_time_suffix'] = 'w'
    rule['delta_offset'] = '0'
    rule['at_seconds'] = 0
    rule['at_seconds_truncated'] = 0
    rule['delta_seconds'] = 0
    rule['delta_seconds_truncated'] = 0
    rule['anchor'] = True


# ---- whole-database checks -------------------------------------------------------------------------------------

def _detect_hash_collisions(zones_map, links_map):
    taken = {}
    for name in zones_map.keys():
        h = djb2(name)
        if taken.get(h):
            raise Exception('same id')
        taken[h] = name
    for name in links_map.keys():
        h = djb2(name)
        if taken.get(h):
            raise Exception('same id')
        taken[h] = name


def _detect_links_to_links(links_map):
    for name, target in links_map.items():
        if target in links_map:
            raise Exception('link to link')


def _detect_zones_and_links_with_similar_names(zones_map, links_map):
    taken = {}
    for name in zones_map.keys():
        if taken.get(identifier(name)):
            raise Exception('same identifier')
        taken[identifier(name)] = name
    for name in links_map.keys():
        if taken.get(identifier(name)):
            raise Exception('same identifier')
        taken[identifier(name)] = name


def _detect_tzdb_years(zones_map, policies_map):
    lo = MAX_TO
    hi = MINUS_INF
    for name, info in zones_map.items():
        for era in info['eras']:
            y = era['until_year']
            if y < lo:
                lo = y
            if y != MAX_UNTIL and y > hi:
                hi = y
    for name, policy in policies_map.items():
        for rule in policy['rules']:
            if rule.get('anchor', False):
                continue
            y = rule['from_year']
            if y < lo:
                lo = y
            if y != MAX_TO and y > hi:
                hi = y
    return (lo, hi)


def _create_policies_to_zones(zones_map):
    return policies_used(zones_map)
