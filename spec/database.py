"""Reference model of the collected database, as written by the json action."""
from acetimetools.extractor.extractor import Extractor


def version_number(v):
    if not v[0:4].isdigit() or not v[4:5]:
        return 0
    return (int(v[0:4]) - 2000) * 100 + ord(v[4:5]) - 96


def listed(comments):
    return {name: sorted(why) for name, why in sorted(comments.items())}


def database(d, p):
    a = d.a
    t = d.t
    return {
        'tz_version': a.tz_version,
        'tz_version_number': version_number(a.tz_version),
        'tz_files': Extractor.ZONE_FILES,
        'scope': a.scope,
        'start_year': a.start_year,
        'until_year': a.until_year,
        'until_at_granularity': p['until_at_granularity'],
        'offset_granularity': p['offset_granularity'],
        'delta_granularity': p['delta_granularity'],
        'strict': a.strict,
        'compress': a.compress,
        'num_zones': d.nz,
        'num_policies': d.np,
        'num_links': d.nl,
        'num_eras': d.ne,
        'num_rules': d.nr,
        'zones_map': t.zones_map,
        'policies_map': t.policies_map,
        'links_map': t.links_map,
        'zone_ids': t.zone_ids,
        'link_ids': t.link_ids,
        'removed_zones': listed(t.removed_zones),
        'removed_links': listed(t.removed_links),
        'removed_policies': listed(t.removed_policies),
        'notable_zones': listed(t.notable_zones),
        'merged_notable_zones': d.merged,
        'notable_links': listed(t.notable_links),
        'notable_policies': listed(t.notable_policies),
        'original_min_year': t.original_min_year,
        'original_max_year': t.original_max_year,
        'generated_min_year': t.generated_min_year,
        'generated_max_year': t.generated_max_year,
        'lower_truncated': t.lower_truncated,
        'upper_truncated': t.upper_truncated,
        'start_year_accurate': t.start_year_accurate,
        'until_year_accurate': t.until_year_accurate,
        'zones_to_policies': d.used,
        'buf_sizes': d.sizes,
        'max_buf_size': d.max_size,
        'estimator_min_year': d.first_year,
        'estimator_max_year': d.last_year,
        'letters_map': d.letters,
        'formats_map': d.formats,
        'fragments_map': d.fragments,
        'compressed_names': d.short,
        'memory_map8': d.memory8,
        'memory_map32': d.memory32,
        'go_letters_map': d.go.letters if d.go else {},
        'go_formats_map': d.go.formats if d.go else {},
        'go_names_map': d.go.names if d.go else {},
        'go_zone_and_link_index_map': d.go.position if d.go else {},
        'go_policy_index_size_map': d.go.policies if d.go else {},
        'go_info_index_size_map': d.go.infos if d.go else {},
        'go_memory_map': d.go.memory if d.go else {},
    }
