"""Which property a difference between a stage and its reference model breaks.

A difference is (kind, path): kind abort | kept | removed | noted; kept paths end in ' kept' (an item survives or not)
or name the field that differs.
"""
import re

# stage -> [(regex on 'kind path', properties)]
T = {
    '_filter_include_zones': [('', ['C03', 'C22'])],
    '_filter_include_links': [('', ['C03', 'C22'])],
    '_remove_zone_eras_too_old': [('truncated', ['C20']), ('', ['C19'])],
    '_remove_zone_eras_too_new': [('truncated', ['C20']), ('', ['C19'])],
    '_extend_zone_eras_until': [('', ['C18'])],
    '_remove_zones_without_eras': [('', ['C18'])],
    '_remove_zone_with_non_simple_until_year': [('', ['C18'])],
    '_create_zones_with_until_day': [('', ['C26'])],
    '_create_zones_with_expanded_until_time': [('', ['C05', 'C07'])],
    '_remove_zones_invalid_until_time_suffix': [('', ['C08'])],
    '_create_zones_with_expanded_offset_string': [('', ['C05', 'C07'])],
    '_create_zones_with_rules_expansion': [('policy_name', ['C04', 'C05', 'C07']), ('', ['C05', 'C07'])],
    '_remove_zones_with_invalid_rules_format_combo': [('', ['C06'])],
    '_remove_zones_with_non_monotonic_until': [('', ['C18'])],
    '_create_short_format_strings': [('', ['C06'])],
    '_create_tiny_until_years': [('', ['C21', 'C18'])],
    '_remove_unused_policies': [('', ['C04'])],
    '_create_policies_to_zones': [('', ['C05'])],
    '_remove_rules_too_old_or_new': [('truncated', ['C20']), ('', ['C19'])],
    '_remove_policies_multiple_transitions_in_month': [('', ['C02'])],
    '_create_rules_with_expanded_at_time': [('', ['C05', 'C07'])],
    '_remove_policies_invalid_at_time_suffix': [('', ['C08'])],
    '_update_rules_with_expanded_delta_offset': [('', ['C05', 'C07'])],
    '_create_rules_with_on_day_expansion': [('', ['C26'])],
    '_create_rules_with_anchor_transition': [('', ['C17'])],
    '_verify_rules_have_anchors': [('', ['C17'])],
    '_normalize_rule_letters': [('', ['C06'])],
    '_remove_policies_with_border_transitions': [('', ['C26'])],
    '_update_rules_tiny_from_to_years': [('', ['C21'])],
    '_remove_zones_without_rules': [('', ['C04'])],
    '_remove_links_to_missing_zones': [('', ['C04'])],
    '_verify_zones_until_year': [('', ['C18'])],
    '_verify_policies_from_year': [('', ['C17'])],
    '_verify_zones_and_links_count': [('', ['C03'])],
    '_update_truncation_status': [('', ['C20'])],
    '_calc_accurate_years': [('', ['C20'])],
    '_generate_zone_ids': [('', ['C13', 'C12'])],
    '_generate_link_ids': [('', ['C13', 'C12'])],
    '_detect_hash_collisions': [('', ['C13'])],
    '_detect_links_to_links': [('', ['C13', 'C04'])],
    '_detect_zones_and_links_with_similar_names': [('', ['C13', 'C15'])],
    '_detect_tzdb_years': [('', ['C20'])],
}

RESULT = {
    'zones_map': ['C02', 'C03', 'C04'], 'policies_map': ['C02', 'C04'], 'links_map': ['C03', 'C04'],
    'zone_ids': ['C13', 'C12'], 'link_ids': ['C13', 'C12'],
    'removed_zones': ['C02'], 'removed_policies': ['C02'], 'removed_links': ['C02'],
    'notable_zones': ['C24', 'C05'], 'notable_policies': ['C24', 'C05'], 'notable_links': ['C24'],
    'lower_truncated': ['C20'], 'upper_truncated': ['C20'], 'start_year_accurate': ['C20'], 'until_year_accurate': ['C20'],
    'original_min_year': ['C20'], 'original_max_year': ['C20'], 'generated_min_year': ['C20'], 'generated_max_year': ['C20'],
}

HELPERS = {
    'time_string_to_seconds': ['C05', 'C07'], '_parse_on_day_string': ['C26'], 'calc_day_of_month': ['C26', 'C17'],
    'truncate_to_granularity': ['C05'], 'div_to_zero': ['C07'], 'seconds_to_hm_string': [],
    'to_tiny_until_year': ['C21'], 'to_tiny_from_to_year': ['C21'], 'is_year_tiny': ['C21'],
    'hash_name': ['C13'], 'normalize_name': ['C15', 'C13'], 'hms_to_seconds': ['C07'], 'seconds_to_hms': ['C07'],
}


def props_of(stage, kind, path):
    out = []
    for rx, ps in T.get(stage, ()):
        if re.search(rx, '%s %s' % (kind, path)):
            out = list(ps)
            break
    return out


def stages_of(prop):
    return [s for s, l in T.items() if any(prop in ps for _, ps in l)]


def helpers_of(prop):
    return [h for h, ps in HELPERS.items() if prop in ps]
