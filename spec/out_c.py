"""Reference model of the acetimec (C) files."""
from spec.encode import time_low, time_high, delta_low, delta_high, c_string
from spec.helpers import identifier
from spec.out_ar import BAR, section, suffix_name
from spec.text import raw, header_c, reasons, merged_reasons

TAIL = """\
#ifdef __cplusplus
}
#endif

#endif
"""


def rule_text(d, r):
    s = r['at_seconds_truncated']
    label = suffix_name(r['at_time_suffix'], 'kAtc')
    if d.tiny:
        out = f"    {r['from_year_tiny']} /*from_year_tiny*/,\n    {r['to_year_tiny']} /*to_year_tiny*/,\n"
    else:
        out = f"    {r['from_year']} /*from_year*/,\n    {r['to_year']} /*to_year*/,\n"
    out += f"""\
    {r['in_month']} /*in_month*/,
    {r['on_day_of_week']} /*on_day_of_week*/,
    {r['on_day_of_month']} /*on_day_of_month*/,
"""
    if d.high:
        code, modifier = time_high(s, r['at_time_suffix'])
        out += f"""\
    {modifier} /*at_time_modifier ({label} + seconds={s % 15})*/,
    {code} /*at_time_code ({s}/15)*/,
    {delta_high(r['delta_seconds_truncated'])} /*delta_minutes*/,
"""
    else:
        code, modifier = time_low(s, r['at_time_suffix'])
        delta = r['delta_seconds_truncated']
        out += f"""\
    {code} /*at_time_code*/,
    {modifier} /*at_time_modifier ({label} + minute={s % 900 // 60})*/,
    {delta_low(delta)} /*delta_code ((delta_minutes={delta // 60})/15 + 4)*/,
"""
    return f"  // {raw(r['raw_line'])}\n  {{\n" + out + f"""\
    {d.letters[r['letter']]} /*letterIndex ("{r['letter']}")*/,
  }},
"""


def era_text(d, e):
    if e['policy_name'] is None:
        policy = 'NULL'
    else:
        policy = f"&k{d.ns}ZonePolicy" + identifier(e['policy_name'])
    offset = e['offset_seconds_truncated']
    until = e['until_seconds_truncated']
    suffix = e['until_time_suffix']
    delta = e['era_delta_seconds_truncated']
    label = suffix_name(suffix, 'kAtc')
    out = f"""\
  // {raw(e['raw_line'])}
  {{
    {policy} /*zone_policy*/,
    "{e['format_short']}" /*format*/,
"""
    if d.high:
        out += f"""\
    {offset // 15} /*offset_code ({offset}/15)*/,
    {offset % 15} /*offset_remainder ({offset}%15)*/,
    {delta_high(delta)} /*delta_minutes*/,
"""
    else:
        minute = offset % 900 // 60
        out += f"""\
    {offset // 900} /*offset_code*/,
    {minute * 16 + delta_low(delta)} /*delta_code (((offset_minute={minute}) << 4) + ((delta_minutes={delta // 60})/15 + 4))*/,
"""
    if d.tiny:
        out += f"    {e['until_year_tiny']} /*until_year_tiny*/,\n"
    else:
        out += f"    {e['until_year']} /*until_year*/,\n"
    out += f"""\
    {e['until_month']} /*until_month*/,
    {e['until_day']} /*until_day*/,
"""
    if d.high:
        code, modifier = time_high(until, suffix)
        out += f"""\
    {code} /*until_time_code ({until}/15)*/,
    {modifier} /*until_time_modifier ({label} + seconds={until % 15})*/,
"""
    else:
        code, modifier = time_low(until, suffix)
        out += f"""\
    {code} /*until_time_code*/,
    {modifier} /*until_time_modifier ({label} + minute={until % 900 // 60})*/,
"""
    return out + "  },\n"


def head(d, name):
    return f"""\
#ifndef ACE_TIME_C_ZONEDB_{d.ns.upper()}_{name}_H
#define ACE_TIME_C_ZONEDB_{d.ns.upper()}_{name}_H

#include "../zoneinfo/zone_info.h"

#ifdef __cplusplus
extern "C" {{
#endif

"""


def policies_h(d):
    t = d.t
    items = ''
    for name in sorted(d.policies.keys()):
        items += f"extern const AtcZonePolicy k{d.ns}ZonePolicy{identifier(name)};\n"
    return (header_c(d) + head(d, 'ZONE_POLICIES') + section(f'Supported policies: {d.np}', items) + '\n'
            + section(f'Unsupported zone policies: {len(t.removed_policies)}',
                      reasons('//', t.removed_policies, '', '  ')) + '\n'
            + section(f'Notable zone policies: {len(t.notable_policies)}',
                      reasons('//', t.notable_policies, '', '  ')) + '\n' + BAR + '\n\n' + TAIL)


def policies_c(d):
    items = ''
    for name, policy in sorted(d.policies.items()):
        i = identifier(name)
        rows = ''
        for r in policy['rules']:
            rows += rule_text(d, r)
        items += BAR + f"""
// Policy name: {name}
// Rules: {len(policy['rules'])}
""" + BAR + f"""

static const AtcZoneRule kAtcZoneRules{i}[]  = {{
{rows}
}};

const AtcZonePolicy k{d.ns}ZonePolicy{i}  = {{
  kAtcZoneRules{i} /*rules*/,
  {len(policy['rules'])} /*num_rules*/,
}};

"""
    return header_c(d) + '#include "zone_policies.h"\n\n' + section(f'Policies: {d.np}\n// Rules: {d.nr}', items)


def infos_h(d):
    t = d.t
    zones = ''
    ids = ''
    sizes = ''
    for name in sorted(d.zones.keys()):
        i = identifier(name)
        zones += f"extern const AtcZoneInfo k{d.ns}Zone{i}; // {name}\n"
        ids += f"#define k{d.ns}ZoneId{i} 0x{t.zone_ids[name]:08x} /* {name} */\n"
        n = d.size_of(name)
        sizes += f"#define k{d.ns}ZoneBufSize{i} {n.number}  /* {name} in {n.year} */\n"
    links = ''
    link_ids = ''
    for name, target in sorted(d.links.items()):
        i = identifier(name)
        links += f"extern const AtcZoneInfo k{d.ns}Zone{i}; // {name} -> {target}\n"
        link_ids += f"#define k{d.ns}ZoneId{i} 0x{t.link_ids[name]:08x} /* {name} */\n"
    return (header_c(d) + head(d, 'ZONE_INFOS') + BAR + f"""
// ZoneContext (should not be in PROGMEM)
""" + BAR + f"""

// Metadata about the zonedb files.
extern const AtcZoneContext k{d.ns}ZoneContext;

""" + section(f'Supported zones: {d.nz}\n// Supported eras: {d.ne}', zones) + f"\n// Zone Ids\n\n{ids}\n\n"
        + section(f'Supported links: {d.nl}', links) + f"\n// Zone Ids\n\n{link_ids}\n\n" + BAR + f"""
// Maximum size of the Transition buffer in ExtendedZoneProcessor for each zone
// over the given years. Used only in the AceTimeValidation/Extended*Test tests
// for ExtendedZoneProcessor.
//
// MaxBufSize: {d.max_size}
""" + BAR + f"\n\n{sizes}\n\n"
        + section(f'Unsupported zones: {len(t.removed_zones)}', reasons('//', t.removed_zones, '', '  ')) + '\n'
        + section(f'Notable zones: {len(d.merged)}', merged_reasons('//', d.merged, '  ', '  ', '    ')) + '\n'
        + section(f'Unsupported links: {len(t.removed_links)}', reasons('//', t.removed_links, '', '  ')) + '\n'
        + section(f'Notable links: {len(t.notable_links)}', reasons('//', t.notable_links, '', '  ')) + '\n'
        + BAR + '\n\n' + TAIL)


def infos_c(d):
    t = d.t
    fragments = '/*\\x00*/ NULL,\n'
    for f, i in d.fragments.items():
        fragments += f'/*\\x{i:02x}*/ "{f}",\n'
    letters = ''
    for s, i in d.letters.items():
        letters += f'/*{i}*/ "{s}",\n'
    infos = ''
    for name, info in sorted(d.zones.items()):
        i = identifier(name)
        rows = ''
        for e in info['eras']:
            rows += era_text(d, e)
        infos += BAR + f"""
// Zone name: {name}
// Zone Eras: {len(info['eras'])}
""" + BAR + f"""

static const AtcZoneEra kAtcZoneEra{i}[]  = {{
{rows}
}};

static const char kAtcZoneName{i}[]  = {c_string(d.shown(name))};

const AtcZoneInfo k{d.ns}Zone{i}  = {{
  kAtcZoneName{i} /*name*/,
  0x{t.zone_ids[name]:08x} /*zone_id*/,
  &k{d.ns}ZoneContext /*zone_context*/,
  {len(info['eras'])} /*num_eras*/,
  kAtcZoneEra{i} /*eras*/,
  NULL /*target_info*/,
}};

"""
    links = ''
    for name, target in sorted(d.links.items()):
        i = identifier(name)
        j = identifier(target)
        links += BAR + f"""
// Link name: {name} -> {target}
""" + BAR + f"""

static const char kAtcZoneName{i}[]  = {c_string(d.shown(name))};

const AtcZoneInfo k{d.ns}Zone{i}  = {{
  kAtcZoneName{i} /*name*/,
  0x{t.link_ids[name]:08x} /*zone_id*/,
  &k{d.ns}ZoneContext /*zone_context*/,
  {len(d.zones[target]['eras'])} /*num_eras*/,
  kAtcZoneEra{j} /*eras*/,
  &k{d.ns}Zone{j} /*target_info*/,
}};

"""
    return header_c(d) + f"""\
#include "zone_policies.h"
#include "zone_infos.h"

""" + BAR + f"""
// ZoneContext
""" + BAR + f"""

static const char kAtcTzDatabaseVersion[] = "{d.a.tz_version}";

static const char * const kAtcFragments[] = {{
{fragments}
}};

static const char* const kAtcLetters[] = {{
{letters}
}};

const AtcZoneContext k{d.ns}ZoneContext = {{
  {d.a.start_year} /*start_year*/,
  {d.a.until_year} /*until_year*/,
  {t.start_year_accurate} /*start_year_accurate*/,
  {t.until_year_accurate} /*until_year_accurate*/,
  {d.max_size} /*max_transitions*/,
  kAtcTzDatabaseVersion /*tz_version*/,
  {len(d.fragments) + 1} /*num_fragments*/,
  {len(d.letters)} /*num_letters*/,
  kAtcFragments /*fragments*/,
  kAtcLetters /*letters*/,
}};

""" + section(f'Zones: {d.nz}\n// Eras: {d.ne}', infos) + '\n' + section(f'Links: {d.nl}', links)


def registry_c(d):
    zones = ''
    for name in sorted(d.zones.keys(), key=lambda x: d.t.zone_ids[x]):
        zones += f"  &k{d.ns}Zone{identifier(name)}, // 0x{d.t.zone_ids[name]:08x}, {name}\n"
    both = ''
    for name in sorted(d.both, key=lambda x: d.ids[x]):
        both += f"  &k{d.ns}Zone{identifier(name)}, // 0x{d.ids[name]:08x}, {d.described(name)}\n"
    return header_c(d) + f"""\
#include "zone_infos.h"
#include "zone_registry.h"

""" + BAR + f"""
// Zone Info registry. Sorted by zoneId.
""" + BAR + f"""
const AtcZoneInfo * const k{d.ns}ZoneRegistry[{d.nz}]  = {{
{zones}
}};

""" + BAR + f"""
// Zone and Link Info registry. Sorted by zoneId. Links act like Zones.
""" + BAR + f"""
const AtcZoneInfo * const k{d.ns}ZoneAndLinkRegistry[{d.nz + d.nl}]  = {{
{both}
}};
"""


def registry_h(d):
    return header_c(d) + head(d, 'ZONE_REGISTRY') + f"""\
// Zones
#define k{d.ns}ZoneRegistrySize {d.nz}
extern const AtcZoneInfo * const k{d.ns}ZoneRegistry[{d.nz}];

// Zones and Links
#define k{d.ns}ZoneAndLinkRegistrySize {d.nz + d.nl}
extern const AtcZoneInfo * const k{d.ns}ZoneAndLinkRegistry[{d.nz + d.nl}];

""" + TAIL
