"""Reference model of the Arduino (C++) files."""
from spec.encode import time_low, time_high, delta_low, delta_high, c_string
from spec.helpers import identifier
from spec.text import raw, header_c, reasons, merged_reasons

P = 'ACE_TIME_PROGMEM'
BAR = '//---------------------------------------------------------------------------'


def suffix_name(s, prefix):
    if s == 'w':
        return prefix + 'SuffixW'
    if s == 's':
        return prefix + 'SuffixS'
    return prefix + 'SuffixU'


def rule_text(d, r):
    s = r['at_seconds_truncated']
    if d.tiny:
        years = f"""\
    {r['from_year_tiny']} /*fromYearTiny ({r['from_year']})*/,
    {r['to_year_tiny']} /*toYearTiny ({r['to_year']})*/,
"""
    else:
        years = f"""\
    {r['from_year']} /*fromYear*/,
    {r['to_year']} /*toYear*/,
"""
    day = f"""\
    {r['in_month']} /*inMonth*/,
    {r['on_day_of_week']} /*onDayOfWeek*/,
    {r['on_day_of_month']} /*onDayOfMonth*/,
"""
    if d.high:
        code, modifier = time_high(s, r['at_time_suffix'])
        label = suffix_name(r['at_time_suffix'], 'kAtc')
        time = f"""\
    {modifier} /*atTimeModifier ({label} + seconds={s % 15})*/,
    {code} /*atTimeCode ({s}/15)*/,
    {delta_high(r['delta_seconds_truncated'])} /*deltaMinutes*/,
"""
    else:
        code, modifier = time_low(s, r['at_time_suffix'])
        label = suffix_name(r['at_time_suffix'], 'k')
        time = f"""\
    {code} /*atTimeCode*/,
    {modifier} /*atTimeModifier ({label} + minute={s % 900 // 60})*/,
    {delta_low(r['delta_seconds_truncated'])} /*deltaCode ((deltaMinutes={r['delta_seconds_truncated'] // 60})/15 + 4)*/,
"""
    return f"""\
  // {raw(r['raw_line'])}
  {{
""" + years + day + time + f"""\
    {d.letters[r['letter']]} /*letterIndex ("{r['letter']}")*/,
  }},
"""


def era_text(d, e):
    if e['policy_name'] is None:
        policy = 'nullptr'
    else:
        policy = '&kZonePolicy' + identifier(e['policy_name'])
    offset = e['offset_seconds_truncated']
    until = e['until_seconds_truncated']
    suffix = e['until_time_suffix']
    delta = e['era_delta_seconds_truncated']
    out = f"""\
  // {raw(e['raw_line'])}
  {{
    {policy} /*zonePolicy*/,
    "{e['format_short']}" /*format*/,
"""
    if d.high:
        out += f"""\
    {offset // 15} /*offsetCode ({offset}/15)*/,
    {offset % 15} /*offsetRemainder ({offset}%15)*/,
    {delta_high(delta)} /*deltaMinutes*/,
"""
    else:
        minute = offset % 900 // 60
        out += f"""\
    {offset // 900} /*offsetCode*/,
    {minute * 16 + delta_low(delta)} /*deltaCode (((offsetMinute={minute}) << 4) + ((deltaMinutes={delta // 60})/15 + 4))*/,
"""
    if d.tiny:
        out += f"    {e['until_year_tiny']} /*untilYearTiny*/,\n"
    else:
        out += f"    {e['until_year']} /*untilYear*/,\n"
    out += f"""\
    {e['until_month']} /*untilMonth*/,
    {e['until_day']} /*untilDay*/,
"""
    if d.high:
        code, modifier = time_high(until, suffix)
        label = suffix_name(suffix, 'kAtc')
        out += f"""\
    {code} /*untilTimeCode ({until}/15)*/,
    {modifier} /*untilTimeModifier ({label} + seconds={until % 15})*/,
"""
    else:
        code, modifier = time_low(until, suffix)
        label = suffix_name(suffix, 'k')
        out += f"""\
    {code} /*untilTimeCode*/,
    {modifier} /*untilTimeModifier ({label} + minute={until % 900 // 60})*/,
"""
    return out + "  },\n"


def head(d, name):
    return f"""\
#ifndef ACE_TIME_{d.ns.upper()}_{name}_H
#define ACE_TIME_{d.ns.upper()}_{name}_H

#include <zoneinfo/infos.h>

"""


def space(d):
    return f"""\
namespace ace_time {{
namespace {d.ns} {{

"""


def section(title, body):
    return BAR + f"\n// {title}\n" + BAR + f"\n\n{body}\n"


def policies_h(d):
    t = d.t
    items = ''
    for name in sorted(d.policies.keys()):
        items += f"extern const {d.scope}::ZonePolicy kZonePolicy{identifier(name)};\n"
    return (header_c(d) + head(d, 'ZONE_POLICIES') + space(d) + section(f'Supported policies: {d.np}', items) + '\n'
            + section(f'Unsupported policies: {len(t.removed_policies)}', reasons('//', t.removed_policies, '', '  '))
            + '\n' + section(f'Notable zone policies: {len(t.notable_policies)}',
                             reasons('//', t.notable_policies, '', '  '))
            + "\n}\n}\n\n#endif\n")


def policies_cpp(d):
    items = ''
    for name, policy in sorted(d.policies.items()):
        i = identifier(name)
        rows = ''
        for r in policy['rules']:
            rows += rule_text(d, r)
        items += BAR + f"""
// Policy name: {name}
// Rules: {len(policy['rules'])}
""" + BAR + f"""

static const {d.scope}::ZoneRule kZoneRules{i}[] {P} = {{
{rows}
}};

const {d.scope}::ZonePolicy kZonePolicy{i} {P} = {{
  kZoneRules{i} /*rules*/,
  {len(policy['rules'])} /*numRules*/,
}};

"""
    return (header_c(d) + "#include <zoneinfo/compat.h>\n#include \"zone_policies.h\"\n\n" + space(d)
            + section(f'Policies: {d.np}\n// Rules: {d.nr}', items) + "\n}\n}\n")


def infos_h(d):
    t = d.t
    zones = ''
    ids = ''
    sizes = ''
    for name in sorted(d.zones.keys()):
        i = identifier(name)
        zones += f"extern const {d.scope}::ZoneInfo kZone{i}; // {name}\n"
        ids += f"const uint32_t kZoneId{i} = 0x{t.zone_ids[name]:08x}; // {name}\n"
        n = d.size_of(name)
        sizes += f"const uint8_t kZoneBufSize{i} = {n.number};  // {name} in {n.year}\n"
    links = ''
    link_ids = ''
    for name, target in sorted(d.links.items()):
        i = identifier(name)
        links += f"extern const {d.scope}::ZoneInfo kZone{i}; // {name} -> {target}\n"
        link_ids += f"const uint32_t kZoneId{i} = 0x{t.link_ids[name]:08x}; // {name}\n"
    return (header_c(d) + head(d, 'ZONE_INFOS') + "class __FlashStringHelper;\n\n" + space(d) + BAR + f"""
// ZoneContext (should not be in PROGMEM)
""" + BAR + f"""

// Version of the TZ Database which generated these files.
extern const __FlashStringHelper* const kTzDatabaseVersion;

// Metadata about the zonedb files.
extern const {d.scope}::ZoneContext kZoneContext;

""" + section(f'Supported zones: {d.nz}', zones) + f"\n// Zone Ids\n\n{ids}\n\n"
        + section(f'Supported links: {d.nl}', links) + f"\n// Zone Ids\n\n{link_ids}\n\n" + BAR + f"""
// Maximum size of the Transition buffer in ExtendedZoneProcessor for each zone
// over the given years. Used only in the AceTimeValidation/Extended*Test tests
// for ExtendedZoneProcessor.
//
// MaxBufSize: {d.max_size}
""" + BAR + f"\n\n{sizes}\n\n" + notes(d) + "}\n}\n\n#endif\n")


def notes(d):
    t = d.t
    return (section(f'Unsupported zones: {len(t.removed_zones)}', reasons('//', t.removed_zones, '', '  ')) + '\n'
            + section(f'Notable zones: {len(d.merged)}', merged_reasons('//', d.merged, '  ', '  ', '    ')) + '\n'
            + section(f'Unsupported links: {len(t.removed_links)}', reasons('//', t.removed_links, '', '  ')) + '\n'
            + section(f'Notable links: {len(t.notable_links)}', reasons('//', t.notable_links, '', '  ')) + '\n')


def infos_cpp(d):
    t = d.t
    fragments = ''
    pointers = "  nullptr, // '\\x00' cannot exist\n"
    for f, i in d.fragments.items():
        fragments += f'static const char kFragment{i}[] {P} = "{f}";\n'
        pointers += f"  kFragment{i}, // '\\x{i:02x}' \"{f}\"\n"
    letters = ''
    letter_pointers = ''
    for s, i in d.letters.items():
        letters += f'static const char kLetter{i}[] {P} = "{s}";\n'
        letter_pointers += f'  kLetter{i}, // "{s}"\n'
    infos = ''
    for name, info in sorted(d.zones.items()):
        i = identifier(name)
        rows = ''
        for e in info['eras']:
            rows += era_text(d, e)
        infos += BAR + f"""
// Zone name: {name}
// Eras: {len(info['eras'])}
""" + BAR + f"""

static const {d.scope}::ZoneEra kZoneEra{i}[] {P} = {{
{rows}
}};

static const char kZoneName{i}[] {P} = {c_string(d.shown(name))};

const {d.scope}::ZoneInfo kZone{i} {P} = {{
  kZoneName{i} /*name*/,
  0x{t.zone_ids[name]:08x} /*zoneId*/,
  &kZoneContext /*zoneContext*/,
  {len(info['eras'])} /*numEras*/,
  kZoneEra{i} /*eras*/,
  nullptr /*targetInfo*/,
}};

"""
    links = ''
    for name, target in sorted(d.links.items()):
        i = identifier(name)
        j = identifier(target)
        links += BAR + f"""
// Link name: {name} -> {target}
""" + BAR + f"""

static const char kZoneName{i}[] {P} = {c_string(d.shown(name))};

const {d.scope}::ZoneInfo kZone{i} {P} = {{
  kZoneName{i} /*name*/,
  0x{t.link_ids[name]:08x} /*zoneId*/,
  &kZoneContext /*zoneContext*/,
  {len(d.zones[target]['eras'])} /*numEras*/,
  kZoneEra{j} /*eras*/,
  &kZone{j} /*targetInfo*/,
}};

"""
    return header_c(d) + f"""\
#include <zoneinfo/compat.h>
#include "zone_policies.h"
#include "zone_infos.h"

""" + space(d) + BAR + f"""
// ZoneContext
""" + BAR + f"""

static const char kVersionString[] {P} = "{d.a.tz_version}";
const __FlashStringHelper* const kTzDatabaseVersion =
    (const __FlashStringHelper*) kVersionString;

{fragments}
const char* const kFragments[] {P} = {{
{pointers}
}};

{letters}
const char* const kLetters[] {P} = {{
{letter_pointers}
}};

const {d.scope}::ZoneContext kZoneContext {P} = {{
  {d.a.start_year} /*startYear*/,
  {d.a.until_year} /*untilYear*/,
  {t.start_year_accurate} /*startYearAccurate*/,
  {t.until_year_accurate} /*untilYearAccurate*/,
  {d.a.tiny_base_year} /*baseYear*/,
  {d.max_size} /*maxTransitions*/,
  kVersionString /*tzVersion*/,
  {len(d.fragments) + 1} /*numFragments*/,
  {len(d.letters)} /*numLetters*/,
  kFragments /*fragments*/,
  kLetters /*letters*/,
}};

""" + section(f'Zones: {d.nz}\n// Eras: {d.ne}', infos) + '\n' + section(f'Links: {d.nl}', links) + "}\n}\n"


def registry_cpp(d):
    zones = ''
    for name in sorted(d.zones.keys(), key=lambda x: d.t.zone_ids[x]):
        zones += f"  &kZone{identifier(name)}, // 0x{d.t.zone_ids[name]:08x}, {name}\n"
    both = ''
    for name in sorted(d.both, key=lambda x: d.ids[x]):
        both += f"  &kZone{identifier(name)}, // 0x{d.ids[name]:08x}, {d.described(name)}\n"
    return header_c(d) + f"""\
#include <zoneinfo/compat.h>
#include "zone_infos.h"
#include "zone_registry.h"

""" + space(d) + BAR + f"""
// Zone Info registry. Sorted by zoneId.
""" + BAR + f"""
const {d.scope}::ZoneInfo* const kZoneRegistry[{d.nz}] {P} = {{
{zones}
}};

""" + BAR + f"""
// Zone and Link (fat) Info registry. Sorted by zoneId. Links act like Zones.
""" + BAR + f"""
const {d.scope}::ZoneInfo* const kZoneAndLinkRegistry[{d.nz + d.nl}] {P} = {{
{both}
}};

}}
}}
"""


def registry_h(d):
    return header_c(d) + head(d, 'ZONE_REGISTRY') + space(d) + f"""\
// Zones
const uint16_t kZoneRegistrySize = {d.nz};
extern const {d.scope}::ZoneInfo* const kZoneRegistry[{d.nz}];

// Zones and Links
const uint16_t kZoneAndLinkRegistrySize = {d.nz + d.nl};
extern const {d.scope}::ZoneInfo* const kZoneAndLinkRegistry[{d.nz + d.nl}];

}}
}}
#endif
"""
