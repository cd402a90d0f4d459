"""Reference model of the Go files."""
from spec.encode import suffix_code
from spec.gotables import RULE, POLICY, ERA, INFO, code15, modifier, minutes
from spec.helpers import identifier
from spec.out_ar import suffix_name
from spec.text import raw, header_go, reasons, merged_reasons

LINE = '\t// ---------------------------------------------------------------------------\n'


# ---- little endian integers

def unsigned(data, x, size):
    if x < 0 or x >= 256 ** size:
        raise Exception('does not fit')
    data.append(x % 256)
    if size >= 2:
        data.append(x // 256 % 256)
    if size >= 4:
        data.append(x // 65536 % 256)
        data.append(x // 16777216 % 256)


def signed(data, x, size):
    half = 256 ** size // 2
    if x < -half or x >= half:
        raise Exception('does not fit')
    unsigned(data, x % (256 ** size), size)


def go_string(data, chunk):
    """quoted hex string, one line per record: modelled by the analyser"""
    return data


def joined(table):
    return '" +\n\t"'.join(table.keys())


def positions(table):
    """offsets, ten per line"""
    n = 0
    out = ''
    for v in table.values():
        if n == 0:
            out += f'\t{v[1]}'
        elif n % 10 == 0:
            out += f',\n\t{v[1]}'
        else:
            out += f', {v[1]}'
        n += 1
    if n == 0:
        return out
    return out + ','


def policy_of(g, e):
    if e['policy_name'] is None:
        return g.policies[''][0]
    return g.policies[e['policy_name']][0]


# ---- policies

def policies(d):
    t = d.t
    g = d.go
    rules = bytearray()
    for name, policy in sorted(d.policies.items()):
        for r in policy['rules']:
            signed(rules, r['from_year'], 2)
            signed(rules, r['to_year'], 2)
            unsigned(rules, r['in_month'], 1)
            unsigned(rules, r['on_day_of_week'], 1)
            signed(rules, r['on_day_of_month'], 1)
            unsigned(rules, modifier(r['at_seconds_truncated'], r['at_time_suffix']), 1)
            unsigned(rules, code15(r['at_seconds_truncated']), 2)
            signed(rules, minutes(r['delta_seconds_truncated']), 1)
            unsigned(rules, g.letters['' if r['letter'] == '-' else r['letter']][0], 1)
    table = bytearray()
    for name, place in g.policies.items():
        unsigned(table, place[1], 2)
        unsigned(table, place[2], 2)
    return header_go(d) + f"""\
package {d.ns}

// ---------------------------------------------------------------------------
// String constants.
// ---------------------------------------------------------------------------

// All ZoneRule.Letter entries concatenated together.
const LetterData = "{joined(g.letters)}"

// Byte offset into LetterData for each index. The actual Letter string
// at index `i` given by the `ZoneRule.Letter` field is
// `LetterData[LetterOffsets[i]:LetterOffsets[i+1]]`.
var LetterOffsets = []uint8{{
{positions(g.letters)}
}}

// ---------------------------------------------------------------------------
// ZoneRulesData is the encoded version of ZoneRuleRecords in
// {'zone_policies_test.go'}. It contains an array of
// ZoneRuleRecord encoded as string.
//
// Supported zone policies: {d.np}
// numRules: {d.nr}
// ---------------------------------------------------------------------------

const ZoneRuleCount = {d.nr}

const ZoneRuleChunkSize = {RULE}

// ZoneRulesData contains the ZoneRuleRecords data as a hex encoded string.
const ZoneRulesData = {go_string(rules, RULE)}

// ---------------------------------------------------------------------------
// ZonePoliciesData is the encoded version of ZonePolicyRecords in
// {'zone_policies_test.go'}. It contains an array of
// ZonePolicyRecord which is a pair of (index, count) into the ZoneRuleRecords
// array.
//
// Supported zone policies: {d.np}
// ---------------------------------------------------------------------------

const ZonePolicyCount = {d.np + 1}

const ZonePolicyChunkSize = {POLICY}

// ZonePoliciesData contains the ZonePolicyRecords data as a hex encoded string.
const ZonePoliciesData = {go_string(table, POLICY)}

// ---------------------------------------------------------------------------
// Unsupported zone policies: {len(t.removed_policies)}
// ---------------------------------------------------------------------------

{reasons('//', t.removed_policies, '', '  ')}

// ---------------------------------------------------------------------------
// Notable zone policies: {len(t.notable_policies)}
// ---------------------------------------------------------------------------

{reasons('//', t.notable_policies, '', '  ')}
"""


def policies_test(d):
    g = d.go
    rows = ''
    n = 0
    for name, policy in sorted(d.policies.items()):
        rows += LINE + f"""\
\t// PolicyName: {name}
\t// RuleIndex: {n}
\t// RuleCount: {len(policy['rules'])}
""" + LINE + '\n'
        for r in policy['rules']:
            s = r['at_seconds_truncated']
            rows += f"""\
\t// {raw(r['raw_line'])}
\t{{
\t\tFromYear: {r['from_year']},
\t\tToYear: {r['to_year']},
\t\tInMonth: {r['in_month']},
\t\tOnDayOfWeek: {r['on_day_of_week']},
\t\tOnDayOfMonth: {r['on_day_of_month']},
\t\tAtSecondsCode: {code15(s)}, // {s} / 15
\t\tAtSecondsModifier: {modifier(s, r['at_time_suffix'])}, // {suffix_name(r['at_time_suffix'], '')} + remainder={s % 15}
\t\tDeltaMinutes: {minutes(r['delta_seconds_truncated'])},
\t\tLetterIndex: {g.letters[r['letter']][0]}, // "{r['letter']}"
\t}},
"""
        n += len(policy['rules'])
        rows += '\n'
    table = ''
    for name, place in g.policies.items():
        shown = '(None)' if name == '' else name
        table += f"""\
\t{{RuleIndex: {place[1]}, RuleCount: {place[2]}}}, // {place[0]}: PolicyName: {shown}
"""
    return header_go(d) + f"""\
package {d.ns}

import (
\t"github.com/bxparks/acetimego/zoneinfo"
)
// ---------------------------------------------------------------------------
// ZoneRuleRecords is a concatenated array of zoneinfo.ZoneInfoRecord objects
// from all ZonePolicyRecords.
//
// Supported zone policies: {d.np}
// numRules: {d.nr}
// ---------------------------------------------------------------------------

var ZoneRuleRecords = []zoneinfo.ZoneRuleRecord{{
{rows}
}}

// ---------------------------------------------------------------------------
// ZonePolicyRecords contain indexes into the ZoneRuleRecords.
// Supported zone policies: {d.np}
// ---------------------------------------------------------------------------

var ZonePolicyRecords = []zoneinfo.ZonePolicyRecord{{
{table}
}}

"""


# ---- infos

def infos(d):
    t = d.t
    g = d.go
    eras = bytearray()
    for name, info in sorted(d.zones.items()):
        for e in info['eras']:
            unsigned(eras, g.formats[e['format_short']][0], 2)
            unsigned(eras, policy_of(g, e), 1)
            unsigned(eras, e['offset_seconds_truncated'] % 15, 1)
            signed(eras, code15(e['offset_seconds_truncated']), 2)
            signed(eras, e['until_year'], 2)
            signed(eras, minutes(e['era_delta_seconds_truncated']), 1)
            unsigned(eras, e['until_month'], 1)
            unsigned(eras, e['until_day'], 1)
            unsigned(eras, modifier(e['until_seconds_truncated'], e['until_time_suffix']), 1)
            unsigned(eras, code15(e['until_seconds_truncated']), 2)
    infos = bytearray()
    for name in g.position:
        target = d.links.get(name)
        if target is None:
            unsigned(infos, t.zone_ids[name], 4)
            unsigned(infos, g.names[name][0], 2)
            unsigned(infos, g.infos[name][1], 2)
            unsigned(infos, g.infos[name][2], 2)
            unsigned(infos, 0, 2)
        else:
            unsigned(infos, t.link_ids[name], 4)
            unsigned(infos, g.names[name][0], 2)
            unsigned(infos, 0, 2)
            unsigned(infos, 0, 2)
            unsigned(infos, g.position[target], 2)
    return header_go(d) + f"""\
package {d.ns}

// ---------------------------------------------------------------------------
// String constants.
// ---------------------------------------------------------------------------

// All ZoneEra.Format entries concatenated together.
const FormatData = "{joined(g.formats)}"

// All ZoneInfo.Name entries concatenated togther.
const NameData = "{joined(g.names)}"

// Byte offset into FormatData for each index. The actual Format string
// at index `i` given by the `ZoneEra.Format` field is
// `FormatData[FormatOffsets[i]:FormatOffsets[i+1]]`.
var FormatOffsets = []uint16{{
{positions(g.formats)}
}}

// Byte offset into NameData for each index. The actual Letter string
// at index `i` given by the `ZoneRule.Name` field is
// `NameData[NameOffsets[i]:NameOffsets[i+1]]`.
var NameOffsets = []uint16{{
{positions(g.names)}
}}

// ---------------------------------------------------------------------------
// ZoneErasData is the encoded version of ZoneEraRecords.
//
// Supported zones: {d.nz}
// numEras: {d.ne}
// ---------------------------------------------------------------------------

const ZoneEraCount = {d.ne}

const ZoneEraChunkSize = {ERA}

// ZoneErasData contains the ZoneEraRecords data as a hex encoded string.
const ZoneErasData = {go_string(eras, ERA)}

// ---------------------------------------------------------------------------
// ZoneInfoRecords is an array of zoneinfo.ZoneInfoRecord items concatenated
// together.
//
// Total: {d.nz + d.nl} ({d.nz} zones, {d.nl} links)
// ---------------------------------------------------------------------------

const ZoneInfoCount = {d.nz + d.nl}

const ZoneInfoChunkSize = {INFO}

// ZoneInfosData contains the ZoneInfoRecords data as a hex encoded string.
const ZoneInfosData = {go_string(infos, INFO)}

// ---------------------------------------------------------------------------
// Unsupported zones: {len(t.removed_zones)}
// ---------------------------------------------------------------------------

{reasons('//', t.removed_zones, '', '  ')}

// ---------------------------------------------------------------------------
// Notable zones: {len(d.merged)}
// ---------------------------------------------------------------------------

{merged_reasons('//', d.merged, '  ', '  ', '    ')}

// ---------------------------------------------------------------------------
// Unsuported links: {len(t.removed_links)}
// ---------------------------------------------------------------------------

{reasons('//', t.removed_links, '', '  ')}

// ---------------------------------------------------------------------------
// Notable links: {len(t.notable_links)}
// ---------------------------------------------------------------------------

{reasons('//', t.notable_links, '', '  ')}
"""


def infos_test(d):
    t = d.t
    g = d.go
    rows = ''
    n = 0
    for name, info in sorted(d.zones.items()):
        rows += LINE + f"""\
\t// ZoneName: {name}
\t// EraIndex: {n}
\t// EraCount: {len(info['eras'])}
""" + LINE + '\n'
        for e in info['eras']:
            u = e['until_seconds_truncated']
            p = e['policy_name'] or '(none)'
            rows += f"""\
\t// {raw(e['raw_line'])}
\t{{
\t\tPolicyIndex: {policy_of(g, e)}, // PolicyName: {p}
\t\tFormatIndex: {g.formats[e['format_short']][0]}, // "{e['format_short']}"
\t\tDeltaMinutes: {minutes(e['era_delta_seconds_truncated'])},
\t\tOffsetSecondsCode: {code15(e['offset_seconds_truncated'])}, // {e['offset_seconds_truncated']} / 15
\t\tOffsetSecondsRemainder: {e['offset_seconds_truncated'] % 15},
\t\tUntilYear: {e['until_year']},
\t\tUntilMonth: {e['until_month']},
\t\tUntilDay: {e['until_day']},
\t\tUntilSecondsCode: {code15(u)}, // {u} / 15
\t\tUntilSecondsModifier: {modifier(u, e['until_time_suffix'])}, // {suffix_name(e['until_time_suffix'], '')} + remainder={u % 15}
\t}},

"""
        n += len(info['eras'])
    infos = ''
    n = 0
    for name in g.position:
        target = d.links.get(name)
        if target is None:
            infos += f"""\
\t// {n}: Zone {name}
\t{{
\t\tZoneID: 0x{t.zone_ids[name]:08x},
\t\tNameIndex: {g.names[name][0]}, // "{name}"
\t\tEraIndex: {g.infos[name][1]},
\t\tEraCount: {g.infos[name][2]},
\t\tTargetIndex: 0,
\t}},
"""
        else:
            infos += f"""\
\t// {n}: Link {name} -> {target}
\t{{
\t\tZoneID: 0x{t.link_ids[name]:08x},
\t\tNameIndex: {g.names[name][0]}, // "{name}"
\t\tEraIndex: 0,
\t\tEraCount: 0, // IsLink=true
\t\tTargetIndex: {g.position[target]}, // {target}
\t}},
"""
        n += 1
    return header_go(d) + f"""\
package {d.ns}

import (
\t"github.com/bxparks/acetimego/zoneinfo"
)

// ---------------------------------------------------------------------------
// ZoneEraRecords is an array of ZoneEraRecord items concatenated together
// across all zones.
//
// Supported zones: {d.nz}
// numEras: {d.ne}
// ---------------------------------------------------------------------------

var ZoneEraRecords = []zoneinfo.ZoneEraRecord{{
{rows}
}}

// ---------------------------------------------------------------------------
// ZoneInfoRecords is an array of ZoneInfoRecord items concatenated together
// across all zones.
//
// Total: {d.nz + d.nl} ({d.nz} zones, {d.nl} links)
// ---------------------------------------------------------------------------

var ZoneInfoRecords = []zoneinfo.ZoneInfoRecord{{
{infos}
}}
"""


# ---- registry

def registry(d):
    t = d.t
    ids = ''
    for name in sorted(d.both):
        ids += f"\tZoneID{identifier(name)} uint32 = 0x{d.ids[name]:08x} // {name}\n"
    return header_go(d) + f"""\
package {d.ns}

import (
\t"github.com/bxparks/acetimego/zoneinfo"
)

// ---------------------------------------------------------------------------
// Zone Context
// ---------------------------------------------------------------------------

const TzDatabaseVersion string = "{d.a.tz_version}"

// DataContext contains references to various XxxData objects and strings. These
// are the binary encoded versions of the various XxxRecord objects. This object
// is passed to the ZoneManager.
//
// The encoding to a binary string is performed because the Go language is able
// to treat strings as constants, and the TinyGo compiler can place them in
// flash memory, saving tremendous amounts of random memory.
var DataContext = zoneinfo.ZoneDataContext{{
\tTzDatabaseVersion: TzDatabaseVersion,
\tStartYear: {d.a.start_year},
\tUntilYear: {d.a.until_year},
\tStartYearAccurate: {t.start_year_accurate},
\tUntilYearAccurate: {t.until_year_accurate},
\tMaxTransitions: {d.max_size},
\tLetterData: LetterData,
\tLetterOffsets: LetterOffsets,
\tFormatData: FormatData,
\tFormatOffsets: FormatOffsets,
\tNameData: NameData,
\tNameOffsets: NameOffsets,
\tZoneRuleChunkSize: ZoneRuleChunkSize,
\tZonePolicyChunkSize: ZonePolicyChunkSize,
\tZoneEraChunkSize: ZoneEraChunkSize,
\tZoneInfoChunkSize: ZoneInfoChunkSize,
\tZoneRuleCount: ZoneRuleCount,
\tZonePolicyCount: ZonePolicyCount,
\tZoneEraCount: ZoneEraCount,
\tZoneInfoCount: ZoneInfoCount,
\tZoneRulesData: ZoneRulesData,
\tZonePoliciesData: ZonePoliciesData,
\tZoneErasData: ZoneErasData,
\tZoneInfosData: ZoneInfosData,
}}

// ---------------------------------------------------------------------------
// Zone IDs. Unique stable uint32 identifier for each zone which can be given to
// ZoneManager.NewTimeZoneFromID(). Useful for microcontroller environments
// where saving variable length strings is more difficult than a fixed width
// integer.
//
// Total: {d.nz + d.nl} ({d.nz} zones, {d.nl} links)
// ---------------------------------------------------------------------------

const (
{ids}
)
"""


def registry_test(d):
    t = d.t
    ids = ''
    for name, i in sorted(d.go.position.items()):
        ids += f"\tZoneInfoIndex{identifier(name)} uint16 = {i} // {name}\n"
    return header_go(d) + f"""\
package {d.ns}

import (
\t"github.com/bxparks/acetimego/zoneinfo"
)

// ---------------------------------------------------------------------------
// Zone Context
// ---------------------------------------------------------------------------

// RecordContext contains references to the various arrays of ZoneRuleRecord,
// ZonePolicyRecord, ZoneEraRecord, and ZoneInfoRecord objects, as well as the
// strings used by those objects.
//
// The `acetime` package uses the encoded XxxData objects, not the XxxRecord
// objects referenced here. These XxxRecord objects are used only for testing
// purposes, to verify that the XxxData objects were properly generated, and can
// be read back and reconstructed to be identical to the XxxRecord objects.
var RecordContext = zoneinfo.ZoneRecordContext{{
\tTzDatabaseVersion: TzDatabaseVersion,
\tStartYear: {d.a.start_year},
\tUntilYear: {d.a.until_year},
\tStartYearAccurate: {t.start_year_accurate},
\tUntilYearAccurate: {t.until_year_accurate},
\tMaxTransitions: {d.max_size},
\tLetterData: LetterData,
\tLetterOffsets: LetterOffsets,
\tFormatData: FormatData,
\tFormatOffsets: FormatOffsets,
\tNameData: NameData,
\tNameOffsets: NameOffsets,
\tZoneRuleRecords: ZoneRuleRecords,
\tZonePolicyRecords: ZonePolicyRecords,
\tZoneEraRecords: ZoneEraRecords,
\tZoneInfoRecords: ZoneInfoRecords,
}}

// ---------------------------------------------------------------------------
// Zone Indexes. Index into the ZoneInfoRecords array. Intended for unit tests
// which need direct access to the zoneinfo.ZoneInfo struct.
//
// Total: {d.nz + d.nl} ({d.nz} zones, {d.nl} links)
// ---------------------------------------------------------------------------

const (
{ids}
)
"""


def reader_test(d):
    return header_go(d) + f"""\
package {d.ns}

import (
\t"github.com/bxparks/acetimego/internal"
\t"testing"
)

// Verify that ZoneInfosData is identical to ZoneInfoRecords.
func TestZoneInfoReader(t *testing.T) {{
\tinternal.VerifyZoneInfoReader(t, &DataContext, &RecordContext)
}}

// Verify that ZoneErasData is identical to ZoneEraRecords.
func TestZoneEraReader(t *testing.T) {{
\tinternal.VerifyZoneEraReader(t, &DataContext, &RecordContext)
}}

// Verify that ZonePoliciesData is identical to ZonePolicyRecords.
func TestZonePolicyReader(t *testing.T) {{
\tinternal.VerifyZonePolicyReader(t, &DataContext, &RecordContext)
}}

// Verify that ZoneRulesData is identical to ZoneRuleRecords.
func TestZoneRuleReader(t *testing.T) {{
\tinternal.VerifyZoneRuleReader(t, &DataContext, &RecordContext)
}}
"""
