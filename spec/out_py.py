"""Reference model of the Python files."""
from spec.helpers import identifier
from spec.text import raw, header_py, reasons, merged_reasons


def policies(d):
    t = d.t
    body = ''
    for name, policy in sorted(d.policies.items()):
        i = identifier(name)
        rows = ''
        for r in policy['rules']:
            rows += f"""\
    # {raw(r['raw_line'])}
    {{
        'from_year': {r['from_year']},
        'to_year': {r['to_year']},
        'in_month': {r['in_month']},
        'on_day_of_week': {r['on_day_of_week']},
        'on_day_of_month': {r['on_day_of_month']},
        'at_seconds': {r['at_seconds_truncated']},
        'at_time_suffix': '{r['at_time_suffix']}',
        'delta_seconds': {r['delta_seconds_truncated']},
        'letter': '{r['letter']}',
    }},
"""
        body += f"""\
# ---------------------------------------------------------------------------
# Policy name: {name}
# Rule count: {len(policy['rules'])}
# ---------------------------------------------------------------------------
ZONE_RULES_{i}: List[ZoneRule] = [
{rows}
]

ZONE_POLICY_{i}: ZonePolicy = {{
    'name': '{name}',
    'rules': ZONE_RULES_{i}
}}

"""
    return header_py(d) + f"""\
from typing import List
from ..typing import (
    ZoneRule,
    ZonePolicy,
)

# ---------------------------------------------------------------------------
# Supported zone policies: {d.np}
# numRules: {d.nr}
# ---------------------------------------------------------------------------

{body}

# ---------------------------------------------------------------------------
# Unsupported zone policies: {len(t.removed_policies)}
# ---------------------------------------------------------------------------

{reasons('#', t.removed_policies, '', '  ')}

# ---------------------------------------------------------------------------
# Notable zone policies: {len(t.notable_policies)}
# ---------------------------------------------------------------------------

{reasons('#', t.notable_policies, '', '  ')}
"""


def infos(d):
    t = d.t
    body = ''
    for name, info in sorted(d.zones.items()):
        i = identifier(name)
        rows = ''
        for e in info['eras']:
            p = 'None' if e['policy_name'] is None else 'ZONE_POLICY_' + identifier(e['policy_name'])
            rows += f"""\
    # {raw(e['raw_line'])}
    {{
        'offset_seconds': {e['offset_seconds_truncated']},
        'zone_policy': {p},
        'era_delta_seconds': {e['era_delta_seconds_truncated']},
        'format': '{e['format']}',
        'until_year': {e['until_year']},
        'until_month': {e['until_month']},
        'until_day': {e['until_day']},
        'until_seconds': {e['until_seconds_truncated']},
        'until_time_suffix': '{e['until_time_suffix']}',
    }},
"""
        body += f"""\
# ---------------------------------------------------------------------------
# Zone name: {name}
# Era count: {len(info['eras'])}
# ---------------------------------------------------------------------------

ZONE_ERAS_{i}: List[ZoneEra] = [
{rows}
]

ZONE_INFO_{i}: ZoneInfo = {{
    'name': '{name}',
    'eras': ZONE_ERAS_{i}
}}

"""
    links = ''
    for name, target in sorted(d.links.items()):
        links += f"""\
# Link name: {name} -> {target}
ZONE_INFO_{identifier(name)}: ZoneInfo = {{
    'name': '{name}',
    'eras': ZONE_ERAS_{identifier(target)},
    'link_to': ZONE_INFO_{identifier(target)},
}}

"""
    return header_py(d) + f"""\
from typing import List
from ..typing import (
    ZoneEra,
    ZoneInfo,
)

from .zone_policies import *

# ---------------------------------------------------------------------------
# Zone Context
# ---------------------------------------------------------------------------

TZDB_VERSION = '{d.a.tz_version}'
START_YEAR = {d.a.start_year}
UNTIL_YEAR = {d.a.until_year}
START_YEAR_ACCURATE = {t.start_year_accurate}
UNTIL_YEAR_ACCURATE = {t.until_year_accurate}

# ---------------------------------------------------------------------------
# Supported zones: {d.nz}
# numEras: {d.ne}
# ---------------------------------------------------------------------------

{body}

# ---------------------------------------------------------------------------
# Supported links: {d.nl}
# ---------------------------------------------------------------------------

{links}

# ---------------------------------------------------------------------------
# Unsuported zones: {len(t.removed_zones)}
# ---------------------------------------------------------------------------

{reasons('#', t.removed_zones, '', '  ')}

# ---------------------------------------------------------------------------
# Notable zones: {len(d.merged)}
# ---------------------------------------------------------------------------

{merged_reasons('#', d.merged, '  ', '  ', '    ')}

# ---------------------------------------------------------------------------
# Unsuported links: {len(t.removed_links)}
# ---------------------------------------------------------------------------

{reasons('#', t.removed_links, '', '  ')}

# ---------------------------------------------------------------------------
# Notable links: {len(t.notable_links)}
# ---------------------------------------------------------------------------

{reasons('#', t.notable_links, '', '  ')}
"""


def registry(d):
    zones = ''
    for name in sorted(d.zones.keys()):
        zones += f"""\
    '{name}': ZONE_INFO_{identifier(name)},
"""
    both = ''
    for name in sorted(d.both):
        both += f"""\
    '{name}': ZONE_INFO_{identifier(name)},
"""
    return header_py(d) + f"""\
from ..typing import ZoneInfoMap
from .zone_infos import *

# Supported Zones: {d.nz}
ZONE_REGISTRY: ZoneInfoMap = {{
{zones}
}}

# Supported Zones and Links: {d.nz + d.nl}
ZONE_AND_LINK_REGISTRY: ZoneInfoMap = {{
{both}
}}
"""
