"""Reference model of the Go string tables, index tables and encodings."""
from spec.encode import suffix_code

RULE, POLICY, ERA, INFO = 12, 4, 14, 12


def go_tables(t):
    return GoTables(t)


def offsets(names):
    """string -> (index, byte offset), closed by a sentinel holding the total length"""
    out = {}
    i = 0
    at = 0
    for s in sorted(names):
        out[s] = (i, at)
        i += 1
        at += len(s)
    out['~'] = (i, at)
    return out


class GoTables:
    def __init__(self, t):
        letters = set()
        letters.add('')
        for name, policy in t.policies_map.items():
            for r in policy['rules']:
                letters.add(r['letter'])
        self.letters = offsets(letters)
        if self.letters['~'][1] > 255:
            raise Exception('letters')
        formats = set()
        formats.add('')
        for name, info in t.zones_map.items():
            for e in info['eras']:
                formats.add(e['format'].replace('%s', '%'))
        self.formats = offsets(formats)
        if self.formats['~'][1] > 65535:
            raise Exception('formats')
        both = list(t.zones_map.keys()) + list(t.links_map.keys())
        self.names = offsets(set(both))
        if self.names['~'][1] > 65535:
            raise Exception('names')
        ids = t.zone_ids.copy()
        ids.update(t.link_ids)
        self.ids = ids
        self.position = {}
        i = 0
        for name in sorted(both, key=lambda x: ids[x]):
            self.position[name] = i
            i += 1
        self.policies = {}
        self.policies[''] = (0, 0, 0)
        i = 1
        n = 0
        for name, policy in sorted(t.policies_map.items()):
            self.policies[name] = (i, n, len(policy['rules']))
            n += len(policy['rules'])
            i += 1
        if n > 65535 or len(self.policies) > 255:
            raise Exception('rules')
        self.infos = {}
        i = 0
        n = 0
        for name, info in sorted(t.zones_map.items()):
            self.infos[name] = (i, n, len(info['eras']))
            n += len(info['eras'])
            i += 1
        if n > 65535 or len(self.infos) > 65535:
            raise Exception('eras')
        for name, info in sorted(t.zones_map.items()):
            for e in info['eras']:
                minutes(e['era_delta_seconds_truncated'])
                suffix_code(e['until_time_suffix'])
        for name, policy in t.policies_map.items():
            for r in policy['rules']:
                minutes(r['delta_seconds_truncated'])
                suffix_code(r['at_time_suffix'])
        nr = sum([len(p['rules']) for p in t.policies_map.values()])
        ne = sum([len(info['eras']) for info in t.zones_map.values()])
        m = {
            'rules': nr * RULE,
            'policies': len(t.policies_map) * POLICY,
            'eras': ne * ERA,
            'zones': len(t.zones_map) * INFO,
            'links': len(t.links_map) * INFO,
            'registry': 0,
            'names': table_size(self.names, 2),
            'names_original': table_size(self.names, 2),
            'fragments': 0,
            'formats': table_size(self.formats, 2),
            'letters': table_size(self.letters, 1),
        }
        m['total'] = (m['rules'] + m['policies'] + m['eras'] + m['zones'] + m['links'] + m['registry'] + m['names']
                      + m['formats'] + m['letters'])
        self.memory = m


def table_size(table, width):
    return sum([len(s) for s in table.keys()]) + width * len(table)


def minutes(seconds):
    if seconds % 60 != 0:
        raise Exception('not a whole minute')
    return seconds // 60


def code15(seconds):
    return seconds // 15


def modifier(seconds, suffix):
    return suffix_code(suffix) + seconds % 15
