"""Reference model of the Arduino/C encodings, string tables and size estimates."""
from spec.common import trunc_zero

# sizes of the C++ records: context, rule, policy, era, info, pointer
SIZES_8 = (16, 9, 3, 11, 13, 2)
SIZES_32 = (24, 12, 8, 16, 24, 4)
SIZES_8_HIGH = (16, 12, 3, 15, 13, 2)
SIZES_32_HIGH = (24, 12, 8, 20, 24, 4)


def suffix_code(suffix):
    if suffix == 'w':
        return 0
    if suffix == 's':
        return 16
    if suffix == 'u':
        return 32
    raise Exception('suffix')


def time_low(seconds, suffix):
    """(code, modifier): 15-minute units, remaining minutes in the low nibble"""
    if seconds % 60 != 0:
        raise Exception('not a whole minute')
    return (seconds // 900, suffix_code(suffix) + (seconds - seconds // 900 * 900) // 60)


def time_high(seconds, suffix):
    """(code, modifier): 15-second units, remaining seconds in the low nibble"""
    return (seconds // 15, suffix_code(suffix) + seconds % 15)


def delta_low(seconds):
    """4-bit code of a DST offset: quarter hours, shifted by one hour"""
    if seconds % 900 != 0:
        raise Exception('not a multiple of 15 minutes')
    code = seconds // 900 + 4
    if code < 0 or code > 15:
        raise Exception('does not fit 4 bits')
    return code


def delta_high(seconds):
    """signed 8-bit minutes"""
    if seconds % 60 != 0:
        raise Exception('not a whole minute')
    m = seconds // 60
    if m < -128 or m > 127:
        raise Exception('does not fit 8 bits')
    return m


def check(t, high):
    """every time and offset of the database must be representable"""
    for name, policy in t.policies_map.items():
        for r in policy['rules']:
            if high:
                time_high(r['at_seconds_truncated'], r['at_time_suffix'])
                delta_high(r['delta_seconds_truncated'])
            else:
                time_low(r['at_seconds_truncated'], r['at_time_suffix'])
                delta_low(r['delta_seconds_truncated'])
    for name, info in t.zones_map.items():
        for e in info['eras']:
            if high:
                time_high(e['until_seconds_truncated'], e['until_time_suffix'])
                delta_high(e['era_delta_seconds_truncated'])
            else:
                if e['offset_seconds_truncated'] % 60 != 0:
                    raise Exception('not a whole minute')
                time_low(e['until_seconds_truncated'], e['until_time_suffix'])
                delta_low(e['era_delta_seconds_truncated'])


def numbered(names, first):
    out = {}
    n = first
    for x in names:
        out[x] = n
        n += 1
    return out


def letter_table(policies):
    letters = set()
    letters.add('')
    for name, policy in policies.items():
        for r in policy['rules']:
            letters.add(r['letter'])
    return numbered(sorted(letters), 0)


def format_table(zones):
    formats = set()
    for name, info in zones.items():
        for e in info['eras']:
            formats.add(e['format_short'])
    return numbered(sorted(formats), 0)


def prefixes(name):
    """path components before the last, each with its slash"""
    return [c + '/' for c in name.split('/')[:-1]]


def keyword_table(zones, links):
    """fragment -> keyword byte, for fragments of more than 3 characters used more than 3 times"""
    uses = {}
    for name in list(zones.keys()) + list(links.keys()):
        for p in prefixes(name):
            if len(p) > 3:
                uses[p] = uses.get(p, 0) + 1
    out = {}
    n = 1
    for p, count in sorted(uses.items()):
        if count > 3:
            out[p] = n
            n += 1
    if n >= 32:
        raise Exception('too many fragments')
    return out


def compress(name, table):
    parts = name.split('/')
    out = ''
    for c in parts[:-1]:
        k = table.get(c + '/')
        if k is None:
            out += c + '/'
        else:
            out += chr(k)
    return out + parts[-1]


def compressed_names(zones, links, table):
    out = {}
    for name in sorted(zones.keys()):
        out[name] = compress(name, table)
    for name in sorted(links.keys()):
        out[name] = compress(name, table)
    return out


def c_string(s):
    """C string literal(s): control bytes as isolated hex escapes"""
    out = ''
    open_ = False
    for c in s:
        if ord(c) < 32:
            if open_:
                out += f'" "\\x{ord(c):02x}" '
            else:
                out += f'"\\x{ord(c):02x}" '
            open_ = False
        else:
            if open_:
                out += c
            else:
                out += f'"{c}'
            open_ = True
    if open_:
        out += '"'
    return out.strip()


def zsize(names):
    """bytes of zero-terminated strings"""
    return sum([len(s) + 1 for s in names])


def memory(d, s):
    context, rule, policy, era, info, pointer = s
    original = zsize(d.zones.keys()) + zsize(d.links.keys())
    names = original
    if d.a.compress:
        names = zsize([d.short[n] for n in d.zones.keys()]) + zsize([d.short[n] for n in d.links.keys()])
    m = {
        'context': context,
        'rules': rule * d.nr,
        'policies': policy * d.np,
        'eras': era * d.ne,
        'zones': info * d.nz,
        'links': info * d.nl,
        'registry': (d.nz + d.nl) * pointer,
        'names': names,
        'names_original': original,
        'fragments': zsize(d.fragments.keys()) + len(d.fragments) * pointer,
        'formats': zsize(d.formats.keys()),
        'letters': zsize(d.letters.keys()) + len(d.letters) * pointer,
    }
    m['total'] = (m['context'] + m['rules'] + m['policies'] + m['eras'] + m['zones'] + m['links'] + m['registry']
                  + m['names'] + m['fragments'] + m['formats'] + m['letters'])
    return m
