"""Reference model of the reading of TZ files: what each line contributes."""

MONTHS = {'jan': 1, 'feb': 2, 'mar': 3, 'apr': 4, 'may': 5, 'jun': 6, 'jul': 7, 'aug': 8, 'sep': 9, 'oct': 10, 'nov': 11,
          'dec': 12}


def month(name):
    """a month is named by its first three letters, in either case"""
    index = MONTHS.get(name[:3].lower())
    if index is None:
        raise Exception('month')
    return index


def clock(text):
    """time of day and its one-letter suffix, if any"""
    last = text[-1:]
    if last.isdigit():
        return (text, '')
    if last not in ('', 'w', 's', 'u', 'g', 'z'):
        raise Exception('suffix')
    return (text[:-1], last)


def rule(line):
    """Rule NAME FROM TO - IN ON AT SAVE LETTER"""
    c = line.split()
    first = int(c[2])
    if c[3] == 'only':
        last = first
    elif c[3] == 'max':
        last = 32766
    else:
        last = int(c[3])
    index = month(c[5])
    day = c[6]
    at = clock(c[7])
    return {'from_year': first, 'to_year': last, 'in_month': index, 'on_day': day, 'at_time': at[0], 'at_time_suffix': at[1],
            'delta_offset': c[8], 'letter': c[9], 'raw_line': line}


def era(line):
    """STDOFF RULES FORMAT [YEAR [MONTH [DAY [TIME]]]]"""
    c = line.split()
    n = len(c)
    until = int(c[3]) if n > 3 else 32767
    index = month(c[4]) if n > 4 else 1
    day = c[5] if n > 5 else '1'
    at = clock(c[6]) if n > 6 else ('00:00', 'w')
    return {'offset_string': c[0], 'rules': c[1], 'format': c[2], 'until_year': until, 'until_year_only': n < 5,
            'until_month': index, 'until_day_string': day, 'until_time': at[0], 'until_time_suffix': at[1], 'raw_line': line}


def named(table, name):
    """what was collected under a name, in order"""
    items = table.get(name)
    return list(items) if items else []


def text_of(raw):
    """the line without its comment and trailing blanks"""
    i = raw.find('#')
    if i >= 0:
        raw = raw[:i]
    return raw.rstrip()


def rules_named(f, name):
    found = []
    for raw in f:
        line = text_of(raw)
        c = line.split()
        if line[:4] == 'Rule' and len(c) >= 2 and c[1] == name:
            found.append(line)
    return found


def links_named(f, name):
    found = []
    for raw in f:
        line = text_of(raw)
        c = line.split()
        if line[:4] == 'Link' and len(c) >= 3 and c[2] == name:
            found.append(c[1])
    return found


def eras_named(f, name):
    """a Zone line starts the eras of its zone; lines starting with a tab continue it until another record starts"""
    found = []
    current = None
    for raw in f:
        line = text_of(raw)
        tag = line[:4]
        c = line.split()
        if tag == 'Rule' or tag == 'Link':
            current = None
        elif tag == 'Zone':
            if len(c) >= 2:
                current = c[1]
                if current == name:
                    found.append(' '.join(c[2:]))
            else:
                current = None
        elif line[:1] == '\t' and current is not None and current == name:
            found.append(line)
    return found


def nameless(f, tag, least):
    """lines of a kind that do not say what they are about"""
    n = 0
    for raw in f:
        line = text_of(raw)
        if line[:4] == tag and len(line.split()) < least:
            n += 1
    return n


def rules_bad(table):
    n = 0
    for name, lines in table.items():
        for line in lines:
            try:
                rule(line)
            except Exception:
                n += 1
    return n


def eras_bad(table):
    n = 0
    for name, lines in table.items():
        for line in lines:
            try:
                era(line)
            except Exception:
                n += 1
    return n


def links_bad(table):
    n = 0
    for name, lines in table.items():
        if len(lines) > 1:
            n += len(lines)
    return n


def rules_read(table, name):
    """records of a policy, in line order; lines that cannot be understood are left out"""
    found = []
    for line in named(table, name):
        try:
            found.append(rule(line))
        except Exception:
            pass
    return found


def eras_read(table, name):
    found = []
    for line in named(table, name):
        try:
            found.append(era(line))
        except Exception:
            pass
    return found


def targets_read(table, name):
    """a link defined more than once is dropped"""
    found = named(table, name)
    return found if len(found) == 1 else []


def rules_of(policies, name):
    p = policies.get(name)
    return p['rules'] if p else []


def eras_of(zones, name):
    z = zones.get(name)
    return z['eras'] if z else []


def target_of(links, name):
    t = links.get(name)
    return [t] if t is not None else []


def column(records, field):
    return [r[field] for r in records]
