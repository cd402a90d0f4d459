"""Reference model of the command line: what is refused before any work, and what each option means to the stages."""

LANGUAGES = ['arduino', 'c', 'python', 'go']
ACTIONS = ['zonedb', 'json', 'zonelist']
# UNTIL/AT, STDOFF, SAVE/RULES
GRANULARITY = {'basic': (60, 60, 900), 'extended': (60, 60, 900), 'complete': (1, 1, 60)}


def refuse_unknown(a):
    for x in a.actions.split(','):
        if x not in ACTIONS:
            raise Exception('unknown action')
    for x in a.languages.split(','):
        if x not in LANGUAGES:
            raise Exception('unknown language')


def refuse_years(a):
    if a.scope == 'basic' and a.start_year < 1980:
        raise Exception('too early for the basic scope')
    if a.scope == 'extended' and a.start_year < 1974:
        raise Exception('too early for the extended scope')


def wanted(path):
    """names on the include list; none means all"""
    names = set()
    if path:
        with open(path) as f:
            for line in f:
                name = line.strip()
                if name and not name.startswith('#'):
                    names.add(name)
    return names


def chosen(override, specific, default):
    if override:
        return override
    if specific:
        return specific
    return default


def parameters(a):
    """arguments of the transformer, by name"""
    until_at, offset, delta = GRANULARITY[a.scope]
    return {
        'scope': a.scope,
        'start_year': a.start_year,
        'until_year': a.until_year,
        'until_at_granularity': chosen(a.granularity, a.until_at_granularity, until_at),
        'offset_granularity': chosen(a.granularity, a.offset_granularity, offset),
        'delta_granularity': chosen(a.granularity, a.delta_granularity, delta),
        'strict': a.strict,
        'generate_tiny_years': a.scope != 'complete',
        'tiny_base_year': a.tiny_base_year,
        'include_list': wanted(a.include_list),
    }
