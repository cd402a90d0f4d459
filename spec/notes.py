"""Reference model of the merged notes: which notes a zone shows."""


def uses(zones_map, z, p):
    found = False
    for name, info in zones_map.items():
        if name == z:
            for era in info['eras']:
                if era['policy_name'] and era['policy_name'] == p:
                    found = True
    return found


def listed(zones_to_policies, z, p):
    ps = zones_to_policies.get(z)
    found = False
    if ps:
        for q in ps:
            if q == p:
                found = True
    return found


def own(notable_zones, z, why):
    notes = notable_zones.get(z)
    found = False
    if notes:
        for n in notes:
            if n == why:
                found = True
    return found


def of_policy(zones_map, notable_policies, z, p, why):
    return uses(zones_map, z, p) and own(notable_policies, p, why)


def shows_own(merged, z, why):
    notes = merged.get(z)
    found = False
    if notes:
        for n in notes:
            if isinstance(n, str) and n == why:
                found = True
    return found


def shows_policy(merged, z, p, why):
    notes = merged.get(z)
    found = False
    if notes:
        for n in notes:
            if not isinstance(n, str):
                ws = n.get(p)
                if ws:
                    for w in ws:
                        if w == why:
                            found = True
    return found


def bare(merged):
    """zones listed without any note"""
    found = False
    for z, notes in merged.items():
        if not notes:
            found = True
    return found


def nowhere(merged):
    return False
