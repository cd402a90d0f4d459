"""Obligations of one property, and what became of them."""
import json
import os
import time

EQ, DIFF, UND = 'equal', 'differ', 'undecided'
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Vanished(Exception):
    """an entry point the property is anchored in is gone"""


class Results:
    def __init__(self, prop):
        self.prop = prop
        self.items = []          # (rule, status, what, where, why)
        self.analysed = {}       # what was analysed: kind -> set
        self.t0 = time.time()

    def add(self, rule, status, what, where=None, why=None):
        self.items.append((rule, status, what, where, why))

    def ok(self, rule, cond, what, where=None, why=None):
        """cond: True holds, False violated, None not decided"""
        self.add(rule, EQ if cond else UND if cond is None else DIFF, what, where, why)
        return cond

    def saw(self, kind, *what):
        self.analysed.setdefault(kind, set()).update(what)

    def violations(self):
        out, seen = [], set()
        for r, s, what, where, why in self.items:
            if s == DIFF and (r, what, where) not in seen:
                seen.add((r, what, where))
                out.append((r, what, where, why))
        return out

    def counts(self):
        n = {EQ: 0, DIFF: 0, UND: 0}
        for it in self.items:
            n[it[1]] += 1
        return n


def site_text(where):
    if where is None:
        return ''
    if isinstance(where, tuple) and len(where) >= 3:
        f, line, fn = where[:3] if isinstance(where[1], int) else (where[0], where[2], where[1])
        f = f if f.endswith(('.py', '.sh')) else 'src/' + f.replace('.', '/') + '.py'
        return '%s:%s in %s' % (f, line, fn) if fn else '%s:%s' % (f, line)
    return str(where)


def known(prop):
    """entries of the committed known-findings file: what text of findings of this property"""
    p = os.path.join(HERE, 'known_findings.txt')
    out = []
    if os.path.exists(p):
        with open(p, encoding='utf-8') as f:
            for line in f:
                line = line.strip()
                if line.startswith('known: property=%s ' % prop):
                    out.append(line.split(' ', 2)[2])
    return out


def finish(res, tier, seed, level, explanation, assumptions):
    c = res.counts()
    vio = res.violations()
    listed = known(res.prop)
    new = []
    for v in vio:
        text = '%s: %s' % (v[0], v[1])
        if text in listed:
            print('KNOWN-FINDING: property=%s %s' % (res.prop, text))
        else:
            new.append(v)
    ev = os.path.join(HERE, 'evidence')
    os.makedirs(ev, exist_ok=True)
    rules = {}
    for r, s, what, where, why in res.items:
        d = rules.setdefault(r, {'held': 0, 'violated': 0, 'not_decided': 0})
        d[{EQ: 'held', DIFF: 'violated', UND: 'not_decided'}[s]] += 1
    data = {
        'property': res.prop, 'tier': tier, 'seed': seed, 'level': level,
        'coverage': {
            'explanation': explanation,
            'obligations': len(res.items),
            'discharged': c[EQ],
            'not_decided': c[UND],
            'rules': rules,
            'analysed': {k: len(v) for k, v in sorted(res.analysed.items())},
            'samples': ['%s | %s | %s' % (r, what, site_text(where)) for r, s, what, where, why in res.items[:8]],
            'undecided_samples': ['%s | %s | %s' % (r, what, why) for r, s, what, where, why in res.items if s == UND][:12],
        },
        'assumptions': assumptions,
        'wall_s': round(time.time() - res.t0, 3),
    }
    if new:
        data['violations'] = [{'rule': r, 'what': w, 'where': site_text(s), 'why': y} for r, w, s, y in new]
    with open(os.path.join(ev, res.prop + '.json'), 'w', encoding='utf-8') as f:
        json.dump(data, f, indent=1, default=str)
    print('%s: %d obligations, %d held, %d not decided, %d violated (%.1f s)' % (
        res.prop, len(res.items), c[EQ], c[UND], c[DIFF], time.time() - res.t0))
    for r in sorted(rules):
        print('  %-60s %s' % (r, ' '.join('%s=%d' % kv for kv in rules[r].items() if kv[1])))
    if not new:
        return 0
    rep = os.path.join(ev, res.prop + '.violations.txt')
    with open(rep, 'w', encoding='utf-8') as f:
        for r, what, where, why in new:
            f.write('%s\n  %s\n  at %s\n  %s\n\n' % (r, what, site_text(where), why))
    for r, what, where, why in new[:20]:
        print('FINDING %s | %s | %s | %s' % (r, what, site_text(where), why))
    print('VIOLATION property=%s replay=%s' % (res.prop, rep))
    return 1
