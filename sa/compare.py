"""Comparison of two lifted states: what the program leaves behind against what a reference model leaves behind."""
from . import terms as X
from . import model as M
from .terms import TRUE, FALSE, NONE, mk, const, b_and, b_or, b_not
from .engine import MISSING

EQ, DIFF, UND = 'equal', 'differ', 'undecided'


def has_ref(v):
    return any(l.op == 'ref' for l in X.leaves(v))


def flat(items, levels=(), orders=(), guard=TRUE):
    """[(levels, orders, guard, key, value)] of a collection, in order"""
    out = []
    for it in items:
        if it[0] == 'one':
            out.append((levels, orders, b_and(guard, it[3]), it[1], it[2]))
        elif it[0] == 'loop':
            out += flat(it[4], levels + (it[1],), orders + (it[2],), b_and(guard, it[3]))
        else:
            out.append((levels, orders, guard, None, mk('havoc')))
    return [e for e in out if e[2] is not FALSE]


def presence(entries):
    """entry guards of a collection of reasons: key -> guard, inner levels closed"""
    groups = {}
    for levels, orders, g, k, v in entries:
        g = drop_seen(g)
        if k is None:
            continue
        if k.op == 'elemkey' and k.args[0] in levels:
            i = levels.index(k.args[0])
        else:
            i = len(levels) - 1
        groups.setdefault((levels[:i + 1], k), {}).setdefault(levels[i + 1:], []).append(g)
    out = {}
    for kk, inner in groups.items():
        # deepest levels first, so entries of one loop are joined before it is closed
        while len(inner) > 1 or () not in inner:
            lv = max(inner, key=len)
            g = X.exists(lv[-1], b_or(*[X.unname_all(x) for x in inner.pop(lv)]))
            inner.setdefault(lv[:-1], []).append(g)
        out[kk] = b_or(*inner[()])
    return out


def drop_seen(g):
    g = X.unname_all(g)
    for a in X.atoms_of(g):
        if a.op == 'seen':
            g = X.restrict_atom(g, a, False)
    return g


class Compare:
    def __init__(self, wa, sa, wb, sb, sink, tries=400, ignore=()):
        self.ignore = set(ignore)
        self.wa, self.sa, self.wb, self.sb = wa, sa, wb, sb
        self.sink = sink
        self.done = set()
        self.tries = tries

    def term(self, path, a, b, cond=TRUE, levels=()):
        r, why = M.compare(a, b, cond, levels=levels, tries=self.tries)
        self.sink(path, r, why, a, b)
        return r

    def satisfiable(self, path, cond, levels, what):
        """report `what` when cond can hold"""
        if cond is FALSE:
            self.sink(path, EQ, None, None, None)
            return
        r, why = M.compare(const(0), X.ite(cond, const(1), const(0)), TRUE, levels=levels, tries=self.tries)
        if r == DIFF:
            why = what + ' ' + why.rsplit(':', 1)[0]
        self.sink(path, r, why, None, None)

    def value(self, path, a, b, cond=TRUE, levels=()):
        if a is b and not has_ref(a):
            self.sink(path, EQ, None, a, b)
            return
        if not has_ref(a) and not has_ref(b):
            if MISSING in X.leaves(a) or MISSING in X.leaves(b):
                ma = X.lift(lambda l: TRUE if l is MISSING else FALSE, a)
                mb = X.lift(lambda l: TRUE if l is MISSING else FALSE, b)
                if self.term(path + ' stored', ma, mb, cond, levels) == DIFF:
                    return
                cond = b_and(cond, b_not(ma), b_not(mb))
                if cond is FALSE:
                    return
            self.term(path, a, b, cond, levels)
            return
        for la, ga in X.guarded_leaves(a):
            for lb, gb in X.guarded_leaves(b):
                c = b_and(cond, ga, gb)
                if c is FALSE or not X.feasible(c, X.Facts(), 300):
                    continue
                if la.op == 'ref' and lb.op == 'ref':
                    self.cell(path, la, lb, c, levels)
                elif la is lb:
                    self.sink(path, EQ, None, la, lb)
                elif la.op == 'ref' or lb.op == 'ref':
                    self.satisfiable(path, c, levels, 'different kind of value')
                else:
                    self.term(path, la, lb, c, levels)

    def norm(self, v, w, st):
        return w.deref(v, st)

    def cell(self, path, a, b, cond, levels):
        a, b = self.norm(a, self.wa, self.sa), self.norm(b, self.wb, self.sb)
        ia, ib = a.args[0][1] == 'input', b.args[0][1] == 'input'
        key = (a, b, cond, levels)
        if key in self.done:
            return
        self.done.add(key)
        if ia != ib and (a.args[1] or b.args[1]):
            self.sink(path, UND, 'tagged reference', a, b)
            return
        if ia and ib:
            if a.args[0] != b.args[0]:
                self.satisfiable(path, cond, levels, 'a different record')
                return
            if a.args[1] != b.args[1]:
                self.sink(path, UND, 'different element of the same collection', a, b)
                return
            if a.args[1]:
                self.sink(path, EQ, None, a, b)
                return
        elif a.args[1] != b.args[1]:
            self.sink(path, UND, 'tagged reference', a, b)
            return
        ca, cb = self.sa.heap.get(a.args[0]), self.sb.heap.get(b.args[0])
        if ca is None or cb is None:
            self.sink(path, UND, 'no cell', a, b)
            return
        if ca.kind != cb.kind:
            self.sink(path, UND, 'kind %s / %s' % (ca.kind, cb.kind), a, b)
            return
        for k in list(cb.fields) + [x for x in ca.fields if x not in cb.fields]:
            if k in self.ignore:
                continue
            va, vb = ca.fields.get(k, MISSING), cb.fields.get(k, MISSING)
            if va is vb and not has_ref(va):
                continue
            self.value('%s[%r]' % (path, k), va, vb, cond, levels)
        self.items(path, ca, cb, cond, levels)

    def items(self, path, ca, cb, cond, levels):
        if not ca.items and not cb.items:
            return
        fa, fb = join(flat(ca.items)), join(flat(cb.items))
        sha = [(e[0], e[1]) for e in fa]
        shb = [(e[0], e[1]) for e in fb]
        if sha == shb and all(x[3] is y[3] for x, y in zip(fa, fb)):
            for x, y in zip(fa, fb):
                lv = tuple(levels) + x[0]
                ga, gb = X.unname_all(x[2]), X.unname_all(y[2])
                p = path + ''.join('/' + l.args[0] if l.op == 'src' else '/' + l.op for l in x[0])
                if self.term(p + ' kept', ga, gb, cond, lv) == DIFF:
                    continue
                self.value(p, x[4], y[4], b_and(cond, gb), lv)
            return
        if ca.items == cb.items:
            self.sink(path, EQ, None, None, None)
            return
        # different iteration structure: compare what the two collections hold under small valuations
        self.deep(path, ca, cb, cond, levels)

    def deep(self, path, ca, cb, cond, levels):
        ts = [t for f in (flat(ca.items), flat(cb.items)) for e in f for t in (e[2], e[3], e[4]) if isinstance(t, X.T)]
        ints, strs = M.harvest(*ts)
        kw = M.kinds(*ts)
        agreed = 0
        why = 'structure'
        for i in range(self.tries):
            m = M.Model(i * 104729 + 7, ints, strs, **kw)
            try:
                env = {}
                for lv in levels:
                    els = m.elements(lv, env, None)
                    if not els:
                        raise M.NoValue('empty')
                    env = m.bind(env, lv, m.rng.choice(els))
                if not m.ev(cond, env, None):
                    continue
                va = collection(m, ca, self.wa, self.sa, env)
                vb = collection(m, cb, self.wb, self.sb, env)
            except M.NoValue:
                continue
            except M.Unsupported as e:
                why = str(e)
                if i > 40 and not agreed:
                    break
                continue
            if va != vb:
                self.sink(path, DIFF, 'holds %s instead of %s' % (M.short(repr(va)), M.short(repr(vb))), None, None)
                return
            agreed += 1
        self.sink(path, UND, why if not agreed else 'no witness in %d valuations' % agreed, None, None)

    def reasons(self, path, ia, ib, cond=TRUE):
        """two collections of (name, reason): the same names have a reason"""
        pa, pb = presence(flat(ia)), presence(flat(ib))
        for k in list(pb) + [x for x in pa if x not in pb]:
            lv, key = k
            ga, gb = pa.get(k, FALSE), pb.get(k, FALSE)
            other = [x for x in pa if x not in pb] if k in pb and k not in pa else []
            self.term('%s[%s]' % (path, X.show(key, 3)), ga, gb, cond, lv)


def join(entries):
    out = []
    for e in entries:
        if out:
            o = out[-1]
            if o[0] == e[0] and o[1] == e[1] and o[3] is e[3] and o[4] is e[4] and e[3] is not None and \
                    b_and(o[2], e[2]) is FALSE:
                out[-1] = (o[0], o[1], b_or(o[2], e[2]), o[3], o[4])
                continue
        out.append(e)
    return out


def concrete(m, v, w, st, env, depth=0):
    if depth > 6:
        raise M.Unsupported('depth')
    if v.op == 'ite':
        return concrete(m, v.args[1] if m.ev(v.args[0], env, None) else v.args[2], w, st, env, depth)
    if v.op == 'tuple':
        return tuple(concrete(m, x, w, st, env, depth + 1) for x in v.args)
    if v.op == 'ref':
        v = w.deref(v, st)
        for tag in v.args[1]:
            lv = tag.args[0]
            env = m.bind(env, lv, m.tag(tag, env, None))
        c = st.heap.get(v.args[0])
        if c is None:
            raise M.Unsupported('no cell')
        if v.args[0][1] == 'input' and c.kind == 'dict' and c.fields:
            own = w.owner.get(v.args[0], ())
            return ('record', v.args[0][2]) + tuple(env.get(l) for l in own)
        return collection(m, c, w, st, env, depth + 1)
    return m.ev(v, env, None)


def collection(m, c, w, st, env, depth=0):
    out = []

    def go(items, env):
        for it in items:
            if it[0] == 'one':
                if m.ev(it[3], env, None):
                    k = None if it[1] is None else m.ev(it[1], env, None)
                    out.append((k, concrete(m, it[2], w, st, env, depth)))
            elif it[0] == 'loop':
                for e in m.ordered(it[1], it[2], env, None):
                    e2 = m.bind(env, it[1], e)
                    if m.ev(it[3], e2, None):
                        go(it[4], e2)
            else:
                raise M.Unsupported('items')
    go(c.items, env)
    f = {k: concrete(m, v, w, st, env, depth) for k, v in c.fields.items() if v is not MISSING}
    if c.kind == 'dict':
        d = dict(f)
        for k, v in out:
            d[k] = v
        return d
    if c.kind == 'set':
        return frozenset(v for k, v in out)
    return [v for k, v in out] if not f else (f, [v for k, v in out])
