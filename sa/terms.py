"""Hash-consed value graph with decision-diagram conditionals.

A value is either a leaf term or an `ite(atom, hi, lo)` node whose atoms are
ordered by creation, so two values built from the same atoms are equal exactly
when they are the same object, however the source spelled the control flow.
Integer arithmetic is kept in a linear normal form over opaque leaves, with
floor division by a positive divisor normalised (and `%` expressed through it).
No solver is involved: feasibility is decided by literals, constants and
intervals (class Facts).
"""
import sys
sys.setrecursionlimit(100000)

_tab = {}


class T:
    __slots__ = ('op', 'args', 'id', '_free')

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.id < o.id


def mk(op, *args):
    key = (op, args)
    t = _tab.get(key)
    if t is None:
        t = T()
        t.op = op
        t.args = args
        t.id = len(_tab)
        t._free = None
        _tab[key] = t
    return t


def const(v):
    return mk('const', type(v).__name__, v)


TRUE = const(True)
FALSE = const(False)
NONE = const(None)
ZERO = const(0)
ONE = const(1)
EMPTY = const('')


def is_const(t):
    return t.op == 'const'


def cval(t):
    return t.args[1]


def is_int(t):
    return t.op == 'const' and t.args[0] in ('int', 'bool')


def sym(name, typ=None):
    return mk('sym', name, typ)


_unk = [0]


def unknown(why=''):
    _unk[0] += 1
    return mk('unknown', why, _unk[0])


def app(name, *args):
    return mk('app', name, *args)


class Blowup(Exception):
    pass


LIMIT = 60000


def cof(t, atom, val):
    if t.op == 'ite' and t.args[0] is atom:
        return t.args[1] if val else t.args[2]
    return t


def _node(atom, hi, lo):
    if hi is lo:
        return hi
    return mk('ite', atom, hi, lo)


_itememo = {}


def ite(c, a, b):
    """c: boolean diagram."""
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a is TRUE and b is FALSE:
        return c
    k = (c.id, a.id, b.id)
    r = _itememo.get(k)
    if r is not None:
        return r
    if c.op != 'ite':
        c = as_bool(c)
        return ite(c, a, b)
    top = c.args[0]
    if a.op == 'ite' and a.args[0].id < top.id:
        top = a.args[0]
    if b.op == 'ite' and b.args[0].id < top.id:
        top = b.args[0]
    hi = ite(cof(c, top, True), cof(a, top, True), cof(b, top, True))
    lo = ite(cof(c, top, False), cof(a, top, False), cof(b, top, False))
    r = _node(top, hi, lo)
    _itememo[k] = r
    if len(_itememo) > 3000000:
        _itememo.clear()
    return r


def atom(t):
    """boolean diagram for an atomic predicate term"""
    return mk('ite', t, TRUE, FALSE)


def lift(f, *ts):
    memo = {}
    steps = [0]

    def go(ts):
        k = tuple(t.id for t in ts)
        r = memo.get(k)
        if r is not None:
            return r
        steps[0] += 1
        if steps[0] > LIMIT:
            raise Blowup()
        top = None
        for t in ts:
            if t.op == 'ite' and (top is None or t.args[0].id < top.id):
                top = t.args[0]
        if top is None:
            r = f(*ts)
        else:
            hi = go(tuple(cof(t, top, True) for t in ts))
            lo = go(tuple(cof(t, top, False) for t in ts))
            r = hi if hi is lo else ite(atom(top), hi, lo)
        memo[k] = r
        return r
    return go(ts)


def b_not(c):
    return ite(as_bool(c), FALSE, TRUE)


def b_and(*cs):
    r = TRUE
    for c in cs:
        c = as_bool(c)
        r = ite(r, c, FALSE)
    return r


def b_or(*cs):
    r = FALSE
    for c in cs:
        c = as_bool(c)
        r = ite(r, TRUE, c)
    return r


def leaves(t):
    seen = set()
    out = []
    st = [t]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op == 'ite':
            st.append(x.args[2])
            st.append(x.args[1])
        else:
            out.append(x)
    return out


def guarded_leaves(t):
    """[(leaf, guard)] with guards as boolean diagrams"""
    out = []
    for l in leaves(t):
        out.append((l, lift(lambda x, l=l: TRUE if x is l else FALSE, t)))
    return out


def atoms_of(t):
    """atoms on the diagram nodes of t (not nested inside leaves)"""
    seen = set()
    out = []
    st = [t]
    while st:
        x = st.pop()
        if x.id in seen or x.op != 'ite':
            continue
        seen.add(x.id)
        out.append(x.args[0])
        st.append(x.args[1])
        st.append(x.args[2])
    return sorted(set(out), key=lambda a: a.id)


# ---------------------------------------------------------------- types

def strings(t):
    """a list holding nothing but strings"""
    while isinstance(t, T) and t.op == 'app' and t.args[0] in ('slice', 'sublist', 'uniqset'):
        t = t.args[1]
    return isinstance(t, T) and t.op == 'app' and t.args[0] in ('str.split', 'str.splitlines', 'str.rsplit', 'str.partition')


def typ(t):
    op = t.op
    if op == 'const':
        return t.args[0]
    if op == 'sum':
        return 'int'
    if op in ('lin', 'fdiv', 'pos', 'bitand', 'bitor'):
        return 'int'
    if op in ('cat', 'fmt', 'foreach'):
        return 'str'
    if op in ('sym',):
        return t.args[1]
    if op == 'tuple':
        return 'tuple'
    if op == 'ref':
        return 'ref'
    if op == 'app':
        n = t.args[0]
        if n in APP_TYPES:
            return APP_TYPES[n]
        if n == 'index' and strings(t.args[1]):
            return 'str'
        return None
    if op in ('prev', 'last', 'at', 'first', 'lastsel', 'fold'):
        return typ(t.args[1])
    if op in ('psum',):
        return 'int'
    if op == 'valat':
        return typ(t.args[3])
    if op in ('pfold',):
        return typ(t.args[1])
    if op == 'call':
        return typ(t.args[0])
    if op in ('sofar',):
        return 'str'
    if op == 'elemval' and t.args[0].op == 'elems' and strings(t.args[0].args[0]):
        return 'str'
    if op == 'elemval':
        return 'int' if t.args[0].op == 'range' else ('str' if t.args[0].op in ('chars', 'lines') else (t.args[1] if len(t.args) > 1 else None))
    if op == 'extcall':
        return t.args[0] if t.args[0] in ('str', 'int') else None
    if op == 'ite':
        ts = {typ(x) for x in leaves(t) if x.op not in ('missing', 'unbound')}
        if ts == {'int', 'bool'}:
            return 'int'
        return ts.pop() if len(ts) == 1 else None
    if op in ('elemkey',):
        return 'str'
    if op == 'carried':
        return t.args[2]
    return None


APP_TYPES = {
    'len': 'int', 'int': 'int', 'loopend': 'int', 'countof': 'int', 'ord': 'int', 'mul': 'int', 'fdivt': 'int',
    'str.strip': 'str', 'str.lower': 'str', 'str.upper': 'str', 'str.replace': 'str',
    'str.rstrip': 'str', 'str.lstrip': 'str', 'str.join': 'str', 'slice.str': 'str',
    'str.find': 'int', 'chr': 'str', 're.sub': 'str', 'str': 'str', 'os.path.join': 'str',
    'min': 'int', 'max': 'int', 'repeat': 'str', 'pow': 'int', 'str.index': 'int', 'str.rfind': 'int',
}

BOOLAPPS = {'str.isdigit', 'str.startswith', 'str.endswith', 'set.issubset', 'isinstance',
            'str.isalpha', 'str.isalnum', 'str.isdecimal', 'str.isnumeric', 'str.isspace'}


# ---------------------------------------------------------------- linear

def lin_parts(t):
    if t.op == 'const':
        return int(t.args[1]), {}
    if t.op == 'lin':
        return t.args[0], dict(t.args[1])
    return 0, {t: 1}


def mk_lin(c, d):
    items = tuple(sorted(((t, k) for t, k in d.items() if k), key=lambda p: p[0].id))
    if not items:
        return const(c)
    if c == 0 and len(items) == 1 and items[0][1] == 1:
        return items[0][0]
    return mk('lin', c, items)


def _num(t):
    """leaf usable as an integer"""
    if t.op == 'const':
        return t.args[0] in ('int', 'bool')
    ty = typ(t)
    return ty in (None, 'int', 'bool')


def _add2(a, b, sb):
    if a.op == 'const' and a.args[0] not in ('int', 'bool') or \
       b.op == 'const' and b.args[0] not in ('int', 'bool'):
        return app('add' if sb > 0 else 'sub', a, b)
    ca, da = lin_parts(a)
    cb, db = lin_parts(b)
    d = dict(da)
    for t, k in db.items():
        d[t] = d.get(t, 0) + sb * k
    return mk_lin(ca + sb * cb, d)


def is_strish(t):
    return typ(t) == 'str'


def cat(*parts):
    """string concatenation, flattened, literals merged"""
    out = []

    def push(p):
        if p.op == 'cat':
            for q in p.args:
                push(q)
        elif p.op == 'const' and p.args[0] == 'str':
            if p.args[1] == '':
                return
            if out and out[-1].op == 'const':
                out[-1] = const(out[-1].args[1] + p.args[1])
            else:
                out.append(p)
        else:
            out.append(p)
    for p in parts:
        push(p)
    if not out:
        return EMPTY
    if len(out) == 1 and (out[0].op != 'ite'):
        return out[0]
    return mk('cat', *out)


def add(a, b):
    def f(x, y):
        if is_strish(x) or is_strish(y):
            return cat(x, y)
        if x.op == 'tuple' and y.op == 'tuple':
            return mk('tuple', *(x.args + y.args))
        return _add2(x, y, 1)
    if is_strish(a) or is_strish(b):
        return cat(a, b)
    return lift(f, a, b)


def sub(a, b):
    return lift(lambda x, y: _add2(x, y, -1), a, b)


def neg(a):
    return sub(ZERO, a)


def scale(t, k):
    c, d = lin_parts(t)
    return mk_lin(c * k, {x: v * k for x, v in d.items()})


def mul(a, b):
    def f(x, y):
        if is_int(x):
            x, y = y, x
        if is_int(y):
            if typ(x) == 'str' or x.op == 'const' and x.args[0] == 'str':
                if x.op == 'const':
                    return const(x.args[1] * int(y.args[1]))
                return app('repeat', x, y)
            if not _num(x):
                return app('mul', x, y)
            return scale(x, int(y.args[1]))
        # distribute over linear forms when one side is a single leaf
        cx, dx = lin_parts(x)
        cy, dy = lin_parts(y)
        r = {}
        c = cx * cy
        def addm(t, k):
            r[t] = r.get(t, 0) + k
        for t, k in dx.items():
            if cy:
                addm(t, k * cy)
        for t, k in dy.items():
            if cx:
                addm(t, k * cx)
        for t, k in dx.items():
            for u, m in dy.items():
                p = tuple(sorted((t, u), key=lambda z: z.id))
                addm(app('mul', *p), k * m)
        return mk_lin(c, r)
    return lift(f, a, b)


def _fdivk(x, k):
    """floor(x / k), k positive int, x leaf"""
    c, d = lin_parts(x)
    out = {}
    rest = {}
    for t, v in d.items():
        q, r = divmod(v, k)
        # move only exact multiples out (keeps the remainder's sign stable)
        if r == 0:
            out[t] = q
        else:
            rest[t] = v
    if not rest:
        return mk_lin(c // k, out)
    lead = min(rest, key=lambda t: t.id)
    if rest[lead] < 0:
        inner = mk_lin(-c + k - 1, {t: -v for t, v in rest.items()})
        return _add2(mk_lin(0, out), _fdivk(inner, k), -1)
    from math import gcd
    g = k
    for v in rest.values():
        g = gcd(g, abs(v))
    if g > 1:
        rest = {t: v // g for t, v in rest.items()}
        c = c // g
        k = k // g
    q, c = divmod(c, k)
    base = mk_lin(q, out)
    if len(rest) == 1:
        (t, v), = rest.items()
        if v == 1 and t.op == 'fdiv':
            inner = mk_lin(c * t.args[1], {})
            return _add2(base, _fdivk(_add2(t.args[0], inner, 1), t.args[1] * k), 1)
    return _add2(base, mk('fdiv', mk_lin(c, rest), k), 1)


def _fdivs(x, y):
    """floor(x / y), y a symbolic positive divisor"""
    c, d = lin_parts(x)
    if y in d:
        n = d.pop(y)
        return _add2(const(n), _fdivs(mk_lin(c, d), y), 1)
    if not d and c == 0:
        return ZERO
    if d:
        lead = min(d, key=lambda t: t.id)
        if d[lead] < 0:
            inner = _add2(mk_lin(-c - 1, {t: -v for t, v in d.items()}), y, 1)
            return _add2(ZERO, _fdivs(inner, y), -1)
    return app('fdivt', x, y)


def fdiv(a, b):
    def f(x, y):
        if is_int(y):
            k = int(y.args[1])
            if not _num(x):
                return app('fdivt', x, y)
            if k > 0:
                return _fdivk(x, k)
            if k < 0:
                return _fdivk(scale(x, -1), -k)
            return unknown('div0')
        return _fdivs(x, y)
    return lift(f, a, b)


def mod(a, b):
    def f(x, y):
        q = fdiv(x, y)
        return sub(x, mul(y, q))
    return lift(f, a, b)


# ---------------------------------------------------------------- compare

def _lead_neg(items):
    return items[0][1] < 0


def le0(x):
    """boolean diagram of  x <= 0 for an integer leaf x"""
    if x.op == 'const':
        return TRUE if x.args[1] <= 0 else FALSE
    c, d = lin_parts(x)
    r = _count_le0(c, d)
    if r is not None:
        return r
    from math import gcd
    g = 0
    for v in d.values():
        g = gcd(g, abs(v))
    d = {t: v // g for t, v in d.items()}
    c = -((-c) // g)          # ceil
    items = sorted(d.items(), key=lambda p: p[0].id)
    if items[0][1] < 0:
        # -y + c <= 0  <=>  not (y - c + 1 <= 0)
        return b_not(atom(mk('le0', mk_lin(-c + 1, {t: -v for t, v in d.items()}))))
    if len(items) == 1 and items[0][1] == 1 and items[0][0].op == 'app' and \
            items[0][0].args[0] == 'str.find':
        f = items[0][0]
        if len(f.args) == 3:
            if c == 1:      # find <= -1  <=> not contained
                return b_not(contains_str(f.args[1], f.args[2]))
            if c == 0:
                return b_or(b_not(contains_str(f.args[1], f.args[2])), eq(f, ZERO))
    return atom(mk('le0', mk_lin(c, d)))


def contains_str(s, piece):
    if s.op == 'const' and piece.op == 'const':
        return TRUE if piece.args[1] in s.args[1] else FALSE
    return atom(mk('contains', s, piece))


def _count_le0(c, d):
    """c + sum(d) <= 0 on element counts: fold into existence atoms"""
    pos = [(t, k) for t, k in d.items()]
    if all(t.op == 'sum' and t.args[2] is ONE for t, k in pos):
        if all(k < 0 for t, k in pos) and c >= 1 and all(c + k <= 0 for t, k in pos):
            # c - k*count <= 0, k >= c: some count positive
            return b_or(*[exists(t.args[0], t.args[1]) for t, k in pos])
        if all(k > 0 for t, k in pos) and c <= 0 and all(c + k > 0 for t, k in pos):
            return b_not(b_or(*[exists(t.args[0], t.args[1]) for t, k in pos]))
        if len(pos) == 2 and pos[0][0].args[0] is pos[1][0].args[0]:
            (t1, k1), (t2, k2) = pos
            if k1 == -k2 and abs(k1) == 1:
                if k1 < 0:
                    t1, t2 = t2, t1
                # c + n(g1) - n(g2) <= 0
                g1, g2 = t1.args[1], t2.args[1]
                if b_and(g2, b_not(g1)) is FALSE:       # g2 subset of g1: n(g1 - g2) + c <= 0
                    extra = b_and(g1, b_not(g2))
                    if c == 0:
                        return b_not(exists(t1.args[0], extra))
                    if c == 1:
                        return FALSE
                    if c > 1:
                        return FALSE
                if b_and(g1, b_not(g2)) is FALSE:       # g1 subset of g2: c <= n(g2 - g1)
                    extra = b_and(g2, b_not(g1))
                    if c == 1:
                        return exists(t1.args[0], extra)
                    if c <= 0:
                        return TRUE
    return None


def eq0(x):
    if x.op == 'const':
        return TRUE if x.args[1] == 0 else FALSE
    c, d = lin_parts(x)
    if all(t.op == 'sum' and t.args[2] is ONE for t in d):
        pos = list(d.items())
        if c == 0 and (all(k > 0 for t, k in pos) or all(k < 0 for t, k in pos)):
            return b_not(b_or(*[exists(t.args[0], t.args[1]) for t, k in pos]))
        if c == 0 and len(pos) == 2 and pos[0][0].args[0] is pos[1][0].args[0] and \
                pos[0][1] == -pos[1][1]:
            g1, g2 = pos[0][0].args[1], pos[1][0].args[1]
            lv = pos[0][0].args[0]
            if b_and(g2, b_not(g1)) is FALSE:
                return b_not(exists(lv, b_and(g1, b_not(g2))))
            if b_and(g1, b_not(g2)) is FALSE:
                return b_not(exists(lv, b_and(g2, b_not(g1))))
    from math import gcd
    g = 0
    for v in d.values():
        g = gcd(g, abs(v))
    if c % g:
        return FALSE
    items = sorted(d.items(), key=lambda p: p[0].id)
    s = g if items[0][1] > 0 else -g
    y = mk_lin(c // s, {t: v // s for t, v in d.items()})
    if len(items) == 1 and items[0][0].op == 'app' and items[0][0].args[0] == 'str.find' and c // s == 1:
        f = items[0][0]
        if len(f.args) == 3:
            return b_not(contains_str(f.args[1], f.args[2]))
    return atom(mk('eq0', y))


def bool_to_int(t):
    if t is TRUE:
        return ONE
    if t is FALSE:
        return ZERO
    return t


def le(a, b):
    def f(x, y):
        x, y = bool_to_int(x), bool_to_int(y)
        if x.op == 'tuple' and y.op == 'tuple':
            return tuple_le(x, y, False)
        if typ(x) == 'str' or typ(y) == 'str' or 'tuple' in (typ(x), typ(y)):
            if x is y:
                return TRUE
            if is_const(x) and is_const(y):
                return TRUE if x.args[1] <= y.args[1] else FALSE
            return atom(mk('sle', x, y))
        if x.op == 'unknown' or y.op == 'unknown' or not (_num(x) and _num(y)):
            return atom(mk('sle', x, y))
        return le0(_add2(x, y, -1))
    return lift(f, a, b)


def lt(a, b):
    return b_not(le(b, a))


def tuple_le(x, y, strict):
    n = min(len(x.args), len(y.args))
    if len(x.args) != len(y.args):
        return atom(mk('sle', x, y))
    r = FALSE if strict else TRUE
    for i in reversed(range(n)):
        p, q = x.args[i], y.args[i]
        r = b_or(lt(p, q), b_and(eq(p, q), r))
    return r


def eq(a, b):
    def f(x, y):
        if x is y:
            return TRUE
        x2, y2 = bool_to_int(x), bool_to_int(y)
        if is_const(x) and is_const(y):
            try:
                return TRUE if x.args[1] == y.args[1] else FALSE
            except Exception:
                return FALSE
        if x.op == 'tuple' and y.op == 'tuple':
            if len(x.args) != len(y.args):
                return FALSE
            return b_and(*[eq(p, q) for p, q in zip(x.args, y.args)])
        if x.op == 'elemkey' and y.op == 'elemkey' and (x.args[0], y.args[0]) in DISJOINT:
            return FALSE
        tx, ty = typ(x2), typ(y2)
        if x is NONE or y is NONE:
            o = y if x is NONE else x
            return isnone(o)
        if tx in ('int', 'bool') and ty in ('int', 'bool', None) and y2.op != 'unknown' or \
           ty in ('int', 'bool') and tx in ('int', 'bool', None) and x2.op != 'unknown':
            return eq0(_add2(x2, y2, -1))
        if tx and ty and tx != ty and {tx, ty} & {'str', 'int', 'tuple', 'ref'} == {tx, ty}:
            return FALSE
        if x.op == 'ref' and y.op == 'ref':
            return atom(mk('eqs', *sorted((x, y), key=lambda z: z.id)))
        # constant last
        if is_const(x) or (not is_const(y) and x.id > y.id):
            x, y = y, x
        return atom(mk('eqs', x, y))
    return lift(f, a, b)


def isnone(t):
    def f(x):
        if x is NONE:
            return TRUE
        if x.op in ('const', 'lin', 'fdiv', 'cat', 'fmt', 'tuple', 'ref', 'sum', 'foreach', 'pos', 'fn', 'elemkey'):
            return FALSE
        if typ(x) in ('int', 'str', 'bool', 'tuple'):
            return FALSE
        return atom(mk('isnone', x))
    return lift(f, t)


def as_bool(t, truth=None):
    """truthiness of a value as a boolean diagram"""
    if t is TRUE or t is FALSE:
        return t
    if t.op == 'ite':
        bad = False
        for l in leaves(t):
            if l is not TRUE and l is not FALSE:
                bad = True
                break
        if not bad:
            return t
        return lift(lambda x: as_bool(x, truth), t)
    if t.op == 'const':
        return TRUE if t.args[1] else FALSE
    if truth is not None:
        r = truth(t)
        if r is not None:
            return r
    if t.op == 'tuple':
        return TRUE if t.args else FALSE
    if t.op in BOOLATOMS:
        return atom(t)
    if t.op == 'app' and t.args[0] in BOOLAPPS:
        return atom(t)
    ty = typ(t)
    if ty == 'bool':
        return atom(mk('truthy', t))
    if ty == 'int':
        return b_not(eq0(t))
    if ty == 'str':
        if t.op == 'cat' and any(p.op == 'const' for p in t.args):
            return TRUE
        return b_not(eq(t, EMPTY))
    if t.op == 'fn':
        return TRUE
    return atom(mk('truthy', t))


BOOLATOMS = {'named', 'before', 'member', 'le0', 'eq0', 'eqs', 'sle', 'isnone', 'truthy', 'contains', 'in', 'exists', 'sel', 'exc', 'seen', 'seenat'}


def name_guard(g, limit=1):
    """give a compound guard a name: one atom that can be unfolded on demand"""
    if g.op != 'ite' or len(atoms_of(g)) <= limit:
        return g
    return atom(mk('named', g))


def unname(t, which=None):
    """replace named guards (those accepted by `which`) by their definition, one step"""
    m = {}
    for a in atoms_of(t):
        if a.op == 'named' and (which is None or which(a)):
            m[a] = a.args[0]
    if not m:
        return t
    memo = {}

    def go(x):
        if x.op != 'ite':
            return x
        r = memo.get(x.id)
        if r is None:
            c = m.get(x.args[0])
            r = ite(atom(x.args[0]) if c is None else c, go(x.args[1]), go(x.args[2]))
            memo[x.id] = r
        return r
    return go(t)


# ---------------------------------------------------------------- elements

NONEMPTY = set()      # input collections that are never empty


def exists(level, g):
    """some element of `level` satisfies g (a boolean diagram)"""
    g = as_bool(g)
    if g is FALSE:
        return FALSE
    if g is TRUE and level in NONEMPTY:
        return TRUE
    if g is TRUE and level.op == 'range' and len(level.args) == 3 and level.args[2] is ONE:
        return lt(level.args[0], level.args[1])
    g = _drop_before(level, g)
    # a guard that does not depend on the element splits off
    ind = [a for a in atoms_of(g) if not depends_on_level(a, level)]
    if ind:
        a = ind[0]
        hi = exists(level, restrict_atom(g, a, True))
        lo = exists(level, restrict_atom(g, a, False))
        return ite(atom(a), hi, lo)
    if level.op == 'src':
        # keys are unique: some element with key k satisfies g when the one at k does
        for a in atoms_of(g):
            if a.op == 'eqs':
                x, k = a.args
                if k.op == 'elemkey' and k.args[0] is level:
                    x, k = k, x
                if x.op == 'elemkey' and x.args[0] is level and level not in free_levels(k) and \
                        restrict_atom(g, a, False) is FALSE:
                    return b_and(isin(k, level), at(pick(level, k), restrict_atom(g, a, True)))
    return atom(mk('exists', level, g))


def at_most_one(level, g):
    """g names a single element of the level by its key"""
    if level.op != 'src':
        return False
    for a in atoms_of(g):
        if a.op == 'eqs' and any(x.op == 'elemkey' and x.args[0] is level and level not in free_levels(k)
                                 for x, k in (a.args, a.args[::-1])) and restrict_atom(g, a, False) is FALSE:
            return True
    return False


def _drop_before(level, g, order=None):
    """some(x and not some-earlier(E)) is some(x) when every E satisfies x"""
    for a in atoms_of(g):
        if a.op == 'before' and a.args[0] is level and (order is None or a.args[2] is order):
            if restrict_atom(g, a, True) is FALSE:
                x = restrict_atom(g, a, False)
                if implies(a.args[1], x):
                    return _drop_before(level, x, order)
    return g


def before(level, g, order):
    g = as_bool(g)
    if g is FALSE:
        return FALSE
    g2 = _drop_before(level, g, order)
    ind = [a for a in atoms_of(g2) if not depends_on_level(a, level)]
    if ind:
        a = ind[0]
        return ite(atom(a), before(level, restrict_atom(g2, a, True), order),
                   before(level, restrict_atom(g2, a, False), order))
    return atom(mk('before', level, g2, order))


def restrict_atom(t, a, v):
    memo = {}

    def go(x):
        if x.op != 'ite':
            return x
        r = memo.get(x.id)
        if r is None:
            if x.args[0] is a:
                r = go(x.args[1] if v else x.args[2])
            else:
                r = ite(atom(x.args[0]), go(x.args[1]), go(x.args[2]))
            memo[x.id] = r
        return r
    return go(t)


def free_levels(t):
    """names of element sources that t depends on (free, i.e. not bound by exists/sum inside)"""
    if t._free is not None:
        return t._free
    out = set()
    if t.op in ('elemkey', 'elemval', 'before'):
        out.add(t.args[0])
        out |= free_levels_level(t.args[0])
        for x in t.args[1:]:
            if isinstance(x, T) and t.op == 'before':
                out |= free_levels(x) - {t.args[0]}
    elif t.op == 'sel':
        tag = t.args[0]
        out |= {tag.args[0]} | free_levels_level(tag.args[0]) | free_levels(tag)
    elif t.op == 'pick':
        out |= free_levels(t.args[1]) | free_levels_level(t.args[0])
    elif t.op == 'edge':
        out |= free_levels_level(t.args[0])
        out |= free_levels(t.args[2]) - {t.args[0]}
    elif t.op == 'at':
        tag = t.args[0]
        out |= free_levels(tag) | (free_levels(t.args[1]) - {tag.args[0]})
    elif t.op == 'extcall':
        for x in t.args[-1]:
            out.add(x)
        for x in _children(t):
            if x.op != 'src':
                out |= free_levels(x)
    elif t.op in ('seenat', 'valat'):
        out |= {t.args[0]} | free_levels_level(t.args[0]) | free_levels(t.args[1])
        for x in t.args[2:]:
            out |= free_levels(x) - {t.args[0]}
    elif t.op in ('seen', 'carried'):
        out |= set(t.args[-1])
        for x in t.args[-1]:
            out |= free_levels_level(x)
        for x in t.args[:-1]:
            if isinstance(x, T):
                out |= free_levels(x)
    elif t.op in ('last', 'fold', 'first', 'lastsel', 'jlast'):
        inner = set()
        for x in t.args[1:]:
            if isinstance(x, T):
                inner |= free_levels(x)
        for x in t.args[0]:
            inner.discard(x)
            out |= free_levels_level(x)
        out |= inner
    elif t.op in ('prev', 'psum', 'sofar', 'pfold', 'jprev'):
        for x in t.args[0]:
            out.add(x)
        for x in t.args[1:]:
            if isinstance(x, T):
                out |= free_levels(x)
    elif t.op == 'sym':
        out |= set(SYM_LEVELS.get(t.args[0], ()))
    elif t.op in ('pos',):
        for x in t.args[0]:
            out.add(x)
            out |= free_levels_level(x)
    elif t.op == 'foreach':
        inner = set()
        for x in t.args[1:]:
            if isinstance(x, T):
                inner |= free_levels(x)
        for x in t.args[0]:
            inner.discard(x)
            out |= free_levels_level(x)
        out |= inner
    elif t.op in ('exists', 'sum'):
        inner = set()
        for x in t.args[1:]:
            if isinstance(x, T):
                inner |= free_levels(x)
        lv = t.args[0]
        inner.discard(lv)
        out |= inner
        out |= free_levels_level(lv)
    else:
        for x in _children(t):
            out |= free_levels(x)
    t._free = frozenset(out)
    return t._free


def free_levels_level(lv):
    """a level (source) term may itself sit inside an enclosing element"""
    out = set()
    if lv.op == 'src' and lv.args[1] is not None:
        out.add(lv.args[1])
        out |= free_levels_level(lv.args[1])
    elif lv.op == 'src':
        pass
    else:
        for x in _children(lv):
            if x.op in ('src',):
                out |= free_levels_level(x)
            else:
                out |= free_levels(x)
    return out


def _children(t):
    for a in t.args:
        if isinstance(a, T):
            yield a
        elif isinstance(a, tuple):
            for p in a:
                if isinstance(p, T):
                    yield p
                elif isinstance(p, tuple):
                    for q in p:
                        if isinstance(q, T):
                            yield q


SYM_LEVELS = {}


def depends_on_level(t, level):
    return level in free_levels(t)


def sum_over(level, guard, value):
    """sum of value over elements of level satisfying guard"""
    total = {}
    c = ZERO
    val = ite(as_bool(guard), value, ZERO)
    r = ZERO
    for leaf, g in guarded_leaves(val):
        leaf = bool_to_int(leaf)
        cst, d = lin_parts(leaf) if _num(leaf) else (0, {leaf: 1})
        if cst:
            r = add(r, scale_t(_sum1(level, g, ONE), cst))
        for t, k in d.items():
            r = add(r, scale_t(_sum1(level, g, t), k))
    return r


def scale_t(t, k):
    return lift(lambda x: scale(x, k), t)


def _sum1(level, g, v):
    ind = [a for a in atoms_of(g) if not depends_on_level(a, level)]
    if g is FALSE:
        return ZERO
    if ind:
        a = ind[0]
        return ite(atom(a), _sum1(level, restrict_atom(g, a, True), v),
                   _sum1(level, restrict_atom(g, a, False), v))
    return mk('sum', level, g, v)


# ---------------------------------------------------------------- facts

class Facts:
    """conjunction of literals, plus derived constants and intervals"""
    __slots__ = ('lits', 'eqc', 'bnd', 'bdds', 'id', 'open', 'done')
    _n = [0]

    def __init__(self, lits=None, eqc=None, bnd=None, bdds=(), open_=()):
        self.open = open_
        self.lits = lits or {}
        self.eqc = eqc or {}
        self.bnd = bnd or {}
        self.bdds = bdds
        self.done = not self.lits
        Facts._n[0] += 1
        self.id = Facts._n[0]

    # ---- querying
    def decide(self, a):
        v = self.lits.get(a)
        if v is not None:
            return v
        op = a.op
        if op == 'le0' or op == 'eq0':
            lo, hi = self.range(a.args[0])
            if op == 'le0':
                if hi is not None and hi <= 0:
                    return True
                if lo is not None and lo > 0:
                    return False
            else:
                if lo is not None and lo > 0 or hi is not None and hi < 0:
                    return False
                if lo == 0 and hi == 0:
                    return True
        elif op == 'eqs':
            x, y = a.args
            cx = self.eqc.get(x)
            if cx is not None and is_const(y):
                return cx is y
            cy = self.eqc.get(y)
            if cx is not None and cy is not None:
                return cx is cy
        elif op == 'contains':
            x, y = a.args
            cx = self.eqc.get(x)
            if cx is not None and is_const(y):
                return y.args[1] in cx.args[1]
        elif op == 'named':
            if self.done and self.lits:
                r = self.restrict(a.args[0])
                return True if r is TRUE else False if r is FALSE else None
        elif op == 'before':
            lv, g = a.args[0], a.args[1]
            for b, val in self.lits.items():
                if val is False and b.op == 'exists' and b.args[0] is lv and implies(g, b.args[1]):
                    return False
                if b.op == 'before' and b.args[0] is lv and b.args[2] is a.args[2]:
                    if val is False and implies(g, b.args[1]):
                        return False
                    if val is True and implies(b.args[1], g):
                        return True
        elif op == 'exists':
            # exists(l, g) false if exists(l, g') false with g => g'
            lv, g = a.args
            for b, val in self.lits.items():
                if b.op == 'exists' and b.args[0] is lv:
                    if val is False and implies(g, b.args[1]):
                        return False
                    if val is True and implies(b.args[1], g):
                        return True
        return None

    def range(self, t):
        """(lo, hi) of an integer leaf"""
        if t.op == 'const':
            return int(t.args[1]), int(t.args[1])
        c, d = lin_parts(t)
        items = tuple(sorted(d.items(), key=lambda p: p[0].id))
        from math import gcd
        g = 0
        for _, v in items:
            g = gcd(g, abs(v))
        s = g if items[0][1] > 0 else -g
        key = tuple((x, v // s) for x, v in items)
        lo = hi = None
        b = self.bnd.get(key)
        if b:
            lo, hi = b
        # term-wise
        tlo = thi = 0
        for x, v in key:
            xl, xh = self.term_range(x, single=len(key) == 1)
            if v > 0:
                l2, h2 = (None if xl is None else xl * v), (None if xh is None else xh * v)
            else:
                l2, h2 = (None if xh is None else xh * v), (None if xl is None else xl * v)
            tlo = None if tlo is None or l2 is None else tlo + l2
            thi = None if thi is None or h2 is None else thi + h2
        # x - k*fdiv(x, k) in [0, k-1]
        r = _mod_pattern(dict(key))
        if r is None:
            r = _mod_pattern({x: -v for x, v in key})
            if r is not None:
                r = (-r[1], -r[0])
        if r is not None:
            tlo = r[0] if tlo is None else max(tlo, r[0])
            thi = r[1] if thi is None else min(thi, r[1])
        if lo is None or tlo is not None and tlo > lo:
            lo = tlo
        if hi is None or thi is not None and thi < hi:
            hi = thi
        if s > 0:
            return (None if lo is None else lo * s + c), (None if hi is None else hi * s + c)
        return (None if hi is None else hi * s + c), (None if lo is None else lo * s + c)

    def term_range(self, x, single=False):
        lo = hi = None
        if not single:
            b = self.bnd.get(((x, 1),))
            if b:
                lo, hi = b
        if x.op == 'fdiv':
            l, h = self.range(x.args[0])
            k = x.args[1]
            l = None if l is None else l // k
            h = None if h is None else h // k
        elif x.op == 'sum' and x.args[2] is ONE or x.op == 'pos':
            l, h = 0, None
        elif x.op == 'app' and x.args[0] == 'len':
            l, h = 0, None
        elif x.op == 'app' and x.args[0] == 'str.find':
            l, h = -1, None
        elif x.op == 'sym' and x.args[0] in SYM_RANGES:
            l, h = SYM_RANGES[x.args[0]]
        elif x.op == 'sym' and x.args[1] == 'bool':
            l, h = 0, 1
        else:
            l = h = None
        if lo is None or l is not None and l > lo:
            lo = l
        if hi is None or h is not None and h < hi:
            hi = h
        return lo, hi

    # ---- extending
    def assume(self, cond):
        """Facts with cond added, or None when contradictory"""
        cond = self.restrict(as_bool(cond))
        if cond is TRUE:
            return self
        if cond is FALSE:
            return None
        f = Facts(dict(self.lits), dict(self.eqc), dict(self.bnd), self.bdds, self.open)
        work = [cond]
        rest = list(self.bdds)
        rounds = 0
        while work:
            changed = False
            inst = []
            for c in work:
                imp = list(implied(c).items())
                while imp:
                    a, v = imp.pop()
                    if a in f.lits and f.lits[a] is v:
                        continue
                    if not f._lit(a, v):
                        return None
                    changed = True
                    if a.op == 'named':
                        d = f.restrict_now(a.args[0] if v else b_not(a.args[0]))
                        if d is FALSE:
                            return None
                        imp += implied(d).items()
                    if a.op == 'exists' and not v and a.args[0] in f.open:
                        inst.append(b_not(a.args[1]))
                c2 = f.restrict_now(c)
                if c2 is FALSE:
                    return None
                if c2 is not TRUE:
                    rest.append(c2)
            work = inst
            if changed:
                rounds += 1
                if rounds > 30:
                    break
                nrest = []
                for c in rest:
                    c2 = f.restrict_now(c)
                    if c2 is FALSE:
                        return None
                    if c2 is TRUE:
                        continue
                    if c2 is not c and implied(c2):
                        work.append(c2)
                    else:
                        nrest.append(c2)
                rest = nrest
        f.bdds = tuple(dict.fromkeys(rest))
        f.done = True
        return f

    def enter(self, lv):
        """facts inside an arbitrary element of lv"""
        if lv in self.open:
            return self.without(lv)
        f = Facts(dict(self.lits), dict(self.eqc), dict(self.bnd), self.bdds, self.open + (lv,))
        for a, v in list(self.lits.items()):
            if a.op == 'exists' and not v and a.args[0] is lv:
                g = f.assume(b_not(a.args[1]))
                if g is None:
                    return None
                f = g
        f.done = True
        return f

    def without(self, lv):
        """facts not about the element of lv: a nested iteration over the same collection is at another element"""
        def other(t):
            return lv not in free_levels(t)
        f = Facts({a: v for a, v in self.lits.items() if other(a)}, {a: v for a, v in self.eqc.items() if other(a)},
                  {k: v for k, v in self.bnd.items() if all(other(x) for x, _ in k)},
                  tuple(b for b in self.bdds if other(b)), self.open)
        f.done = True
        return f

    def _lit(self, a, v):
        old = self.decide(a)
        if old is not None:
            if old != v:
                return False
            if a in self.lits:
                return True
        self.lits[a] = v
        op = a.op
        if op in ('le0', 'eq0'):
            c, d = lin_parts(a.args[0])
            key = tuple(sorted(d.items(), key=lambda p: p[0].id))
            lo, hi = self.bnd.get(key, (None, None))
            if op == 'le0':
                if v:
                    hi = -c if hi is None else min(hi, -c)
                else:
                    l = -c + 1
                    lo = l if lo is None else max(lo, l)
            else:
                if v:
                    lo = -c if lo is None else max(lo, -c)
                    hi = -c if hi is None else min(hi, -c)
                else:
                    if lo == -c:
                        lo = -c + 1
                    if hi == -c:
                        hi = -c - 1
            for b, bv in self.lits.items():
                if b.op == 'eq0' and not bv:
                    c2, d2 = lin_parts(b.args[0])
                    if tuple(sorted(d2.items(), key=lambda p: p[0].id)) == key:
                        if lo == -c2:
                            lo = lo + 1
                        if hi == -c2:
                            hi = hi - 1
            if lo is not None and hi is not None and lo > hi:
                return False
            self.bnd[key] = (lo, hi)
            l2, h2 = self.range(a.args[0])
            if l2 is not None and h2 is not None and l2 > h2:
                return False
        elif op == 'eqs' and v:
            x, y = a.args
            if is_const(y):
                if x in self.eqc and self.eqc[x] is not y:
                    return False
                self.eqc[x] = y
                for b, bv in self.lits.items():
                    if b.op == 'eqs' and b.args[0] is x and b is not a and is_const(b.args[1]):
                        if bv and b.args[1] is not y:
                            return False
                    if b.op == 'contains' and b.args[0] is x and is_const(b.args[1]):
                        if bv != (b.args[1].args[1] in y.args[1]):
                            return False
        return True

    def restrict_now(self, t):
        return _restrict(t, self, {})

    def restrict(self, t):
        if t.op != 'ite':
            return t
        k = (self.id, t.id)
        r = _rmemo.get(k)
        if r is None:
            r = _restrict(t, self, {})
            if len(_rmemo) > 2000000:
                _rmemo.clear()
            _rmemo[k] = r
        return r


_rmemo = {}
SYM_RANGES = {}


def _mod_pattern(d):
    """range of x - k*(x//k) style forms inside d (exact match on the whole form)"""
    for t, v in d.items():
        if t.op == 'fdiv' and v < 0:
            k = t.args[1]
            c, dd = lin_parts(t.args[0])
            if -v % k == 0:
                m = -v // k
                # m * (x) - m*k*fdiv(x + c, k)
                rest = {x: y for x, y in d.items() if x is not t}
                if rest == {x: y * m for x, y in dd.items()}:
                    # m*(x+c - k*fdiv) in [0, m*(k-1)]; subtract m*c
                    return (-m * c, m * (k - 1) - m * c)
                # fdiv(x, a) - (b/a)*fdiv(x, b)
        if t.op == 'fdiv' and v == 1 and len(d) == 2:
            (o, w), = [(x, y) for x, y in d.items() if x is not t]
            if o.op == 'fdiv' and o.args[0] is t.args[0] and o.args[1] % t.args[1] == 0 and \
                    w == -(o.args[1] // t.args[1]):
                return (0, o.args[1] // t.args[1] - 1)
    return None


def _restrict(t, f, memo):
    if t.op != 'ite':
        return t
    r = memo.get(t.id)
    if r is None:
        v = f.decide(t.args[0])
        if v is True:
            r = _restrict(t.args[1], f, memo)
        elif v is False:
            r = _restrict(t.args[2], f, memo)
        else:
            hi = _restrict(t.args[1], f, memo)
            lo = _restrict(t.args[2], f, memo)
            r = t if hi is t.args[1] and lo is t.args[2] else ite(atom(t.args[0]), hi, lo)
        memo[t.id] = r
    return r


_impmemo = {}


def implied(c):
    """literals implied by a boolean diagram"""
    r = _impmemo.get(c.id)
    if r is not None:
        return r
    if c.op != 'ite':
        r = {}
    else:
        a, hi, lo = c.args
        if lo is FALSE:
            r = dict(implied(hi))
            r[a] = True
        elif hi is FALSE:
            r = dict(implied(lo))
            r[a] = False
        elif hi is TRUE or lo is TRUE:
            r = {}
        else:
            ih, il = implied(hi), implied(lo)
            r = {x: v for x, v in ih.items() if il.get(x) is v}
    _impmemo[c.id] = r
    return r


_implies_memo = {}


def implies(g, h):
    """g => h as diagrams (plus theory)"""
    if g is h or g is FALSE or h is TRUE:
        return True
    k = (g.id, h.id)
    r = _implies_memo.get(k)
    if r is None:
        _implies_memo[k] = False
        x = b_and(g, b_not(h))
        r = x is FALSE or not feasible(x, Facts(), 200)
        _implies_memo[k] = r
    return r


def feasible(c, facts, budget=2000):
    """is there a theory-consistent path to TRUE?  (True when in doubt)"""
    return find_path(c, facts, budget) is not None


def find_path(c, facts, budget=4000):
    n = [0]

    def go(c, f):
        n[0] += 1
        if n[0] > budget:
            return f
        c = f.restrict_now(c)
        if c is FALSE:
            return None
        if c is TRUE:
            return f
        a = c.args[0]
        for v, br in ((True, c.args[1]), (False, c.args[2])):
            if br is FALSE:
                continue
            f2 = f.assume(atom(a) if v else b_not(atom(a)))
            if f2 is not None:
                r = go(br, f2)
                if r is not None:
                    return r
        return None
    return go(as_bool(c), facts)


def diff(a, b, facts=None, budget=4000, leafeq=None):
    """None if a and b agree on every feasible path, else (facts, leaf_a, leaf_b)."""
    facts = facts or Facts()
    n = [0]

    def go(a, b, f):
        if a is b:
            return None
        n[0] += 1
        if n[0] > budget:
            return None          # undecided: quiet
        a, b = f.restrict_now(a), f.restrict_now(b)
        if a is b:
            return None
        if a.op != 'ite' and b.op != 'ite':
            if leafeq is not None and leafeq(a, b, f):
                return None
            if _num(a) and _num(b) and typ(a) != 'str':
                d = _add2(bool_to_int(a), bool_to_int(b), -1)
                if f.range(d) == (0, 0):
                    return None
            ca, cb = f.eqc.get(a, a), f.eqc.get(b, b)
            if ca is cb:
                return None
            return f, a, b
        top = None
        for t in (a, b):
            if t.op == 'ite' and (top is None or t.args[0].id < top.id):
                top = t.args[0]
        for v in (True, False):
            f2 = f.assume(atom(top) if v else b_not(atom(top)))
            if f2 is None:
                continue
            r = go(cof(a, top, v), cof(b, top, v), f2)
            if r is not None:
                return r
        return None
    return go(a, b, facts)


# ---------------------------------------------------------------- substitution

def subst(t, m, memo=None):
    """replace leaf terms by mapping (T -> T), rebuilding normal forms"""
    if memo is None:
        memo = {}
    r = memo.get(t.id)
    if r is not None:
        return r
    if t in m:
        r = m[t]
    elif t.op in ('const', 'sym', 'unknown', 'ref', 'fn', 'src', 'elemkey'):
        r = t
    else:
        r = rebuild(t, lambda x: subst(x, m, memo))
    memo[t.id] = r
    return r


def rebuild(t, f):
    op = t.op
    if op == 'ite':
        a = f(t.args[0])
        return ite(as_bool(a), f(t.args[1]), f(t.args[2]))
    if op == 'lin':
        r = const(t.args[0])
        for x, k in t.args[1]:
            r = add(r, lift(lambda y, k=k: scale(y, k), f(x)))
        return r
    if op == 'fdiv':
        return fdiv(f(t.args[0]), const(t.args[1]))
    if op == 'le0':
        return lift(lambda y: le0(y), f(t.args[0]))
    if op == 'eq0':
        return lift(lambda y: eq0(y), f(t.args[0]))
    if op == 'eqs':
        return eq(f(t.args[0]), f(t.args[1]))
    if op == 'sle':
        return le(f(t.args[0]), f(t.args[1]))
    if op == 'isnone':
        return isnone(f(t.args[0]))
    if op == 'truthy':
        return as_bool(f(t.args[0]))
    if op == 'exists':
        return exists(f(t.args[0]), f(t.args[1]))
    if op == 'named':
        return name_guard(f(t.args[0]))
    if op == 'before':
        return before(f(t.args[0]), f(t.args[1]), t.args[2])
    if op == 'at':
        return at(f(t.args[0]), f(t.args[1]))
    if op == 'in':
        return isin(f(t.args[0]), f(t.args[1]))
    if op == 'call':
        # the body is closed over its own parameters
        return mk('call', t.args[0], *[f(x) for x in t.args[1:]])
    if op == 'sum':
        return sum_over(f(t.args[0]), f(t.args[1]), f(t.args[2]))
    if op == 'cat':
        return cat(*[f(x) for x in t.args])
    if op == 'app' and t.args[0] == 'mul':
        r = f(t.args[1])
        for x in t.args[2:]:
            r = mul(r, f(x))
        return r
    if op == 'app' and t.args[0] == 'fdivt':
        return fdiv(f(t.args[1]), f(t.args[2]))
    return mk(op, *[f(a) if isinstance(a, T) else _rebuild_tuple(a, f) for a in t.args])


def _rebuild_tuple(a, f):
    if isinstance(a, tuple):
        return tuple(f(x) if isinstance(x, T) else _rebuild_tuple(x, f) for x in a)
    return a


DISJOINT = set()      # pairs of levels whose keys never coincide
CLOSED = {}           # key term -> level it is known to belong to


def _closed(k, lv):
    while k.op == 'at':
        k = k.args[1]
    return CLOSED.get(k) is lv


def isin(k, lv):
    def g(k):
        if k is NONE:
            return FALSE
        if k.op == 'elemkey' and k.args[0] is lv:
            return TRUE
        if CLOSED and _closed(k, lv):
            return TRUE
        if DISJOINT and ((k.op == 'elemkey' and (k.args[0], lv) in DISJOINT) or (CLOSED.get(k), lv) in DISJOINT):
            return FALSE
        return atom(mk('in', k, lv))
    return lift(g, k)


def pick(lv, k):
    return mk('pick', lv, k)


_atmemo = {}


def at(tag, v):
    """the value v of an arbitrary element of tag's level, taken at the tagged element"""
    if tag.op == 'ite':
        return lift(lambda t: at(t, v), tag)
    lv = tag.args[0]
    if tag.op == 'pick' and tag.args[1].op == 'elemkey' and tag.args[1].args[0] is lv:
        return v
    memo = _atmemo.setdefault(tag.id, {})

    def go(t):
        r = memo.get(t.id)
        if r is not None:
            return r
        op = t.op
        if lv not in free_levels(t):
            r = t
        elif op == 'sel':
            r = TRUE if t.args[0] is tag else atom(mk('at', tag, t))
        elif op == 'elemkey' and t.args[0] is lv:
            r = tag.args[1] if tag.op == 'pick' else mk('at', tag, t)
        elif op in ('sym', 'elemval', 'elemkey', 'prev', 'psum', 'pos', 'carried', 'valat', 'extcall', 'sofar', 'pfold',
                    'jprev', 'jlast'):
            r = mk('at', tag, t)
        elif op in ('before', 'exists', 'member', 'seen', 'seenat'):
            r = atom(mk('at', tag, t))
        elif op in ('sum', 'last', 'first', 'fold', 'foreach', 'at', 'unknown', 'pick', 'edge', 'ref'):
            r = mk('at', tag, t)
        elif op == 'ite':
            a = go(t.args[0])
            r = ite(as_bool(a), go(t.args[1]), go(t.args[2]))
        else:
            r = rebuild(t, go)
        memo[t.id] = r
        return r
    return go(v)


def sel(tag):
    """this element of tag's level is the tagged one"""
    if tag.op == 'ite':
        return lift(sel, tag)
    if tag.op == 'pick':
        return eq(mk('elemkey', tag.args[0]), tag.args[1])
    return atom(mk('sel', tag))


def contains_term(t, pred, memo=None):
    if memo is None:
        memo = {}
    r = memo.get(t.id)
    if r is None:
        memo[t.id] = False
        r = bool(pred(t)) or any(contains_term(x, pred, memo) for x in _children(t))
        memo[t.id] = r
    return r


def walk(t, seen=None):
    """all subterms"""
    if seen is None:
        seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        yield x
        st.extend(_children(x))


# ---------------------------------------------------------------- printing

def show(t, depth=6):
    if depth == 0:
        return '…'
    s = lambda x: show(x, depth - 1)
    op = t.op
    if op == 'const':
        return repr(t.args[1])
    if op == 'sym':
        return t.args[0]
    if op == 'ite':
        if t.args[1] is TRUE and t.args[2] is FALSE:
            return s(t.args[0])
        if t.args[1] is FALSE and t.args[2] is TRUE:
            return '!' + s(t.args[0])
        return '(%s ? %s : %s)' % (s(t.args[0]), s(t.args[1]), s(t.args[2]))
    if op == 'lin':
        out = []
        for x, k in t.args[1]:
            out.append(('%s' if k == 1 else '%d*%%s' % k) % s(x))
        if t.args[0]:
            out.append(str(t.args[0]))
        return '(' + ' + '.join(out) + ')'
    if op == 'fdiv':
        return '(%s // %d)' % (s(t.args[0]), t.args[1])
    if op == 'le0':
        return '[%s <= 0]' % s(t.args[0])
    if op == 'eq0':
        return '[%s == 0]' % s(t.args[0])
    if op == 'eqs':
        return '[%s == %s]' % (s(t.args[0]), s(t.args[1]))
    if op == 'sle':
        return '[%s <= %s]' % (s(t.args[0]), s(t.args[1]))
    if op == 'contains':
        return '[%s in %s]' % (s(t.args[1]), s(t.args[0]))
    if op == 'in':
        return '[%s in %s]' % (s(t.args[0]), s(t.args[1]))
    if op == 'exists':
        return 'some(%s: %s)' % (s(t.args[0]), s(t.args[1]))
    if op == 'src':
        return t.args[0]
    if op == 'elemkey':
        return 'key(%s)' % s(t.args[0])
    if op == 'tuple':
        return '(' + ', '.join(s(x) for x in t.args) + ')'
    if op == 'cat':
        return 'cat(' + ', '.join(s(x) for x in t.args) + ')'
    if op == 'app':
        return '%s(%s)' % (t.args[0], ', '.join(s(x) if isinstance(x, T) else str(x) for x in t.args[1:]))
    if op == 'ref':
        return 'ref:%s' % (t.args[0],)
    return '%s(%s)' % (op, ', '.join(s(x) if isinstance(x, T) else str(x)[:40] for x in t.args))


def unname_all(g):
    for _ in range(40):
        h = unname(g)
        if h is g:
            return g
        g = h
    return g
