"""Expressions, calls, containers and library models for the lifter."""
import ast
from . import terms as X
from .terms import (mk, const, TRUE, FALSE, NONE, ZERO, ONE, EMPTY, ite, atom, lift, b_and, b_or,
                    b_not, as_bool, eq, le, lt)
from .engine import (NoStream, FoundStream, Engine, Func, Cls, Cell, St, Flows, Dead, Broken, MISSING, UNBOUND, INS, HASH, FS,
                     order_sorted, one, seq_loop)

BUILTINS = {'len', 'range', 'enumerate', 'sorted', 'list', 'set', 'dict', 'tuple', 'str', 'int', 'bool', 'any', 'all',
            'sum', 'min', 'max', 'abs', 'ord', 'chr', 'isinstance', 'print', 'open', 'zip', 'reversed', 'hex', 'map',
            'filter', 'Exception', 'ValueError', 'KeyError', 'RuntimeError', 'AssertionError', 'bytearray', 'bytes',
            'float', 'repr', 'super', 'getattr', 'hasattr', 'setattr', 'type', 'divmod', 'round', 'frozenset', 'iter',
            'next', 'id', 'hash', 'object', 'NotImplementedError', 'TypeError', 'IndexError', 'OverflowError',
            'staticmethod', 'classmethod', 'property', 'vars', 'globals', 'format', 'callable', 'pow', 'input', 'OSError', 'FileExistsError', 'StopIteration', 'locals', 'bin', 'slice'}

STRM = {'strip', 'lstrip', 'rstrip', 'lower', 'upper', 'replace', 'split', 'join', 'find', 'rfind', 'startswith',
        'endswith', 'isdigit', 'format', 'encode', 'splitlines', 'index', 'isalpha', 'isalnum', 'count', 'title',
        'partition', 'rpartition', 'zfill', 'ljust', 'rjust', 'center', 'translate', 'isdecimal', 'isnumeric', 'isspace',
        'capitalize', 'swapcase', 'casefold', 'removeprefix', 'removesuffix', 'expandtabs', 'rsplit', 'isupper', 'islower', 'isidentifier', 'isascii'}


class Interp(Engine):

    # ------------------------------------------------------------ names
    def name(self, e, st):
        n = e.id
        v = st.env.get(n)
        if v is None:
            fn, mod = self.curfn[-1]
            for env in reversed(self.closures[-1] if self.closures else ()):
                v = env.get(n)
                if v is not None:
                    break
            if v is None:
                v = self.modules.get(mod, {}).get(n)
        if v is None:
            if n in BUILTINS:
                return mk('builtin', n)
            if n == '__file__' or n == '__doc__':
                return mk('sym', n, 'str')
            return X.unknown('name:' + n)
        if v.op == 'unbound':
            self.event('unbound', e, st, n)
            return mk('unknown', 'unbound', 0)
        if v.op == 'ite' and any(l is UNBOUND for l in X.leaves(v)):
            v = st.facts.restrict(v)
            ls = [l for l in X.leaves(v) if l is UNBOUND]
            if ls:
                g = lift(lambda x: TRUE if x is UNBOUND else FALSE, v)
                self.event('unbound', e, st, n)
                v = lift(lambda x: mk('unknown', 'unbound', 0) if x is UNBOUND else x, v)
        return v

    closures = ()

    # ------------------------------------------------------------ expressions
    def ev(self, e, st):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Broken('unsupported expression %s at %s' % (type(e).__name__, self.site(e)))
        return m(e, st)

    def e_Constant(self, e, st):
        if e.value is Ellipsis:
            return NONE
        if isinstance(e.value, bytes):
            return mk('bytes', e.value)
        return const(e.value)

    def e_Name(self, e, st):
        return self.name(e, st)

    def e_Attribute(self, e, st):
        return self.getattr(self.ev(e.value, st), e.attr, st, e)

    def e_Subscript(self, e, st):
        o = self.ev(e.value, st)
        if o.op in ('ext', 'class', 'builtin'):
            return mk('ext', 'generic')
        if isinstance(e.slice, ast.Slice):
            lo = self.ev(e.slice.lower, st) if e.slice.lower is not None else NONE
            hi = self.ev(e.slice.upper, st) if e.slice.upper is not None else NONE
            step = self.ev(e.slice.step, st) if e.slice.step is not None else NONE
            return self.slice(o, lo, hi, step, st, e)
        return self.getitem(o, self.ev(e.slice, st), st, e)

    def e_Starred(self, e, st):
        return mk('star', self.ev(e.value, st))

    def e_Tuple(self, e, st):
        return mk('tuple', *[self.ev(x, st) for x in e.elts])

    def e_List(self, e, st):
        return self.literal('list', e, st)

    def e_Set(self, e, st):
        return self.literal('set', e, st)

    def literal(self, kind, e, st):
        items = []
        for x in e.elts:
            v = self.ev(x, st)
            if v.op == 'star':
                items += self.items_of(v.args[0], st, x)
            else:
                items.append(one(None, v, TRUE, self.site(x)))
        return self.alloc(st, kind, e, items=tuple(items))

    def e_Dict(self, e, st):
        r = self.alloc(st, 'dict', e)
        for k, v in zip(e.keys, e.values):
            if k is None:
                self.method(r, 'update', [self.ev(v, st)], {}, st, e)
            else:
                kk = self.ev(k, st)
                self.setitem(r, kk, self.ev(v, st), st, v)
        return r

    def e_Lambda(self, e, st):
        f = Func(e, self.curfn[-1][1], dict(st.env))
        f.closure = (self.closures[-1] if self.closures else ()) + (dict(st.env),)
        self.fns.append(f)
        return mk('fn', len(self.fns) - 1)

    def e_JoinedStr(self, e, st):
        parts = []
        for p in e.values:
            if isinstance(p, ast.Constant):
                parts.append(const(p.value))
            else:
                parts.append(self.ev(p, st))
        return X.cat(*parts)

    def e_FormattedValue(self, e, st):
        v = self.ev(e.value, st)
        spec = EMPTY
        if e.format_spec is not None:
            spec = self.ev(e.format_spec, st)
        conv = e.conversion
        if conv not in (-1, 115):
            return mk('fmt', v, mk('conv', spec, conv))
        return self.fmt(v, spec, st)

    def fmt(self, v, spec, st):
        def f(x):
            if x.op == 'const' and spec.op == 'const':
                try:
                    return const(format(x.args[1], spec.args[1]))
                except Exception:
                    return mk('fmt', x, spec)
            if spec is EMPTY and X.typ(x) == 'str':
                return x
            return noted(mk('fmt', x, spec))

        def noted(t):
            # text forms that differ between runs
            x = t.args[0]
            c = st.heap.get(x.args[0]) if x.op == 'ref' else None
            if c is not None and c.kind == 'set':
                self.texts[t] = 'a set'
            elif c is not None and c.kind == 'obj' and c.cls is not None and getattr(c.cls, 'kind', None) != 'dataclass' and not any(
                    self.clsattr(c.cls, m) is not None for m in ('__str__', '__repr__', '__format__')):
                self.texts[t] = 'an object'
            elif x.op in ('fn', 'bound', 'class'):
                self.texts[t] = 'a function'
            return t
        if v.op == 'ite':
            if spec is EMPTY and all(X.typ(l) == 'str' for l in X.leaves(v)):
                return v
            return lift(f, v)
        return f(v)

    def e_BinOp(self, e, st):
        a = self.ev(e.left, st)
        b = self.ev(e.right, st)
        return self.binop(e.op, a, b, st, e)

    def binop(self, op, a, b, st, node):
        if isinstance(op, ast.Add):
            if self.has_ref(a) or self.has_ref(b):
                ia = self.items_of(a, st, node)
                ib = self.items_of(b, st, node)
                return self.alloc(st, 'list', node, items=tuple(ia) + tuple(ib))
            return X.add(a, b)
        if isinstance(op, ast.Sub):
            if self.has_ref(a):
                r = self.setalg(a, b, False, st, node)
                return r if r is not None else X.app('setdiff', a, b)
            return X.sub(a, b)
        if isinstance(op, ast.Mult):
            if self.has_ref(a) or self.has_ref(b):
                return X.app('replist', a, b)
            return X.mul(a, b)
        if isinstance(op, ast.FloorDiv):
            return X.fdiv(a, b)
        if isinstance(op, ast.Mod):
            if X.typ(a) == 'str' or a.op in ('cat',):
                return self.percent(a, b, st, node)
            return X.mod(a, b)
        if isinstance(op, ast.Div):
            return lift(lambda x, y: X.app('truediv', x, y), a, b)
        if isinstance(op, ast.Pow):
            def f(x, y):
                if X.is_int(x) and X.is_int(y) and X.cval(y) >= 0:
                    return const(int(X.cval(x)) ** int(X.cval(y)))
                return X.app('pow', x, y)
            return lift(f, a, b)
        if isinstance(op, ast.LShift):
            def f(x, y):
                if X.is_int(y) and 0 <= X.cval(y) <= 128:
                    return X.mul(x, const(1 << X.cval(y)))
                return X.app('shl', x, y)
            return lift(f, a, b)
        if isinstance(op, ast.RShift):
            def f(x, y):
                if X.is_int(y) and 0 <= X.cval(y) <= 128:
                    return X.fdiv(x, const(1 << X.cval(y)))
                return X.app('shr', x, y)
            return lift(f, a, b)
        if isinstance(op, (ast.BitAnd, ast.BitOr, ast.BitXor)):
            if self.has_ref(a) or self.has_ref(b):
                r = None
                if isinstance(op, ast.BitAnd):
                    r = self.setalg(a, b, True, st, node)
                elif isinstance(op, ast.BitOr) and self.is_set(a, st) and self.is_set(b, st):
                    r = self.alloc(st, 'set', node, items=tuple(self.items_of(a, st, node)) + tuple(self.items_of(b, st, node)))
                return r if r is not None else X.app(type(op).__name__, a, b)
            return lift(lambda x, y: self.bitop(type(op).__name__, x, y, st), a, b)
        return X.unknown('binop')

    def is_set(self, v, st):
        v = self.deref(v, st)
        return v.op == 'ref' and st.heap[v.args[0]].kind == 'set'

    def setalg(self, a, b, keep, st, node):
        """elements of the set a that are (not) in b"""
        if not self.is_set(a, st):
            return None
        a = self.deref(a, st)

        def go(its):
            out = []
            for it in its:
                if it[0] == 'one':
                    c = self.contains(it[2], b, st, node)
                    out.append(one(it[1], it[2], b_and(it[3], c if keep else b_not(c)), None))
                elif it[0] == 'loop':
                    inner = go(it[4])
                    if inner is None:
                        return None
                    out.append(('loop', it[1], it[2], it[3], tuple(inner)) + tuple(it[5:]))
                else:
                    return None
            return out
        items = go(self.ref_items(a, st))
        if items is None:
            return None
        return self.alloc(st, 'set', node, items=tuple(i for i in items if i[0] != 'one' or i[3] is not FALSE))

    def bitop(self, op, x, y, st):
        if X.is_int(x) and X.is_int(y):
            p, q = int(X.cval(x)), int(X.cval(y))
            return const({'BitAnd': p & q, 'BitOr': p | q, 'BitXor': p ^ q}[op])
        if X.is_int(x):
            x, y = y, x
        if X.is_int(y):
            k = int(X.cval(y))
            if op == 'BitAnd' and k >= 0:
                if k & (k + 1) == 0:
                    return X.mod(x, const(k + 1))
                low = (k & -k)
                top = k + low
                if top & (top - 1) == 0:
                    # contiguous run of ones: (x mod top) - (x mod low)
                    return X.sub(X.mod(x, const(top)), X.mod(x, const(low)))
        if op in ('BitOr', 'BitXor'):
            # x | y == x + y when the bits are disjoint
            for p, q in ((x, y), (y, x)):
                s = self.lowzeros(p)
                if s:
                    lo, hi = st.facts.range(q) if q.op != 'const' else (q.args[1], q.args[1])
                    if lo is not None and hi is not None and lo >= 0 and hi < s:
                        return X.add(p, q)
            lo, hi = (None, None)
        return mk('app', op, *sorted((x, y), key=lambda t: t.id))

    def lowzeros(self, t):
        """power of two dividing t"""
        c, d = X.lin_parts(t)
        g = 0
        from math import gcd
        g = abs(c)
        for k in d.values():
            g = gcd(g, abs(k))
        return (g & -g) if g else (1 << 40)

    def percent(self, a, b, st, node):
        if a.op == 'const':
            args = list(b.args) if b.op == 'tuple' else [b]
            import re
            out = []
            i = 0
            ok = True
            for piece in re.split(r'(%(?:[-+0 #]*\d*(?:\.\d+)?[sdxXrfc]|%))', X.cval(a)):
                if piece == '%%':
                    out.append(const('%'))
                elif re.match(r'%[-+0 #]*\d*(?:\.\d+)?[sdxXrfc]$', piece):
                    if i >= len(args):
                        ok = False
                        break
                    spec = piece[1:-1]
                    k = piece[-1]
                    sp = EMPTY if not spec and k in 'sd' else const(spec + (k if k not in 'sd' else ''))
                    out.append(self.fmt(args[i], sp, st))
                    i += 1
                else:
                    if '%' in piece:
                        ok = False
                    out.append(const(piece))
            if ok and i == len(args):
                return X.cat(*out)
            self.event('format-error', node, st, a)
            return X.app('str', X.app('percent', a, b))
        # a non-constant template: any conversion count mismatch raises
        if a.op == 'cat':
            lits = ''.join(X.cval(p) for p in a.args if p.op == 'const')
            if '%' not in lits:
                self.event('format-error', node, st, a)
        return X.app('str', X.app('percent', a, b))

    def has_ref(self, v):
        return any(l.op == 'ref' for l in X.leaves(v))

    def e_UnaryOp(self, e, st):
        if isinstance(e.op, ast.Not):
            return b_not(self.truth(self.ev(e.operand, st), st))
        v = self.ev(e.operand, st)
        if isinstance(e.op, ast.USub):
            return X.neg(v)
        if isinstance(e.op, ast.UAdd):
            return v
        return X.sub(X.neg(v), ONE)

    def e_BoolOp(self, e, st):
        return self.boolop(isinstance(e.op, ast.And), e.values, st)

    def boolop(self, is_and, vals, st):
        v = self.ev(vals[0], st)
        if len(vals) == 1:
            return v
        c = self.truth(v, st)
        if is_and:
            return self.ifelse(c, st, lambda x: self.boolop(is_and, vals[1:], x), lambda x: v)
        return self.ifelse(c, st, lambda x: v, lambda x: self.boolop(is_and, vals[1:], x))

    def ifelse(self, c, st, fa, fb):
        """conditional expression with side effects merged into st"""
        c0 = c
        c = st.facts.restrict(c)
        if c is TRUE:
            return fa(st)
        if c is FALSE:
            return fb(st)
        base = st.facts
        f1 = base.assume(c)
        f2 = base.assume(b_not(c))
        if f1 is None:
            return fb(st)
        if f2 is None:
            return fa(st)
        a, b = st.fork(), st.fork()
        a.facts, b.facts = f1, f2
        a.pc = b_and(st.pc, c)
        b.pc = b_and(st.pc, b_not(c))
        va = vb = None
        try:
            va = fa(a)
        except Dead:
            pass
        try:
            vb = fb(b)
        except Dead:
            pass
        if va is None and vb is None:
            raise Dead()
        if va is None:
            b.surv = b_and(b.surv, b_not(c))
            b.pc = st.pc
            st.become(b)
            return vb
        if vb is None:
            a.surv = b_and(a.surv, c)
            a.pc = st.pc
            st.become(a)
            return va
        m = self.merge2(c, a, b, base)
        m.facts = self.refacts(base, m) if (m.surv is not st.surv or m.pc is not st.pc) else base
        st.become(m)
        return ite(c, va, vb)

    def e_IfExp(self, e, st):
        c = self.cond(e.test, st)
        return self.ifelse(c, st, lambda x: self.ev(e.body, x), lambda x: self.ev(e.orelse, x))

    def e_NamedExpr(self, e, st):
        v = self.ev(e.value, st)
        st.env[e.target.id] = v
        return v

    def cond(self, e, st):
        return self.truth(self.ev(e, st), st)

    def truth(self, v, st):
        def f(t):
            t = self.deref(t, st)
            if t.op == 'ref':
                c = st.heap[t.args[0]]
                if c.kind in ('list', 'set', 'dict'):
                    g = self.nonempty(t, st)
                    return g
                return TRUE
            if t.op == 'view':
                return self.items_some(self.items_of(t, st, None))
            if t.op in ('class', 'bound', 'module', 'builtin', 'file'):
                return TRUE
            if t.op == 'nt':
                return TRUE
            if t.op == 'elemval' and X.typ(t) == 'str':
                return None
            if t.op == 'prev' and X.typ(t) == 'tuple':
                return atom(mk('truthy', t))
            return None
        return st.facts.restrict(as_bool(v, f))

    def nonempty(self, ref, st):
        c = st.heap[ref.args[0]]
        g = FALSE
        for k, v in c.fields.items():
            g = b_or(g, lift(lambda x: FALSE if x is MISSING else TRUE, self.tagged(v, ref.args[1])))
            if g is TRUE:
                return TRUE
        h = self.items_some(self.ref_items(ref, st))
        if ref.args[0][0] == 'kc':
            h = X.name_guard(h)
        return b_or(g, h)

    def items_some(self, items):
        g = FALSE
        for it in items:
            if it[0] == 'one':
                g = b_or(g, it[3])
            elif it[0] == 'loop':
                g = b_or(g, X.exists(it[1], b_and(it[3], self.items_some(it[4]))))
            elif it[0] == 'earlier':
                g = b_or(g, atom(mk('seen', NONE, mk('lk', it[1]), (it[1][3],))))
            else:
                g = b_or(g, atom(mk('truthy', it[1])))
            if g is TRUE:
                return TRUE
        return g

    def items_count(self, items):
        n = ZERO
        for it in items:
            if it[0] == 'one':
                n = X.add(n, ite(it[3], ONE, ZERO))
            elif it[0] == 'loop':
                n = X.add(n, X.sum_over(it[1], it[3], self.items_count(it[4])))
            elif it[0] == 'earlier':
                n = X.add(n, mk('psum', (it[1][3],), mk('lk', it[1]), INS))
            else:
                n = X.add(n, mk('app', 'len', it[1]))
        return n

    def e_Compare(self, e, st):
        left = self.ev(e.left, st)
        r = TRUE
        for i, (op, c) in enumerate(zip(e.ops, e.comparators)):
            right = self.ev(c, st)
            r = b_and(r, self.compare(op, left, right, st, e))
            left = right
        return r

    def compare(self, op, a, b, st, node):
        a, b = self.norm_ref(a, st), self.norm_ref(b, st)
        if isinstance(op, ast.Eq):
            return self.equal(a, b, st)
        if isinstance(op, ast.NotEq):
            return b_not(self.equal(a, b, st))
        if isinstance(op, (ast.Lt, ast.LtE, ast.Gt, ast.GtE)):
            if isinstance(op, (ast.Gt, ast.GtE)):
                a, b = b, a
            x, y = self.deref(a, st), self.deref(b, st)
            if self.is_set(x, st) and self.is_set(y, st):
                sub = self.m_set_issubset(x, [y], {}, st, node)
                if isinstance(op, (ast.Lt, ast.Gt)):
                    sub = b_and(sub, b_not(self.m_set_issubset(y, [x], {}, st, node)))
                return sub
            return lt(a, b) if isinstance(op, (ast.Lt, ast.Gt)) else le(a, b)
        if isinstance(op, ast.Is):
            return eq(a, b)
        if isinstance(op, ast.IsNot):
            return b_not(eq(a, b))
        if isinstance(op, ast.In):
            return self.contains(a, b, st, node)
        if isinstance(op, ast.NotIn):
            return b_not(self.contains(a, b, st, node))
        return atom(X.unknown('cmp'))

    def norm_ref(self, v, st):
        return v

    def equal(self, a, b, st):
        if self.has_ref(a) or self.has_ref(b):
            def f(x, y):
                if x is y:
                    return TRUE
                if x is NONE or y is NONE:
                    return FALSE if x.op == 'ref' or y.op == 'ref' else eq(x, y)
                if x.op == 'ref' and y.op == 'ref':
                    ix, iy = self.items_of(x, st, None), self.items_of(y, st, None)
                    if not iy or not ix:
                        return b_not(self.items_some(ix or iy))
                return atom(mk('eqs', x, y)) if x.op != 'const' else atom(mk('eqs', y, x))
            return lift(f, a, b)
        return eq(a, b)

    def contains(self, k, coll, st, node):
        def f(c):
            c = self.deref(c, st)
            if c.op == 'ref':
                cell = st.heap[c.args[0]]
                if cell.kind == 'dict':
                    return self.lookup(c, k, st)[0]
                if cell.kind == 'tally':
                    return self.items_have(self.ref_items(c, st), k)
                items = self.drop_seen(self.ref_items(c, st), c.args[0], True)
                return self.items_have(items, k)
            if c.op == 'tuple':
                return b_or(*[eq(k, x) for x in c.args])
            if c.op == 'view':
                if c.args[0] == 'keys':
                    return self.contains(k, c.args[1], st, node)
                return self.items_have(self.items_of(c, st, node), k)
            if X.typ(c) == 'str' or (c.op == 'const' and c.args[0] == 'str'):
                if X.typ(k) in ('str', None):
                    return lift(lambda kk: X.contains_str(c, kk), k)
            if c is NONE:
                return FALSE
            if c.op == 'app' and c.args[0] in ('str.split', 'str.rsplit', 'str.splitlines'):
                return self.items_have(self.items_of(c, st, node), k)
            return lift(lambda kk: atom(mk('member', kk, c)), k)
        return st.facts.restrict(lift(f, coll) if coll.op == 'ite' else f(coll))

    def items_have(self, items, k):
        def f(kk):
            return self.have1(items, kk)
        return lift(f, k) if k.op == 'ite' else f(k)

    def have1(self, items, k):
        g = FALSE
        for it in items:
            if it[0] == 'one':
                g = b_or(g, b_and(it[3], eq(it[2], k)))
            elif it[0] == 'loop':
                g = b_or(g, self.close_match(it[1], b_and(it[3], self.have1(it[4], k)), k)[0])
            elif it[0] == 'earlier':
                t = mk('seen', k, mk('lk', it[2]), (it[1][3],))
                self.seenlog.setdefault(it[1], {})[t] = it[2]
                g = b_or(g, atom(t))
            else:
                g = b_or(g, atom(mk('member', k, it[1])))
        return g

    def close_match(self, lv, m, k):
        """existential closure of a match condition over lv; returns (cond, tag or None)"""
        if m is FALSE:
            return FALSE, None
        if k.op == 'elemkey' and k.args[0] is lv:
            return m, None
        kl = X.free_levels(k)
        key = mk('elemkey', lv)
        A = eq(key, k)
        if A.op == 'ite' and lv not in kl:
            a = A.args[0]
            m0 = X.restrict_atom(m, a, A.args[1] is not TRUE)
            if m0 is FALSE and a in X.atoms_of(m):
                m1 = X.restrict_atom(m, a, A.args[1] is TRUE)
                tag = X.pick(lv, k)
                return b_and(X.isin(k, lv), X.at(tag, m1)), tag
        if lv in kl:
            # the wanted key itself varies with the same level: this element, or one with an equal key
            if m is TRUE:
                return TRUE, None
            other = atom(mk('member', k, mk('rel', lv, m)))
            if m.op == 'ite' and not any(a.op in ('eqs', 'member') for a in X.atoms_of(m)):
                return b_or(m, other), ('self', m, mk('pick', lv, k))
            return other, mk('pick', lv, k)
        some = X.exists(lv, m)
        return some, mk('edge', lv, 'last', m, INS)

    def e_ListComp(self, e, st):
        return self.comp('list', e, [e.elt], st)

    def e_SetComp(self, e, st):
        return self.comp('set', e, [e.elt], st)

    def e_GeneratorExp(self, e, st):
        return self.comp('list', e, [e.elt], st)

    def e_DictComp(self, e, st):
        return self.comp('dict', e, [e.key, e.value], st)

    def comp(self, kind, e, elts, st):
        r = self.alloc(st, kind, e)
        saved = dict(st.env)

        def gen(i, x):
            if i == len(e.generators):
                if kind == 'dict':
                    k = self.ev(elts[0], x)
                    self.setitem(r, k, self.ev(elts[1], x), x, e)
                else:
                    v = self.ev(elts[0], x)
                    self.append(r, v, x, e)
                return Flows(x)
            g = e.generators[i]
            items = self.items_of(self.ev(g.iter, x), x, g.iter)

            def body(y, val):
                self.assign(g.target, val, y, e)
                c = TRUE
                conds = list(g.ifs)

                def run(z, j):
                    if j == len(conds):
                        return gen(i + 1, z)
                    cc = self.cond(conds[j], z)
                    return self.branch(cc, z, lambda w: run(w, j + 1), lambda w: Flows(w))
                return run(y, 0)
            return self.iterate(items, body, x, g.target)
        fl = gen(0, st)
        if fl.next is None:
            raise Dead()
        if fl.next is not st:
            st.become(fl.next)
        # comprehension variables are local
        for k in list(st.env):
            if k not in saved:
                del st.env[k]
            else:
                st.env[k] = saved[k]
        return r

    # ------------------------------------------------------------ attribute / item access
    def getattr(self, o, attr, st, node):
        def f(x):
            return self.getattr1(x, attr, st, node)
        o = st.facts.restrict(o) if o.op == 'ite' else o
        v = lift(f, o) if o.op == 'ite' else f(o)
        return self.nomissing(v, st, node, ('attr', o, attr))

    def getattr1(self, x, attr, st, node):
        x = self.deref(x, st)
        op = x.op
        if op == 'ref':
            c = st.heap[x.args[0]]
            if c.kind == 'obj':
                if attr in c.fields:
                    return self.tagged(c.fields[attr], x.args[1])
                v = self.clsattr(c.cls, attr)
                if v is not None:
                    if v.op == 'fn':
                        return mk('bound', v, x)
                    if v.op == 'static':
                        return v.args[0]
                    if v.op == 'prop':
                        return self.call(mk('bound', v.args[0], x), [], {}, st, node)
                    return v
                if c.cls is None:
                    return MISSING
                if c.cls is not None and not self.known_class(c.cls):
                    return X.unknown('attr:' + attr)
                return MISSING
            return mk('method', x, attr)
        if op == 'module':
            m = x.args[0]
            env = self.modules.get(m)
            if env is not None and attr in env:
                return env[attr]
            sub = m + '.' + attr
            if sub in self.modules or sub.startswith('acetimetools'):
                if self.load(sub, st) is not None:
                    return mk('module', sub)
            return mk('ext', sub)
        if op == 'ext':
            return mk('ext', x.args[0] + '.' + attr)
        if op == 'class':
            c = self.classes[x.args[0]]
            v = self.clsattr(c, attr)
            if v is not None:
                if v.op == 'static':
                    return v.args[0]
                return v
            if attr == '__name__':
                return const(c.name)
            return MISSING
        if op == 'nt':
            c = self.classes[x.args[0]]
            for i, (n, _, _) in enumerate(c.annots):
                if n == attr:
                    return x.args[1 + i]
            return mk('method', x, attr)
        if op in ('extcall', 'unknown', 'sym', 'at', 'prev', 'app') and attr not in STRM:
            return X.app('attr', x, const(attr))
        return mk('method', x, attr)

    def known_class(self, c):
        for b in c.node.bases:
            n = ast.unparse(b)
            if n not in ('object', 'Protocol') and not any(k.name == n for k in self.classes):
                return False
        return True

    def clsattr(self, c, attr):
        if c is None:
            return None
        if attr in c.attrs:
            return c.attrs[attr]
        for b in c.bases:
            v = self.clsattr(b, attr)
            if v is not None:
                return v
        return None

    def nomissing(self, v, st, node, what):
        if v is MISSING:
            if self.sinks[-1] is not None:
                self.abort(node, st, 'missing')
            else:
                self.event('missing', node, st, what + (TRUE,))
            raise Dead()
        if v.op != 'ite':
            return v
        if not any(l is MISSING for l in X.leaves(v)):
            return v
        v = st.facts.restrict(v)
        g = lift(lambda x: TRUE if x is MISSING else FALSE, v)
        if g is FALSE:
            return v
        if g is TRUE and self.sinks[-1] is None:
            self.event('missing', node, st, what + (TRUE,))
            raise Dead()
        if self.sinks[-1] is not None:
            # caught
            self.maybe_abort(g, node, st, 'missing')
            v = st.facts.restrict(v)
        elif X.feasible(g, st.facts, 300):
            self.event('missing', node, st, what + (g,))
        f = st.facts.assume(b_not(g))
        if f is not None:
            st.facts = f
            v = f.restrict(v)
        # whatever is left cannot happen
        rest = [l for l in X.leaves(v) if l is not MISSING]
        if not rest:
            raise Dead()
        if len(rest) == 1:
            return rest[0]
        return lift(lambda x: rest[0] if x is MISSING else x, v)

    def setattr(self, o, attr, v, st, node):
        def f(x, s):
            x = self.deref(x, s)
            if x.op == 'ref':
                c = s.heap[x.args[0]]
                self.put_field(x, attr, v, s)
            elif x.op == 'class':
                self.classes[x.args[0]].attrs[attr] = v
            return Flows(s)
        self.on_leaves(o, st, f)

    def put_field(self, ref, key, v, st):
        cid, tags = ref.args
        c = st.heap[cid]
        fields = dict(c.fields)
        if cid[0] == 'kc' and fields.get(key) is not v:
            # one entry's field: not told apart from the others'
            v = X.unknown('entry-field')
        tags = tuple(t for t in tags if t.op != 'keytag')
        if tags:
            g = self.tag_guard(tags)
            fields[key] = ite(g, self.strip(v, tags), fields.get(key, MISSING))
        else:
            fields[key] = v
        st.heap[cid] = c.with_fields(fields)

    def on_leaves(self, o, st, f):
        """run f(leaf, state) for the feasible leaves of o, merging the outcomes"""
        o = st.facts.restrict(o)
        if o.op != 'ite':
            f(o, st)
            return
        ls = X.guarded_leaves(o)

        def go(i, s):
            if i == len(ls) - 1:
                f(ls[i][0], s)
                return Flows(s)
            return self.branch(ls[i][1], s, lambda a: (f(ls[i][0], a), Flows(a))[1], lambda b: go(i + 1, b))
        fl = go(0, st)
        if fl.next is None:
            raise Dead()
        if fl.next is not st:
            st.become(fl.next)

    def getitem(self, o, k, st, node, unpack=None):
        o = st.facts.restrict(o) if o.op == 'ite' else o

        def f(x):
            return self.getitem1(x, k, st, node, unpack)
        if self.index_errors and X.is_int(k) and X.cval(k) >= 0:
            def short(x):
                split = x.op == 'app' and x.args[0] == 'str.split'
                return X.le(X.app('len', x), k) if split else FALSE
            self.maybe_abort(lift(short, o) if o.op == 'ite' else short(o), node, st, 'index')
        v = lift(f, o) if o.op == 'ite' else f(o)
        return self.nomissing(v, st, node, ('item', o, k))

    def getitem1(self, x, k, st, node, unpack=None):
        x = self.deref(x, st)
        op = x.op
        if op == 'tuple':
            return lift(lambda i: x.args[X.cval(i)] if X.is_int(i) and -len(x.args) <= X.cval(i) < len(x.args)
                        else X.app('index', x, i), k)
        if op == 'nt':
            return lift(lambda i: x.args[1:][X.cval(i)] if X.is_int(i) else X.app('index', x, i), k)
        if op == 'ref':
            c = st.heap[x.args[0]]
            if c.kind == 'dict':
                pres, v = self.lookup(x, k, st)
                dflt = MISSING
                if c.meta is not None and isinstance(c.meta, X.T) and c.meta.op == 'factory':
                    return self.default_item(x, k, pres, v, c.meta.args[0], st, node)
                return ite(pres, v, MISSING) if v is not None else MISSING
            if c.kind == 'list':
                return self.list_index(x, k, st, node)
            if c.kind == 'tally':
                n = X.app('countof', self.seqval(self.ref_items(x, st)), k)
                return ite(eq(n, ZERO), MISSING, n)
            if c.kind == 'obj':
                m = self.clsattr(c.cls, '__getitem__')
                if m is not None:
                    return self.call(mk('bound', m, x), [k], {}, st, node)
            return X.unknown('item')
        if op == 'const' and x.args[0] == 'str' and X.is_int(k):
            s = x.args[1]
            i = X.cval(k)
            if -len(s) <= i < len(s):
                return const(s[i])
            return MISSING
        if op == 'view':
            return self.list_index(x, k, st, node)
        if X.typ(x) == 'str':
            if self.sinks[-1] is not None:
                pass
            return lift(lambda i: X.app('slice.str', x, i, X.add(i, ONE) if not (X.is_int(i) and X.cval(i) == -1) else NONE), k)
        if op == 'missing':
            return MISSING
        return lift(lambda i: mk('app', 'index', x, i), k)

    index_errors = False

    def default_item(self, x, k, pres, v, factory, st, node):
        def mkdef(s):
            d = self.call(factory, [], {}, s, node)
            self.setitem(x, k, d, s, node)
            return self.deref(d, s)
        if v is None:
            v = NONE
        return self.ifelse(pres, st, lambda s: v, mkdef)

    def list_index(self, x, k, st, node):
        items = self.items_of(x, st, node)
        if X.is_int(k):
            i = X.cval(k)
            seq = items if i >= 0 else list(reversed(items))
            n = i if i >= 0 else -1 - i
            v = self.nth(seq, n, i >= 0)
            if v is not None:
                return v
            return X.app('index', x, k)
        if all(it[0] == 'one' and it[3] is TRUE for it in items):
            tup = mk('tuple', *[it[2] for it in items])
            return lift(lambda i: tup.args[X.cval(i)] if X.is_int(i) and -len(tup.args) <= X.cval(i) < len(tup.args)
                        else X.app('index', tup, i), k)
        # list position of the element itself (for i, x in enumerate(lst): lst[i])
        if len(items) == 1 and items[0][0] == 'loop' and k.op == 'pos':
            lv = items[0][1]
            if k.args[0] == (lv,) and len(items[0][4]) == 1 and items[0][4][0][0] == 'one':
                return items[0][4][0][2]
        return lift(lambda i: X.app('index', x, i), k)

    def nth(self, items, n, forward):
        """n-th present element of an item sequence"""
        out = None
        rest = list(items)
        if not rest:
            return MISSING
        it = rest[0]
        if it[0] == 'one':
            if n == 0:
                later = self.nth(rest[1:], 0, forward) if it[3] is not TRUE else None
                if it[3] is TRUE:
                    return it[2]
                if later is None:
                    return None
                return ite(it[3], it[2], later)
            if it[3] is TRUE:
                return self.nth(rest[1:], n - 1, forward)
            a = self.nth(rest[1:], n - 1, forward)
            b = self.nth(rest[1:], n, forward)
            if a is None or b is None:
                return None
            return ite(it[3], a, b)
        if it[0] == 'loop' and n == 0 and len(it[4]) == 1 and it[4][0][0] == 'one':
            lv, order, g = it[1], it[2], b_and(it[3], it[4][0][3])
            tag = mk('edge', lv, 'first' if forward else 'last', g, order)
            v = self.at_val(tag, it[4][0][2])
            later = self.nth(rest[1:], 0, forward)
            if later is None:
                return None
            return ite(X.exists(lv, g), v, later)
        if it[0] == 'loop' and n == 0:
            lv, order, g = it[1], it[2], b_and(it[3], self.items_some(it[4]))
            inner = self.nth(it[4], 0, forward)
            later = self.nth(rest[1:], 0, forward)
            if inner is None or later is None:
                return None
            return ite(X.exists(lv, g), self.at_val(mk('edge', lv, 'first' if forward else 'last', g, order), inner), later)
        return None

    def has_refs_in(self, items):
        return any(self.has_ref(it[2]) if it[0] == 'one' else it[0] != 'loop' or self.has_refs_in(it[4]) for it in items)

    def slice(self, o, lo, hi, step, st, node):
        def f(x):
            x = self.deref(x, st)
            if x.op == 'const' and x.args[0] == 'str' and all(y.op == 'const' for y in (lo, hi, step)):
                return const(x.args[1][X.cval(lo):X.cval(hi):X.cval(step)])
            if x.op == 'tuple' and all(y.op == 'const' for y in (lo, hi, step)):
                return mk('tuple', *x.args[X.cval(lo):X.cval(hi):X.cval(step)])
            if x.op == 'ref':
                items = self.items_of(x, st, node)
                if all(it[0] == 'one' and it[3] is TRUE for it in items) and \
                        all(y.op == 'const' for y in (lo, hi, step)):
                    return self.alloc(st, 'list', node, items=tuple(items[X.cval(lo):X.cval(hi):X.cval(step)]))
                if lo is NONE and hi is NONE and step is NONE:
                    return self.alloc(st, 'list', node, items=tuple(items))
                cut = self.cut_items(items, lo, hi) if step is NONE and st.heap[x.args[0]].kind == 'list' else None
                if cut is not None:
                    return self.alloc(st, 'list', node, items=tuple(cut))
                if step is NONE and st.heap[x.args[0]].kind == 'list' and not self.has_refs_in(items):
                    return X.app('sublist', self.seqval(items), lo, hi)
                return X.app('slice', x, lo, hi, step)
            if X.typ(x) == 'str':
                return X.app('slice.str', x, lo, hi) if step is NONE else X.app('slice.str', x, lo, hi, step)
            return X.app('slice', x, lo, hi, step)
        return lift(f, o) if o.op == 'ite' else f(o)

    def cut_items(self, items, lo, hi):
        """items at positions lo..hi-1 for constant bounds"""
        if not all(y is NONE or X.is_int(y) for y in (lo, hi)) or not self.plain_items(items):
            return None
        n = self.items_count(items)

        def g(pos):
            r = TRUE
            if lo is not NONE and X.cval(lo) != 0:
                r = b_and(r, b_not(X.lt(pos, lo if X.cval(lo) > 0 else X.add(n, lo))))
            if hi is not NONE:
                r = b_and(r, X.lt(pos, hi if X.cval(hi) >= 0 else X.add(n, hi)))
            return r

        def cut(its):
            out = []
            for it in its:
                if it[0] == 'one':
                    pos, v = it[2].args
                    out.append(('one', it[1], v, b_and(it[3], g(pos)), it[4]))
                else:
                    out.append(('loop', it[1], it[2], it[3], tuple(cut(it[4]))))
            return out
        return cut(self.enum_items(items, ZERO))

    def plain_items(self, items):
        return all(it[0] == 'one' or it[0] == 'loop' and self.plain_items(it[4]) for it in items)

    # ---- dictionaries
    def lookup(self, ref, k, st):
        """(present?, value) of key k in the dict behind ref; value None when never present"""
        ref = self.deref(ref, st)
        cid, tags = ref.args
        c = st.heap[cid]
        if k.op == 'ite':
            p = FALSE
            v = None
            k = st.facts.restrict(k)
            for leaf, g in X.guarded_leaves(k):
                p1, v1 = self.lookup(ref, leaf, st)
                p = ite(g, p1, p)
                if v1 is not None:
                    v = v1 if v is None else ite(g, v1, v)
            return p, v
        pres = FALSE
        val = None
        if X.is_const(k):
            f = c.fields.get(X.cval(k))
            if f is not None:
                f = self.tagged(f, tags)
                pres = lift(lambda x: FALSE if x is MISSING else TRUE, f)
                val = f if pres is TRUE else self.drop_missing(f)
        elif c.fields:
            for kk, f in c.fields.items():
                f = self.tagged(f, tags)
                m = b_and(eq(k, self.constkey(kk)), lift(lambda x: FALSE if x is MISSING else TRUE, f))
                if m is FALSE:
                    continue
                pres = b_or(pres, m)
                f = self.drop_missing(f)
                if f is not None:
                    val = f if val is None else ite(m, f, val)
        if c.items:
            p, v = self.lookup_items(self.ref_items(ref, st, raw=True), k, cid, st)
            if v is not None:
                if ('kc', cid) in self.kc:
                    p = X.name_guard(p, 0)
                val = v if val is None or p is TRUE else ite(p, v, val)
                pres = b_or(pres, p)
        return st.facts.restrict(pres), val

    def constkey(self, k):
        if isinstance(k, X.T):
            return k
        return const(k)

    def drop_missing(self, f):
        if f is MISSING:
            return None
        if f.op != 'ite':
            return f
        rest = [l for l in X.leaves(f) if l is not MISSING]
        if not rest:
            return None
        if len(rest) == len(X.leaves(f)):
            return f
        if len(rest) == 1:
            return rest[0]
        return lift(lambda x: rest[0] if x is MISSING else x, f)

    def lookup_items(self, items, k, cid, st):
        pres, val = FALSE, None
        for it in items:
            if it[0] == 'one':
                m = b_and(eq(it[1], k), it[3])
                if m is FALSE:
                    continue
                v = it[2]
                if v.op == 'ref' and v.args[0] == ('kc', cid):
                    v = mk('ref', v.args[0], (mk('keytag', k),))
            elif it[0] == 'loop' and self.poured(it) is not None:
                src, key = self.poured(it)
                g = X.subst(b_and(it[3], it[4][0][3]), {key: k})
                m, v = b_and(g, self.carries(src, k, st)), mk('app', 'index', src, k)
                if m is FALSE:
                    continue
            elif it[0] == 'loop':
                lv = it[1]
                m0, v0 = self.lookup_items(it[4], k, cid, st)
                if v0 is None:
                    continue
                m0 = b_and(it[3], m0)
                m, tag = self.close_match(lv, m0, k)
                if m is FALSE:
                    continue
                m1 = self.not_seen(m0, cid)
                if m1 is not m0:
                    m = self.close_match(lv, m1, k)[0]
                if v0.op == 'ref' and v0.args[0] == ('kc', cid):
                    v = v0
                elif tag is None:
                    v = v0
                elif isinstance(tag, tuple):
                    v = ite(tag[1], v0, self.at_val(tag[2], v0))
                else:
                    v = self.at_val(tag, v0)
            elif it[0] == 'earlier':
                lv = it[1][3]
                if k.op == 'elemkey' and k.args[0] is lv:
                    continue
                t = mk('seen', k, mk('cellid', cid, it[1]), (lv,))
                self.seenlog.setdefault(it[1], {})[t] = cid
                m = atom(t)
                if ('kc', cid) in self.kc:
                    v = mk('ref', ('kc', cid), (mk('keytag', k),))
                else:
                    v = mk('carried', ('val', cid, it[1]), 'val', None, k, (lv,))
                    self.seenlog[it[1]][v] = cid
            else:
                m = atom(mk('member', k, it[1]))
                v = mk('app', 'index', it[1], k)
            pres, val = b_or(pres, m), (v if val is None else ite(m, v, val))
        return pres, val

    def poured(self, it):
        """(mapping, key) when a loop puts in every item of a mapping under its own key"""
        if it[1].op != 'elems' or len(it[4]) != 1 or it[4][0][0] != 'one':
            return None
        ev = mk('elemval', it[1], None)
        key = mk('app', 'index', ev, ZERO)
        if it[4][0][1] is not key or it[4][0][2] is not mk('app', 'index', ev, ONE):
            return None
        src = it[1].args[0]
        return (src.args[1] if src.op == 'extcall' and src.args[0] == '.items' else src), key

    def carries(self, src, k, st):
        """condition under which a mapping has a key"""
        refs = [x for x in X.walk(src) if x.op == 'ref']
        cells = [st.heap.get(x.args[0]) for x in refs]
        if refs and X.is_const(k) and all(c is not None and c.kind == 'dict' and not c.items for c in cells):
            has = [X.cval(k) in c.fields and not any(l is MISSING for l in X.leaves(c.fields[X.cval(k)])) for c in cells]
            if all(has):
                return TRUE
            if not any(X.cval(k) in c.fields for c in cells):
                return FALSE
        return atom(mk('member', k, src))

    kc = frozenset()

    def setitem(self, o, k, v, st, node):
        def f(x, s):
            x = self.deref(x, s)
            if x.op != 'ref':
                return Flows(s)
            self.setitem1(x, k, v, s, node)
            return Flows(s)
        self.on_leaves(o, st, f)

    def setitem1(self, ref, k, v, st, node):
        cid, tags = ref.args
        c = st.heap[cid]
        k = st.facts.restrict(k)
        if k.op == 'ite':
            def go(leaf, s):
                self.setitem1(ref, leaf, v, s, node)
                return Flows(s)
            self.on_leaves(k, st, go)
            return
        if c.kind == 'dict' and X.is_const(k):
            self.put_field(ref, X.cval(k), v, st)
            return
        if c.kind == 'obj':
            m = self.clsattr(c.cls, '__setitem__')
            if m is not None:
                self.call(mk('bound', m, ref), [k, v], {}, st, node)
            return
        if c.kind == 'list':
            if X.is_int(k) and all(it[0] == 'one' and it[3] is TRUE for it in c.items) and not tags:
                its = list(c.items)
                if -len(its) <= X.cval(k) < len(its):
                    its[X.cval(k)] = one(None, v, TRUE, self.site(node))
                    st.heap[cid] = c.with_items(its)
                    return
            if X.is_int(k) and X.cval(k) == 0 and len(c.items) == 1 and c.items[0][0] == 'loop' and \
                    len(c.items[0][4]) == 1 and c.items[0][4][0][0] == 'one' and \
                    not any(t.op == 'keytag' for t in tags):
                # the first element makes room, the others stay
                self.list_index(ref, k, st, node)
                _, lv, order, g, (el,) = c.items[0]
                g = b_and(g, el[3])
                rest = ('loop', lv, order, b_and(g, X.before(lv, g, order)), (one(el[1], el[2], TRUE, el[4]),))
                st.heap[cid] = c.with_items((one(None, v, TRUE, self.site(node)), rest))
                return
            st.heap[cid] = c.with_items(c.items + (('havoc', X.unknown('list-store')),))
            return
        # promote a fresh empty container stored under a computed key
        pc = st.pc
        pc_in = pc
        rtags = tuple(t for t in tags if t.op != 'keytag')
        if rtags:
            pc = b_and(self.strip(pc, rtags), self.tag_guard(rtags))
            k = self.strip(k, rtags)
        if v.op == 'ref':
            v = self.deref(v, st)
            vc = st.heap[v.args[0]]
            if vc.kind in ('list', 'set', 'dict') and not v.args[1] and not vc.items and not vc.fields \
                    and v.args[0][0] != 'kc' and c.kind == 'dict':
                kcid = ('kc', cid)
                self.kc = self.kc | {kcid}
                self.kckind[kcid] = Cell(vc.kind)
                if kcid not in st.heap:
                    st.heap[kcid] = Cell(vc.kind, {}, (), None, None)
                    self.owner[kcid] = self.owner.get(cid, ())
                else:
                    self.restarted(ref, kcid, k, pc, st, node)
                nv = mk('ref', kcid, (mk('keytag', k),))
                st.heap[v.args[0]] = Cell('fwd', {}, (), None, nv)
                v = nv
                if self.brs and not rtags:
                    # "create the entry unless it is there" leaves the entry there either way
                    pc0, _, nc = self.brs[-1]
                    there = X.name_guard(self.lookup_items(self.ref_items(ref, st, raw=True), k, cid, st)[0], 0)
                    if b_and(nc, b_not(there)) is FALSE and b_and(pc, b_not(pc0)) is FALSE:
                        pc = pc0
            elif vc.kind == 'dict' and vc.fields and not rtags and c.kind == 'dict' and self.brs:
                v, pc = self.promote_record(ref, c, k, v, vc, pc, st, node)
        items = st.heap[cid].items
        st.heap[cid] = c.with_items(items + (one(k, v, pc, self.site(node)),))

    def restarted(self, ref, kcid, k, pc, st, node):
        """an entry that has content starts again empty: not represented"""
        cell = st.heap[kcid]
        if not cell.items:
            return
        there = self.lookup_items(self.ref_items(ref, st, raw=True), k, ref.args[0], st)[0]
        some = self.items_some(self.key_items(cell.items, k))
        if st.facts.restrict(b_and(pc, there, X.name_guard(some))) is not FALSE:
            self.event('opaque', node, st, 'restart')

    def promote_record(self, ref, c, k, v, vc, pc, st, node):
        """a record of constants and empty collections made for a computed key that has none yet"""
        cid = ref.args[0]
        kcid = ('kc', cid)
        if vc.items or v.args[1] or v.args[0][0] == 'kc' or vc.cls is not None or \
                self.owner.get(v.args[0]) != tuple(lv for lv, _ in self.loops):
            return v, pc
        subs = {}
        for f, x in vc.fields.items():
            x = self.deref(x, st)
            if x.op == 'ref':
                xc = st.heap[x.args[0]]
                if x.args[1] or xc.items or xc.fields or x.args[0][0] == 'kc' or xc.kind not in ('list', 'set', 'dict'):
                    return v, pc
                subs[f] = (x, xc.kind)
            elif x.op != 'const':
                return v, pc
        pc0, _, nc = self.brs[-1]
        there = X.unname_all(self.lookup_items(self.ref_items(ref, st, raw=True), k, cid, st)[0])

        def whole(t):
            # what earlier turns stored is such a record, never empty
            if t.op == 'truthy' and t.args[0].op == 'carried' and t.args[0].args[0][:2] == ('val', cid):
                return TRUE
            return X.rebuild(t, whole) if t.op == 'ite' else t
        if b_and(X.unname_all(nc), b_not(there)) is not FALSE or b_and(pc, b_not(pc0)) is not FALSE or \
                st.facts.restrict(b_and(whole(X.unname_all(pc)), there)) is not FALSE:
            return v, pc
        if kcid in st.heap and st.heap[kcid].fields.keys() != vc.fields.keys():
            return v, pc
        self.kc = self.kc | {kcid}
        tag = mk('keytag', k)
        fields = {}
        for f, x in vc.fields.items():
            if f in subs:
                sid = ('kc', cid, f)
                fields[f] = mk('ref', sid, ())
                self.kckind[sid] = Cell(subs[f][1])
                if sid not in st.heap:
                    st.heap[sid] = Cell(subs[f][1])
                    self.owner[sid] = self.owner.get(cid, ())
                st.heap[subs[f][0].args[0]] = Cell('fwd', {}, (), None, mk('ref', sid, (tag,)))
            else:
                fields[f] = x
        self.kckind[kcid] = Cell('dict', fields)
        if kcid not in st.heap:
            st.heap[kcid] = Cell('dict', fields)
            self.owner[kcid] = self.owner.get(cid, ())
        nv = mk('ref', kcid, (tag,))
        st.heap[v.args[0]] = Cell('fwd', {}, (), None, nv)
        return nv, pc0

    def append(self, ref, v, st, node):
        cid, tags = ref.args
        c = st.heap[cid]
        key = None
        pc = st.pc
        rtags = tuple(t for t in tags if t.op != 'keytag')
        for t in tags:
            if t.op == 'keytag':
                key = t.args[0]
        if rtags:
            pc = b_and(self.strip(pc, rtags), self.tag_guard(rtags))
            v = self.strip(v, rtags)
        st.heap[cid] = c.with_items(c.items + (one(key, v, pc, self.site(node)),))

    def ref_items(self, ref, st, raw=False):
        """items of the container behind ref, as seen through its tags"""
        cid, tags = ref.args
        c = st.heap[cid]
        items = c.items
        for t in reversed(tags):
            if t.op == 'keytag':
                items = self.key_items(items, t.args[0])
            else:
                items = self.tag_items(items, t)
        return items

    def key_items(self, items, k):
        out = []
        for it in items:
            if it[0] == 'one':
                g = b_and(it[3], eq(it[1], k))
                if g is not FALSE:
                    out.append(('one', it[1], it[2], g, it[4]))
            elif it[0] == 'loop':
                sub = self.key_items(it[4], k)
                if not sub:
                    continue
                lv = it[1]
                if k.op == 'elemkey' and k.args[0] is lv:
                    out += self.guard_items(sub, it[3])
                    continue
                key = mk('elemkey', lv)
                A = eq(key, k)
                if A.op == 'ite' and lv not in X.free_levels(k):
                    a = A.args[0]
                    if all(s[0] in ('one', 'loop') and X.restrict_atom(s[3], a, A.args[1] is not TRUE) is FALSE
                           for s in sub) or self.all_need(sub, a, A.args[1] is TRUE):
                        tag = X.pick(lv, k)
                        sub = [self.drop_atom(s, a, A.args[1] is TRUE) for s in sub]
                        sub = self.tag_items(sub, tag)
                        out += self.guard_items(sub, b_and(X.isin(k, lv), X.at(tag, it[3])))
                        continue
                out.append(('loop', lv, it[2], it[3], tuple(sub)))
            elif it[0] == 'earlier':
                out.append(it)
            else:
                out.append(it)
        return out

    def all_need(self, sub, a, pol):
        def need(s):
            if s[0] == 'one':
                return X.restrict_atom(s[3], a, not pol) is FALSE
            if s[0] == 'loop':
                return X.restrict_atom(s[3], a, not pol) is FALSE or all(need(x) for x in s[4])
            return False
        return all(need(s) for s in sub)

    def drop_atom(self, s, a, pol):
        if s[0] == 'one':
            return ('one', s[1], s[2], X.restrict_atom(s[3], a, pol), s[4])
        if s[0] == 'loop':
            return ('loop', s[1], s[2], X.restrict_atom(s[3], a, pol), tuple(self.drop_atom(x, a, pol) for x in s[4]))
        return s

    # ------------------------------------------------------------ iteration sources
    def items_of(self, v, st, node):
        v = st.facts.restrict(v) if v.op == 'ite' else v
        if v.op == 'ite':
            out = []
            prevs = None
            for leaf, g in X.guarded_leaves(v):
                out.append((g, self.items_of(leaf, st, node)))
            return self.merge_item_lists(out, st)
        v = self.deref(v, st)
        op = v.op
        if op == 'ref':
            c = st.heap[v.args[0]]
            if c.kind == 'dict':
                return self.dict_items(v, st, 'keys')
            if c.kind == 'tally':
                return self.tally_items(v, st, 'keys')
            if c.kind == 'set' and self.uniq:
                items = self.collapse(self.drop_seen(self.ref_items(v, st), v.args[0]), 2)
                if not self.injective(items, 2):
                    lv = self.key_level(items, 2)
                    return [seq_loop(lv, HASH, TRUE, [one(None, mk('elemval', lv, self.key_type(items, 2)), TRUE, None)])]
                return [self.reorder(it, HASH) for it in items] if not self.const_items(items) else self.hash_const(items)
            if c.kind == 'set':
                return [self.reorder(it, HASH) for it in self.ref_items(v, st)] \
                    if not self.const_items(c.items) else self.hash_const(self.ref_items(v, st))
            if c.kind == 'file':
                lv = mk('lines', c.fields['path'])
                return [seq_loop(lv, INS, TRUE, [one(None, mk('elemval', lv, 'str'), TRUE, None)])]
            return list(self.ref_items(v, st))
        if op == 'tuple':
            return [one(None, x, TRUE, None) for x in v.args]
        if op == 'nt':
            return [one(None, x, TRUE, None) for x in v.args[1:]]
        if op == 'view':
            return self.view_items(v, st, node)
        if op == 'const' and v.args[0] == 'str':
            return [one(None, const(ch), TRUE, None) for ch in v.args[1]]
        if X.typ(v) == 'str':
            lv = mk('chars', v)
            return [seq_loop(lv, INS, TRUE, [one(None, mk('elemval', lv, 'str'), TRUE, None)])]
        if v is NONE or v is MISSING:
            return []
        lv = mk('elems', v)
        order = FS if v.op == 'extcall' and str(v.args[0]).startswith(('os.', 'glob.')) else INS
        ety = 'str' if v.op == 'app' and v.args[0] in ('str.split', 'str.splitlines') else None
        return [seq_loop(lv, order, TRUE, [one(None, mk('elemval', lv, ety), TRUE, None)])]

    def const_items(self, items):
        return all(it[0] == 'one' for it in items)

    def hash_const(self, items):
        """a set of individually listed members: order unspecified when more than one"""
        if len(items) <= 1:
            return list(items)
        self.hashsets.add(tuple(it[2] for it in items))
        return list(reversed(items)) if self.hash_reversed else list(items)

    hash_reversed = False

    def reorder(self, it, order):
        if it[0] == 'loop':
            return ('loop', it[1], order, it[3], tuple(self.reorder(x, order) for x in it[4]))
        return it

    def merge_item_lists(self, alts, st):
        """item sequences under exclusive guards; identical loops are joined"""
        alts = [(g, list(its)) for g, its in alts]
        shape = None
        for g, its in alts:
            if not its:
                continue
            if len(its) != 1 or its[0][0] != 'loop' or len(its[0][4]) != 1 or its[0][4][0][0] != 'one':
                break
            o = its[0][4][0]
            k = (its[0][1], its[0][2], o[1], o[2])
            if shape is None:
                shape = k + (o[4],)
            elif shape[:4] != k:
                break
        else:
            if shape is None:
                return []
            lv = shape[0]
            cur = None
            for g, its in reversed(alts):
                h = b_and(its[0][3], its[0][4][0][3]) if its else FALSE
                cur = h if cur is None else self.join_guard(lv, g, h, cur, st)
            return [('loop', lv, shape[1], cur, (('one', shape[2], shape[3], TRUE, shape[4]),))]
        out = []
        for g, its in alts:
            out += self.guard_items(its, g)
        return out

    def join_guard(self, lv, c, ga, gb, st):
        """ite(c, ga, gb) for an element of lv, without c where one side covers both"""
        if ga is gb:
            return ga
        for pos, mine, other in ((c, ga, gb), (b_not(c), gb, ga)):
            f = st.facts.assume(pos)
            if f is None:
                return other
            f = f.enter(lv)
            if f is None:
                return other
            if f.restrict(b_not(b_or(b_and(mine, other), b_and(b_not(mine), b_not(other))))) is FALSE:
                return other
        return X.name_guard(ite(c, ga, gb))

    def tally_items(self, ref, st, kind):
        """distinct keys in order of first occurrence, with the number of occurrences"""
        seq = self.seqval(self.ref_items(ref, st))
        lv = mk('elems', X.app('uniqset', seq))
        k = mk('elemval', lv, 'str')
        return [seq_loop(lv, INS, TRUE, [one(None, self.kv(kind, k, X.app('countof', seq, k)), TRUE, None)])]

    def m_tally_items(self, o, a, kw, st, node):
        return mk('view', 'items', o)

    def m_tally_keys(self, o, a, kw, st, node):
        return mk('view', 'keys', o)

    def m_tally_values(self, o, a, kw, st, node):
        return mk('view', 'values', o)

    def m_tally_copy(self, o, a, kw, st, node):
        return o

    def m_tally_get(self, o, a, kw, st, node):
        n = X.app('countof', self.seqval(self.ref_items(o, st)), a[0])
        return ite(eq(n, ZERO), a[1] if len(a) > 1 else NONE, n)

    def dict_items(self, ref, st, kind):
        cid, tags = ref.args
        c = st.heap[cid]
        out = []
        for k, v in c.fields.items():
            v = self.tagged(v, tags)
            g = lift(lambda x: FALSE if x is MISSING else TRUE, v)
            if g is FALSE:
                continue
            v2 = self.drop_missing(v)
            kk = self.constkey(k)
            out.append(one(kk, self.kv(kind, kk, v2), g, None))

        def conv(its):
            r = []
            seenkeys = {}
            for it in its:
                if it[0] == 'one':
                    if it[1] is None:
                        continue
                    val = it[2]
                    if val.op == 'ref' and val.args[0] == ('kc', cid):
                        val = mk('ref', val.args[0], (mk('keytag', it[1]),))
                    if it[1] in seenkeys:
                        i = seenkeys[it[1]]
                        g0, v0 = r[i][3], r[i][5]
                        nv = ite(it[3], val, v0)
                        r[i] = ('one', it[1], None, b_or(g0, it[3]), r[i][4], nv)
                    else:
                        seenkeys[it[1]] = len(r)
                        r.append(('one', it[1], None, it[3], it[4], val))
                elif it[0] == 'loop':
                    r.append(('loop', it[1], it[2], it[3], tuple(conv(it[4]))))
                else:
                    r.append(it)
            return [('one', x[1], self.kv(kind, x[1], x[5]), x[3], x[4]) if x[0] == 'one' else x for x in r]
        items = self.drop_seen(self.ref_items(ref, st), cid)
        if self.uniq and not out:
            items = self.collapse(items, 1)
            if not self.injective(items, 1):
                lv = self.key_level(items, 1)
                k = mk('elemval', lv, self.key_type(items, 1))
                v = NONE if kind == 'keys' else self.drop_missing(self.lookup(ref, k, st)[1])
                return [seq_loop(lv, INS, TRUE, [one(k, self.kv(kind, k, v), TRUE, None)])]
        out += self.dedup_loops(conv(items), ('kc', cid) in self.kc)
        return out

    uniq = False          # collections hold each key once: iterate over distinct keys

    def collapse(self, items, at):
        """entries that do not vary with a loop they are made in exist once"""
        out = []
        for it in items:
            if it[0] != 'loop':
                out.append(it)
                continue
            lv = it[1]
            sub = self.collapse(it[4], at)
            if sub and all(x[0] == 'one' and x[at] is not None and lv not in X.free_levels(x[at]) and
                           lv not in self.value_levels(x[2]) for x in sub):
                for x in sub:
                    out.append(('one', x[1], x[2], X.exists(lv, b_and(it[3], x[3])), x[4]))
            else:
                out.append(('loop', lv, it[2], it[3], tuple(sub)))
        return out

    def value_levels(self, v):
        r = set(X.free_levels(v))
        for x in X.leaves(v):
            if x.op == 'ref' and x.args[0][0] != 'kc' and not x.args[1]:
                r |= set(self.owner.get(x.args[0], ()))
        return r

    def injective(self, items, at):
        flat = []

        def walk(its, lvs, g):
            for it in its:
                if it[0] == 'one':
                    flat.append((lvs, X.unname_all(b_and(g, it[3])), it[at]))
                elif it[0] == 'loop':
                    walk(it[4], lvs + (it[1],), b_and(g, it[3]))
                else:
                    flat.append((lvs, g, None))
        walk(items, (), TRUE)
        for lvs, g, k in flat:
            if k is None:
                return True            # unknown content: leave it alone
        for lvs, g, k in flat:
            ks = k.args if k.op == 'tuple' else (k,)
            need = set(lvs)
            for x in ks:
                if x.op == 'elemkey' or x.op == 'elemval' and x.args[0].op in ('range', 'elems') and \
                        (x.args[0].op == 'range' or x.args[0].args[0].op == 'app' and x.args[0].args[0].args[0] == 'uniqset'):
                    lv = x.args[0]
                    while lv is not None:
                        need.discard(lv)
                        lv = lv.args[1] if lv.op == 'src' else None
            if need:
                return False
        for i, (l1, g1, k1) in enumerate(flat):
            for l2, g2, k2 in flat[:i]:
                if not set(l1) & set(l2) and eq(k1, k2) is FALSE:
                    continue
                if k1.op == 'elemkey' and k2.op == 'elemkey' and k1.args[0] is not k2.args[0]:
                    if b_and(g1, X.isin(k1, k2.args[0])) is FALSE or b_and(g2, X.isin(k2, k1.args[0])) is FALSE:
                        continue
                if X.is_const(k1) and X.is_const(k2) and k1 is not k2:
                    continue
                if b_and(g1, g2) is FALSE and not l1 and not l2:
                    continue
                return False
        return True

    def key_type(self, items, at):
        tys = set()

        def walk(its):
            for it in its:
                if it[0] == 'one':
                    tys.add(X.typ(it[at]))
                elif it[0] == 'loop':
                    walk(it[4])
        walk(items)
        return tys.pop() if len(tys) == 1 else None

    def key_level(self, items, at):
        def keys(its):
            r = []
            for it in its:
                if it[0] == 'one':
                    r.append(('one', None, it[at], it[3], None))
                elif it[0] == 'loop':
                    r.append(('loop', it[1], INS, it[3], tuple(keys(it[4]))))
            return r
        return mk('elems', mk('app', 'uniqset', self.seqval(keys(items))))

    def dedup_loops(self, items, iskc):
        """entries of one key created at several places: join them into one item"""
        if not iskc or len(items) < 2:
            return items
        out = []
        byshape = {}
        for it in items:
            if it[0] == 'loop' and len(it[4]) == 1 and it[4][0][0] == 'one':
                k = (it[1], it[2], it[4][0][1], it[4][0][2])
                if k in byshape:
                    i = byshape[k]
                    o = out[i]
                    g = b_or(b_and(o[3], o[4][0][3]), b_and(it[3], it[4][0][3]))
                    out[i] = ('loop', o[1], o[2], g, (('one', o[4][0][1], o[4][0][2], TRUE, o[4][0][4]),))
                    continue
                byshape[k] = len(out)
            out.append(it)
        return out

    def kv(self, kind, k, v):
        if kind == 'keys':
            return k
        if kind == 'values':
            return v
        return mk('tuple', k, v)

    def not_seen(self, g, cid):
        """guard of the first insertion of a key, as guard of its presence"""
        def has(a):
            return a.op == 'seen' and a.args[1].op in ('cellid', 'lk') and a.args[1].args[0] == cid and \
                a.args[0] is not NONE or a.op == 'seenat' and cid in self.seencids.get(a, ())
        if not X.contains_term(g, has):
            return g
        for _ in range(12):
            h = X.unname(g, lambda a: X.contains_term(a, has))
            if h is g:
                break
            g = h
        for a in X.atoms_of(g):
            if has(a):
                g = X.restrict_atom(g, a, False)
        return g

    def drop_seen(self, items, cid, partial=False):
        """creation guards without the 'not created yet' conditions"""
        def nos(g):
            return self.not_seen(g, cid)

        def go(its):
            r = []
            for it in its:
                if it[0] == 'one':
                    r.append(('one', it[1], it[2], nos(it[3]), it[4]))
                elif it[0] == 'loop':
                    r.append(('loop', it[1], it[2], nos(it[3]), tuple(go(it[4]))))
                elif it[0] == 'earlier' and not partial:
                    continue
                else:
                    r.append(it)
            return r
        return go(items)

    def view_items(self, v, st, node):
        kind = v.args[0]
        if kind in ('keys', 'values', 'items'):
            r = v.args[1]
            if r.op == 'ite':
                return self.merge_item_lists([(g, self.view_items(mk('view', kind, l), st, node))
                                              for l, g in X.guarded_leaves(r)], st)
            r = self.deref(r, st)
            if r.op == 'ref':
                c = st.heap[r.args[0]]
                if c.kind == 'dict':
                    return self.dict_items(r, st, kind)
                if c.kind == 'tally':
                    return self.tally_items(r, st, kind)
            lv = mk('elems', v)
            if kind == 'items':
                return [seq_loop(lv, INS, TRUE, [one(None, mk('tuple', mk('elemkey', lv), mk('elemval', lv, None)), TRUE, None)])]
            return [seq_loop(lv, INS, TRUE, [one(None, mk('elemkey', lv) if kind == 'keys' else mk('elemval', lv, None), TRUE, None)])]
        if kind == 'seq':
            return list(v.args[1].args) if False else self.seqtab[v.args[1]]
        raise Broken('view %s' % kind)

    seqtab = {}

    def seqview(self, items):
        """a value standing for an item sequence"""
        key = tuple(items)
        n = len(self.seqtab)
        t = mk('view', 'seq', n)
        self.seqtab[n] = list(items)
        return t

    def map_items(self, items, f):
        out = []
        for it in items:
            if it[0] == 'one':
                out.append(('one', it[1], f(it[2]), it[3], it[4]))
            elif it[0] == 'loop':
                out.append(('loop', it[1], it[2], it[3], tuple(self.map_items(it[4], f))))
            else:
                out.append(it)
        return out

    def enum_items(self, items, off):
        out = []
        for it in items:
            if it[0] == 'one':
                out.append(('one', it[1], mk('tuple', off, it[2]), it[3], it[4]))
                off = X.add(off, ite(it[3], ONE, ZERO))
            elif it[0] == 'loop':
                lv, order, g, sub = it[1:]
                n = self.items_count(sub)
                per = ite(g, n, ZERO)
                if per is ONE:
                    base = X.add(off, mk('pos', (lv,), TRUE, order))
                else:
                    base = X.add(off, mk('psum', (lv,), per, order))
                out.append(('loop', lv, order, g, tuple(self.enum_items(sub, base))))
                off = X.add(off, X.sum_over(lv, g, n))
            else:
                out.append(it)
        return out

    # ------------------------------------------------------------ calls
    def e_Call(self, e, st):
        self.stats['calls'] += 1
        f = e.func
        if isinstance(f, ast.Attribute):
            if isinstance(f.value, ast.Name) and f.value.id == 'logging' and f.value.id not in st.env:
                pass
            o = self.ev(f.value, st)
            if o.op == 'module' and o.args[0] == 'logging' or o.op == 'ext' and o.args[0].startswith('logging'):
                return NONE
            if o.op in ('module', 'class', 'ext'):
                fv = self.getattr(o, f.attr, st, f)
                args, kw = self.args(e, st)
                return self.call(fv, args, kw, st, e)
            args, kw = self.args(e, st)
            return self.method(o, f.attr, args, kw, st, e)
        fv = self.ev(f, st)
        args, kw = self.args(e, st)
        return self.call(fv, args, kw, st, e)

    def args(self, e, st):
        args = []
        for a in e.args:
            v = self.ev(a, st)
            if v.op == 'star':
                items = self.items_of(v.args[0], st, a)
                if all(it[0] == 'one' and it[3] is TRUE for it in items):
                    args += [it[2] for it in items]
                else:
                    args.append(v)
            else:
                args.append(v)
        kw = {}
        for k in e.keywords:
            v = self.ev(k.value, st)
            if k.arg is None:
                v = self.deref(v, st)
                if v.op == 'ref':
                    for kk, vv in st.heap[v.args[0]].fields.items():
                        kw[kk] = vv
            else:
                kw[k.arg] = v
        return args, kw

    def call(self, fv, args, kw, st, node):
        fv = st.facts.restrict(fv)
        if fv.op == 'ite':
            res = []

            def go(leaf, s):
                res.append((leaf, self.call(leaf, args, kw, s, node)))
                return Flows(s)
            out = []
            ls = X.guarded_leaves(fv)

            def rec(i, s):
                if i == len(ls) - 1:
                    return self.call(ls[i][0], args, kw, s, node)
                return self.ifelse(ls[i][1], s, lambda a: self.call(ls[i][0], args, kw, a, node), lambda b: rec(i + 1, b))
            return rec(0, st)
        op = fv.op
        if op == 'fn':
            return self.call_function(self.fns[fv.args[0]], args, kw, st, node, fv)
        if op == 'bound':
            return self.call(fv.args[0], [fv.args[1]] + args, kw, st, node)
        if op == 'static':
            return self.call(fv.args[0], args, kw, st, node)
        if op == 'method':
            return self.method(fv.args[0], fv.args[1], args, kw, st, node)
        if op == 'class':
            return self.instantiate(self.classes[fv.args[0]], fv, args, kw, st, node)
        if op == 'builtin':
            return self.builtin(fv.args[0], args, kw, st, node)
        if op == 'ext':
            return self.extcall(fv.args[0], args, kw, st, node)
        if op == 'unknown' or op == 'app' or op == 'sym' or op == 'extcall':
            return self.opaque('call', [fv] + args + list(kw.values()), st, node)
        return self.opaque('call', [fv] + args + list(kw.values()), st, node)

    def opaque(self, name, args, st, node):
        """result of something not modelled: a deterministic function of its arguments"""
        self.event('opaque', node, st, name)
        lvs = tuple(lv for lv, _ in self.loops)
        t = mk('extcall', name, *(tuple(args) + (tuple(l for l in lvs),)))
        return t

    def instantiate(self, c, cv, args, kw, st, node):
        if ('class', c.name) in self.hooks:
            r = self.hooks[('class', c.name)](self, c, args, kw, st, node)
            if r is not None:
                return r
        if c.kind == 'namedtuple':
            vals = []
            for i, (n, _, d) in enumerate(c.annots):
                vals.append(args[i] if i < len(args) else kw.get(n, d if d is not None else MISSING))
            return mk('nt', cv.args[0], *vals)
        if c.kind == 'typeddict':
            r = self.alloc(st, 'dict', node)
            for k, v in kw.items():
                self.put_field(r, k, v, st)
            for a in args:
                self.method(r, 'update', [a], {}, st, node)
            return r
        if c.kind == 'dataclass':
            r = self.alloc(st, 'obj', node, cls=c)
            allann = []
            def coll(k):
                for b in k.bases:
                    coll(b)
                allann.extend(k.annots)
            coll(c)
            for i, (n, ann, d) in enumerate(allann):
                if i < len(args):
                    v = args[i]
                elif n in kw:
                    v = kw[n]
                elif d is not None:
                    v = d
                    if d.op == 'field-factory':
                        v = self.call(d.args[0], [], {}, st, node)
                else:
                    v = MISSING
                self.put_field(r, n, v, st)
            return r
        r = self.alloc(st, 'obj', node, cls=c)
        init = self.clsattr(c, '__init__')
        if init is not None:
            self.call(init, [r] + args, kw, st, node)
        return r

    def call_function(self, f, args, kw, st, node, fv):
        self.stats['functions'].add((f.module, f.name))
        key = (f.module.split('.')[-1], f.name)
        if key in self.hooks:
            r = self.hooks[key](self, f, args, kw, st, node)
            if r is not None:
                return r
        if self.depth > 60:
            return self.opaque('recursion', args, st, node)
        if self.abstract_pure and self.is_pure_candidate(f, args, kw):
            r = self.pure_call(f, args, kw, st, node)
            if r is not None:
                return r
        env = self.bind_args(f, args, kw, st, node)
        if env is None:
            self.event('bad-call', node, st, f.name)
            return self.opaque('bad-call', args, st, node)
        return self.run_function(f, env, st, node)

    def is_pure_candidate(self, f, args, kw):
        n = f.node
        if isinstance(n, ast.Lambda):
            return False
        p = getattr(f, 'purec', None)
        if p is None:
            ctl = [x for x in ast.walk(n) if isinstance(x, (ast.If, ast.IfExp, ast.For, ast.BoolOp))]
            p = (any(isinstance(x, (ast.Try, ast.While)) for x in ast.walk(n)) or len(ctl) >= 3) and \
                not any(isinstance(x, (ast.With,)) for x in ast.walk(n)) and \
                any(isinstance(x, ast.Return) and x.value is not None for x in ast.walk(n))
            f.purec = p
        if not p:
            return False
        vals = list(args) + list(kw.values())
        return all(not self.has_ref(v) and not any(l.op in ('fn', 'bound', 'class', 'view') for l in X.leaves(v))
                   for v in vals)

    def pure_call(self, f, args, kw, st, node):
        tys = tuple(X.typ(a) for a in args) + tuple(sorted((k, X.typ(v)) for k, v in kw.items()))
        mkey = (f.module, f.name, tys)
        if mkey not in self.purememo:
            ps = [mk('sym', 'p%d:%s' % (i, X.typ(a)), X.typ(a)) for i, a in enumerate(args)]
            pk = {k: mk('sym', 'p%s:%s' % (k, X.typ(v)), X.typ(v)) for k, v in kw.items()}
            env = self.bind_args(f, ps, pk, st, node)
            body = None
            if env is not None:
                s2 = St({}, dict(st.heap), X.Facts())
                saved = (self.loops, self.pcstack, self.raises, self.sinks, self.recording, self.ctx)
                self.loops, self.pcstack, self.raises, self.sinks = [], [], [[]], [None]
                self.recording = True
                n0 = len(self.events)
                try:
                    body = self.run_function(f, env, s2, node)
                    aborts = self.raises[0]
                    noab = b_not(b_or(*aborts)) if aborts else TRUE
                    body = (body, b_not(noab))
                except Dead:
                    body = None
                self.loops, self.pcstack, self.raises, self.sinks, self.recording, self.ctx = saved
                evs = self.events[n0:]
                del self.events[n0:]
                if body is not None and self.has_ref(body[0]):
                    body = None
            self.purememo[mkey] = (body, tuple(ps), pk)
        body, ps, pk = self.purememo[mkey]
        if body is None:
            return None
        sub = dict(zip(ps, args))
        sub.update({pk[k]: v for k, v in kw.items()})
        body, ab = body
        vals = list(args) + [kw[k] for k in sorted(kw)]
        if ab is not FALSE:
            self.maybe_abort(X.subst(ab, sub) if all(v.op != 'ite' for v in vals) else
                             lift(lambda *xs: X.subst(ab, dict(zip(list(ps) + [pk[k] for k in sorted(kw)], xs))), *vals),
                             node, st, 'raise in ' + f.name)
        if len(X.atoms_of(body)) <= 2:
            return X.subst(body, sub)

        def one_call(*xs):
            if all(x.op == 'const' for x in xs):
                r = X.subst(body, dict(zip(list(ps) + [pk[k] for k in sorted(kw)], xs)))
                if r.op == 'const':
                    return r
            if body.op == 'ite' and all(l.op == 'tuple' for l in X.leaves(body)):
                ns = {len(l.args) for l in X.leaves(body)}
                if len(ns) == 1:
                    return mk('tuple', *[mk('call', lift(lambda t, i=i: t.args[i], body), *xs) for i in range(ns.pop())])
            return mk('call', body, *xs)
        return lift(one_call, *vals)

    def bind_args(self, f, args, kw, st, node):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        kw = dict(kw)
        for i, n in enumerate(names):
            if i < len(args):
                env[n] = args[i]
            elif n in kw:
                env[n] = kw.pop(n)
            else:
                j = i - (len(names) - len(a.defaults))
                if j < 0:
                    return None
                env[n] = self.default(f, a.defaults[j], st)
        for n in names:
            kw.pop(n, None)
        if len(args) > len(names):
            if a.vararg is None:
                return None
            env[a.vararg.arg] = mk('tuple', *args[len(names):])
        elif a.vararg is not None:
            env[a.vararg.arg] = mk('tuple')
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg in kw:
                env[x.arg] = kw.pop(x.arg)
            elif d is not None:
                env[x.arg] = self.default(f, d, st)
            else:
                return None
        if kw:
            if a.kwarg is None:
                return None
            env[a.kwarg.arg] = X.unknown('kwargs')
        return env

    def default(self, f, d, st):
        saved = st.env
        st.env = dict(f.env)
        self.curfn.append((f.name, f.module))
        try:
            return self.ev(d, st)
        finally:
            self.curfn.pop()
            st.env = saved

    def run_function(self, f, env, st, node):
        saved = st.env
        st.env = env
        self.depth += 1
        self.curfn.append((f.name, f.module))
        clos = getattr(f, 'closure', None)
        if clos is None:
            clos = () if f.env is self.modules.get(f.module) or f.env.get('__name__') is not None else (f.env,)
        self.closures = self.closures + (clos,)
        self.ctx.append((getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0), f.name))
        sink = self.sinks[-1]
        nsink = len(sink) if sink is not None else 0
        base = st.facts
        pc0 = st.pc
        try:
            if isinstance(f.node, ast.Lambda):
                v = self.ev(f.node.body, st)
                st.env = saved
                return v
            fl = self.exec_block(f.node.body, st)
            rets = list(fl.ret)
            if fl.next is not None:
                rets.append((fl.next, NONE))
            if not rets:
                raise Dead()
            r, v = rets[0]
            if len(rets) == 1:
                m = r
            else:
                m = r
                for s, v2 in rets[1:]:
                    c = base.restrict(m.pc)
                    c2 = base.restrict(b_not(s.pc))
                    d = c if len(X.atoms_of(c)) <= len(X.atoms_of(c2)) else c2
                    v = ite(d, v, v2) if v is not v2 else v
                    m = self.merge2(d, m, s, base)
                m.facts = self.refacts(base, m)
            st.become(m)
            st.env = saved
            if len(rets) == 1 and r.pc is not pc0 and not self.partial_exit(rets):
                pass
            return v
        finally:
            st.env = saved
            if sink is not None:
                for s in sink[nsink:]:
                    s.env = dict(saved)
            self.ctx.pop()
            self.closures = self.closures[:-1]
            self.curfn.pop()
            self.depth -= 1

    def partial_exit(self, rets):
        return False

    # ------------------------------------------------------------ methods
    def method(self, o, name, args, kw, st, node):
        o = st.facts.restrict(o) if o.op == 'ite' else o
        if o.op == 'ite' and any(l.op == 'ref' and st.heap[l.args[0]].kind == 'fwd' for l in X.leaves(o)):
            o = lift(lambda l: self.unfwd(l, st), o)
        if o.op == 'ite':
            ls = X.guarded_leaves(o)
            if all(l.op != 'ref' and l.op != 'bound' for l, _ in ls):
                return lift(lambda x: self.method1(x, name, args, kw, st, node), o)

            def rec(i, s):
                if i == len(ls) - 1:
                    return self.method1(ls[i][0], name, args, kw, s, node)
                return self.ifelse(ls[i][1], s, lambda a: self.method1(ls[i][0], name, args, kw, a, node),
                                   lambda b: rec(i + 1, b))
            return rec(0, st)
        return self.method1(o, name, args, kw, st, node)

    def method1(self, o, name, args, kw, st, node):
        o = self.deref(o, st)
        op = o.op
        if op == 'ref':
            c = st.heap[o.args[0]]
            if c.kind == 'obj':
                if name in c.fields:
                    return self.call(self.getattr(o, name, st, node), args, kw, st, node)
                v = self.clsattr(c.cls, name)
                if v is not None:
                    if v.op == 'static':
                        return self.call(v.args[0], args, kw, st, node)
                    return self.call(v, [o] + args, kw, st, node)
                return self.objmethod(o, c, name, args, kw, st, node)
            m = getattr(self, 'm_%s_%s' % (c.kind, name), None)
            if m is not None:
                return m(o, args, kw, st, node)
            return self.opaque('%s.%s' % (c.kind, name), [o] + args, st, node)
        if op == 'module' or op == 'ext' or op == 'class':
            return self.call(self.getattr(o, name, st, node), args, kw, st, node)
        if op == 'builtin' and o.args[0] in ('str', 'dict', 'list', 'int', 'bytes'):
            if o.args[0] == 'dict' and name == 'fromkeys':
                return self.opaque('dict.fromkeys', args, st, node)
            return self.method(args[0], name, args[1:], kw, st, node)
        if op == 'bytes' or op == 'bytearray':
            return self.opaque('bytes.' + name, [o] + args, st, node)
        if name == 'to_bytes' and (X.typ(o) == 'int' or op == 'const'):
            r = self.tobytes(o, args, kw, st, node)
            if r is not None:
                return r
        if name in STRM and (X.typ(o) == 'str' or op in ('unknown', 'at', 'prev', 'elemval', 'app', 'sym', 'missing')):
            return self.strmethod(o, name, args, kw, st, node)
        if op == 'nt' and name == '_replace':
            c = self.classes[o.args[0]]
            vals = [kw.get(n, v) for (n, _, _), v in zip(c.annots, o.args[1:])]
            return mk('nt', o.args[0], *vals)
        if op == 'const' and o is NONE:
            self.event('none-method', node, st, name)
            raise Dead()
        return self.opaque('.' + name, [o] + args + list(kw.values()), st, node)

    def tobytes(self, o, args, kw, st, node):
        n = args[0] if args else kw.get('length', const(1))
        order = args[1] if len(args) > 1 else kw.get('byteorder', const('big'))
        signed = kw.get('signed', FALSE)
        if n.op != 'const' or order.op != 'const' or signed not in (TRUE, FALSE) and signed.op != 'const':
            return None
        return self.packed(o, int(X.cval(n)), signed is TRUE or signed.op == 'const' and bool(X.cval(signed)),
                           X.cval(order), st, node)

    def packed(self, x, n, signed, order, st, node):
        lo, hi = (-(1 << (8 * n - 1)), (1 << (8 * n - 1)) - 1) if signed else (0, (1 << (8 * n)) - 1)
        self.maybe_abort(b_or(X.lt(x, const(lo)), X.lt(const(hi), x)), node, st, 'overflow')
        bs = [X.mod(X.fdiv(x, const(1 << (8 * i))) if i else x, const(256)) for i in range(n)]
        return mk('tuple', *(bs if order == 'little' else bs[::-1]))

    def pack(self, args, st, node):
        import re
        if not args or args[0].op != 'const':
            return None
        m = re.match(r'([<>!=@]?)((?:\d*[bBhHiIlLqQx])+)$', str(X.cval(args[0])).replace(' ', ''))
        if not m or m.group(1) in ('', '@', '='):
            if not m or re.search('[hHiIlLqQ]', m.group(2)):
                return None
        order = 'little' if m.group(1) == '<' else 'big'
        out, i = [], 1
        for k, c in re.findall(r'(\d*)(\w)', m.group(2)):
            for _ in range(int(k) if k else 1):
                if c == 'x':
                    out.append(const(0))
                    continue
                n = {'b': 1, 'h': 2, 'i': 4, 'l': 4, 'q': 8}[c.lower()]
                if i >= len(args):
                    return None
                out += self.packed(args[i], n, c.islower(), order, st, node).args
                i += 1
        return mk('tuple', *out) if i == len(args) else None

    def objmethod(self, o, c, name, args, kw, st, node):
        m = getattr(self, 'o_%s_%s' % (c.meta.args[0] if isinstance(c.meta, X.T) else '', name), None)
        if m is not None:
            return m(o, args, kw, st, node)
        return self.opaque('.' + name, [o] + args + list(kw.values()), st, node)

    # lists
    def m_list_append(self, o, a, kw, st, node):
        self.append(o, a[0], st, node)
        return NONE

    def m_list_extend(self, o, a, kw, st, node):
        items = self.items_of(a[0], st, node)
        self.extend(o, items, st, node)
        return NONE

    def extend(self, o, items, st, node):
        def body(x, val):
            self.append(self.deref(o, x), val, x, node)
            return Flows(x)
        fl = self.iterate(items, body, st, node)
        if fl.next is None:
            raise Dead()
        if fl.next is not st:
            st.become(fl.next)

    def m_list_insert(self, o, a, kw, st, node):
        c = st.heap[o.args[0]]
        it = one(None, a[1], st.pc, self.site(node))
        rt = [t for t in o.args[1] if t.op != 'keytag']
        if X.is_int(a[0]) and X.cval(a[0]) == 0 and not rt:
            st.heap[o.args[0]] = c.with_items((it,) + c.items)
        else:
            st.heap[o.args[0]] = c.with_items(c.items + (('havoc', X.unknown('insert')),))
        return NONE

    def m_list_sort(self, o, a, kw, st, node):
        c = st.heap[o.args[0]]
        if any(t.op == 'keytag' for t in o.args[1]):
            # order inside one keyed list; other keys unaffected
            return NONE
        st.heap[o.args[0]] = c.with_items(self.sort_items(list(c.items), kw, st, node))
        return NONE

    def m_list_copy(self, o, a, kw, st, node):
        return self.alloc(st, 'list', node, items=tuple(self.items_of(o, st, node)))

    def m_list_reverse(self, o, a, kw, st, node):
        c = st.heap[o.args[0]]
        st.heap[o.args[0]] = c.with_items(tuple(reversed(c.items)))
        return NONE

    def m_list_clear(self, o, a, kw, st, node):
        c = st.heap[o.args[0]]
        if any(it[0] == 'earlier' for it in c.items):
            st.heap[o.args[0]] = c.with_items(c.items + (('clear', st.pc),))
            return NONE
        st.heap[o.args[0]] = st.heap[o.args[0]].with_items(())
        return NONE

    m_set_clear = m_list_clear

    def m_list_pop(self, o, a, kw, st, node):
        c = st.heap[o.args[0]]
        v = self.list_index(o, a[0] if a else const(-1), st, node)
        if not a and c.items and c.items[-1][0] == 'one' and c.items[-1][3] is TRUE:
            st.heap[o.args[0]] = c.with_items(c.items[:-1])
        elif a and X.is_int(a[0]) and X.cval(a[0]) == 0 and c.items and c.items[0][0] == 'one' and c.items[0][3] is TRUE:
            st.heap[o.args[0]] = c.with_items(c.items[1:])
        else:
            st.heap[o.args[0]] = c.with_items(c.items + (('havoc', X.unknown('pop')),))
        return v

    def m_list_remove(self, o, a, kw, st, node):
        c = st.heap[o.args[0]]
        st.heap[o.args[0]] = c.with_items(c.items + (('havoc', X.unknown('remove')),))
        return NONE

    def m_list_index(self, o, a, kw, st, node):
        return X.app('list.index', o, a[0])

    # sets
    def m_set_add(self, o, a, kw, st, node):
        self.append(o, a[0], st, node)
        return NONE

    def m_set_update(self, o, a, kw, st, node):
        for x in a:
            self.extend(o, self.items_of(x, st, node), st, node)
        return NONE

    def m_set_union(self, o, a, kw, st, node):
        items = list(self.ref_items(o, st))
        for x in a:
            items += self.items_of(x, st, node)
        return self.alloc(st, 'set', node, items=tuple(items))

    def m_set_difference(self, o, a, kw, st, node):
        if len(a) == 1:
            r = self.setalg(o, a[0], False, st, node)
            if r is not None:
                return r
        return X.app('setdiff', o, *a)

    def m_set_intersection(self, o, a, kw, st, node):
        if len(a) == 1:
            r = self.setalg(o, a[0], True, st, node)
            if r is not None:
                return r
        return X.app('BitAnd', o, *a)

    def m_set_isdisjoint(self, o, a, kw, st, node):
        r = self.setalg(o, a[0], True, st, node)
        return b_not(self.nonempty(r, st)) if r is not None else atom(mk('truthy', X.app('isdisjoint', o, a[0])))

    def m_set_issuperset(self, o, a, kw, st, node):
        if self.is_set(a[0], st):
            return self.m_set_issubset(self.deref(a[0], st), [o], {}, st, node)
        return atom(mk('truthy', X.app('issuperset', o, a[0])))

    def m_set_issubset(self, o, a, kw, st, node):
        # every element is in the other
        items = self.ref_items(o, st)
        other = a[0]

        def bad(its):
            g = FALSE
            for it in its:
                if it[0] == 'one':
                    g = b_or(g, b_and(it[3], b_not(self.contains(it[2], other, st, node))))
                elif it[0] == 'loop':
                    g = b_or(g, X.exists(it[1], b_and(it[3], bad(it[4]))))
                else:
                    g = b_or(g, atom(mk('truthy', it[1])))
            return g
        return b_not(bad(items))

    def m_set_discard(self, o, a, kw, st, node):
        return self.m_list_remove(o, a, kw, st, node)

    m_set_remove = m_set_discard

    def m_set_copy(self, o, a, kw, st, node):
        return self.alloc(st, 'set', node, items=tuple(self.ref_items(o, st)))

    # dicts
    def m_dict_get(self, o, a, kw, st, node):
        d = a[1] if len(a) > 1 else kw.get('default', NONE)
        p, v = self.lookup(o, a[0], st)
        if v is None:
            return d
        return st.facts.restrict(ite(p, v, d))

    def m_dict_items(self, o, a, kw, st, node):
        return mk('view', 'items', o)

    def m_dict_keys(self, o, a, kw, st, node):
        return mk('view', 'keys', o)

    def m_dict_values(self, o, a, kw, st, node):
        return mk('view', 'values', o)

    def m_dict_copy(self, o, a, kw, st, node):
        c = st.heap[o.args[0]]
        f = {k: self.tagged(v, o.args[1]) for k, v in c.fields.items()}
        return self.alloc(st, 'dict', node, fields=f, items=tuple(self.ref_items(o, st)))

    def m_dict_setdefault(self, o, a, kw, st, node):
        p, v = self.lookup(o, a[0], st)
        d = a[1] if len(a) > 1 else NONE

        def put(s):
            self.setitem(o, a[0], d, s, node)
            return self.deref(d, s)
        if v is None:
            return put(st)
        return self.ifelse(p, st, lambda s: v, put)

    def m_dict_update(self, o, a, kw, st, node):
        for x in a:
            x = self.deref(x, st)
            if x.op == 'ref' and st.heap[x.args[0]].kind == 'dict':
                items = self.dict_items(x, st, 'items')
            else:
                items = self.items_of(x, st, node)

            def body(s, val):
                self.setitem(o, self.getitem(val, ZERO, s, node), self.getitem(val, ONE, s, node), s, node)
                return Flows(s)
            fl = self.iterate(items, body, st, node)
            if fl.next is None:
                raise Dead()
            if fl.next is not st:
                st.become(fl.next)
        for k, v in kw.items():
            self.put_field(o, k, v, st)
        return NONE

    def m_dict_pop(self, o, a, kw, st, node):
        p, v = self.lookup(o, a[0], st)
        self.delitem(o, a[0], st, node)
        if v is None:
            return a[1] if len(a) > 1 else X.unknown('pop')
        return ite(p, v, a[1]) if len(a) > 1 else v

    def m_dict_most_common(self, o, a, kw, st, node):
        return self.opaque('most_common', [o] + a, st, node)

    def m_dict_move_to_end(self, o, a, kw, st, node):
        return NONE

    # files
    def m_file_write(self, o, a, kw, st, node):
        self.append(o, a[0], st, node)
        self.event('write', node, st, (o, a[0]))
        return X.unknown('write')

    def m_file_close(self, o, a, kw, st, node):
        return NONE

    def m_file_flush(self, o, a, kw, st, node):
        return NONE

    def m_file_writelines(self, o, a, kw, st, node):
        self.event('write', node, st, (o, a[0]))
        self.extend(o, self.items_of(a[0], st, node), st, node)
        return NONE

    def m_file_read(self, o, a, kw, st, node):
        return mk('app', 'str', mk('app', 'filetext', st.heap[o.args[0]].fields['path']))

    def m_file_readline(self, o, a, kw, st, node):
        rd = self.reading
        path = st.heap[o.args[0]].fields['path']
        if rd is None:
            return X.unknown('readline')
        if rd.value is None:
            raise FoundStream(path)
        if rd.done or st.pc is not rd.start.pc or rd.value.op == 'elemval' and rd.value.args[0] is not mk('lines', path):
            raise NoStream()
        rd.done = True
        return rd.value

    def m_file_readlines(self, o, a, kw, st, node):
        return self.seqview(self.items_of(o, st, node))

    # ------------------------------------------------------------ strings
    def strmethod(self, o, name, args, kw, st, node):
        if name == 'join':
            return self.join(o, args[0], st, node)
        if name == 'format':
            return self.strformat(o, args, kw, st, node)
        if name == 'encode':
            return X.app('str.encode', o, *args)

        def f(x, *xs):
            if x.op == 'const' and all(y.op == 'const' for y in xs):
                try:
                    r = getattr(X.cval(x), name)(*[X.cval(y) for y in xs])
                except Exception:
                    return X.app('str.' + name, x, *xs)
                if isinstance(r, (str, int, bool)):
                    return const(r)
                if isinstance(r, list):
                    return self.alloc(st, 'list', node, items=tuple(one(None, const(y), TRUE, None) for y in r))
                if isinstance(r, tuple):
                    return mk('tuple', *[const(y) for y in r])
            t = X.app('str.' + name, x, *xs)
            if 'str.' + name in X.BOOLAPPS:
                return atom(t)
            return t
        return lift(f, o, *args)

    def strformat(self, o, args, kw, st, node):
        if o.op != 'const':
            return X.app('str', X.app('str.format', o, *(list(args) + [v for v in kw.values()])))
        import string
        out = []
        i = 0
        try:
            for lit, field, spec, conv in string.Formatter().parse(X.cval(o)):
                if lit:
                    out.append(const(lit))
                if field is None:
                    continue
                if field == '':
                    v = args[i]
                    i += 1
                elif field.isdigit():
                    v = args[int(field)]
                elif field in kw:
                    v = kw[field]
                else:
                    import re as _re
                    m = _re.match(r'^(\w*)\[(\w+)\]$', field)
                    m2 = _re.match(r'^(\w*)\.(\w+)$', field)
                    if m:
                        b = args[int(m.group(1))] if m.group(1).isdigit() else (args[i] if m.group(1) == '' else kw[m.group(1)])
                        if m.group(1) == '':
                            i += 1
                        k = const(int(m.group(2))) if m.group(2).isdigit() else const(m.group(2))
                        v = self.getitem(b, k, st, node)
                    elif m2:
                        b = args[int(m2.group(1))] if m2.group(1).isdigit() else (args[i] if m2.group(1) == '' else kw[m2.group(1)])
                        if m2.group(1) == '':
                            i += 1
                        v = self.getattr(b, m2.group(2), st, node)
                    else:
                        raise KeyError(field)
                out.append(self.fmt(v, const(spec or ''), st) if not conv else mk('fmt', v, mk('conv', const(spec or ''), conv)))
        except (IndexError, KeyError):
            self.event('format-error', node, st, o)
            return X.app('str', X.app('str.format', o, *args))
        return X.cat(*out)

    def seqterm(self, items):
        """string pieces of an item sequence as one term (content order preserved)"""
        parts = []
        for it in items:
            if it[0] == 'one':
                parts.append(it[2] if it[3] is TRUE else ite(it[3], it[2], EMPTY))
            elif it[0] == 'loop':
                parts.append(mk('foreach', (it[1],), it[3], self.seqterm(it[4]), it[2]))
            else:
                parts.append(mk('app', 'str', mk('hv', str(it[1]))))
        return X.cat(*parts)

    def join(self, sep, seq, st, node):
        items = self.items_of(seq, st, node)
        if all(it[0] == 'one' and it[3] is TRUE for it in items):
            out = []
            for i, it in enumerate(items):
                if i:
                    out.append(sep)
                out.append(it[2])
            return X.cat(*out)
        if sep is EMPTY:
            return self.seqterm(items)
        return X.app('str.join', sep, self.seqval(items))

    # ------------------------------------------------------------ builtins
    def builtin(self, name, args, kw, st, node):
        m = getattr(self, 'b_' + name, None)
        if m is not None:
            return m(args, kw, st, node)
        if name.endswith(('Error', 'Exception')):
            return mk('exception', name, *args)
        return self.opaque(name, args, st, node)

    def b_len(self, a, kw, st, node):
        def f(x):
            x = self.deref(x, st)
            if x.op == 'ref':
                c = st.heap[x.args[0]]
                n = ZERO
                for k, v in c.fields.items():
                    g = lift(lambda y: FALSE if y is MISSING else TRUE, self.tagged(v, x.args[1]))
                    n = X.add(n, ite(g, ONE, ZERO))
                if c.kind == 'dict':
                    its = self.dict_items(x, st, 'keys')
                    return self.items_count(its)
                if c.kind == 'tally':
                    return self.items_count(self.tally_items(x, st, 'keys'))
                if c.kind == 'set' and not self.const_items(c.items):
                    return X.app('len', mk('distinct', self.seqval(self.ref_items(x, st))))
                return X.add(n, self.items_count(self.ref_items(x, st)))
            if x.op == 'tuple':
                return const(len(x.args))
            if x.op == 'const' and x.args[0] == 'str':
                return const(len(x.args[1]))
            if x.op == 'view':
                return self.items_count(self.items_of(x, st, node))
            if x.op == 'cat':
                n = ZERO
                for p in x.args:
                    n = X.add(n, f(p) if p.op != 'ite' else lift(f, p))
                return n
            return X.app('len', x)
        return lift(f, a[0]) if a[0].op == 'ite' else f(a[0])

    def seqval(self, items, ordered=True):
        """an item sequence as one term"""
        parts = []
        for it in items:
            if it[0] == 'one':
                parts.append(mk('one', it[2], it[3]))
            elif it[0] == 'loop':
                parts.append(mk('foreach', (it[1],), it[3], self.seqval(it[4], ordered), it[2] if ordered else INS))
            else:
                parts.append(mk('hv', str(it[1])))
        return mk('seq', *parts)

    def b_range(self, a, kw, st, node):
        lo, hi, step = (ZERO, a[0], ONE) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else ONE)
        if all(X.is_int(x) for x in (lo, hi, step)):
            r = range(X.cval(lo), X.cval(hi), X.cval(step))
            if len(r) <= 64:
                return mk('tuple', *[const(i) for i in r])
        lv = mk('range', lo, hi, step)
        return self.seqview([seq_loop(lv, INS, TRUE, [one(None, mk('elemval', lv), TRUE, None)])])

    def b_enumerate(self, a, kw, st, node):
        start = a[1] if len(a) > 1 else kw.get('start', ZERO)
        return self.seqview(self.enum_items(self.items_of(a[0], st, node), start))

    def b_reversed(self, a, kw, st, node):
        def rev(items):
            out = []
            for it in reversed(items):
                if it[0] == 'loop':
                    out.append(('loop', it[1], mk('order', 'rev', it[2]), it[3], tuple(rev(it[4]))))
                else:
                    out.append(it)
            return out
        return self.seqview(rev(self.items_of(a[0], st, node)))

    def b_zip(self, a, kw, st, node):
        seqs = [self.items_of(x, st, node) for x in a]
        if all(all(it[0] == 'one' and it[3] is TRUE for it in s) for s in seqs):
            n = min(len(s) for s in seqs) if seqs else 0
            return mk('tuple', *[mk('tuple', *[s[i][2] for s in seqs]) for i in range(n)])
        if all(len(s) == 1 and s[0][0] == 'loop' and s[0][1] is seqs[0][0][1] and len(s[0][4]) == 1 and
               s[0][4][0][0] == 'one' and b_and(s[0][3], s[0][4][0][3]) is b_and(seqs[0][0][3], seqs[0][0][4][0][3])
               for s in seqs):
            s0 = seqs[0][0]
            return self.seqview([('loop', s0[1], s0[2], b_and(s0[3], s0[4][0][3]),
                                  (one(None, mk('tuple', *[s[0][4][0][2] for s in seqs]), TRUE, None),))])
        return self.opaque('zip', a, st, node)

    def b_map(self, a, kw, st, node):
        r = self.alloc(st, 'list', node, hint='map')

        def body(x, val):
            self.append(r, self.call(a[0], [val], {}, x, node), x, node)
            return Flows(x)
        fl = self.iterate(self.items_of(a[1], st, node), body, st, node)
        if fl.next is None:
            raise Dead()
        if fl.next is not st:
            st.become(fl.next)
        return r

    def b_filter(self, a, kw, st, node):
        r = self.alloc(st, 'list', node, hint='filter')

        def body(x, val):
            c = self.truth(self.call(a[0], [val], {}, x, node) if a[0] is not NONE else val, x)
            return self.branch(c, x, lambda y: (self.append(r, val, y, node), Flows(y))[1], lambda y: Flows(y))
        fl = self.iterate(self.items_of(a[1], st, node), body, st, node)
        if fl.next is None:
            raise Dead()
        if fl.next is not st:
            st.become(fl.next)
        return r

    def sort_items(self, items, kw, st, node):
        key = kw.get('key')
        rev = kw.get('reverse', FALSE)
        if all(it[0] == 'one' and it[3] is TRUE and X.is_const(it[2]) for it in items) and (key is None or key is NONE) \
                and rev in (TRUE, FALSE):
            try:
                return tuple(sorted(items, key=lambda it: X.cval(it[2]), reverse=rev is TRUE))
            except TypeError:
                pass
        multi = len(items) > 1

        def go(its):
            out = []
            for it in its:
                if it[0] == 'one':
                    out.append(it)
                elif it[0] == 'loop':
                    kt = None
                    sub = it[4]
                    if not multi and X.at_most_one(it[1], it[3]):
                        out.append(('loop', it[1], it[2], it[3], tuple(go(sub))))
                        continue
                    if len(sub) == 1 and sub[0][0] == 'one':
                        v = sub[0][2]
                        kt = v
                        if key is not None and key is not NONE:
                            s2 = st.fork()
                            rec, self.recording = self.recording, False
                            self.loops.append((it[1], it[2]))
                            try:
                                kt = self.call(key, [v], {}, s2, node)
                            except Dead:
                                kt = X.unknown('sortkey')
                            self.loops.pop()
                            self.recording = rec
                    if kt is None:
                        kt = mk('sortgroup', *[mk('app', 'nested')])
                    # a dictionary entry sorts by its key: the value never decides
                    if kt.op == 'tuple' and len(kt.args) >= 1 and kt.args[0].op == 'elemkey':
                        kt = kt.args[0]
                    o = mk('order', 'sorted', kt, rev, mk('joint', len(items))) if multi else order_sorted(kt, rev)
                    if it[2] in (HASH, FS) and len(sub) == 1 and sub[0][0] == 'one' and kt is not sub[0][2] and \
                            not (kt.op == 'tuple' and any(x is sub[0][2] for x in kt.args)) and \
                            not self.injective([('loop', it[1], it[2], it[3], (('one', None, kt, sub[0][3], None),))], 2):
                        # equal keys keep the order of the set
                        self.ties.add(o)
                    out.append(('loop', it[1], o, it[3], sub))
                else:
                    out.append(it)
            return out
        return tuple(go(items))

    def b_sorted(self, a, kw, st, node):
        items = self.items_of(a[0], st, node)
        return self.alloc(st, 'list', node, items=tuple(self.sort_items(items, kw, st, node)), hint='sorted')

    def b_list(self, a, kw, st, node):
        if not a:
            return self.alloc(st, 'list', node)
        return self.alloc(st, 'list', node, items=tuple(self.items_of(a[0], st, node)))

    def b_tuple(self, a, kw, st, node):
        if not a:
            return mk('tuple')
        items = self.items_of(a[0], st, node)
        if all(it[0] == 'one' and it[3] is TRUE for it in items):
            return mk('tuple', *[it[2] for it in items])
        return self.alloc(st, 'list', node, items=tuple(items))

    def b_set(self, a, kw, st, node):
        if not a:
            return self.alloc(st, 'set', node)
        v = a[0]
        return self.alloc(st, 'set', node, items=tuple(self.items_of(v, st, node)))

    b_frozenset = b_set

    def b_dict(self, a, kw, st, node):
        r = self.alloc(st, 'dict', node)
        if a or kw:
            self.m_dict_update(r, a, kw, st, node)
        return r

    def b_str(self, a, kw, st, node):
        return self.fmt(a[0], EMPTY, st) if a else EMPTY

    def b_repr(self, a, kw, st, node):
        return mk('fmt', a[0], mk('conv', EMPTY, 114))

    def b_format(self, a, kw, st, node):
        return self.fmt(a[0], a[1] if len(a) > 1 else EMPTY, st)

    def b_hex(self, a, kw, st, node):
        return lift(lambda x: const(hex(X.cval(x))) if X.is_int(x) else mk('fmt', x, const('#x')), a[0])

    def b_int(self, a, kw, st, node):
        if not a:
            return ZERO
        def f(x):
            if x.op == 'const':
                try:
                    return const(int(X.cval(x)))
                except Exception:
                    return X.unknown('int')
            if X.typ(x) in ('int', 'bool'):
                return x
            if len(a) > 1:
                return X.app('int', x, a[1])
            return X.app('int', x)
        if self.sinks[-1] is not None and any(X.typ(l) not in ('int', 'bool') and not X.is_const(l)
                                              for l in X.leaves(a[0])):
            bad = lift(lambda x: FALSE if X.is_const(x) or X.typ(x) in ('int', 'bool')
                       else b_not(atom(mk('truthy', X.app('intable', x)))), a[0])
            self.maybe_abort(bad, node, st, 'int()')
        if a[0].op == 'ite' and all(l in (TRUE, FALSE) for l in X.leaves(a[0])):
            return ite(a[0], ONE, ZERO)
        return lift(f, a[0])

    def b_bool(self, a, kw, st, node):
        return self.truth(a[0], st)

    def b_float(self, a, kw, st, node):
        return X.app('float', *a)

    def b_any(self, a, kw, st, node):
        items = self.items_of(a[0], st, node)

        def some(its):
            g = FALSE
            for it in its:
                if it[0] == 'one':
                    g = b_or(g, b_and(it[3], self.truth(it[2], st)))
                elif it[0] == 'loop':
                    g = b_or(g, X.exists(it[1], b_and(it[3], some(it[4]))))
                else:
                    g = b_or(g, atom(mk('truthy', mk('hv', str(it[1])))))
            return g
        return st.facts.restrict(some(items))

    def b_all(self, a, kw, st, node):
        items = self.items_of(a[0], st, node)

        def some(its):
            g = FALSE
            for it in its:
                if it[0] == 'one':
                    g = b_or(g, b_and(it[3], b_not(self.truth(it[2], st))))
                elif it[0] == 'loop':
                    g = b_or(g, X.exists(it[1], b_and(it[3], some(it[4]))))
                else:
                    g = b_or(g, atom(mk('truthy', mk('hv', str(it[1])))))
            return g
        return st.facts.restrict(b_not(some(items)))

    def b_sum(self, a, kw, st, node):
        items = self.items_of(a[0], st, node)

        def tot(its):
            n = ZERO
            for it in its:
                if it[0] == 'one':
                    n = X.add(n, ite(it[3], it[2], ZERO))
                elif it[0] == 'loop':
                    n = X.add(n, X.sum_over(it[1], it[3], tot(it[4])))
                else:
                    n = X.add(n, X.app('int', mk('hv', str(it[1]))))
            return n
        r = tot(items)
        return X.add(r, a[1]) if len(a) > 1 else r

    def minmax(self, name, a, kw, st, node):
        if len(a) > 1 and 'key' not in kw:
            r = a[0]
            for x in a[1:]:
                r = ite(le(r, x), r, x) if name == 'min' else ite(le(x, r), r, x)
            return r
        items = self.items_of(a[0], st, node)
        if items and all(it[0] == 'one' and it[3] is TRUE for it in items) and 'key' not in kw:
            return self.minmax(name, [it[2] for it in items], kw, st, node) if len(items) > 1 else items[0][2]
        return X.app(name, self.seqval(items, 'key' in kw), *[kw[k] for k in sorted(kw)])

    def b_min(self, a, kw, st, node):
        return self.minmax('min', a, kw, st, node)

    def b_max(self, a, kw, st, node):
        return self.minmax('max', a, kw, st, node)

    def b_abs(self, a, kw, st, node):
        return lift(lambda x: const(abs(X.cval(x))) if X.is_int(x) else ite(le(ZERO, x), x, X.neg(x)), a[0])

    def b_ord(self, a, kw, st, node):
        return lift(lambda x: const(ord(X.cval(x))) if X.is_const(x) and len(X.cval(x)) == 1 else X.app('ord', x), a[0])

    def b_chr(self, a, kw, st, node):
        return lift(lambda x: const(chr(X.cval(x))) if X.is_int(x) else X.app('chr', x), a[0])

    def b_divmod(self, a, kw, st, node):
        return mk('tuple', X.fdiv(a[0], a[1]), X.mod(a[0], a[1]))

    def b_isinstance(self, a, kw, st, node):
        def f(x):
            x = self.deref(x, st)
            names = [ast.unparse(node.args[1])]
            if isinstance(node.args[1], ast.Tuple):
                names = [ast.unparse(z) for z in node.args[1].elts]
            ty = X.typ(x)
            if x.op == 'ref':
                k = st.heap[x.args[0]]
                real = {'dict': ('dict', 'OrderedDict', 'Counter'), 'list': ('list',), 'set': ('set',)}.get(k.kind)
                if real:
                    return TRUE if any(n.split('.')[-1] in real for n in names) else FALSE
                if k.kind == 'obj' and k.cls is not None:
                    return TRUE if k.cls.name in names else FALSE
            if ty in ('str', 'int', 'bool', 'tuple') and all(n in ('str', 'int', 'list', 'dict', 'set', 'tuple', 'bool') for n in names):
                return TRUE if ty in names or (ty == 'bool' and 'int' in names) else FALSE
            return atom(mk('app', 'isinstance', x, const(' '.join(names))))
        return lift(f, a[0]) if a[0].op == 'ite' else f(a[0])

    def b_print(self, a, kw, st, node):
        f = kw.get('file')
        end = kw.get('end', const('\n'))
        if f is not None:
            parts = []
            for i, x in enumerate(a):
                if i:
                    parts.append(const(' '))
                parts.append(self.fmt(x, EMPTY, st))
            text = X.cat(*(parts + [end]))

            def go(leaf, s):
                leaf = self.deref(leaf, s)
                if leaf.op == 'ref':
                    self.append(leaf, text, s, node)
                    self.event('write', node, s, (leaf, text))
                return Flows(s)
            self.on_leaves(f, st, go)
        else:
            self.event('stdout', node, st, mk('tuple', *a))
        return NONE

    def b_open(self, a, kw, st, node):
        mode = a[1] if len(a) > 1 else kw.get('mode', const('r'))
        enc = kw.get('encoding', a[3] if len(a) > 3 else NONE)
        r = self.alloc(st, 'file', node, fields={'path': a[0], 'mode': mode, 'encoding': enc})
        self.event('open', node, st, (r, a[0], mode, enc))
        return r

    def b_type(self, a, kw, st, node):
        return X.app('type', *a)

    def b_hash(self, a, kw, st, node):
        self.event('nondet', node, st, 'hash')
        return mk('app', 'nondet', const('hash'), *a)

    def b_id(self, a, kw, st, node):
        self.event('nondet', node, st, 'id')
        return mk('app', 'nondet', const('id'), *a)

    def b_super(self, a, kw, st, node):
        return X.unknown('super')

    def b_getattr(self, a, kw, st, node):
        if X.is_const(a[1]):
            return self.getattr(a[0], X.cval(a[1]), st, node)
        return self.opaque('getattr', a, st, node)

    def b_setattr(self, a, kw, st, node):
        if X.is_const(a[1]):
            self.setattr(a[0], X.cval(a[1]), a[2], st, node)
        return NONE

    def b_pow(self, a, kw, st, node):
        return self.binop(ast.Pow(), a[0], a[1], st, node)

    def b_bytearray(self, a, kw, st, node):
        return self.alloc(st, 'list', node, hint='bytearray')

    def b_next(self, a, kw, st, node):
        items = self.items_of(a[0], st, node) if a[0].op != 'ite' else None
        if items is None:
            return self.opaque('next', a, st, node)
        v = self.nth(list(items), 0, True)
        if v is not None:
            v = self.drop_missing(v)
        if v is None:
            return self.opaque('next', a, st, node)
        return v

    def b_iter(self, a, kw, st, node):
        return a[0]

    # ------------------------------------------------------------ library
    def extcall(self, name, args, kw, st, node):
        if name in self.ext:
            return getattr(self, self.ext[name])(args, kw, st, node)
        tail = name.split('.')[-1]
        if name.startswith('logging'):
            return NONE
        if name in ('typing.cast', 'cast'):
            return args[1]
        if name.startswith('typing.') or name.startswith('typing_extensions.'):
            return mk('ext', 'typing.type')
        if name in ('os.path.join',):
            def f(*xs):
                return X.app('os.path.join', *xs)
            return lift(f, *args)
        if name in ('sys.exit', 'os._exit', 'exit'):
            self.abort(node, st, 'exit', args[0] if args else NONE)
            raise Dead()
        if name.startswith(('time.', 'random.', 'uuid.', 'secrets.', 'os.environ', 'os.getenv', 'os.getpid',
                            'os.listdir', 'os.stat', 'os.path.getmtime', 'locale.', 'platform.', 'socket.', 'getpass.', 'tempfile.',
                            'os.urandom', 'os.walk', 'os.scandir', 'glob.', 'os.uname', 'os.getcwd')) or \
                name in ('datetime.datetime.now', 'datetime.datetime.today', 'datetime.date.today',
                         'datetime.datetime.utcnow'):
            self.event('nondet', node, st, name)
            return mk('extcall', name, *(tuple(args) + (tuple(l for l, _ in self.loops),)))
        if name in ('collections.OrderedDict', 'typing.OrderedDict'):
            r = self.b_dict(args, kw, st, node)
            return r
        if name == 'collections.Counter' and not args:
            return self.alloc(st, 'dict', node, meta=mk('factory', mk('builtin', 'int')))
        if name == 'collections.defaultdict':
            r = self.alloc(st, 'dict', node, meta=mk('factory', args[0] if args else NONE))
            return r
        if name == 're.sub':
            return lift(lambda *xs: X.app('re.sub', *xs), *args)
        if name == 're.compile':
            return X.app('re.compile', *args)
        if name == 'itertools.chain':
            out = []
            for a in args:
                out += self.items_of(a, st, node)
            return self.seqview(out)
        if name in ('operator.itemgetter',):
            idx = args
            e = ast.parse('lambda x: x[%r]' % (X.cval(args[0]),), mode='eval').body if len(args) == 1 else None
            if e is not None:
                for n in ast.walk(e):
                    n.lineno = getattr(node, 'lineno', 0)
                    n.col_offset = getattr(node, 'col_offset', 0)
                f = Func(e, self.curfn[-1][1], {})
                f.closure = ()
                self.fns.append(f)
                return mk('fn', len(self.fns) - 1)
        if name == 'json.dump' or name == 'json.dumps':
            text = X.app('json', args[0], *[v for _, v in sorted(kw.items())])
            text = X.app('str', mk('app', 'json', args[0], self.jsonopts(kw)))
            if name == 'json.dumps':
                return text
            f = args[1] if len(args) > 1 else kw.get('fp')

            def go(leaf, s):
                leaf = self.deref(leaf, s)
                if leaf.op == 'ref':
                    self.append(leaf, text, s, node)
                    self.event('write', node, s, (leaf, text))
                    self.event('json', node, s, (leaf, args[0], self.jsonopts(kw), dict(s.heap)))
                return Flows(s)
            self.on_leaves(f, st, go)
            return NONE
        if name == 'argparse.ArgumentParser':
            return self.alloc(st, 'obj', node, meta=mk('model', 'argparse'))
        if name == 'copy.copy' or name == 'copy.deepcopy':
            x = self.deref(args[0], st)
            if x.op == 'ref' and st.heap[x.args[0]].kind == 'dict':
                return self.m_dict_copy(x, [], {}, st, node)
            if x.op == 'ref' and st.heap[x.args[0]].kind == 'list':
                return self.m_list_copy(x, [], {}, st, node)
            return x
        if name == 'dataclasses.field':
            if 'default_factory' in kw:
                return mk('field-factory', kw['default_factory'])
            return kw.get('default', MISSING)
        if name.startswith('datetime.'):
            return self.pureext(name, args, kw)
        if name == 'struct.pack':
            r = self.pack(args, st, node)
            if r is not None:
                return r
        if name.startswith(('os.path.', 'math.', 'struct.', 'calendar.', 'textwrap.', 'zlib.', 'binascii.', 'string.', 'unicodedata.')):
            return self.pureext(name, args, kw)
        return self.opaque(name, args + [v for _, v in sorted(kw.items())], st, node)

    ext = {}

    def jsonopts(self, kw):
        return mk('opts', *[mk('opt', k, v) for k, v in sorted(kw.items()) if k != 'fp'])

    def pureext(self, name, args, kw):
        vals = list(args) + [mk('opt', k, v) for k, v in sorted(kw.items())]
        return lift(lambda *xs: X.app(name, *xs), *vals) if vals else X.app(name)

    # argparse
    def o_argparse_add_argument(self, o, a, kw, st, node):
        c = st.heap[o.args[0]]
        f = dict(c.fields)
        n = len([k for k in f if str(k).startswith('opt')])
        info = {'flags': [X.cval(x) for x in a if X.is_const(x)]}
        info.update(kw)
        self.options = getattr(self, 'options', [])
        self.options = self.options + [(info, self.site(node))]
        return NONE

    def o_argparse_parse_args(self, o, a, kw, st, node):
        r = self.alloc(st, 'obj', node, meta=mk('model', 'namespace'))
        seen = {}
        for info, site in getattr(self, 'options', []):
            flags = info['flags']
            long = [x for x in flags if x.startswith('--')] or flags
            dest = X.cval(info['dest']) if 'dest' in info else long[0].lstrip('-').replace('-', '_')
            act = X.cval(info['action']) if 'action' in info else 'store'
            if dest in seen and act in ('store_true', 'store_false'):
                continue
            seen[dest] = info
            if dest in self.overrides:
                v = self.overrides[dest]
            elif act in ('store_true', 'store_false'):
                v = atom(mk('truthy', mk('sym', 'arg.' + dest, 'bool')))
            else:
                ty = None
                if 'type' in info:
                    t = info['type']
                    ty = 'int' if t.op == 'builtin' and t.args[0] == 'int' else None
                    if not ('default' in info and info['default'] is not NONE) and \
                            not ('required' in info and info['required'] is TRUE):
                        ty = 'int?' if ty == 'int' else None
                else:
                    ty = 'str'
                if ty == 'int?':
                    # absent unless given
                    v = ite(atom(mk('truthy', mk('sym', 'arg.%s?' % dest, 'bool'))), mk('sym', 'arg.' + dest, 'int'), NONE)
                else:
                    v = mk('sym', 'arg.' + dest, ty)
            self.put_field(r, dest, v, st)
        return r

    def o_argparse_print_help(self, o, a, kw, st, node):
        return NONE
