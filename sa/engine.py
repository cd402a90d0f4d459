"""Abstract interpreter over the Python sources: lifts a whole run of the
compiler to a gated value graph (terms.py).

Collections are described by what is put into them: a cell holds items
('one', key, value, guard, site) and ('loop', level, order, guard, items),
so a symbolic loop over the zones leaves "for every zone with guard: item".
Loop-carried variables are closed into existence flags, counters, prefix sums,
previous-element values or folds.  Nothing of the analysed program is executed
and no solver is consulted; what cannot be described becomes an opaque term and
can only make a later rule undecided (quiet), never a report.
"""
import ast
import os
from . import tally as TL
from . import terms as X
from .terms import (mk, const, TRUE, FALSE, NONE, ZERO, ONE, EMPTY, ite, atom, lift, b_and, b_or,
                    b_not, as_bool, eq, le, lt, Facts)

MISSING = mk('missing')
UNBOUND = mk('unbound')
INS = mk('order', 'ins')
HASH = mk('order', 'hash')
FS = mk('order', 'fs')


def order_sorted(key, rev=FALSE):
    return mk('order', 'sorted', key, rev)


class Dead(Exception):
    pass


def has_ref_leaf(v):
    return any(l.op == 'ref' for l in X.leaves(v))


class Broken(Exception):
    """an anchor of the analysis vanished"""


class Cell:
    __slots__ = ('kind', 'fields', 'items', 'cls', 'meta')

    def __init__(self, kind, fields=None, items=(), cls=None, meta=None):
        self.kind = kind
        self.fields = fields if fields is not None else {}
        self.items = items
        self.cls = cls
        self.meta = meta

    def with_fields(self, f):
        return Cell(self.kind, f, self.items, self.cls, self.meta)

    def with_items(self, i):
        return Cell(self.kind, self.fields, tuple(i), self.cls, self.meta)


class St:
    __slots__ = ('env', 'heap', 'facts', 'pc', 'surv')

    def __init__(self, env, heap, facts, pc=TRUE, surv=TRUE):
        self.env = env
        self.heap = heap
        self.facts = facts
        self.pc = pc
        self.surv = surv

    def fork(self):
        return St(dict(self.env), dict(self.heap), self.facts, self.pc, self.surv)

    def become(self, o):
        self.env = o.env
        self.heap = o.heap
        self.facts = o.facts
        self.pc = o.pc
        self.surv = o.surv


class Event:
    __slots__ = ('kind', 'site', 'pc', 'ctx', 'data', 'facts')

    def __init__(self, kind, site, pc, ctx, data, facts):
        self.kind = kind
        self.site = site
        self.pc = pc
        self.ctx = ctx
        self.data = data
        self.facts = facts

    def __repr__(self):
        return '%s@%s:%s %s' % (self.kind, self.site[0], self.site[1], self.data)


class Func:
    def __init__(self, node, module, env, cls=None, name=None):
        self.node = node
        self.module = module
        self.env = env
        self.cls = cls
        self.name = name or getattr(node, 'name', '<lambda>')


class Cls:
    def __init__(self, name, module):
        self.name = name
        self.module = module
        self.attrs = {}
        self.bases = []
        self.kind = 'plain'
        self.annots = []      # (name, annotation ast, default T or None)
        self.node = None


class NoStream(Exception):
    """not a plain loop over the lines of a file"""


class FoundStream(Exception):
    def __init__(self, path):
        self.path = path


class Reading:
    """one step of a loop over lines: the value its read delivers, and where the line turned out to be skipped"""

    def __init__(self, value):
        self.value = value
        self.done = False
        self.at_end = False
        self.skips = []
        self.start = None


class Flows:
    __slots__ = ('next', 'brk', 'cont', 'ret')

    def __init__(self, next=None, brk=(), cont=(), ret=()):
        self.next = next
        self.brk = list(brk)
        self.cont = list(cont)
        self.ret = list(ret)


def seq_loop(lv, order, guard, sub):
    return ('loop', lv, order, guard, tuple(sub))


def one(key, value, guard, site):
    return ('one', key, value, guard, site)


def common(a, b):
    """lengths of the common prefix and (disjoint) common suffix"""
    n = 0
    while n < len(a) and n < len(b) and (a[n] is b[n] or a[n] == b[n]):
        n += 1
    m = 0
    while m < len(a) - n and m < len(b) - n and (a[-1 - m] is b[-1 - m] or a[-1 - m] == b[-1 - m]):
        m += 1
    return n, m


def reset_lists(tree):
    """`v = [x]` inside a loop, for a list v that nothing else refers to, is `v.clear(); v.append(x)`"""
    for f in ast.walk(tree):
        if not isinstance(f, (ast.FunctionDef, ast.AsyncFunctionDef)):
            continue
        uses = {}
        for n in ast.walk(f):
            if isinstance(n, ast.Name):
                uses.setdefault(n.id, []).append(n)
        defs = {}
        blocks = []

        def visit(body, depth):
            for i, s in enumerate(body):
                if isinstance(s, (ast.Assign, ast.AnnAssign)):
                    t = s.targets[0] if isinstance(s, ast.Assign) and len(s.targets) == 1 else getattr(s, 'target', None)
                    if isinstance(t, ast.Name) and isinstance(s.value, ast.List):
                        defs.setdefault(t.id, []).append((body, s, depth))
                for a in ('body', 'orelse', 'finalbody'):
                    b = getattr(s, a, None)
                    if isinstance(b, list):
                        visit(b, depth + (a == 'body' and isinstance(s, (ast.For, ast.While))))
        visit(f.body, 0)
        for v, ds in defs.items():
            base = min(d[2] for d in ds)
            inner = [d for d in ds if d[2] > base]
            if not inner:
                continue
            ok = {id(d[1].targets[0] if isinstance(d[1], ast.Assign) else d[1].target) for d in ds}
            # every other use: v.append(..), or outside every loop
            for n in ast.walk(f):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'append' and \
                        isinstance(n.func.value, ast.Name) and n.func.value.id == v:
                    ok.add(id(n.func.value))
                if isinstance(n, ast.Return) and isinstance(n.value, ast.Name):
                    ok.add(id(n.value))
            loops = [l for l in ast.walk(f) if isinstance(l, (ast.For, ast.While)) and
                     any(d[1] in ast.walk(l) for d in inner) and
                     not any(d[1] in ast.walk(l) for d in ds if d[2] == base)]
            if not loops:
                continue
            bad = any(isinstance(x, ast.Name) and x.id == v and id(x) not in ok for l in loops for x in ast.walk(l))
            if bad or any(len([e for e in d[1].value.elts if isinstance(e, ast.Starred)]) for d in inner):
                continue
            # the loop must not also create the list
            top = min(loops, key=lambda l: l.lineno)
            if not any(d[2] == base and d[1].lineno < top.lineno for d in ds):
                continue
            for body, s, _ in inner:
                new = [ast.parse('%s.clear()' % v).body[0]]
                for e in s.value.elts:
                    c = ast.parse('%s.append(None)' % v).body[0]
                    c.value.args = [e]
                    new.append(c)
                for x in new:
                    for y in ast.walk(x):
                        if isinstance(y, (ast.expr, ast.stmt)) and y not in s.value.elts:
                            ast.copy_location(y, s)
                i = body.index(s)
                body[i:i + 1] = new
    return tree


class Engine:
    def __init__(self, root, overrides=None):
        self.seenlog = {}
        self.seencids = {}
        self.root = root                  # .../src
        self.overrides = overrides or {}
        self.modules = {}
        self.trees = {}
        self.fns = []
        self.classes = []
        self.owner = {}
        self.events = []
        self.loops = []                   # open loops: (lv, order)
        self.pcstack = []                 # (lv, order, guard, pc before)
        self.callstack = []
        self.ctx = []                     # allocation context
        self.sinks = [None]
        self.raises = [[]]
        self.ties, self.texts, self.hashsets = set(), {}, set()
        self.watched, self.seen = (), []
        self.tally = (set(), {}, set())      # see sa/tally.py
        self.hooks = {}
        self.files = {}
        self.curfn = [('<module>', None)]
        self.stats = {'functions': set(), 'loops': 0, 'calls': 0, 'stmts': set()}
        self.cells_site = {}
        self.depth = 0
        self.recording = True
        self.purememo = {}
        self.abstract_pure = True
        self.modsyms = {}
        self.brs = []                     # open branches: (guard before, condition, its negation)
        self.kckind = {}                  # value cells of dicts filled under computed keys

    # ------------------------------------------------------------ modules
    aliases = {}

    def load(self, name, st):
        if name in self.modules:
            return self.modules[name]
        path = os.path.join(self.root, *name.split('.'))
        if os.path.isdir(path):
            path = os.path.join(path, '__init__.py')
        else:
            path += '.py'
        if not os.path.exists(path):
            return None
        with open(path, encoding='utf-8') as f:
            src = f.read()
        tree = reset_lists(ast.parse(src, path))
        self.trees[name] = tree
        for have, new in zip(self.tally, TL.scan(tree)):
            have.update(new)
        env = {'__name__': const(name)}
        self.modules[name] = env
        rel = os.path.relpath(path, os.path.dirname(self.root))
        self.files[name] = rel
        saved = st.env
        st.env = env
        self.curfn.append(('<module>', name))
        self.exec_block(tree.body, st)
        self.curfn.pop()
        self.modules[name] = st.env
        env.update(st.env)
        st.env = saved
        return env

    def site(self, node):
        fn, mod = self.curfn[-1]
        return (self.files.get(mod, str(mod)), getattr(node, 'lineno', 0), fn)

    # ------------------------------------------------------------ events
    def event(self, kind, node, st, data):
        if self.recording:
            self.events.append(Event(kind, self.site(node) if isinstance(node, ast.AST) else node, st.pc,
                                     tuple(self.pcstack), data, st.facts))

    # ------------------------------------------------------------ cells
    def alloc(self, st, kind, node, fields=None, items=(), cls=None, meta=None, hint=''):
        cid = (kind, self.site(node)[0], getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0), hint,
               tuple(self.ctx))
        base = cid
        own = tuple(lv for lv, _ in self.loops)
        old = self.owner.get(cid)
        n = 0
        while cid in st.heap and not self._realloc_ok(cid):
            n += 1
            cid = base + (n,)
        self.owner[cid] = own
        st.heap[cid] = Cell(kind, fields, items, cls, meta)
        return mk('ref', cid, ())

    def _realloc_ok(self, cid):
        return False

    def cell(self, ref, st):
        c = st.heap[ref.args[0]]
        while c.kind == 'fwd':
            ref = c.meta if not ref.args[1] else mk('ref', c.meta.args[0], ref.args[1] + c.meta.args[1])
            c = st.heap[ref.args[0]]
        return ref, c

    def deref(self, v, st):
        if v.op == 'ref' and v.args[0] in st.heap:
            return self.cell(v, st)[0]
        return v

    def at_val(self, tag, v):
        if tag.op == 'keytag':
            return lift(lambda l: mk('ref', l.args[0], (tag,) + l.args[1])
                        if l.op == 'ref' and l.args[0][0] == 'kc' and not l.args[1] else l, v)
        v = X.at(tag, v)
        lv = tag.args[0]

        def f(l):
            if l.op == 'ref':
                if lv in self.owner.get(l.args[0], ()):
                    return mk('ref', l.args[0], (tag,) + l.args[1])
            elif l.op in ('tuple', 'nt', 'view', 'bound') and any(isinstance(a, X.T) for a in l.args):
                return mk(l.op, *[self.at_val(tag, a) if isinstance(a, X.T) else a for a in l.args])
            return l
        return lift(f, v)

    def tagged(self, v, tags):
        for t in reversed(tags):
            v = self.at_val(t, v)
        return v

    def tag_items(self, items, tag):
        out = []
        for it in items:
            if it[0] == 'one':
                out.append(('one', None if it[1] is None else self.at_val(tag, it[1]), self.at_val(tag, it[2]),
                            X.at(tag, it[3]), it[4]))
            elif it[0] == 'loop':
                lv = tag.args[0]
                if tag.op == 'pick' and it[1] is not lv and lv in X.free_levels_level(it[1]) and \
                        lv not in X.free_levels(tag.args[1]):
                    # elements below the picked one
                    out.append(('loop', lv, INS, X.eq(mk('elemkey', lv), tag.args[1]), (it,)))
                    continue
                out.append(('loop', it[1], it[2], X.at(tag, it[3]), self.tag_items(it[4], tag)))
            else:
                out.append(it)
        return tuple(out)

    def tag_guard(self, tags):
        g = TRUE
        conds = []
        for i, t in enumerate(tags):
            if t.op == 'keytag':
                continue
            c = X.sel(t)
            conds.append(c)
        return b_and(*conds) if conds else TRUE

    def strip(self, v, tags):
        tags = set(t for t in tags if t.op != 'keytag')
        if not tags:
            return v
        memo = {}

        def go(t):
            r = memo.get(t.id)
            if r is None:
                if t.op == 'at' and t.args[0] in tags:
                    r = go(t.args[1])
                    if X.typ(r) is None and r.op in X.BOOLATOMS:
                        r = atom(r)
                elif t.op in ('const', 'sym', 'ref', 'fn', 'src', 'elemkey'):
                    r = t
                    if t.op == 'ref' and t.args[1] and any(x in tags for x in t.args[1]):
                        r = mk('ref', t.args[0], tuple(x for x in t.args[1] if x not in tags))
                else:
                    r = X.rebuild(t, go)
                memo[t.id] = r
            return r
        return go(v)

    # ------------------------------------------------------------ state merging
    def unfwd(self, v, st):
        if v.op == 'ref':
            c = st.heap.get(v.args[0])
            if c is not None and c.kind == 'fwd':
                return self.cell(v, st)[0]
        return v

    def merge2(self, c, a, b, facts):
        """state a when c else b"""
        env = {}
        if a.env is b.env and a.heap is b.heap:
            env = dict(a.env)
        else:
            for k in a.env.keys() | b.env.keys():
                va = a.env.get(k, UNBOUND)
                vb = b.env.get(k, UNBOUND)
                if va is not vb or va.op == 'ref' and a.heap.get(va.args[0]) is not b.heap.get(va.args[0]):
                    va, vb = self.unfwd(va, a), self.unfwd(vb, b)
                env[k] = va if va is vb else ite(c, va, vb)
        heap = {}
        ha, hb = a.heap, b.heap
        for k, ca in ha.items():
            cb = hb.get(k)
            if cb is None or cb is ca:
                heap[k] = ca
            else:
                heap[k] = self.merge_cell(c, ca, cb)
        for k, cb in hb.items():
            if k not in ha:
                heap[k] = cb
        pc = b_or(a.pc, b.pc)
        surv = ite(c, a.surv, b.surv)
        return St(env, heap, facts, pc, surv)

    def merge_cell(self, c, a, b):
        if a.kind == 'fwd' or b.kind == 'fwd':
            return a if a.kind == 'fwd' else b
        fields = a.fields
        if a.fields is not b.fields:
            fields = {}
            for k in list(a.fields) + [x for x in b.fields if x not in a.fields]:
                va = a.fields.get(k, MISSING)
                vb = b.fields.get(k, MISSING)
                fields[k] = va if va is vb else ite(c, va, vb)
        items = a.items
        if a.items is not b.items and a.items != b.items:
            n, m = common(a.items, b.items)
            ma = a.items[n:len(a.items) - m]
            mb = b.items[n:len(b.items) - m]
            if len(ma) == len(mb) and all(x[0] == 'one' and y[0] == 'one' and x[1] is y[1] and x[2] is y[2]
                                          for x, y in zip(ma, mb)):
                mid = tuple(('one', x[1], x[2], ite(c, x[3], y[3]), x[4]) for x, y in zip(ma, mb))
            else:
                mid = tuple(self.guard_items(ma, c)) + tuple(self.guard_items(mb, b_not(c)))
            items = a.items[:n] + mid + (a.items[len(a.items) - m:] if m else ())
        return Cell(a.kind, fields, items, a.cls, a.meta)

    def merge_all(self, base, sts):
        """merge disjoint flows of one fork point; base: facts common to all"""
        if not sts:
            return None
        r = sts[0]
        for s in sts[1:]:
            c = base.restrict(r.pc)
            c2 = base.restrict(b_not(s.pc))
            # choose the simpler discriminator
            d = c if len(X.atoms_of(c)) <= len(X.atoms_of(c2)) else c2
            r = self.merge2(d, r, s, base)
        if len(sts) > 1:
            r.facts = self.refacts(base, r)
        return r

    def refacts(self, base, st):
        f = base.assume(base.restrict(b_and(st.pc, st.surv)))
        return f if f is not None else base

    # ------------------------------------------------------------ statements
    def exec_block(self, stmts, st):
        """mutates st; returns Flows"""
        fl = Flows()
        entry = st.facts
        for s in stmts:
            f = self.exec_stmt(s, st)
            if f is None:
                continue
            fl.brk += f.brk
            fl.cont += f.cont
            fl.ret += f.ret
            if f.next is None:
                return fl
            if f.next is not st:
                st.become(f.next)
        fl.next = st
        return fl

    def exec_stmt(self, s, st):
        self.stats['stmts'].add((self.curfn[-1][1], getattr(s, 'lineno', 0)))
        if id(s) in self.tally[1]:
            n, k = self.tally[1][id(s)]
            o = st.env.get(n)
            if o is not None and o.op == 'ref' and self.cell(o, st)[1].kind == 'tally':
                try:
                    self.append(o, self.ev(k, st), st, s)
                except Dead:
                    return Flows(None)
                return None
        if id(s) in self.tally[2]:
            return None
        m = getattr(self, 'x_' + type(s).__name__, None)
        if m is None:
            raise Broken('unsupported statement %s at %s' % (type(s).__name__, self.site(s)))
        try:
            return m(s, st)
        except Dead:
            return Flows(None)

    def x_Pass(self, s, st):
        return None

    def x_Expr(self, s, st):
        self.ev(s.value, st)

    def x_Import(self, s, st):
        for a in s.names:
            root = a.name.split('.')[0]
            st.env[a.asname or root] = mk('module', a.name if a.asname else root)
            if a.name.startswith('acetimetools'):
                self.load(a.name, st)

    def x_ImportFrom(self, s, st):
        mod = s.module or ''
        env = None
        if s.level:
            base = self.curfn[-1][1].split('.')
            base = base[:len(base) - s.level]
            mod = '.'.join(base + ([mod] if mod else []))
        if mod.split('.')[0] in ('acetimetools', 'spec') or mod in self.aliases:
            env = self.load(mod, st)
        for a in s.names:
            n = a.asname or a.name
            if env is not None and a.name in env:
                st.env[n] = env[a.name]
            elif env is not None:
                sub = self.load(mod + '.' + a.name, st)
                st.env[n] = mk('module', mod + '.' + a.name) if sub is not None else mk('ext', mod + '.' + a.name)
            else:
                st.env[n] = mk('ext', mod + '.' + a.name)

    def x_FunctionDef(self, s, st):
        st.env[s.name] = self.mkfn(Func(s, self.curfn[-1][1], st.env))

    def mkfn(self, f):
        for i, g in enumerate(self.fns):
            if g.node is f.node and g.env is f.env:
                return mk('fn', i)
        self.fns.append(f)
        return mk('fn', len(self.fns) - 1)

    def x_ClassDef(self, s, st):
        c = Cls(s.name, self.curfn[-1][1])
        c.node = s
        idx = len(self.classes)
        self.classes.append(c)
        names = []
        for b in s.bases:
            n = ast.unparse(b)
            names.append(n)
            v = st.env.get(n)
            if v is not None and v.op == 'class':
                c.bases.append(self.classes[v.args[0]])
        for d in s.decorator_list:
            if 'dataclass' in ast.unparse(d):
                c.kind = 'dataclass'
        if any(n.endswith('TypedDict') for n in names) or any(b.kind == 'typeddict' for b in c.bases):
            c.kind = 'typeddict'
        if any(n.endswith('NamedTuple') for n in names):
            c.kind = 'namedtuple'
        saved = st.env
        env = dict(saved)
        before = set(env)
        st.env = env
        for b in s.body:
            if isinstance(b, ast.FunctionDef):
                f = Func(b, self.curfn[-1][1], saved, c, s.name + '.' + b.name)
                self.fns.append(f)
                v = mk('fn', len(self.fns) - 1)
                deco = [ast.unparse(d) for d in b.decorator_list]
                if 'staticmethod' in deco:
                    v = mk('static', v)
                elif 'classmethod' in deco:
                    v = mk('clsm', v)
                elif 'property' in deco:
                    v = mk('prop', v)
                c.attrs[b.name] = v
                st.env[b.name] = v
            elif isinstance(b, ast.AnnAssign) and isinstance(b.target, ast.Name):
                d = None
                if b.value is not None:
                    d = self.ev(b.value, st)
                    c.attrs[b.target.id] = d
                    st.env[b.target.id] = d
                c.annots.append((b.target.id, b.annotation, d))
            elif isinstance(b, ast.Assign):
                v = self.ev(b.value, st)
                for t in b.targets:
                    if isinstance(t, ast.Name):
                        c.attrs[t.id] = v
                        st.env[t.id] = v
            elif isinstance(b, ast.Expr) or isinstance(b, ast.Pass):
                pass
            else:
                raise Broken('class body %s at %s' % (type(b).__name__, self.site(b)))
        st.env = saved
        st.env[s.name] = mk('class', idx)

    def x_Assign(self, s, st):
        v = self.ev(s.value, st)
        self.as_tally(s, v, st)
        for t in s.targets:
            self.assign(t, v, st, s)

    def x_AnnAssign(self, s, st):
        if s.value is not None:
            v = self.ev(s.value, st)
            self.as_tally(s, v, st)
            self.assign(s.target, v, st, s)

    def as_tally(self, s, v, st):
        if id(s) in self.tally[0] and v.op == 'ref' and not v.args[1]:
            st.heap[v.args[0]] = Cell('tally')

    def x_AugAssign(self, s, st):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.name(t, st)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, st)
            cur = self.getattr(o, t.attr, st, t)
        else:
            o = self.ev(t.value, st)
            k = self.ev(t.slice, st)
            cur = self.getitem(o, k, st, t)
        v = self.ev(s.value, st)
        # in-place list / set extension
        if self.is_ref(cur, st) and isinstance(s.op, (ast.Add, ast.BitOr)):
            self.method(cur, 'extend' if isinstance(s.op, ast.Add) else 'update', [v], {}, st, s)
            return
        r = self.binop(s.op, cur, v, st, s)
        if isinstance(t, ast.Name):
            st.env[t.id] = r
        elif isinstance(t, ast.Attribute):
            self.setattr(o, t.attr, r, st, t)
        else:
            self.setitem(o, k, r, st, t)

    def is_ref(self, v, st):
        ls = X.leaves(v)
        return all(l.op == 'ref' for l in ls)

    def x_Delete(self, s, st):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.env.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value, st)
                k = self.ev(t.slice, st)
                self.delitem(o, k, st, t)

    def delitem(self, o, k, st, node):
        self.event('delete', node, st, (o, k))
        for l in X.leaves(o):
            if l.op == 'ref':
                l, c = self.cell(l, st)
                if X.is_const(k) and X.cval(k) in c.fields:
                    f = dict(c.fields)
                    f[X.cval(k)] = ite(self.tag_guard(l.args[1]), MISSING, f[X.cval(k)])
                    st.heap[l.args[0]] = c.with_fields(f)
                else:
                    st.heap[l.args[0]] = c.with_items(c.items + (('havoc', X.unknown('del')),))

    def assign(self, t, v, st, node):
        if isinstance(t, ast.Name):
            st.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                for i, e in enumerate(t.elts):
                    self.assign(e.value if isinstance(e, ast.Starred) else e, X.unknown('star'), st, node)
                return
            for i, e in enumerate(t.elts):
                self.assign(e, self.getitem(v, const(i), st, node, unpack=n), st, node)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, st), t.attr, v, st, t)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, st)
            self.setitem(o, self.ev(t.slice, st), v, st, t)
        else:
            raise Broken('assign target %s' % type(t).__name__)

    def x_If(self, s, st):
        c = self.cond(s.test, st)
        return self.branch(c, st, lambda x: self.exec_block(s.body, x),
                           (lambda x: self.exec_block(s.orelse, x)) if s.orelse else (lambda x: Flows(x)))

    def branch(self, c, st, fa, fb):
        c = st.facts.restrict(c)
        if c is TRUE:
            return fa(st)
        if c is FALSE:
            return fb(st)
        base = st.facts
        f1 = base.assume(c)
        f2 = base.assume(b_not(c))
        if f1 is None and f2 is None:
            raise Dead()
        if f1 is None:
            return fb(st)
        if f2 is None:
            return fa(st)
        pc0, surv0 = st.pc, st.surv
        a = st.fork()
        a.facts = f1
        a.pc = b_and(pc0, c)
        b = st.fork()
        b.facts = f2
        b.pc = b_and(pc0, b_not(c))
        nc = b_not(c)
        self.brs.append((pc0, c, nc))
        fl1 = fa(a)
        self.brs[-1] = (pc0, nc, c)
        fl2 = fb(b)
        self.brs.pop()
        out = Flows()
        out.brk = fl1.brk + fl2.brk
        out.cont = fl1.cont + fl2.cont
        out.ret = fl1.ret + fl2.ret
        n1, n2 = fl1.next, fl2.next
        # a branch that aborts for good; inside a try statement the run goes on in the handler
        free = self.sinks[-1] is None
        died1 = free and n1 is None and not (fl1.brk or fl1.cont or fl1.ret)
        died2 = free and n2 is None and not (fl2.brk or fl2.cont or fl2.ret)
        if n1 is not None and n2 is not None:
            m = self.merge2(c, n1, n2, base)
            m.facts = self.refacts(base, m)
            out.next = m
        elif n1 is not None:
            out.next = n1
            if died2:
                n1.surv = b_and(n1.surv, c)
                n1.pc = self.undo(n1.pc, a.pc, pc0, c)
        elif n2 is not None:
            out.next = n2
            if died1:
                n2.surv = b_and(n2.surv, b_not(c))
                n2.pc = self.undo(n2.pc, b.pc, pc0, b_not(c))
        return out

    def undo(self, pc, at_fork, pc0, c):
        """the other branch aborted: do not keep its negation in the path guard"""
        if pc is at_fork or pc is b_and(pc0, c):
            return pc0
        return pc

    def x_For(self, s, st):
        it = self.ev(s.iter, st)
        items = self.items_of(it, st, s.iter)
        assigned = None

        def body(x, val):
            self.assign(s.target, val, x, s)
            return self.exec_block(s.body, x)
        fl = self.iterate(items, body, st, s)
        if s.orelse and fl.next is not None:
            raise Broken('for-else at %s' % (self.site(s),))
        return fl

    def x_While(self, s, st):
        if self.reading is not None and not self.reading.done:
            return self.retry_loop(s, st)
        for way in (self.counted, self.reads):
            r = way(s, st)
            if r is not None:
                return r
        return self.havoc_loop(s, st)

    # ---- loops reading a file line by line
    reading = None

    def loop_body(self, s):
        if isinstance(s.test, ast.Constant) and s.test.value:
            return list(s.body)
        leave = ast.If(test=ast.UnaryOp(op=ast.Not(), operand=s.test), body=[ast.Break()], orelse=[])
        ast.copy_location(leave, s.test)
        return [ast.fix_missing_locations(leave)] + list(s.body)

    def retry_loop(self, s, st):
        """loop inside the step that fetches the next line: going round again is going on with the next line"""
        fl = self.exec_block(self.loop_body(s), st)
        rd = self.reading
        for x in ([fl.next] if fl.next is not None else []) + fl.cont:
            if not rd.done or x.heap != rd.start.heap or rd.at_end:
                raise NoStream()
            x.env = dict(rd.start.env)
            rd.skips.append(x)
        nx = self.merge_all(rd.start.facts, fl.brk) if fl.brk else None
        return Flows(nx, ret=fl.ret)

    def read_step(self, stmts, st, rd):
        """statements up to and including the read"""
        rd.start = st.fork()
        prev, self.reading = self.reading, rd
        nev = len(self.events)
        try:
            i = 0
            while not rd.done:
                if i == len(stmts):
                    raise NoStream()
                fl = self.exec_block(stmts[i:i + 1], st)
                i += 1
                if not rd.done:
                    y = fl.next
                    if y is None or fl.brk or fl.cont or fl.ret or y.env != rd.start.env or y.heap != rd.start.heap or \
                            len(self.events) != nev:
                        raise NoStream()
                    st = y
        finally:
            self.reading = prev
        if fl.next is not None and i < len(stmts):
            f2 = self.exec_block(stmts[i:], fl.next)
            fl = Flows(f2.next, fl.brk + f2.brk, fl.cont + f2.cont, fl.ret + f2.ret)
        fl.cont = fl.cont + rd.skips
        return fl

    def reads(self, s, st):
        if s.orelse or not any(isinstance(n, (ast.Call, ast.NamedExpr)) for n in ast.walk(s)):
            return None
        stmts = self.loop_body(s)
        saved = {k: list(getattr(self, k)) for k in ('loops', 'pcstack', 'raises', 'sinks', 'ctx', 'brs', 'curfn')}
        lens = [list(r) for r in self.raises], [None if k is None else list(k) for k in self.sinks]
        other = self.closures, self.depth, self.recording, self.reading
        nev = len(self.events)

        def restore():
            for k, v in saved.items():
                getattr(self, k)[:] = v
            for r, v in zip(self.raises, lens[0]):
                r[:] = v
            for r, v in zip(self.sinks, lens[1]):
                if r is not None:
                    r[:] = v
            self.closures, self.depth, self.recording, self.reading = other
            del self.events[nev:]
        try:
            self.recording = False
            self.read_step(stmts, st.fork(), Reading(None))
            lv = None
        except FoundStream as e:
            lv = mk('lines', e.path)
        except (NoStream, Dead):
            lv = None
        restore()
        if lv is None:
            return None
        val = mk('elemval', lv, 'str')
        full = b_not(X.eq(val, const('')))
        work = st.fork()

        def body(y, v):
            f = y.facts.assume(full)
            if f is not None:
                y.facts = f
            return self.read_step(stmts, y, Reading(v))
        try:
            fl = self.iterate([('loop', lv, INS, TRUE, (one(None, val, TRUE, None),))], body, work, s)
            end = fl.next
            if end is None or fl.ret:
                raise NoStream()
            n1 = len(self.events)
            heap = dict(end.heap)
            rd = Reading(const(''))
            rd.at_end = True
            last = self.read_step(stmts, end, rd)
            outs = last.brk + [r for r, _ in last.ret]
            if last.next is not None or last.cont or len(self.events) != n1 or any(o.heap != heap for o in outs):
                raise NoStream()
        except NoStream:
            restore()
            return None
        return Flows(self.merge_all(outs[0].facts, last.brk) if last.brk else None, ret=last.ret)

    def counted(self, s, st):
        """while loops stepping one local counter towards a fixed bound, read as a loop over a range.
        Assumes the step to be positive."""
        inc = {}
        for x in s.body:
            t = k = None
            if isinstance(x, ast.AugAssign) and isinstance(x.op, ast.Add) and isinstance(x.target, ast.Name):
                t, k = x.target.id, x.value
            elif isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) and \
                    isinstance(x.value, ast.BinOp) and isinstance(x.value.op, ast.Add):
                for a, b in ((x.value.left, x.value.right), (x.value.right, x.value.left)):
                    if isinstance(a, ast.Name) and a.id == x.targets[0].id:
                        t, k = a.id, b
            if t is not None:
                inc[t] = (x, k)
        stored = {}
        for x in s.body:
            for n in ast.walk(x):
                if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    stored[n.id] = stored.get(n.id, 0) + 1
                if isinstance(n, (ast.Continue, ast.Break, ast.Return, ast.FunctionDef, ast.Lambda)):
                    return None
        if s.orelse:
            return None
        fixed = lambda e: not any(isinstance(n, ast.Name) and n.id in stored for n in ast.walk(e)) and \
            not any(isinstance(n, ast.Call) and not (isinstance(n.func, ast.Name) and n.func.id == 'len') for n in ast.walk(e))
        for v, (x, k) in inc.items():
            if stored[v] != 1 or v not in st.env or not fixed(k):
                continue
            t2 = [n for n in ast.walk(s.test) if isinstance(n, ast.Name) and n.id in stored]
            if not t2 or any(n.id != v for n in t2):
                continue
            # collections measured in the test are not changed by the loop
            sized = {ast.dump(n.args[0]) for n in ast.walk(s.test) if isinstance(n, ast.Call) and n.args}
            if any(isinstance(n, ast.Attribute) and ast.dump(n.value) in sized for y in s.body for n in ast.walk(y)):
                continue
            lo = st.env[v]
            step = self.ev(k, st)
            sym = mk('sym', 'counter:%d' % id(s), 'int')
            if X.typ(lo) != 'int' or X.typ(step) != 'int' or lo.op == 'ite' or step.op == 'ite':
                continue
            probe = st.fork()
            probe.env[v] = sym
            try:
                c = self.cond(s.test, probe)
            except Dead:
                continue
            if c.op != 'ite' or c.args[0].op != 'le0' or set(c.args[1:]) != {TRUE, FALSE}:
                continue
            e = c.args[0].args[0]
            if c.args[1] is FALSE:
                e = X.sub(const(1), e)
            const_, parts = X.lin_parts(e)
            if parts.get(sym) != 1 or any(sym in X.walk(p) for p in parts if p is not sym):
                continue
            hi = X.add(X.sub(sym, e), const(1))
            lv = mk('range', lo, hi, step)
            items = [('loop', lv, INS, TRUE, (one(None, mk('elemval', lv), TRUE, None),))]

            def body(y, val):
                y.env[v] = val
                return self.exec_block(s.body, y)
            st.env.pop(v)
            fl = self.iterate(items, body, st, s)
            if fl.next is not None:
                fl.next.env[v] = X.app('loopend', lo, hi, step)
            return fl
        return None

    def havoc_loop(self, s, st):
        """opaque loop: everything assigned in it becomes unknown"""
        self.event('opaque-loop', s, st, None)
        names = set()
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                names.add(n.id)
        for n in names:
            st.env[n] = X.unknown('while:' + n)
        rets = [n for n in ast.walk(s) if isinstance(n, ast.Return)]
        if rets:
            r = st.fork()
            always = isinstance(s.test, ast.Constant) and s.test.value is True and \
                not any(isinstance(n, ast.Break) for n in ast.walk(s))
            val = X.unknown('while-return')
            if always:
                return Flows(None, ret=[(r, val)])
            u = atom(X.unknown('while-ret?'))
            r.pc = b_and(st.pc, u)
            st.pc = b_and(st.pc, b_not(u))
            return Flows(st, ret=[(r, val)])
        return Flows(st)

    def x_Return(self, s, st):
        v = self.ev(s.value, st) if s.value is not None else NONE
        return Flows(None, ret=[(st, v)])

    def x_Break(self, s, st):
        return Flows(None, brk=[st])

    def x_Continue(self, s, st):
        return Flows(None, cont=[st])

    def x_Raise(self, s, st):
        msg = None
        if s.exc is not None:
            try:
                if isinstance(s.exc, ast.Call) and s.exc.args:
                    msg = self.ev(s.exc.args[0], st)
            except Dead:
                pass
        self.abort(s, st, 'raise', msg)
        return Flows(None)

    def abort(self, node, st, why, msg=None):
        if self.sinks[-1] is not None:
            self.sinks[-1].append(st.fork())
        else:
            self.event('abort', node, st, (why, msg))
            for cid in self.watched:
                self.seen.append((cid, st.pc, st.heap.get(cid)))
            self.raises[-1].append(st.pc)

    def maybe_abort(self, c, node, st, why, msg=None):
        """abort when c; continue with not c"""
        c = st.facts.restrict(c)
        if c is FALSE:
            return
        if c is TRUE:
            self.abort(node, st, why, msg)
            raise Dead()
        f1 = st.facts.assume(c)
        if f1 is not None:
            a = st.fork()
            a.facts = f1
            a.pc = b_and(st.pc, c)
            self.abort(node, a, why, msg)
        f2 = st.facts.assume(b_not(c))
        if f2 is None:
            raise Dead()
        st.facts = f2
        if self.sinks[-1] is not None:
            st.pc = b_and(st.pc, b_not(c))
        else:
            st.surv = b_and(st.surv, b_not(c))

    def x_Assert(self, s, st):
        c = self.cond(s.test, st)
        self.maybe_abort(b_not(c), s, st, 'assert')

    def x_Try(self, s, st):
        base = st.facts
        sink = []
        self.sinks.append(sink)
        pc0 = st.pc
        entry = st.fork()
        fl = self.exec_block(s.body, st)
        self.sinks.pop()
        out = Flows()
        out.brk, out.cont, out.ret = fl.brk, fl.cont, fl.ret
        nexts = [fl.next] if fl.next is not None else []
        if nexts and s.orelse:
            f2 = self.exec_block(s.orelse, nexts[0])
            out.brk += f2.brk
            out.cont += f2.cont
            out.ret += f2.ret
            nexts = [f2.next] if f2.next is not None else []
        if sink and s.handlers:
            h = self.merge_all(base, sink)
            handler = s.handlers[-1]
            if handler.name:
                h.env[handler.name] = X.unknown('exception')
            f2 = self.exec_block(handler.body, h)
            out.brk += f2.brk
            out.cont += f2.cont
            out.ret += f2.ret
            if f2.next is not None:
                nexts.append(f2.next)
            elif self.sinks[-1] is None and nexts == [fl.next] and not (out.brk or out.cont or out.ret):
                # every failure ends the run: what follows is reached whenever the run goes on
                n = fl.next
                n.surv = b_and(n.surv, n.pc)
                n.pc = pc0
        out.next = self.merge_all(base, nexts) if nexts else None
        if out.next is not None and s.finalbody:
            f3 = self.exec_block(s.finalbody, out.next)
            out.brk += f3.brk
            out.cont += f3.cont
            out.ret += f3.ret
            out.next = f3.next
        return out

    def x_With(self, s, st):
        for item in s.items:
            v = self.ev(item.context_expr, st)
            if item.optional_vars is not None:
                self.assign(item.optional_vars, v, st, s)
        return self.exec_block(s.body, st)

    def x_Global(self, s, st):
        return None

    x_Nonlocal = x_Global

    # ------------------------------------------------------------ loops
    def iterate(self, items, body, st, node):
        """run body(state, value) for every item in order"""
        out = Flows()
        base = st.facts
        idx = 0
        for it in items:
            idx += 1
            if it[0] == 'one':
                val, g = it[2], it[3]
                self.ctx.append(('u', idx))
                try:
                    fl = self.branch(g, st, lambda x: self.body_once(body, x, val), lambda x: Flows(x))
                except Dead:
                    fl = Flows(None)
                self.ctx.pop()
            elif it[0] == 'loop':
                self.ctx.append(('l', idx))
                fl = self.symloop(it, body, st, node)
                self.ctx.pop()
            else:
                fl = self.symloop(('loop', mk('elems', mk('hv', it[1])), INS, TRUE,
                                   (one(None, mk('elemval', mk('elems', mk('hv', it[1]))), TRUE, None),)),
                                  body, st, node)
            out.brk += fl.brk
            out.ret += fl.ret
            if fl.next is None:
                break
            if fl.next is not st:
                st.become(fl.next)
        else:
            nexts = [st]
            if out.brk:
                m = self.merge_all(base, nexts + out.brk)
                out.brk = []
                out.next = m
            else:
                out.next = st
            return out
        if out.brk:
            out.next = self.merge_all(base, out.brk)
            out.brk = []
        return out

    def body_once(self, body, x, val):
        """one concrete iteration; continue == next"""
        base = x.facts
        fl = body(x, val)
        if fl.cont:
            nx = ([fl.next] if fl.next is not None else []) + fl.cont
            fl.next = self.merge_all(base, nx)
            fl.cont = []
        return fl

    def inner_iterate(self, items, body, st, node):
        """body of one symbolic iteration (may hold several items)"""
        if len(items) == 1 and items[0][0] == 'one' and items[0][3] is TRUE:
            return self.body_once(body, st, items[0][2])
        # several items or nested loops inside one element
        out = Flows()
        base = st.facts
        idx = 0
        for it in items:
            idx += 1
            if it[0] == 'one':
                self.ctx.append(('u', idx))
                try:
                    fl = self.branch(it[3], st, lambda x, v=it[2]: self.body_once(body, x, v), lambda x: Flows(x))
                except Dead:
                    fl = Flows(None)
                self.ctx.pop()
            elif it[0] == 'loop':
                self.ctx.append(('l', idx))
                fl = self.symloop(it, body, st, node)
                self.ctx.pop()
            else:
                continue
            out.brk += fl.brk
            out.ret += fl.ret
            if fl.next is None:
                return out
            if fl.next is not st:
                st.become(fl.next)
        out.next = st
        return out

    def symloop(self, item, body, st, node):
        _, lv, order, guard, sub = item
        self.stats['loops'] += 1
        pre = st
        nested = any(l is lv for l, _ in self.loops)
        guard = (pre.facts.without(lv) if nested else pre.facts).restrict(guard)
        if guard is FALSE:
            return Flows(st)
        fin = pre.facts.enter(lv)
        if fin is not None:
            fin = fin.assume(guard)
        if fin is None:
            return Flows(st)
        carried = {}
        mutated = set()
        invariant = set()
        loopkey = (self.site(node)[:2], getattr(node, 'col_offset', 0), tuple(self.ctx), lv)
        rec0 = self.recording
        nev = len(self.events)
        already = any(l is lv for l, _ in self.loops)
        for rnd in range(8):
            del self.events[nev:]
            for kcid, kind in self.kckind.items():
                if kcid[1] in pre.heap and kcid not in pre.heap:
                    pre.heap[kcid] = kind
            it = pre.fork()
            it.pc = TRUE
            it.surv = TRUE
            it.facts = fin
            syms = {}
            for loc in carried:
                if loc in invariant:
                    continue
                s = self.carried_sym(loopkey, loc, carried[loc], lv)
                syms[loc] = s
                self.setloc(it, loc, s)
            for cid in mutated:
                if cid in it.heap:
                    c = it.heap[cid]
                    it.heap[cid] = c.with_items(c.items + (('earlier', loopkey, cid),))
            start = it.fork()
            self.loops.append((lv, order))
            self.pcstack.append((lv, order, guard, pre.pc))
            self.raises.append([])
            nsink = len(self.sinks[-1]) if self.sinks[-1] is not None else 0
            try:
                fl = self.inner_iterate(sub, body, it, node)
            except Dead:
                fl = Flows(None)
            rs = self.raises.pop()
            self.pcstack.pop()
            self.loops.pop()
            ends = ([fl.next] if fl.next is not None else []) + list(fl.cont)
            brks = fl.brk
            rets = fl.ret
            end = self.merge_all(fin, ends + brks) if ends + brks else None
            new = set()
            newmut = set()
            if end is not None:
                for k, v in end.env.items():
                    if start.env.get(k, UNBOUND) is not v:
                        new.add(('env', k))
                for cid, c in end.heap.items():
                    o = start.heap.get(cid)
                    if o is None or o is c:
                        continue
                    owned = lv in self.owner.get(cid, ()) and not already
                    if owned:
                        continue
                    if c.kind == 'fwd':
                        continue
                    for f in c.fields:
                        if o.fields.get(f, MISSING) is not c.fields[f]:
                            new.add(('fld', cid, f))
                    if o.items is not c.items and o.items != c.items:
                        newmut.add(cid)
            fresh = [l for l in new if l not in carried]
            # loop invariants found only after being made symbolic
            inv = [l for l in carried if l not in invariant and l not in new and
                   end is not None and self.getloc(end, l) is syms.get(l)]
            if not fresh and newmut <= mutated and not inv:
                break
            for l in fresh:
                carried[l] = self.getloc(pre, l)
                # type hint from the new value
                carried[l] = (carried[l], self.getloc(end, l))
            for l in inv:
                invariant.add(l)
            if len(invariant) and fresh:
                invariant.clear()
            mutated |= newmut
        return self.close(pre, start, end, ends, brks, rets, rs, carried, invariant, syms, mutated, lv, order, guard,
                          loopkey, node, nev, fin, already)

    def getloc(self, st, loc):
        if loc[0] == 'env':
            return st.env.get(loc[1], UNBOUND)
        c = st.heap.get(loc[1])
        return c.fields.get(loc[2], MISSING) if c is not None else MISSING

    def setloc(self, st, loc, v):
        if loc[0] == 'env':
            st.env[loc[1]] = v
        else:
            c = st.heap[loc[1]]
            f = dict(c.fields)
            f[loc[2]] = v
            st.heap[loc[1]] = c.with_fields(f)

    def carried_sym(self, loopkey, loc, hint, lv):
        init, nxt = hint
        tys = set()
        for v in (init, nxt):
            for l in X.leaves(v):
                if l in (UNBOUND, MISSING):
                    continue
                if l.op == 'carried':
                    continue
                tys.add(X.typ(l))
        ty = tys.pop() if len(tys) == 1 else None
        if tys == {'int', 'bool'}:
            ty = 'int'
        own = (lv,)
        if loc[0] == 'fld':
            own = tuple(self.owner.get(loc[1], ())) + (lv,)
        s = mk('carried', (loopkey, loc), loc[-1], ty, own)
        ls = [l for v in (init, nxt) for l in X.leaves(v) if l.op != 'carried']
        if ls and all(l.op == 'nt' and l.args[0] == ls[0].args[0] for l in ls):
            parts = []
            for i in range(1, len(ls[0].args)):
                ti = {X.typ(q) for l in ls for q in X.leaves(l.args[i])}
                ti = ti.pop() if len(ti) == 1 else None
                parts.append(mk('carried', (loopkey, loc, i - 1), '%s.%d' % (loc[-1], i - 1), ti, own))
            return mk('nt', ls[0].args[0], *parts)
        if ty == 'bool':
            return atom(mk('truthy', s))
        if ty == 'tuple':
            # shape-preserving tuples are carried component-wise
            ns = {len(l.args) for v in (init, nxt) for l in X.leaves(v) if l.op == 'tuple'}
            if len(ns) == 1:
                n = ns.pop()
                parts = []
                for i in range(n):
                    ti = set()
                    for v in (init, nxt):
                        for l in X.leaves(v):
                            if l.op == 'tuple':
                                for q in X.leaves(l.args[i]):
                                    ti.add(X.typ(q))
                    ti = ti.pop() if len(ti) == 1 else None
                    parts.append(mk('carried', (loopkey, loc, i), '%s.%d' % (loc[-1], i), ti, own))
                return mk('tuple', *parts)
        return s

    def close(self, pre, start, end, ends, brks, rets, rs, carried, invariant, syms, mutated, lv, order, guard,
              loopkey, node, nev, fin, already):
        # break / return conditions of one iteration
        gb = b_or(*[b.pc for b in brks]) if brks else FALSE
        gr = b_or(*[r.pc for r, _ in rets]) if rets else FALSE
        stop = b_or(gb, gr)
        rg = b_or(*rs) if rs else FALSE
        sub = self.earlier_forms(start, end, lv, order, guard, loopkey)   # loop symbols -> in-loop closed form
        final = {}
        active = [l for l in carried if l not in invariant]
        endst = end
        nxt = {}
        for l in active:
            nxt[l] = self.getloc(endst, l) if endst is not None else syms[l]
        allsyms = set()
        for l in active:
            for c in self.carried_leaves(syms[l]):
                allsyms.add(c)
        pending = list(active)
        progress = True
        again = []
        while pending:
            progress = False
            for l in list(pending):
                f = nxt[l]
                if sub:
                    f = X.subst(f, sub)
                others = self.mentions(f, allsyms - set(sub) - set(self.carried_leaves(syms[l])))
                if others:
                    continue
                r = self.close_one(l, syms[l], f, carried[l][0], lv, order, guard, stop, sub)
                if r is None:
                    continue
                inner, fv = r
                again.append((l, f))
                self.bind(sub, syms[l], inner)
                final[l] = fv
                pending.remove(l)
                progress = True
            if not progress:
                break
        if pending:
            self.close_joint(pending, syms, nxt, carried, lv, order, guard, stop, sub, final, loopkey)
        if stop is not FALSE and self.mentions(stop, allsyms):
            # the values after the loop need the stop condition in closed form
            stop2 = X.subst(stop, sub)
            for l, f in again:
                r = self.close_one(l, syms[l], f, carried[l][0], lv, order, guard, stop2, {})
                if r is not None:
                    final[l] = r[1]
        gb = X.subst(gb, sub) if sub else gb
        gr = X.subst(gr, sub) if sub else gr
        stop = b_or(gb, gr)
        rg = X.subst(rg, sub) if sub else rg
        notstop = b_not(X.before(lv, b_and(guard, stop), order)) if stop is not FALSE else TRUE
        reach = b_and(guard, notstop)
        # events of this iteration
        if sub or notstop is not TRUE:
            depth = len(self.pcstack)
            for e in self.events[nev:]:
                if sub:
                    e.pc = X.subst(e.pc, sub)
                    e.data = self.subst_data(e.data, sub)
                    e.facts = e.facts
                    if len(e.ctx) > depth:
                        e.ctx = tuple((a, o, X.subst(g, sub), X.subst(p, sub)) if i >= depth else (a, o, g, p)
                                      for i, (a, o, g, p) in enumerate(e.ctx))
                if notstop is not TRUE and len(e.ctx) > depth:
                    a, o, g, p = e.ctx[depth]
                    e.ctx = e.ctx[:depth] + ((a, o, b_and(g, notstop), p),) + e.ctx[depth + 1:]
        # resulting state
        res = pre.fork()
        if endst is not None:
            self.close_heap(res, pre, start, endst, lv, order, guard, reach, sub, already)
            for l in active:
                if l[0] == 'env':
                    res.env[l[1]] = final[l]
                else:
                    c = res.heap[l[1]]
                    f = dict(c.fields)
                    f[l[2]] = final[l]
                    res.heap[l[1]] = c.with_fields(f)
        facts = pre.facts
        if rg is not FALSE:
            noraise = b_not(X.exists(lv, b_and(guard, rg, notstop) if stop is not FALSE else b_and(guard, rg)))
            f2 = facts.assume(noraise)
            if f2 is None:
                return Flows(None)
            facts = f2
            if self.sinks[-1] is None:
                # the abort is visible to enclosing loops as well
                self.raises[-1].append(b_and(pre.pc, b_not(noraise)))
            res.surv = b_and(res.surv, noraise)
        res.facts = facts
        out = Flows(res)
        if rets:
            some = X.exists(lv, b_and(guard, gr, notstop))
            some = facts.restrict(some)
            if some is not FALSE:
                r = res.fork()
                r.pc = b_and(res.pc, some)
                # value returned by the first returning element
                val = None
                for s, v in rets:
                    g1 = X.subst(s.pc, sub) if sub else s.pc
                    v1 = X.subst(v, sub) if sub else v
                    val = v1 if val is None else ite(g1, v1, val)

                def fst(leaf):
                    if lv not in X.free_levels(leaf) and not (leaf.op == 'ref' and lv in self.owner.get(leaf.args[0], ())):
                        return leaf
                    tag = mk('edge', lv, 'first', b_and(guard, gr), order)
                    return self.at_val(tag, leaf)
                tag = mk('edge', lv, 'first', b_and(guard, gr), order)
                val2 = self.at_val(tag, val) if X.atoms_of(val) else lift(fst, val)
                f3 = facts.assume(some)
                if f3 is not None:
                    r.facts = f3
                    out.ret.append((r, val2))
                nn = b_not(some)
                f4 = facts.assume(nn)
                if f4 is None:
                    out.next = None
                else:
                    res.facts = f4
                    res.pc = b_and(res.pc, nn)
        if not ends and not brks and not rets:
            # every iteration aborts: the loop survives only when empty
            pass
        return out

    def earlier_forms(self, start, end, lv, order, guard, loopkey):
        """membership tests on a collection the loop itself fills: what an earlier iteration inserted"""
        sub = {}
        log = self.seenlog.pop(loopkey, None)
        if not log or end is None:
            return sub
        for t, cid in log.items():
            c, o = end.heap.get(cid), start.heap.get(cid)
            if c is None or o is None:
                continue
            delta = c.items[len(o.items):]
            if c.items[:len(o.items)] != o.items or any(d[0] not in ('one', 'loop') for d in delta):
                continue
            k = t.args[0] if t.op == 'seen' else t.args[3]
            if k is NONE:
                continue
            ty = X.typ(k)
            cur = mk('sym', 'cur:%s' % ty, ty)
            isdict = c.kind == 'dict'
            cond, val = FALSE, None

            def go(items):
                g = FALSE
                for it in items:
                    if it[0] == 'one':
                        kk = it[1] if isdict else it[2]
                        if kk is None:
                            return None
                        g = b_or(g, b_and(it[3], X.eq(kk, cur)))
                    elif it[0] == 'loop':
                        h = go(it[4])
                        if h is None:
                            return None
                        g = b_or(g, X.exists(it[1], b_and(it[3], h)))
                    else:
                        return None
                return g
            cond = go(delta)
            if cond is None:
                continue
            cond = b_and(guard, self.not_seen(cond, cid))
            if X.contains_term(cond, lambda x: x.op in ('seen', 'carried', 'carriedref')):
                continue
            if t.op == 'seen':
                a = mk('seenat', lv, k, cond, ZERO, order, cur)
                self.seencids.setdefault(a, set()).add(cid)
                sub[t] = atom(a)
                continue
            if any(d[0] != 'one' or d[2] is None or has_ref_leaf(d[2]) for d in delta):
                continue
            for d in delta:
                val = d[2] if val is None else ite(b_and(self.not_seen(d[3], cid), X.eq(d[1], cur)), d[2], val)
            if val is None or X.contains_term(val, lambda x: x.op in ('seen', 'carried', 'carriedref')):
                continue
            sub[t] = mk('valat', lv, k, cond, val, order, cur)
        return sub

    def carried_leaves(self, s):
        if s.op == 'ite':
            return [s.args[0].args[0]]
        if s.op == 'tuple':
            return list(s.args)
        if s.op == 'nt':
            return list(s.args[1:])
        return [s]

    def bind(self, sub, s, inner):
        if s.op == 'ite':
            sub[s.args[0].args[0]] = inner if inner.op != 'ite' else inner
        elif s.op == 'nt':
            if inner.op == 'nt':
                for a, b in zip(s.args[1:], inner.args[1:]):
                    sub[a] = b
            else:
                for i, a in enumerate(s.args[1:]):
                    sub[a] = lift(lambda t, i=i: t.args[1 + i] if t.op == 'nt' else mk('app', 'index', t, const(i)), inner)
        elif s.op == 'tuple':
            if inner.op == 'tuple' and len(inner.args) == len(s.args):
                for a, b in zip(s.args, inner.args):
                    sub[a] = b
            else:
                for i, a in enumerate(s.args):
                    sub[a] = lift(lambda t, i=i: t.args[i] if t.op == 'tuple' else mk('app', 'index', t, const(i)), inner)
        else:
            sub[s] = inner

    def mentions(self, t, syms):
        if not syms:
            return False
        ids = {s.id for s in syms}
        return X.contains_term(t, lambda x: x.id in ids)

    def close_one(self, loc, s, f, init, lv, order, guard, stop, sub):
        """(value at the start of an iteration, value after the loop)"""
        mine = self.carried_leaves(s)
        if sub:
            stop = X.subst(stop, sub)
        stopm = self.mentions(stop, mine)
        gs = guard
        notstop = TRUE
        if stop is not FALSE and not stopm:
            notstop = b_not(X.before(lv, b_and(guard, stop), order))
        reach = b_and(guard, notstop)
        ment = self.mentions(f, mine)
        if f is s:
            return init, init
        if not ment:
            # plain reassignment
            fv = self.lastof(lv, order, reach, f, init)
            inner = mk('prev', (lv,), f, init, reach, order) if f.op != 'ref' else mk('carriedref', loc[-1], f)
            inner = self.prev(lv, order, f, init, guard)
            return inner, fv
        if stopm:
            return None
        # boolean accumulators
        if s.op == 'ite':
            a = s.args[0]
            f1 = X.restrict_atom(f, a, True)
            f0 = X.restrict_atom(f, a, False)
            if self.mentions(f1, mine) or self.mentions(f0, mine):
                return None
            ib = as_bool(init) if init not in (UNBOUND, MISSING) else FALSE
            if f1 is TRUE:
                # once true, stays true
                fin = b_or(ib, X.exists(lv, b_and(reach, f0)))
                return b_or(ib, X.before(lv, b_and(guard, f0), order)), fin
            if f0 is FALSE:
                fin = b_and(ib, b_not(X.exists(lv, b_and(reach, b_not(f1)))))
                return b_and(ib, b_not(X.before(lv, b_and(guard, b_not(f1)), order))), fin
            return None
        if s.op in ('tuple', 'nt'):
            # conditional reassignment of the whole tuple
            g = lift(lambda x: FALSE if x is s else TRUE, f)
            if not self.mentions(g, mine):
                nf = lift(lambda x: mk('hole') if x is s else x, f)
                if not self.mentions(nf, mine):
                    return self.cond_assign(lv, order, reach, guard, g, f, s, init)
            return self.close_parts(loc, s, f, init, lv, order, guard, stop)
        # guarded leaves either keep the old value or replace / extend it
        g = lift(lambda x: FALSE if x is s else TRUE, f)
        keep = not self.mentions(g, mine) and all(x is s or not self.mentions(x, mine) for x in X.leaves(f))
        if keep:
            return self.cond_assign(lv, order, reach, guard, g, f, s, init)
        if all(not self.mentions(a, mine) for a in X.atoms_of(f)):
            ls = X.leaves(f)
            if all(X._num(x) and X.typ(x) != 'str' for x in ls) and X.typ(s) in ('int', None):
                deltas = [X._add2(x, s, -1) for x in ls]
                if all(not self.mentions(d, mine) for d in deltas):
                    d = lift(lambda x: X._add2(x, s, -1), f)
                    tot = X.sum_over(lv, reach, d)
                    inn = X.add(init, mk('psum', (lv,), ite(guard, d, ZERO), order)) if d is not ONE or guard is not TRUE \
                        else X.add(init, mk('pos', (lv,), TRUE, order))
                    return inn, X.add(init, tot)
            if all(x is s or (x.op == 'cat' and x.args[0] is s) for x in ls) and \
                    all(not self.mentions(X.cat(*x.args[1:]), mine) for x in ls if x.op == 'cat'):
                piece = lift(lambda x: EMPTY if x is s else X.cat(*x.args[1:]), f)
                return X.cat(init, mk('sofar', (lv,), reach, piece, order)), \
                    self.foreach(lv, order, reach, piece, init)
        # single-variable fold
        if len(mine) == 1:
            acc = mk('sym', 'acc:%s' % X.typ(s), X.typ(s))
            body = ite(reach, f, s)
            body = X.subst(body, {s: acc})
            fv = mk('fold', (lv,), body, init, order)
            return mk('pfold', (lv,), body, init, order), fv
        return None

    def close_parts(self, loc, s, f, init, lv, order, guard, stop):
        """components of a carried tuple, each depending on itself and those already closed"""
        at = 1 if s.op == 'nt' else 0
        ok = lambda t: t.op == s.op and len(t.args) == len(s.args) and t.args[:at] == s.args[:at]
        if not all(ok(x) for v in (f, init) for x in X.leaves(v)):
            return None
        n = len(s.args) - at
        part = lambda v, i: lift(lambda t: t.args[at + i], v)
        sub, left, final = {}, list(range(n)), [None] * n
        while left:
            for i in left:
                c = s.args[at + i]
                g = X.subst(part(f, i), sub) if sub else part(f, i)
                if self.mentions(g, {s.args[at + j] for j in left if j != i}):
                    continue
                r = self.close_one(loc, c, g, part(init, i), lv, order, guard, X.subst(stop, sub) if sub else stop, {})
                if r is None:
                    continue
                sub[c], final[i] = r
                left.remove(i)
                break
            else:
                return None
        head = s.args[:at]
        return mk(s.op, *head, *[sub[c] for c in s.args[at:]]), mk(s.op, *head, *final)

    def foreach(self, lv, order, reach, piece, init=EMPTY):
        return X.cat(init, mk('foreach', (lv,), reach, piece, order))

    def prev(self, lv, order, f, init, guard):
        if init is UNBOUND or init is MISSING:
            init = mk('none-yet')
        if f.op == 'tuple' and init.op == 'tuple' and len(f.args) == len(init.args):
            return mk('tuple', *[self.prev(lv, order, a, b, guard) for a, b in zip(f.args, init.args)])
        if f is init:
            return f
        if f.op == 'tuple' and X.is_const(init):
            # "no previous element yet" is a condition of its own
            first = b_not(X.before(lv, guard, order))
            return ite(first, init, mk('tuple', *[mk('prev', (lv,), a, init, guard, order) for a in f.args]))
        return mk('prev', (lv,), f, init, guard, order)

    def lastof(self, lv, order, reach, f, init):
        """value of f at the last reached element, init if there is none"""
        some = X.exists(lv, reach)
        if lv not in X.free_levels(f) and not any(l.op == 'ref' and lv in self.owner.get(l.args[0], ())
                                                  for l in X.leaves(f)):
            return ite(some, f, init)
        tag = mk('edge', lv, 'last', reach, order)
        return ite(some, self.at_val(tag, f), init)

    def cond_assign(self, lv, order, reach, guard, g, f, s, init):
        val = None
        for leaf, gg in X.guarded_leaves(f):
            if leaf is s:
                continue
            val = leaf if val is None else ite(gg, leaf, val)
        if val is None:
            return init, init
        fin = self.lastof(lv, order, b_and(reach, g), val, init)
        inner = self.prev(lv, order, val, init, b_and(guard, g)) if val.op != 'ite' else \
            mk('prev', (lv,), val, init if init not in (UNBOUND, MISSING) else mk('none-yet'), b_and(guard, g), order)
        if lv not in X.free_levels(val) and not any(l.op == 'ref' and lv in self.owner.get(l.args[0], ())
                                                    for l in X.leaves(val)):
            inner = ite(X.before(lv, b_and(guard, g), order), val, init if init not in (UNBOUND,) else val)
        return inner, fin

    def close_joint(self, pending, syms, nxt, carried, lv, order, guard, stop, sub, final, loopkey):
        """mutually dependent carried variables: opaque but deterministic"""
        ren = {}
        n = 0
        depth = 1 + max([x.args[-1].args[-1] for l in pending for v in (nxt[l], carried[l][0]) for x in X.walk(v)
                         if x.op == 'system'] +
                        [x.args[-1].args[-1] for v in list(sub.values()) + [guard, stop] for x in X.walk(v) if x.op == 'system'] + [0])
        for l in pending:
            cs = self.carried_leaves(syms[l])
            for k, c in enumerate(cs):
                slot = '%d' % n if syms[l].op not in ('tuple', 'nt') else '%d.%d' % (n, k)
                ren[c] = mk('sym', 'joint:%s:%s:%d' % (slot, X.typ(c), depth), X.typ(c))
            n += 1
        fs = []
        inits = []
        for l in pending:
            f = nxt[l]
            if sub:
                f = X.subst(f, sub)
            fs.append(X.subst(f, ren))
            i = carried[l][0]
            inits.append(i)
        stop2 = X.subst(X.subst(stop, sub) if sub else stop, ren)
        sysT = mk('system', *(fs + inits + [guard, stop2, const(depth)]))
        for i, l in enumerate(pending):
            ty = X.typ(self.carried_leaves(syms[l])[0]) if syms[l].op not in ('tuple', 'nt') else 'tuple'
            refs = [x for x in X.leaves(fs[i]) if x.op == 'ref']
            inner = mk('jprev', (lv,), sysT, const(i), order)
            fv = mk('jlast', (lv,), sysT, const(i), order)
            if syms[l].op == 'ite':
                inner, fv = atom(mk('truthy', inner)), atom(mk('truthy', fv))
            elif ty == 'tuple':
                op, at = syms[l].op, 1 if syms[l].op == 'nt' else 0
                n, head = len(syms[l].args) - at, syms[l].args[:at]
                inner = mk(op, *head, *[mk('app', 'index', inner, const(k)) for k in range(n)])
                fv = mk(op, *head, *[mk('app', 'index', fv, const(k)) for k in range(n)])
            self.bind(sub, syms[l], inner)
            final[l] = fv
        self.joints = getattr(self, 'joints', {})
        self.joints[sysT] = (pending, fs, inits, lv, order, guard)

    def subst_data(self, d, sub):
        if isinstance(d, X.T):
            return X.subst(d, sub)
        if isinstance(d, tuple):
            return tuple(self.subst_data(x, sub) for x in d)
        if isinstance(d, list):
            return [self.subst_data(x, sub) for x in d]
        return d

    def sub_items(self, items, sub):
        if not sub:
            return tuple(items)
        out = []
        for it in items:
            if it[0] == 'one':
                out.append(('one', None if it[1] is None else X.subst(it[1], sub), X.subst(it[2], sub),
                            X.subst(it[3], sub), it[4]))
            elif it[0] == 'loop':
                out.append(('loop', X.subst(it[1], sub), it[2], X.subst(it[3], sub), self.sub_items(it[4], sub)))
            else:
                out.append(it)
        return tuple(out)

    def close_heap(self, res, pre, start, end, lv, order, guard, reach, sub, already):
        for cid, c in end.heap.items():
            o = start.heap.get(cid)
            if o is c:
                continue
            if sub:
                c = Cell(c.kind, {k: X.subst(v, sub) for k, v in c.fields.items()}, self.sub_items(c.items, sub),
                         c.cls, X.subst(c.meta, sub) if isinstance(c.meta, X.T) else c.meta)
            if o is None:
                # allocated in this iteration: owned by the element
                p = pre.heap.get(cid)
                res.heap[cid] = c
                continue
            if c.kind == 'fwd':
                res.heap[cid] = c
                continue
            p = pre.heap[cid]
            owned = lv in self.owner.get(cid, ()) and not already
            if owned:
                fields = {}
                for k in list(p.fields) + [x for x in c.fields if x not in p.fields]:
                    a = c.fields.get(k, MISSING)
                    b = p.fields.get(k, MISSING)
                    fields[k] = a if a is b else ite(reach, a, b)
                items = p.items
                if c.items is not p.items and c.items != p.items:
                    n, m = common(p.items, c.items)
                    items = c.items[:n] + tuple(self.guard_items(c.items[n:len(c.items) - m], reach)) + \
                        tuple(self.guard_items(p.items[n:len(p.items) - m], b_not(reach))) + \
                        (c.items[len(c.items) - m:] if m else ())
                res.heap[cid] = Cell(c.kind, fields, items, c.cls, c.meta)
            else:
                # the items appended during the iteration, for every element
                n = len(start.heap[cid].items)
                if c.items is not start.heap[cid].items and c.items != start.heap[cid].items:
                    delta = c.items[n:]
                    if tuple(c.items[:n]) != tuple(self.sub_items(start.heap[cid].items, sub)):
                        delta = c.items[n:] if len(c.items) > n else (('havoc', X.unknown('reordered')),)
                    base = p.items
                    if any(d[0] == 'clear' for d in delta):
                        base, reach, delta = self.close_clear(base, delta, lv, order, reach, sub)
                    items = base + (self.named_loop(lv, order, reach, tuple(delta)),) if delta else p.items
                else:
                    items = p.items
                res.heap[cid] = Cell(c.kind, p.fields, items, c.cls, c.meta)

    def close_clear(self, base, delta, lv, order, reach, sub):
        """a list emptied during the loop keeps what was added since the last time"""
        later = FALSE
        out = []
        for d in reversed(delta):
            if d[0] == 'clear':
                g = X.subst(d[1], sub) if sub else d[1]
                later = b_or(later, b_and(reach, g))
            elif d[0] in ('one', 'loop'):
                out.append(d[:3] + (b_and(d[3], b_not(later)),) + d[4:])
            else:
                out.append(d)
        some = X.exists(lv, later)
        base = tuple(self.guard_items(base, b_not(some)))
        reach = b_and(reach, b_not(X.before(lv, later, mk('order', 'rev', order))))
        return base, reach, list(reversed(out))

    def named_loop(self, lv, order, reach, delta):
        if len(delta) == 1 and delta[0][0] == 'one':
            d = delta[0]
            return ('loop', lv, order, X.name_guard(b_and(reach, d[3])), (('one', d[1], d[2], TRUE, d[4]),))
        out = []
        for d in delta:
            if d[0] in ('one', 'loop'):
                d = d[:3] + (X.name_guard(d[3]),) + d[4:]
            out.append(d)
        return ('loop', lv, order, X.name_guard(reach), tuple(out))

    def guard_items(self, items, g):
        out = []
        for it in items:
            if it[0] == 'one':
                out.append(('one', it[1], it[2], b_and(g, it[3]), it[4]))
            elif it[0] == 'loop':
                out.append(('loop', it[1], it[2], b_and(g, it[3]), it[4]))
            else:
                out.append(it)
        return out
