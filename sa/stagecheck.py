"""Stage by stage comparison of the transformer with its reference model (spec/stages.py)."""
import ast
from . import terms as X
from . import compare as C
from . import world as W
from .stage import Stage
from .engine import Broken, Cell, INS, one
from .terms import TRUE, FALSE, NONE, b_and, b_or, b_not

TM = 'acetimetools.transformer.transformer'
SCRATCH = {'truncated', 'raw_line'}
MAPS = ('all_removed_zones', 'all_removed_policies', 'all_removed_links',
        'all_notable_zones', 'all_notable_policies', 'all_notable_links')


def hook_comments(w):
    """model the reason maps as multimaps from name to reason"""
    def add(eng, f, args, kw, st, node):
        m, name, why = (list(args) + [None] * 3)[:3]
        a = f.node.args.args
        vals = dict(zip([x.arg for x in a], args))
        vals.update(kw)
        if len(a) != 3 or len(vals) != 3:
            return None
        m, name, why = [vals[x.arg] for x in a]
        m = eng.deref(m, st)
        if m.op != 'ref' or m.args[1] or name.op == 'ite':
            return None
        c = st.heap[m.args[0]]
        st.heap[m.args[0]] = c.with_items(c.items + (one(name, why, st.pc, eng.site(node)),))
        return NONE

    def merge(eng, f, args, kw, st, node):
        a = f.node.args.args
        vals = dict(zip([x.arg for x in a], args))
        vals.update(kw)
        if len(a) != 2 or len(vals) != 2:
            return None
        t, n = [eng.deref(vals[x.arg], st) for x in a]
        if t.op != 'ref' or n.op != 'ref' or t.args[1] or n.args[1]:
            return None
        src = st.heap[n.args[0]]
        if ('kc', n.args[0]) in st.heap:
            return None
        c = st.heap[t.args[0]]
        new = src.items if st.pc is TRUE else eng.guard_items(src.items, st.pc)
        st.heap[t.args[0]] = c.with_items(c.items + tuple(new))
        return NONE
    w.hooks[('attyping', 'add_comment')] = add
    w.hooks[('attyping', 'merge_comments')] = merge
    w.hooks[('common', 'note')] = add


FUNCTIONS = {'_detect_hash_collisions', '_detect_links_to_links', '_detect_zones_and_links_with_similar_names',
             '_detect_tzdb_years', '_create_policies_to_zones'}

# program helper -> reference helper (compared on their own by sa/helpercheck.py, then treated as the same function)
HELPERS = {
    'time_string_to_seconds': ('timeparse', 'seconds_of'),
    '_parse_on_day_string': ('helpers', 'day_rule'),
    'calc_day_of_month': ('helpers', 'resolve_day'),
    'truncate_to_granularity': ('common', 'trunc_zero'),
    'div_to_zero': ('helpers', 'toward_zero'),
    'seconds_to_hm_string': ('helpers', 'hm_text'),
    'to_tiny_until_year': ('helpers', 'tiny_until'),
    'to_tiny_from_to_year': ('helpers', 'tiny_from_to'),
    'is_year_tiny': ('helpers', 'fits_tiny'),
    'hash_name': ('helpers', 'djb2'),
    'normalize_name': ('helpers', 'identifier'),
}


# checks about *any* two names with the same hash or identifier: the function itself plays no part
ABSTRACT = {'_detect_hash_collisions': [('transformer', 'hash_name', 'int'), ('helpers', 'djb2', 'int')],
            '_detect_zones_and_links_with_similar_names': [('transformer', 'normalize_name', 'str'),
                                                           ('helpers', 'identifier', 'str')]}
for _m in ('_generate_zone_ids', '_generate_link_ids'):
    ABSTRACT[_m] = ABSTRACT['_detect_hash_collisions']


def hook_helpers(w, skip=(), method=None):
    for mod, name, ty in ABSTRACT.get(method, ()):
        def go(eng, f, args, kw, st, node, ty=ty):
            vals = list(args) + list(kw.values())
            return X.lift(lambda v: X.mk('extcall', ty, v, tuple(X.free_levels(v))), vals[0]) if len(vals) == 1 else None
        w.hooks[(mod, name)] = go
        skip = tuple(skip) + (name,)
    for name, (mod, ref) in HELPERS.items():
        if name in skip:
            continue

        def go(eng, f, args, kw, st, node, mod=mod, ref=ref):
            names = [x.arg for x in f.node.args.args]
            vals = dict(zip(names, args))
            vals.update(kw)
            if set(vals) != set(names):
                return None
            return eng.call(eng.func('spec.' + mod, ref), [vals[n] for n in names], {}, st, node)
        w.hooks[('transformer', name)] = go


def stage_names(w):
    """methods of the transformer, as called by transform(): [(name, function)]"""
    f = w.func(TM, 'Transformer.transform')
    out = []
    for n in ast.walk(w.fns[f.args[0]].node):
        if isinstance(n, ast.Call):
            t = n.func
            if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == 'self':
                out.append((n.lineno, n.col_offset, t.attr))
            elif isinstance(t, ast.Name):
                out.append((n.lineno, n.col_offset, t.id))
    return [x[2] for x in sorted(out)]


class Finding:
    def __init__(self, kind, what, status, why, site):
        self.kind = kind
        self.what = what
        self.status = status
        self.why = why
        self.site = site

    def __repr__(self):
        return '%-9s %-8s %s | %s' % (self.status, self.kind, self.what, self.why)


def earlier(w, st, obj):
    """reasons and notes of earlier stages are already there"""
    ob = st.heap[w.deref(obj, st).args[0]]
    for m in MAPS:
        v = ob.fields.get(m)
        v = w.deref(v, st) if v is not None else None
        if v is None or v.op != 'ref':
            continue
        lv = X.mk('src', 'earlier:' + m, None)
        name = 'earlier.' + m
        X.SYM_LEVELS[name] = (lv,)
        c = st.heap[v.args[0]]
        st.heap[v.args[0]] = c.with_items(c.items + (
            ('loop', lv, INS, TRUE, (one(X.mk('elemkey', lv), X.mk('sym', name, 'str'), TRUE, None),)),))


class Side:
    def __init__(self, scope, root, module, cls, method, extra=None, skip=(), fields=None, facts=None):
        self.w = w = Stage(root, scope)
        hook_comments(w)
        hook_helpers(w, skip, method)
        w.module(TM)
        w.module('spec.stages')
        st = w.fresh()
        refs = w.full(st, fields)
        if facts is not None:
            st.facts = facts
        refs.update(extra(w, st, refs) if extra else {})
        self.obj = w.make(module, cls, st, refs) if cls else None
        if cls:
            earlier(w, st, self.obj)
        fv = w.func(module, '%s.%s' % (cls, method) if cls else method)
        self.fn = w.fns[fv.args[0]]
        names = [a.arg for a in self.fn.node.args.args[1 if cls else 0:]]
        args = []
        for n in names:
            v = refs.get(n)
            if v is None:
                v = w.arg(n, refs)
            if v is None:
                v = X.mk('sym', n, 'int')
            args.append(v)
        self.refs = refs
        self.lift = w.apply(fv, ([self.obj] if cls else []) + args, st)
        self.st = self.lift.st

    def comments(self, name):
        if self.obj is None:
            return None
        ob = self.st.heap[self.w.deref(self.obj, self.st).args[0]]
        v = ob.fields.get(name)
        if v is None:
            return None
        c = self.w.deref(v, self.st)
        return self.st.heap[c.args[0]].items


def truth_of(ref, side):
    return ref


def kept_guard(side):
    """name level -> guard that the item is in the returned map"""
    v = side.lift.value
    for l, g in X.guarded_leaves(v):
        pass
    if v.op != 'ref':
        return None
    v = side.w.deref(v, side.st)
    c = side.st.heap[v.args[0]]
    out = {}
    for levels, orders, g, k, val in C.flat(c.items):
        if k is not None and levels and k.op == 'elemkey' and k.args[0] is levels[-1]:
            out[levels[-1]] = b_or(out.get(levels[-1], FALSE), X.unname_all(g))
        else:
            return None
    return out


def lift_stage(method, scope, root, name=None, fields=None, facts=None):
    """the stage of the program alone"""
    return Side(scope, root, TM, None if method in FUNCTIONS else 'Transformer', name or method, fields=fields, facts=facts)


def compare_stage(method, scope, root, extra=None, name=None, skip=(), levels=None):
    """all observations of one stage: list of Finding"""
    isfn = method in FUNCTIONS
    a = Side(scope, root, TM, None if isfn else 'Transformer', name or method, extra, skip)
    b = Side(scope, root, 'spec.stages', None if isfn else 'Ref', method, extra, skip)
    out = []
    site = (a.fn.module, a.fn.name, a.fn.node.lineno)

    def sink(kind):
        def s(path, r, why, x=None, y=None):
            out.append(Finding(kind, path, r, why, site))
        return s
    where = '%s()' % method
    ok = b_not(X.unname_all(b.lift.aborts))
    cmp = C.Compare(a.w, a.st, b.w, b.st, sink('abort'), ignore=SCRATCH)
    cmp.term('abort condition', X.unname_all(a.lift.aborts), X.unname_all(b.lift.aborts))
    if b.lift.dead or a.lift.dead:
        return out, a, b
    cmp.sink = sink('kept')
    both = ok
    cmp.value('result', a.lift.value, b.lift.value, both)
    kg = kept_guard(b)
    ka = kept_guard(a)
    for m in MAPS:
        ia, ib = a.comments(m), b.comments(m)
        if ia is None or ib is None:
            continue
        if 'removed' in m:
            cmp.sink = sink('removed')
            cmp.reasons(m, ia, ib, both)
        else:
            cmp.sink = sink('noted')
            notes(cmp, m, ia, ib, kg, both)
    return out, a, b


def notes(cmp, path, ia, ib, kg, cond):
    """notes matter for items that are kept"""
    pa, pb = C.presence(C.flat(ia)), C.presence(C.flat(ib))
    for k in list(pb) + [x for x in pa if x not in pb]:
        lv, key = k
        g = cond
        if kg and lv and lv[-1] in kg:
            g = b_and(g, kg[lv[-1]])
        cmp.term('%s[%s]' % (path, X.show(key, 3)), pa.get(k, FALSE), pb.get(k, FALSE), g, lv)
