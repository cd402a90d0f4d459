"""Single functions against their reference model, on symbolic arguments."""
import ast
from . import terms as X
from . import compare as C
from .stage import Stage
from .engine import Broken, one
from . import world as W
from .terms import mk, const, TRUE, FALSE, b_and, b_not

TM = 'acetimetools.transformer.transformer'

# program function -> (reference, argument types, condition on the arguments)
TABLE = {
    'time_string_to_seconds': (TM, 'timeparse', 'seconds_of', ['str'], None),
    '_parse_on_day_string': (TM, 'helpers', 'day_rule', ['str'], None),
    'calc_day_of_month': (TM, 'helpers', 'resolve_day', ['int', 'int', 'int', 'int'],
                          lambda a: [X.le(const(1), a[0]), X.le(a[0], const(9998)), X.le(const(1), a[1]), X.le(a[1], const(12)),
                                     X.le(const(0), a[2]), X.le(a[2], const(7)), X.le(const(-31), a[3]), X.le(a[3], const(31))]),
    'truncate_to_granularity': (TM, 'common', 'trunc_zero', ['int', 'int'], lambda a: [X.le(const(1), a[1])]),
    'div_to_zero': (TM, 'helpers', 'toward_zero', ['int', 'int'], lambda a: [X.le(const(1), a[1])]),
    'seconds_to_hm_string': (TM, 'helpers', 'hm_text', ['int'], None),
    'to_tiny_until_year': (TM, 'helpers', 'tiny_until', ['int', 'int'], None),
    'to_tiny_from_to_year': (TM, 'helpers', 'tiny_from_to', ['int', 'int'], None),
    'is_year_tiny': (TM, 'helpers', 'fits_tiny', ['int', 'int'], None),
    'hash_name': (TM, 'helpers', 'djb2', ['str'], None),
    'normalize_name': (TM, 'helpers', 'identifier', ['str'], None),
    'hms_to_seconds': (TM, 'helpers', 'seconds_from', ['int', 'int', 'int'], None),
    'seconds_to_hms': (TM, 'helpers', 'hms_of', ['int'], lambda a: [X.le(const(0), a[0])]),
}


def find_function(w, module, name):
    """the function, or None when no function of this name exists any more"""
    try:
        return w.func(module, name)
    except Broken:
        return None


def compare_function(res, root, rule, module, name, specmod, specname, types, cond=None, hooks=None, tries=600, watch=None,
                     what=None):
    """program function against its reference on symbolic arguments: stops, result, and what it leaves in its arguments.
    An argument type is a scalar type or a function building a collection in the base state."""
    w = Stage(root, 'extended')
    if hooks:
        hooks(w)
    w.module(module)
    w.module('spec.' + specmod)
    fv = find_function(w, module, name)
    if fv is None:
        res.add(rule, C.UND, '%s.%s not found' % (module, name), None, 'renamed or removed')
        return
    sv = w.func('spec.' + specmod, specname)
    fn = w.fns[fv.args[0]]
    params = fn.node.args.args[1:] if '.' in name else fn.node.args.args
    if len(params) != len(types):
        res.add(rule, C.UND, '%s() takes other arguments' % name, None, 'signature')
        return
    args = [t(w) if callable(t) else mk('sym', 'arg%d:%s' % (i, name), t) for i, t in enumerate(types)]
    site = (fn.module, fn.name, fn.node.lineno)
    g = TRUE
    for c in (cond(args) if cond else []):
        g = b_and(g, c)
    watched = [a.args[0] for a in args if a.op == 'ref'] if watch else []
    sides, seen, evs = [], [], []
    for f in (fv, sv):
        st = w.fresh()
        f2 = st.facts.assume(g)
        st.facts = f2
        w.watched, w.seen = watched, []
        n0 = len(w.events)
        sides.append(w.apply(f, args, st))
        seen.append(w.seen)
        evs.append(w.events[n0:])
    w.watched = ()
    a, b = sides
    res.saw('functions', '%s.%s' % (module, name))
    weak = next((e.kind for e in evs[0] if e.kind == 'opaque-loop' or e.kind == 'opaque' and e.data in OPAQUE), None)

    def sink(path, r, why, x=None, y=None):
        if r == C.DIFF and weak:
            r, why = C.UND, 'witness set aside: ' + weak
        res.add(rule, r, '%s()%s' % (what or name, path), site, why)
    cmp = C.Compare(w, a.st, w, b.st, sink, tries=tries)
    cmp.term(' stops', X.unname_all(a.aborts), X.unname_all(b.aborts), g)
    if watch:
        for cid, pc, cell in seen[0]:
            old = w.base.heap[cid]
            if cell is None or cell.items == old.items and cell.fields == old.fields:
                sink(' ' + watch, C.EQ, None)
            else:
                gs = b_or(*[e[2] for e in C.flat(cell.items[len(old.items):])]) if cell.items[:len(old.items)] == old.items else TRUE
                cmp.satisfiable(' ' + watch, b_and(g, X.unname_all(pc), X.unname_all(gs)), (), 'content changed before failing')
    if a.dead or b.dead:
        return
    ok = b_and(g, b_not(X.unname_all(b.aborts)))
    cmp.value(' result', a.value, b.value, ok)
    for p, v in zip(params, args):
        if v.op == 'ref':
            cmp.cell(' ' + p.arg, v, v, ok, ())


OPAQUE = {'.append', '.insert', '.update', '.pop', '.remove', '.clear', '.extend', '.setdefault', '.add', '.discard',
          '.sort', '.reverse', '.popitem', 'call', '.appendleft', '.write'}


# ---- collections as arguments

D = mk('src', 'D', None)


def byte_list(w):
    """arbitrary bytes"""
    return w.newcell(w.base, 'data', 'list', (), items=(
        ('loop', D, W.INS, TRUE, (one(None, mk('elemval', D, 'int'), TRUE, None),)),))


def helper(res, root, name, tries=600):
    tries *= 5
    mod, sm, sn, types, cond = TABLE[name]
    compare_function(res, root, 'helper equals its reference', mod, name, sm, sn, types, cond, tries=tries)


def zones_map(w):
    return maps(w)['zones_map']


def links_map(w):
    return maps(w)['links_map']


def policies_map(w):
    return maps(w)['policies_map']


def maps(w):
    if not hasattr(w, 'maps_'):
        w.maps_ = w.full(w.base)
        X.DISJOINT.update({(W.Z, W.L), (W.L, W.Z)})
    return w.maps_


TBL = mk('src', 'T', None)
X.SYM_LEVELS['table.value'] = (TBL,)
X.SYM_RANGES['table.value'] = (1, 31)


def index_table(w):
    """arbitrary name -> number table"""
    return w.newcell(w.base, 'table', 'dict', (), items=(
        ('loop', TBL, W.INS, TRUE, (one(mk('elemkey', TBL), mk('sym', 'table.value', 'int'), TRUE, None),)),))
