"""Buffer size estimation against its reference: the zone processor is a stand-in whose reports are arbitrary functions of zone and year."""
from . import terms as X
from . import compare as C
from . import model as M
from . import world as W
from .engine import Broken
from .helpercheck import OPAQUE, find_function
from .stage import Stage
from .terms import mk, const, TRUE, b_and, b_not, atom

MOD = 'acetimetools.bufestimator.bufestimator'
X.APP_TYPES.update({'probe.active': 'int', 'probe.buffer': 'int', 'probe.terminal': 'bool'})
for _k in ('start_asked', 'until_asked', 'generated_min', 'generated_max'):
    M.POOLS[_k] = (0.95, list(range(1997, 2006)))
INLINED = mk('sym', 'zone.inlined', 'str')


class Estimation(Stage):
    aliases = {'acetime.zone_processor': 'spec.processor'}


def world(root):
    w = Estimation(root, 'extended')
    for n in ('active', 'buffer'):
        w.hooks[('processor', n + '_of')] = lambda eng, f, args, kw, st, node, n=n: X.app('probe.' + n, *args)
    w.hooks[('processor', 'terminal_of')] = lambda eng, f, args, kw, st, node: atom(mk('truthy', X.app('probe.terminal', *args)))
    return w


def inlined(w, st):
    X.SYM_LEVELS['zone.inlined'] = (W.Z,)
    infos = w.newcell(st, 'infos', 'dict', (), items=(('loop', W.Z, W.INS, TRUE, (W.one(W.ZK, INLINED, TRUE, None),)),))
    policies = w.newcell(st, 'inlined_policies', 'dict', (), items=(
        ('loop', W.P, W.INS, TRUE, (W.one(W.PK, mk('sym', 'policy.inlined', 'str'), TRUE, None),)),))
    X.SYM_LEVELS['policy.inlined'] = (W.P,)
    return mk('tuple', infos, policies)


def estimates(res, root, tries):
    rule = 'every zone measured over all requested years'
    w = world(root)
    hit = []

    def inline(eng, f, args, kw, st, node):
        hit.append(f.name)
        return inlined(w, st)
    w.hooks[('zone_info_inliner', 'ZoneInfoInliner.generate_zonedb')] = inline
    w.hooks[('estimate', 'inline')] = inline
    env = w.module(MOD)
    w.module('spec.estimate')
    cv = env.get('BufSizeEstimator')
    if cv is None or cv.op != 'class' or w.clsattr(w.classes[cv.args[0]], 'transform') is None:
        res.add(rule, C.UND, 'BufSizeEstimator.transform', None, 'renamed or removed')
        return
    refs = w.full(w.base)
    tv = w.module('acetimetools.datatypes.attyping').get('TransformerResult')
    fields = {k: refs[k] for k in ('zones_map', 'policies_map', 'links_map')}
    for k in ('generated_min_year', 'generated_max_year'):
        fields[k] = mk('sym', 'estimate.' + k[:-5], 'int')
    t = w.newcell(w.base, 'tresult', 'obj', (), fields)
    a0, b0, ig = mk('sym', 'estimate.start_asked', 'int'), mk('sym', 'estimate.until_asked', 'int'), atom(mk('truthy', mk('sym', 'ignored', 'bool')))
    extra = {'start_year': a0, 'until_year': b0, 'ignore_buf_size_too_large': ig}
    st = w.fresh()
    obj = w.make(MOD, 'BufSizeEstimator', st, refs, extra)
    f = w.clsattr(w.classes[cv.args[0]], 'transform')
    fn = w.fns[f.args[0]]
    site = (fn.module, fn.name, fn.node.lineno)
    a = w.apply(f, [obj, t], st)
    ran = bool(hit)
    b = w.apply(w.func('spec.estimate', 'estimate'), [t, a0, b0, ig], w.fresh())
    weak = next((e.kind for e in a.events if e.kind == 'opaque-loop' or e.kind == 'opaque' and e.data in OPAQUE), None)

    def sink(path, r, why, x=None, y=None):
        if r == C.DIFF and (weak or not ran):
            r, why = C.UND, 'witness set aside: %s' % (weak or 'inlined database not recognised')
        res.add(rule, r, 'BufSizeEstimator.transform()%s' % path, site, why)
    cmp = C.Compare(w, a.st, w, b.st, sink, tries=tries)
    g = TRUE
    g = b_and(g, X.lt(a0, b0), w.apply(w.func('spec.estimate', 'some_year'), [t, a0, b0], w.fresh()).value)
    cmp.term(' stops', X.unname_all(a.aborts), X.unname_all(b.aborts), g)
    if a.dead or b.dead:
        return
    ok = b_and(g, b_not(X.unname_all(b.aborts)))
    cell = a.st.heap[t.args[0]]
    for i, k in enumerate(('buf_sizes', 'max_buf_size', 'estimator_min_year', 'estimator_max_year')):
        if k not in cell.fields:
            sink(' ' + k, C.DIFF, 'not stored')
            continue
        cmp.value(' ' + k, cell.fields[k], b.value.args[i], ok)


INLINER = 'acetimetools.bufestimator.zone_info_inliner'


def inliner(res, root, tries):
    """the database handed to the zone processor carries the values of the generated database"""
    rule = 'measured on the values that are generated'
    w = Stage(root, 'extended')
    env = w.module(INLINER)
    w.module('spec.estimate')
    cv = env.get('ZoneInfoInliner')
    f = cv is not None and cv.op == 'class' and w.clsattr(w.classes[cv.args[0]], 'generate_zonedb')
    if not f:
        res.add(rule, C.UND, 'ZoneInfoInliner.generate_zonedb', None, 'renamed or removed')
        return
    refs = w.full(w.base)
    X.CLOSED.clear()
    X.CLOSED[mk('sym', 'era.policy_name', 'str')] = W.P
    t = w.newcell(w.base, 'tresult', 'obj', (), {k: refs[k] for k in ('zones_map', 'policies_map', 'links_map')})
    st = w.fresh()
    obj = w.make(INLINER, 'ZoneInfoInliner', st, refs)
    fn = w.fns[f.args[0]]
    a = w.apply(f, [obj], st)
    b = w.apply(w.func('spec.estimate', 'inline'), [t], w.fresh())
    weak = next((e.kind for e in a.events if e.kind == 'opaque-loop' or e.kind == 'opaque' and e.data in OPAQUE), None)

    def sink(path, r, why, x=None, y=None):
        if r == C.DIFF and weak:
            r, why = C.UND, 'witness set aside: ' + weak
        res.add(rule, r, 'generate_zonedb()%s' % path, (fn.module, fn.name, fn.node.lineno), why)
    cmp = C.Compare(w, a.st, w, b.st, sink, tries=tries)
    cmp.term(' stops', X.unname_all(a.aborts), X.unname_all(b.aborts), TRUE)
    if not (a.dead or b.dead):
        ok = b_not(X.unname_all(b.aborts))
        if a.value.op == 'tuple' and len(a.value.args) == 2:
            for n, x, y in zip(('infos', 'policies'), a.value.args, b.value.args):
                cmp.value(' ' + n, x, y, ok)
        else:
            cmp.value('', a.value, b.value, ok)
    X.CLOSED.clear()
