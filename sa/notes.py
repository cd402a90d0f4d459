"""Notes of policies merged into the zones that use them."""
from . import terms as X
from . import model as M
from . import compare as C
from . import world as W
from .helpercheck import OPAQUE
from .stage import Stage
from .terms import mk, const, TRUE, b_not, atom

M.POOLS['motive'] = (0.97, ['late', 'odd', 'far'])
MOD = 'acetimetools.transformer.commenter'


def comments(w, name, lv, key):
    """some of the elements of lv have notes"""
    rl = mk('src', name + '.motive', lv)
    noted = mk('sym', name + '.noted', 'bool')
    X.SYM_LEVELS[name + '.noted'] = (lv,)
    rs = w.newcell(w.base, name + '.reasons', 'set', (lv,), items=(
        ('loop', rl, W.INS, TRUE, (W.one(None, mk('elemval', rl, 'str'), TRUE, None),)),))
    X.NONEMPTY.add(rl)
    return w.newcell(w.base, name, 'dict', (), items=(
        ('loop', lv, W.INS, atom(mk('truthy', noted)), (W.one(key, rs, TRUE, None),)),))


def merged(res, root, tries):
    rule = 'a zone shows its notes and those of the policies it uses'
    w = Stage(root, 'extended')
    env = w.module(MOD)
    w.module('spec.notes')
    cv = env.get('Commenter')
    f = cv is not None and cv.op == 'class' and w.clsattr(w.classes[cv.args[0]], 'transform')
    if not f:
        res.add(rule, C.UND, 'Commenter.transform', None, 'renamed or removed')
        return
    refs = w.full(w.base)
    X.CLOSED.clear()
    X.CLOSED[mk('sym', 'era.policy_name', 'str')] = W.P
    fields = {k: refs[k] for k in ('zones_map', 'policies_map', 'links_map')}
    fields['notable_zones'] = comments(w, 'zone_notes', W.Z, W.ZK)
    fields['notable_policies'] = comments(w, 'policy_notes', W.P, W.PK)
    fields['removed_policies'] = comments(w, 'removed_policy_notes', W.P, W.PK)
    fields['removed_zones'] = comments(w, 'removed_zone_notes', W.Z, W.ZK)
    t = w.newcell(w.base, 'tresult', 'obj', (), fields)
    st = w.fresh()
    obj = w.make(MOD, 'Commenter', st, refs)
    fn = w.fns[f.args[0]]
    a = w.apply(f, [obj, t], st)
    weak = next((e.kind for e in a.events if e.kind == 'opaque-loop' or e.kind == 'opaque' and e.data in OPAQUE), None)
    site = (fn.module, fn.name, fn.node.lineno)

    def report(what, r, why):
        if r == C.DIFF and weak:
            r, why = C.UND, 'witness set aside: ' + weak
        res.add(rule, r, what, site, why)
    if a.dead:
        report('Commenter.transform()', C.UND, 'never returns')
        return
    r, why = M.compare(X.unname_all(a.aborts), X.FALSE, TRUE, tries=tries)
    report('Commenter.transform() stops', r, why)
    cell = a.st.heap[t.args[0]]

    def says(name, args, st):
        s = st.fork() if hasattr(st, 'fork') else st
        return X.unname_all(w.apply(w.func('spec.notes', name), args, s).value)

    base = w.fresh()
    z, p, why = mk('sym', 'some.zone', 'str'), mk('sym', 'some.policy', 'str'), mk('sym', 'some.motive', 'str')
    X.CLOSED[z], X.CLOSED[p] = W.Z, W.P
    zm, nz, npol = refs['zones_map'], fields['notable_zones'], fields['notable_policies']
    for what, k, name, args, ref, rargs in (
            ('policies of a zone are those its eras use', 'zones_to_policies', 'listed', [z, p], 'uses', [zm, z, p]),
            ('own notes of a zone', 'merged_notable_zones', 'shows_own', [z, why], 'own', [nz, z, why]),
            ('notes of the policies a zone uses', 'merged_notable_zones', 'shows_policy', [z, p, why], 'of_policy',
             [zm, npol, z, p, why]),
            ('zones listed without any note', 'merged_notable_zones', 'bare', [], 'nowhere', [zm])):
        if k not in cell.fields:
            report(what, C.DIFF, '%s is not stored' % k)
            continue
        x = says(name, [cell.fields[k]] + args, a.st)
        y = says(ref, rargs, base)
        r, text = M.compare(x, y, TRUE, tries=tries)
        report(what, r, text)
    X.CLOSED.clear()
