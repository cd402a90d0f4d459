"""The closed world the compiler is lifted in: symbolic TZ input, one scope at a
time, all other command line values symbolic."""
import ast
import os
import sys
import time
from . import terms as X
from .terms import mk, const, TRUE, FALSE, NONE, atom
from .engine import Cell, St, Dead, Broken, INS, HASH, one, MISSING
from .interp import Interp

sys.setrecursionlimit(20000)

Z = mk('src', 'Z', None)
E = mk('src', 'E', Z)
P = mk('src', 'P', None)
R = mk('src', 'R', P)
L = mk('src', 'L', None)
ZK, PK, LK = (mk('elemkey', x) for x in (Z, P, L))
LT = mk('sym', 'link.target', 'str')
X.SYM_LEVELS['link.target'] = (L,)
X.NONEMPTY |= {E, R}
X.SYM_RANGES['rule.in_month'] = (1, 12)
X.SYM_RANGES['era.until_month'] = (1, 12)

SCOPES = ('basic', 'extended', 'complete')
RECORDS = {'rule': ('ZoneRuleRaw', (P, R)), 'era': ('ZoneEraRaw', (Z, E)),
           'policy': ('ZonePolicyRaw', (P,)), 'info': ('ZoneInfoRaw', (Z,))}


def fsym(rec, field):
    """symbol for an input field of a record"""
    return FIELDS[rec + '.' + field]


FIELDS = {}


def produced_keys(tree):
    """constant record keys stored anywhere in a module: name -> set of constant values (None = computed)"""
    out = {}

    def put(k, v):
        out.setdefault(k, []).append(v)
    for n in ast.walk(tree):
        if isinstance(n, ast.Dict):
            for k, v in zip(n.keys, n.values):
                if isinstance(k, ast.Constant) and isinstance(k.value, str):
                    put(k.value, v)
        elif isinstance(n, ast.Call):
            for kw in n.keywords:
                if kw.arg:
                    put(kw.arg, kw.value)
        elif isinstance(n, (ast.Assign, ast.AugAssign, ast.AnnAssign)):
            for t in n.targets if isinstance(n, ast.Assign) else [n.target]:
                for x in (t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t]):
                    if isinstance(x, ast.Subscript) and isinstance(x.slice, ast.Constant):
                        put(x.slice.value, n.value if x is t else None)
    return out


class World(Interp):
    def __init__(self, root='/repo/src', overrides=None):
        super().__init__(root, overrides)
        self.hooks[('extractor', 'Extractor.parse')] = lambda *a: NONE
        self.hooks[('extractor', 'Extractor.print_summary')] = lambda *a: NONE
        self.hooks[('extractor', 'Extractor.get_data')] = self.get_data
        self.input = None

    def annotations(self, cls):
        env = self.modules.get('acetimetools.datatypes.attyping') or {}
        c = env.get(cls)
        if c is None or c.op != 'class':
            raise Broken('record type %s not found' % cls)
        return {n: ast.unparse(a) for n, a, _ in self.classes[c.args[0]].annots}

    def input_fields(self, rec, st):
        tname, levels = RECORDS[rec]
        ann = self.annotations(tname)
        tree = self.trees.get('acetimetools.extractor.extractor')
        if tree is None:
            raise Broken('extractor module not found')
        keys = produced_keys(tree)
        f = {}
        for k, a in ann.items():
            if k not in keys or a.startswith('List'):
                continue
            name = '%s.%s' % (rec, k)
            ty = {'int': 'int', 'str': 'str', 'bool': 'bool'}.get(a)
            X.SYM_LEVELS[name] = levels
            vals = keys[k]
            if all(isinstance(v, ast.Constant) and v.value is False for v in vals):
                v = FALSE
            elif ty == 'bool':
                v = atom(mk('truthy', mk('sym', name, 'bool')))
            else:
                v = mk('sym', name, ty)
            FIELDS[name] = v
            f[k] = v
        return f

    def get_data(self, eng, f, args, kw, st, node):
        if self.input is not None:
            return self.input

        def cell(name, kind, own, fields=None, items=()):
            cid = (kind, 'input', name)
            self.owner[cid] = own
            st.heap[cid] = Cell(kind, fields or {}, items)
            return mk('ref', cid, ())
        rule = cell('rule', 'dict', (P, R), self.input_fields('rule', st))
        era = cell('era', 'dict', (Z, E), self.input_fields('era', st))
        rules = cell('rules', 'list', (P,), items=(('loop', R, INS, TRUE, (one(None, rule, TRUE, None),)),))
        eras = cell('eras', 'list', (Z,), items=(('loop', E, INS, TRUE, (one(None, era, TRUE, None),)),))
        pf = self.input_fields('policy', st)
        pf['rules'] = rules
        zf = self.input_fields('info', st)
        zf['eras'] = eras
        policy = cell('policy', 'dict', (P,), pf)
        info = cell('info', 'dict', (Z,), zf)
        pm = cell('policies_map', 'dict', (), items=(('loop', P, INS, TRUE, (one(PK, policy, TRUE, None),)),))
        zm = cell('zones_map', 'dict', (), items=(('loop', Z, INS, TRUE, (one(ZK, info, TRUE, None),)),))
        lm = cell('links_map', 'dict', (), items=(('loop', L, INS, TRUE, (one(LK, LT, TRUE, None),)),))
        self.refs = dict(rule=rule, era=era, rules=rules, eras=eras, policy=policy, info=info,
                         policies_map=pm, zones_map=zm, links_map=lm)
        self.input = mk('tuple', pm, zm, lm)
        return self.input

    # ---- the cut behind Transformer.transform: final zones, policies and links with symbolic fields
    def cut_transform(self, fields):
        self.cut_fields = fields
        self.hooks[('transformer', 'Transformer.transform')] = self.transform_result

    def record_fields(self, rec, st, names):
        tname, levels = RECORDS[rec]
        f = {}
        for k, a in self.annotations(tname).items():
            if k not in names or a.startswith('List'):
                continue
            name = '%s.%s' % (rec, k)
            X.SYM_LEVELS[name] = levels
            if a == 'bool':
                v = atom(mk('truthy', mk('sym', name, 'bool')))
            elif a == 'Optional[str]':
                X.SYM_LEVELS[name + '?'] = levels
                v = X.ite(atom(mk('truthy', mk('sym', name + '?', 'bool'))), mk('sym', name, 'str'), NONE)
            else:
                v = mk('sym', name, {'int': 'int', 'str': 'str'}.get(a))
            FIELDS[name] = v
            f[k] = v
        return f

    def newcell(self, st, name, kind, own, fields=None, items=()):
        cid = (kind, 'input', name)
        self.owner[cid] = own
        st.heap[cid] = Cell(kind, fields or {}, items)
        return mk('ref', cid, ())

    def comments_map(self, st, name):
        lv = mk('src', name, None)
        rl = mk('src', name + '.reason', lv)
        rs = self.newcell(st, name + '.reasons', 'set', (lv,), items=(
            ('loop', rl, INS, TRUE, (one(None, mk('elemval', rl, 'str'), TRUE, None),)),))
        return self.newcell(st, name, 'dict', (), items=(
            ('loop', lv, INS, TRUE, (one(mk('elemkey', lv), rs, TRUE, None),)),))

    unordered = frozenset()

    def transform_result(self, eng, f, args, kw, st, node):
        names = self.cut_fields
        cell = self.newcell

        def INS_OF(*maps):
            return HASH if self.unordered & set(maps) else INS
        rule = cell(st, 'rule', 'dict', (P, R), self.record_fields('rule', st, names['rule']))
        era = cell(st, 'era', 'dict', (Z, E), self.record_fields('era', st, names['era']))
        rules = cell(st, 'rules', 'list', (P,), items=(('loop', R, INS_OF('policies_map'), TRUE, (one(None, rule, TRUE, None),)),))
        eras = cell(st, 'eras', 'list', (Z,), items=(('loop', E, INS_OF('zones_map'), TRUE, (one(None, era, TRUE, None),)),))
        pf = self.record_fields('policy', st, names['policy'])
        pf['rules'] = rules
        zf = self.record_fields('info', st, names['info'])
        zf['eras'] = eras
        policy = cell(st, 'policy', 'dict', (P,), pf)
        info = cell(st, 'info', 'dict', (Z,), zf)
        X.CLOSED.clear()
        X.CLOSED[mk('sym', 'era.policy_name', 'str')] = P
        X.CLOSED[LT] = Z
        X.DISJOINT |= {(Z, L), (L, Z)}
        X.SYM_LEVELS['zone.id'] = (Z,)
        X.SYM_LEVELS['link.id'] = (L,)
        tres = args[1]
        tres = self.deref(tres, st)
        ann = self.annotations('TransformerResult')

        def fill(name):
            if name == 'zones_map':
                return cell(st, name, 'dict', (), items=(('loop', Z, INS_OF('zones_map'), TRUE, (one(ZK, info, TRUE, None),)),))
            if name == 'policies_map':
                return cell(st, name, 'dict', (), items=(('loop', P, INS_OF('policies_map'), TRUE, (one(PK, policy, TRUE, None),)),))
            if name == 'links_map':
                return cell(st, name, 'dict', (), items=(('loop', L, INS_OF('links_map'), TRUE, (one(LK, LT, TRUE, None),)),))
            if name == 'zone_ids':
                return cell(st, name, 'dict', (), items=(
                    ('loop', Z, INS, TRUE, (one(ZK, mk('sym', 'zone.id', 'int'), TRUE, None),)),))
            if name == 'link_ids':
                return cell(st, name, 'dict', (), items=(
                    ('loop', L, INS, TRUE, (one(LK, mk('sym', 'link.id', 'int'), TRUE, None),)),))
            a = ann.get(name, '')
            if a == 'CommentsMap':
                return self.comments_map(st, name)
            if a == 'int':
                return mk('sym', 'tresult.' + name, 'int')
            if a == 'bool':
                return atom(mk('truthy', mk('sym', 'tresult.' + name, 'bool')))
            return None
        for n in names['tresult']:
            v = fill(n)
            if v is not None:
                self.put_field(tres, n, v, st)
        if 'conditions' in names:
            names['conditions'](self, st, tres, dict(rule=rule, era=era, policy=policy, info=info))
        self.refs = dict(rule=rule, era=era, policy=policy, info=info, rules=rules, eras=eras)
        self.tresult = tres
        self.heap_at_cut = dict(st.heap)
        return NONE

    def start(self):
        st = St({}, {}, X.Facts())
        return st

    def run(self, module, func, args=(), st=None):
        st = st or self.start()
        env = self.load(module, st)
        if env is None:
            raise Broken('module %s not found' % module)
        fv = env.get(func)
        if fv is None:
            raise Broken('%s.%s not found' % (module, func))
        self.curfn.append(('<run>', module))
        self.final = st
        try:
            r = self.call(fv, list(args), {}, st, ast.parse('0').body[0])
        finally:
            self.curfn.pop()
        return r


def transform_products(root):
    """record keys and result fields stored by the extractor and the transformer"""
    keys = set()
    attrs = set()
    for mod in ('extractor/extractor.py', 'transformer/transformer.py'):
        p = os.path.join(root, 'acetimetools', mod)
        with open(p, encoding='utf-8') as f:
            tree = ast.parse(f.read(), p)
        keys |= set(k for k in produced_keys(tree) if isinstance(k, str))
        for n in ast.walk(tree):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                attrs.add(n.attr)
    return {'rule': keys, 'era': keys, 'policy': keys, 'info': keys, 'tresult': attrs}


def run_main(scope, root='/repo/src', extra=None):
    ov = {'scope': const(scope)}
    ov.update(extra or {})
    w = World(root, ov)
    w.run('acetimetools.tzcompiler', 'main')
    return w
