"""Lifting single functions and methods of the analysed program on a symbolic state."""
import ast
import os
from . import terms as X
from . import world as W
from .terms import mk, const, TRUE, FALSE, NONE, atom
from .engine import Cell, St, Dead, Broken, INS, one, MISSING

SPEC_ROOT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


class Stage(W.World):
    """World with the reference models (spec.*) loadable beside the program"""

    def __init__(self, root='/repo/src', scope='basic'):
        super().__init__(root)
        self.scope = scope
        self.base = self.start()
        self.hooks[('transformer', 'Transformer._print_comments_map')] = lambda *a: NONE

    def load(self, name, st):
        name = self.aliases.get(name, name)
        if name.startswith('spec') and name not in self.modules:
            saved = self.root
            self.root = SPEC_ROOT
            try:
                return super().load(name, st)
            finally:
                self.root = saved
        return super().load(name, st)

    def module(self, name):
        st = self.base
        env = self.load(name, st)
        if env is None:
            raise Broken('module %s not found' % name)
        return env

    def func(self, module, name):
        env = self.module(module)
        parts = name.split('.')
        v = env.get(parts[0])
        if v is None:
            raise Broken('%s.%s not found' % (module, name))
        if len(parts) == 2:
            if v.op != 'class':
                raise Broken('%s.%s not found' % (module, name))
            m = self.clsattr(self.classes[v.args[0]], parts[1])
            if m is None:
                raise Broken('%s.%s not found' % (module, name))
            return m
        return v

    def fresh(self):
        return St({}, dict(self.base.heap), X.Facts())

    def full(self, st, fields=None):
        """input maps whose records carry every declared field"""
        names = {}
        for rec, (tname, lv) in W.RECORDS.items():
            names[rec] = set(self.annotations(tname)) if fields is None or rec not in fields else set(fields[rec])
        cell = self.newcell
        rule = cell(st, 'rule', 'dict', (W.P, W.R), self.record_fields('rule', st, names['rule']))
        era = cell(st, 'era', 'dict', (W.Z, W.E), self.record_fields('era', st, names['era']))
        rules = cell(st, 'rules', 'list', (W.P,), items=(('loop', W.R, INS, TRUE, (one(None, rule, TRUE, None),)),))
        eras = cell(st, 'eras', 'list', (W.Z,), items=(('loop', W.E, INS, TRUE, (one(None, era, TRUE, None),)),))
        pf = self.record_fields('policy', st, names['policy'])
        pf['rules'] = rules
        zf = self.record_fields('info', st, names['info'])
        zf['eras'] = eras
        policy = cell(st, 'policy', 'dict', (W.P,), pf)
        info = cell(st, 'info', 'dict', (W.Z,), zf)
        for rec, ref in (('rule', rule), ('era', era), ('policy', policy), ('info', info)):
            have = fields.get(rec) if fields else None
            if isinstance(have, dict):
                # fields that are there under a condition
                c = st.heap[ref.args[0]]
                f = {k: v for k, v in c.fields.items() if k in have or k in ('rules', 'eras') and rec in ('policy', 'info')}
                for k, g in have.items():
                    if k not in f:
                        f[k] = mk('sym', '%s.%s' % (rec, k), None)
                        X.SYM_LEVELS['%s.%s' % (rec, k)] = W.RECORDS[rec][1]
                    if g is not TRUE:
                        f[k] = X.ite(g, f[k], MISSING)
                st.heap[ref.args[0]] = c.with_fields(f)
        pm = cell(st, 'policies_map', 'dict', (), items=(('loop', W.P, INS, TRUE, (one(W.PK, policy, TRUE, None),)),))
        zm = cell(st, 'zones_map', 'dict', (), items=(('loop', W.Z, INS, TRUE, (one(W.ZK, info, TRUE, None),)),))
        lm = cell(st, 'links_map', 'dict', (), items=(('loop', W.L, INS, TRUE, (one(W.LK, W.LT, TRUE, None),)),))
        inc = mk('src', 'include', None)
        il = cell(st, 'include_list', 'set', (), items=(('loop', inc, INS, TRUE, (one(None, mk('elemkey', inc), TRUE, None),)),))
        p2z = mk('src', 'P2Z', None)
        return dict(rule=rule, era=era, rules=rules, eras=eras, policy=policy, info=info, policies_map=pm,
                    zones_map=zm, links_map=lm, include_list=il)

    def arg(self, name, refs):
        if name in refs:
            return refs[name]
        if name == 'scope':
            return const(self.scope)
        if name in ('start_year', 'until_year', 'until_at_granularity', 'offset_granularity', 'delta_granularity',
                    'tiny_base_year'):
            return mk('sym', name, 'int')
        if name in ('strict', 'generate_tiny_years', 'compress'):
            return atom(mk('truthy', mk('sym', name, 'bool')))
        return None

    def make(self, module, cls, st, refs, extra=None):
        """instance of a class, constructor arguments bound by parameter name"""
        env = self.module(module)
        cv = env.get(cls)
        if cv is None or cv.op != 'class':
            raise Broken('%s.%s not found' % (module, cls))
        init = self.clsattr(self.classes[cv.args[0]], '__init__')
        kw = {}
        if init is not None:
            f = self.fns[init.args[0]]
            for p in (f.node.args.args + f.node.args.kwonlyargs):
                if p.arg == 'self':
                    continue
                v = (extra or {}).get(p.arg)
                if v is None:
                    v = self.arg(p.arg, refs)
                if v is not None:
                    kw[p.arg] = v
        node = ast.parse('0').body[0]
        self.curfn.append(('<make>', module))
        try:
            return self.instantiate(self.classes[cv.args[0]], cv, [], kw, st, node)
        finally:
            self.curfn.pop()

    def apply(self, fv, args, st, kw=None):
        """call a lifted function; returns Lift"""
        n0 = len(self.events)
        saved = (self.raises, self.sinks, self.loops, self.pcstack, self.callstack, self.ctx)
        self.raises, self.sinks, self.loops, self.pcstack, self.ctx = [[]], [None], [], [], []
        node = ast.parse('0').body[0]
        self.curfn.append(('<apply>', None))
        try:
            v = self.call(fv, list(args), dict(kw or {}), st, node)
            dead = False
        except Dead:
            v, dead = NONE, True
        finally:
            self.curfn.pop()
        ab = self.raises[0]
        self.raises, self.sinks, self.loops, self.pcstack, self.callstack, self.ctx = saved
        lift = Lift(self, v, st, X.b_or(*ab) if ab else (TRUE if dead else FALSE), self.events[n0:], dead)
        if Stage.log is not None:
            Stage.log.append((self, fv, args, lift))
        return lift

    log = None


class Lift:
    def __init__(self, w, value, st, aborts, events, dead):
        self.w = w
        self.value = value
        self.st = st
        self.aborts = aborts
        self.events = events
        self.dead = dead
