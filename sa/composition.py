"""transform(): which stages run, on what, in which order, and what ends up in the shared result."""
import ast
from . import terms as X
from . import world as W
from . import compare as C
from . import stagecheck as S
from .stage import Stage
from .engine import Broken, INS, one
from .terms import mk, const, TRUE, FALSE, NONE, atom, b_and, b_not

KIND = {'zones_map': W.Z, 'policies_map': W.P, 'links_map': W.L}
LEAVES = ('_generate_zone_ids', '_generate_link_ids', '_calc_accurate_years', '_detect_tzdb_years')


def main_map(stage):
    """the map a stage returns"""
    if stage in ('_filter_include_links', '_remove_links_to_missing_zones'):
        return 'links_map'
    if stage in ('_remove_unused_policies', '_normalize_rule_letters', '_verify_policies_from_year') or \
            stage.startswith(('_remove_policies_', '_remove_rules_', '_create_rules_', '_update_rules_', '_verify_rules_')):
        return 'policies_map'
    return 'zones_map'


class Call:
    def __init__(self, name, pc, args, site, others=()):
        self.name, self.pc, self.args, self.site = name, pc, args, site
        self.others = others        # map parameters given something else -> does it hold nothing of the map?
        self.main = main_map(name)


class Lifted:
    """transform() with every stage replaced by a named black box"""

    def __init__(self, root, scope, module, cls, names, filters, orig=None):
        self.calls = []
        self.w = w = Stage(root, scope)
        S.hook_comments(w)
        S.hook_helpers(w)
        self.filters = filters
        w.module(S.TM)
        w.module('spec.stages')
        st = w.fresh()
        self.refs = refs = w.full(st)
        self.version = {}
        self.st = st
        self.obj = w.make(module, cls, st, refs)
        ob = st.heap[w.deref(self.obj, st).args[0]]
        for m in S.MAPS:
            v = ob.fields.get(m)
            if v is None:
                raise Broken('%s.%s not found' % (cls, m))
            cid = w.deref(v, st).args[0]
            c = st.heap[cid]
            st.heap[cid] = c.with_items((one(const('marker'), const(m), TRUE, None),))
        stem = module.split('.')[-1]
        for ref, name in names.items():
            hook = self.black_box(ref)
            if ref in S.FUNCTIONS:
                w.hooks[(stem, name)] = hook
            else:
                w.hooks[(stem, '%s.%s' % (cls, name))] = hook
        self.tres = self.result(st)
        fv = w.func(module, '%s.transform' % cls)
        self.fn = w.fns[fv.args[0]]
        self.lift = w.apply(fv, [self.obj, self.tres], st)

    def result(self, st):
        w = self.w
        w.module('acetimetools.datatypes.attyping')
        f = dict((k, self.refs[k]) for k in KIND)
        from .engine import Cell
        cid = ('obj', 'input', 'tresult')
        w.owner[cid] = ()
        env = w.module('acetimetools.datatypes.attyping')
        cv = env.get('TransformerResult')
        ann = {n for n, _, _ in w.classes[cv.args[0]].annots}
        for n in ann:
            if n not in f:
                f[n] = mk('sym', 'tresult.' + n, None)
        c = None
        for k, cell in st.heap.items():
            if cell.kind == 'obj' or cell.cls is not None:
                c = cell.kind
        st.heap[cid] = Cell(c or 'obj', f, (), w.classes[cv.args[0]])
        return mk('ref', cid, ())

    def kind_of(self, v, st):
        """(map name, guard of its items) of a value that is one of the three maps"""
        v = self.w.deref(v, st)
        if v.op != 'ref' or v.args[1]:
            return None
        c = st.heap.get(v.args[0])
        if c is None or len(c.items) != 1 or c.items[0][0] != 'loop' or c.fields:
            return None
        it = c.items[0]
        for k, lv in KIND.items():
            if it[1] is lv:
                return k, it[3]
        return None

    def apart(self, v, st, lv):
        """is the value a collection that holds nothing of this map?"""
        v = self.w.deref(v, st)
        if v.op != 'ref' or v.args[1]:
            return v.op == 'const'
        c = st.heap.get(v.args[0])
        return c is not None and not c.fields and not c.items

    def black_box(self, ref):
        def go(eng, f, args, kw, st, node):
            a = f.node.args.args
            if f.cls is not None or (a and a[0].arg == 'self'):
                a = a[1:]
                if len(args) + len(kw) > len(a):
                    args = args[1:]
            vals = dict(zip([x.arg for x in a], args))
            vals.update(kw)
            site = eng.site(node)
            seen, others = {}, {}
            first = None
            for x in a:
                v = vals.get(x.arg)
                if v is None:
                    continue
                alts = X.guarded_leaves(v)
                ks = [(self.kind_of(l, st), g) for l, g in alts]
                if all(k is not None and k[0] == ks[0][0][0] for k, g in ks):
                    g = FALSE
                    for (n, gi), ga in ks:
                        g = X.b_or(g, b_and(ga, gi))
                    seen[ks[0][0][0]] = g
                    if ks[0][0][0] == main_map(ref):
                        first = (ks[0][0][0], v, g)
                elif x.arg in KIND:
                    others[x.arg] = all(self.apart(l, st, KIND[x.arg]) for l, _ in alts)
                else:
                    seen[x.arg] = v
            self.calls.append(Call(ref, st.pc, seen, site, others))
            if ref in LEAVES:
                key = tuple(sorted(((k, v) for k, v in seen.items()), key=lambda p: p[0]))
                t = mk('app', 'stage.' + ref, *[v if k not in KIND else atom_guard(v) for k, v in key])
                if ref in ('_calc_accurate_years', '_detect_tzdb_years'):
                    return mk('tuple', mk('app', 'index', t, const(0)), mk('app', 'index', t, const(1)))
                return t
            if first is None:
                return NONE
            name, v, g = first
            if ref == '_create_policies_to_zones':
                return mk('app', 'stage.' + ref, atom_guard(g))
            if ref in self.filters:
                lv = KIND[name]
                n = 'keep:%s' % ref
                X.SYM_LEVELS[n] = (lv,)
                p = atom(mk('truthy', mk('sym', n, 'bool')))
                l = self.w.deref(v, st)
                c = st.heap[X.leaves(l)[0].args[0]] if l.op == 'ite' else st.heap[l.args[0]]
                it = c.items[0]
                cid = ('dict', 'stage', ref, len(self.calls))
                self.w.owner[cid] = ()
                st.heap[cid] = c.with_items((('loop', it[1], it[2], b_and(g, p), it[4]),))
                return mk('ref', cid, ())
            return v
        return go


def atom_guard(g):
    return X.ite(g, const(1), const(0))


def spec_filters(root):
    """stages whose result is a new map"""
    w = Stage(root)
    env = w.module('spec.stages')
    out = set()
    tree = w.trees['spec.stages']
    for c in tree.body:
        if isinstance(c, ast.ClassDef):
            for f in c.body:
                if isinstance(f, ast.FunctionDef):
                    r = {n.value.id for n in ast.walk(f) if isinstance(n, ast.Return) and isinstance(n.value, ast.Name)}
                    if 'kept' in r:
                        out.add(f.name)
    return out


def effects(w, module, names):
    """record fields each stage reads and writes, through its helpers: name -> (reads, writes, aborts)"""
    tree = w.trees[module]
    fns = {}
    for n in tree.body:
        if isinstance(n, ast.FunctionDef):
            fns[n.name] = n
        elif isinstance(n, ast.ClassDef):
            for m in n.body:
                if isinstance(m, ast.FunctionDef):
                    fns[m.name] = m
    memo = {}

    def eff(name, stack=()):
        if name in memo:
            return memo[name]
        if name in stack or name not in fns:
            return set(), set(), False
        rd, wr, ab = set(), set(), False
        for n in ast.walk(fns[name]):
            if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Constant) and isinstance(n.slice.value, str):
                (wr if isinstance(n.ctx, ast.Store) else rd).add(n.slice.value)
            elif isinstance(n, (ast.Raise, ast.Assert)):
                ab = True
            elif isinstance(n, ast.Call):
                t = n.func
                callee = t.id if isinstance(t, ast.Name) else t.attr if isinstance(t, ast.Attribute) else None
                if isinstance(t, ast.Attribute) and t.attr == 'get' and n.args and isinstance(n.args[0], ast.Constant):
                    rd.add(n.args[0].value)
                if callee:
                    a, b, c = eff(callee, stack + (name,))
                    rd |= a
                    wr |= b
                    ab = ab or c
        memo[name] = rd, wr, ab
        return memo[name]
    return {r: eff(n) for r, n in names.items()}


def compare_pipeline(root, scope, names):
    """findings: (stage or field, kind, status, why, site)"""
    filters = spec_filters(root)
    out = []
    ref = {n: n for n in names}
    b = Lifted(root, scope, 'spec.stages', 'Ref', {n: n for n in all_stages()}, filters)
    a = Lifted(root, scope, S.TM, 'Transformer', names, filters)
    site = (a.fn.module, 'Transformer.transform', a.fn.node.lineno)
    ca, cb = {}, {}
    for calls, d in ((a.calls, ca), (b.calls, cb)):
        for i, c in enumerate(calls):
            d.setdefault(c.name, []).append((i, c))
    cmp = C.Compare(a.w, a.lift.st, b.w, b.lift.st, None)

    def sink(stage, kind):
        def s(path, r, why, x=None, y=None):
            out.append((stage, kind, r, '%s: %s' % (path, why) if why else path, site))
        return s
    cmp.sink = sink('*', 'abort')
    cmp.term('tiny year check', X.unname_all(a.lift.aborts), X.unname_all(b.lift.aborts))
    for n, lst in cb.items():
        if n not in names:
            out.append((n, 'stage', 'undecided', 'no method of this name', site))
            continue
        mine = ca.get(n)
        if not mine:
            out.append((n, 'stage', 'differ', '%s() is never called' % names[n], site))
            continue
        g = X.b_or(*[c.pc for _, c in lst])
        h = X.b_or(*[c.pc for _, c in mine])
        cmp.sink = sink(n, 'stage')
        cmp.term('condition of %s()' % names[n], X.unname_all(h), X.unname_all(g))
        if len(mine) != len(lst):
            out.append((n, 'stage', 'undecided', 'called %d times' % len(mine), site))
            continue
        for (_, x), (_, y) in zip(mine, lst):
            for k in y.args:
                if k in KIND:
                    u, v = x.args.get(k), y.args[k]
                    if u is None and x.others and x.others.get(k):
                        out.append((n, 'arg', 'differ', '%s() is given nothing of the %s' % (names[n], k), x.site))
                    elif u is None:
                        out.append((n, 'arg', 'undecided', 'argument %s' % k, site))
                    elif k in KIND:
                        # the stage sees everything earlier stages kept, and only that
                        missing = stale(u, x, a, k)
                        if missing:
                            out.append((n, 'arg', 'differ', '%s() works on a %s that ignores %s' % (
                                names[n], k, ', '.join(missing)), x.site))
                        else:
                            out.append((n, 'arg', 'equal', k, site))
            xs = [v for k, v in x.args.items() if k not in KIND]
            ys = [v for k, v in y.args.items() if k not in KIND]
            if len(xs) == len(ys):
                cmp.sink = sink(n, 'arg')
                for i, (u, v) in enumerate(zip(xs, ys)):
                    cmp.value('%s() argument %d' % (names[n], i), u, v, y.pc)
    # order of stages that depend on one another
    ea = effects(a.w, S.TM, names)
    eb = effects(b.w, 'spec.stages', {n: n for n in names})
    pos = {n: lst[0][0] for n, lst in ca.items()}
    seq = [n for n in cb if n in pos and len(cb[n]) == 1 and len(ca[n]) == 1]
    for i, m in enumerate(seq):
        for n in seq[i + 1:]:
            why = conflict(m, n, eb, filters, cb)
            if not why:
                continue
            bad = pos[m] > pos[n]
            out.append(((m, n), 'order', 'differ' if bad else 'equal',
                        '%s() runs after %s() although %s' % (names[m], names[n], why) if bad else '', site))
    # what the rest of the compiler sees
    ra, rb = [x.lift.st.heap[('obj', 'input', 'tresult')].fields for x in (a, b)]
    for f in rb:
        cmp.sink = sink(f, 'result')
        if f in KIND:
            x, y = a.kind_of(ra[f], a.lift.st), b.kind_of(rb[f], b.lift.st)
            if x is None or y is None or x[0] != y[0]:
                if x is not None and y is not None:
                    out.append((f, 'result', 'differ', '%s is set to the %s' % (f, x[0]), site))
                else:
                    out.append((f, 'result', 'undecided', f, site))
                continue
            late = passes(y[1]) - passes(x[1])
            late = {n for n in late if n in ca}
            out.append((f, 'result', 'differ' if late else 'equal',
                        '%s is not the %s left by %s()' % (f, f, ', '.join(sorted(late))) if late else f, site))
            continue
        cmp.value('tresult.%s' % f, ra.get(f), rb[f]) if ra.get(f) is not None else \
            out.append((f, 'result', 'differ', 'tresult.%s is never set' % f, site))
    return out, a, b


def passes(g):
    return {x.args[0][5:] for x in X.walk(g) if x.op == 'sym' and x.args[0].startswith('keep:')}


def stale(u, call, side, kind):
    """earlier filters of the same map, run under the same condition, that the argument has not gone through"""
    got = passes(u)
    out = []
    for c in side.calls:
        if c is call:
            break
        if c.name in side.filters and c.main == kind and c.name not in got and b_and(c.pc, call.pc) is call.pc:
            out.append(c.name)
    return out


def target(n, calls):
    a = calls[n][0][1].args
    return {k for k in a if k in KIND}


def conflict(m, n, eff, filters, calls):
    tm, tn = target(m, calls), target(n, calls)
    (rm, wm, am), (rn, wn, an) = eff[m], eff[n]
    scratch = S.SCRATCH | {'rules', 'eras'}
    if tm & tn:
        x = (wm & rn) - scratch
        if x:
            return 'it computes %s' % ', '.join(sorted(x))
        x = (rm & wn) - scratch
        if x:
            return 'it needs %s unchanged' % ', '.join(sorted(x))
        x = (wm & wn) - scratch
        if x:
            return 'both set %s' % ', '.join(sorted(x))
        if ('rules' in wm | wn or 'eras' in wm | wn) and (m in filters or n in filters) and \
                (('rules' in wm and 'rules' in rn) or ('eras' in wm and 'eras' in rn) or
                 ('rules' in wn and 'rules' in rm) or ('eras' in wn and 'eras' in rm)):
            return 'it changes the records the other works on'
    firsts = [main_map(m), main_map(n)]
    # filters decide what later checks and dependent collections see
    if m in filters and firsts[0] in tn and (an and n not in filters or len(tn) > 1 or n == '_create_policies_to_zones'):
        if n.startswith(('_verify', '_remove_unused', '_remove_zones_without_rules', '_remove_links', '_update_trunc',
                         '_calc', '_generate', '_create_policies_to')):
            return 'it decides which %s remain' % firsts[0][:-4]
    if n in filters and am and firsts[1] in tm and m.startswith('_detect'):
        return 'it must see the whole input'
    return None


def all_stages():
    tree = ast.parse(open(__file__.replace('sa/composition.py', 'spec/stages.py'), encoding='utf-8').read())
    out = []
    for c in tree.body:
        if isinstance(c, ast.ClassDef):
            out += [f.name for f in c.body if isinstance(f, ast.FunctionDef) and f.name.startswith('_') and f.name != '__init__']
        elif isinstance(c, ast.FunctionDef) and c.name in S.FUNCTIONS:
            out.append(c.name)
    return out
