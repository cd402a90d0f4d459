"""Which fields a record carries: produced by the extractor, by the stages in their order, read by the next ones and by what
comes after the transformer."""
from . import terms as X
from . import compare as C
from . import model as M
from . import composition as P
from . import source as SRC
from . import stagecheck as S
from . import world as W
from .engine import MISSING
from .stage import Stage
from .terms import mk, atom, const, TRUE, FALSE, b_and, b_not

RECS = ('rule', 'era', 'policy', 'info')
KIDS = {'policy': ('rules', 'rule'), 'info': ('eras', 'era')}


def lacking(v):
    """condition under which a field is not there"""
    return X.lift(lambda x: TRUE if x is MISSING else FALSE, v)


class Shape:
    """fields every record of a map carries"""

    def __init__(self, w, st, tries):
        self.w, self.st, self.tries = w, st, tries
        self.have = {}          # record kind -> {field: True} common to all records seen
        self.weak = []
        self.seen = {}

    def collection(self, v, kind, g):
        v = self.w.deref(v, self.st)
        for leaf, gl in X.guarded_leaves(v):
            if leaf.op != 'ref':
                self.weak.append(kind)
                continue
            c = self.st.heap.get(leaf.args[0])
            if c is None:
                self.weak.append(kind)
                continue
            self.items(c.items, kind, b_and(g, gl))

    def items(self, items, kind, g):
        for it in items:
            if it[0] == 'one':
                self.record(it[2], kind, b_and(g, it[3]))
            elif it[0] == 'loop':
                self.items(it[4], kind, b_and(g, it[3]))
            else:
                self.weak.append(kind)

    def record(self, v, kind, g):
        v = self.w.deref(v, self.st)
        for leaf, gl in X.guarded_leaves(v):
            g1 = b_and(g, gl)
            if g1 is FALSE:
                continue
            self.seen.setdefault(kind, set()).add(leaf)
            copied = self.copied(leaf)
            for c in copied:
                self.carry(c, kind, g1)
            if copied:
                continue
            if leaf.op != 'ref' or leaf.args[0] not in self.st.heap:
                self.weak.append(kind)
                continue
            c = self.st.heap[leaf.args[0]]
            self.carry(c, kind, g1)

    def copied(self, t):
        """records a selected record was copied from"""
        if t.op != 'extcall' or t.args[0] != '.copy':
            return []
        out = [self.st.heap.get(x.args[0]) for x in X.walk(t) if x.op == 'ref']
        return out if all(c is not None and c.kind == 'dict' and not c.items for c in out) else []

    def poured(self, c):
        """keys of the records whose items were poured into this one: {key: condition}; None when not known"""
        out = {}
        for it in c.items:
            if it[0] != 'loop' or self.w.poured(it) is None:
                return None
            one = it[4][0]
            src, key = self.w.poured(it)
            cells = [self.st.heap.get(x.args[0]) for x in X.walk(src) if x.op == 'ref']
            if not cells or any(k is None or k.kind != 'dict' or k.items for k in cells):
                return None
            for n in set.intersection(*[set(k.fields) for k in cells]):
                g = X.subst(b_and(it[3], one[3]), {key: const(n)}) if isinstance(n, str) else TRUE
                if g not in (TRUE, FALSE):
                    return None
                for k in cells:
                    if isinstance(k.fields[n], X.T):
                        g = b_and(g, b_not(lacking(k.fields[n])))
                if g is not FALSE:
                    out[n] = g
        return out

    def carry(self, c, kind, g1):
        from_others = self.poured(c) if c.kind == 'dict' else None
        if from_others is None:
            self.weak.append(kind)
            return
        mine = {k: g for k, g in from_others.items() if isinstance(k, str)}
        for k, x in c.fields.items():
            if not isinstance(k, str):
                continue
            m = lacking(x) if isinstance(x, X.T) else FALSE
            if m is TRUE:
                mine.pop(k, None)
                continue
            m = X.unname_all(m)
            if m is FALSE or X.free_levels(m) and not possible(b_and(g1, m), self.tries, repair=False):
                mine[k] = TRUE
            else:
                mine[k] = b_not(m)
        old = self.have.get(kind)
        self.have[kind] = mine if old is None else {k: b_and(mine[k], old[k]) for k in mine if k in old}
        if kind in KIDS and KIDS[kind][0] in c.fields:
            self.collection(c.fields[KIDS[kind][0]], KIDS[kind][1], g1)


def parents_first(levels):
    out = []

    def put(lv):
        if lv in out:
            return
        for x in lv.args[1:]:
            if isinstance(x, X.T) and x.op == 'src':
                put(x)
        out.append(lv)
    for lv in sorted(levels, key=lambda x: x.id):
        put(lv)
    return tuple(out)


def possible(g, tries, facts=None, given=TRUE, repair=True):
    g = X.unname_all(g)
    if g is FALSE:
        return False
    if not X.feasible(g, facts or X.Facts(), 300):
        return False
    lv = set(X.free_levels(b_and(g, given)))
    if facts is not None:
        for x in list(facts.lits) + list(facts.bdds):
            lv |= set(X.free_levels(x))
    r, why = M.compare(TRUE, FALSE, b_and(g, given), facts=facts, levels=parents_first(lv), tries=tries, repair=repair)
    return why if r == C.DIFF else False


def extracted(root, tries):
    """fields of the records the extractor builds: (fields, weak)"""
    have, weak = {}, []
    for meth, table, out, pool, kind in (('_process_rules', 'rule_lines', 'policies_map', 'rule_line', 'policy'),
                                         ('_process_zones', 'zone_lines', 'zones_map', 'era_line', 'info')):
        w, st, obj = SRC.start(root)
        m = st and SRC.H.find_function(w, SRC.MOD, 'Extractor.' + meth)
        cell = st and st.heap[obj.args[0]]
        if not m or table not in cell.fields or out not in cell.fields:
            return None
        n = mk('src', 'N', None)
        ln = mk('src', 'N.' + pool, n)
        X.NONEMPTY.add(ln)
        lst = w.newcell(st, 'lines', 'list', (n,), items=(
            ('loop', ln, W.INS, TRUE, (W.one(None, mk('elemval', ln, 'str'), TRUE, None),)),))
        tab = w.newcell(st, 'table', 'dict', (), items=(('loop', n, W.INS, TRUE, (W.one(mk('elemkey', n), lst, TRUE, None),)),))
        fields = dict(cell.fields)
        fields[table] = tab
        st.heap[obj.args[0]] = cell.with_fields(fields)
        a = w.apply(m, [obj], st)
        if a.dead:
            return None
        s = Shape(w, st, tries)
        s.collection(st.heap[obj.args[0]].fields[out], kind, TRUE)
        have.update(s.have)
        weak += s.weak
    if weak or not all(k in have for k in RECS):
        return None
    return have


class Read:
    """a field that is read although it may not be there"""

    def __init__(self, key, site, where, why, record):
        self.key, self.site, self.where, self.why, self.record = key, site, where, why, record


def reads(events, where, tries, given=TRUE):
    """(reads of what may not be there, number of reads found possible only when it is)"""
    out = []
    fine = 0
    for e in events:
        if e.kind != 'missing':
            continue
        kind, obj, key, g = e.data
        k = key.args[1] if isinstance(key, X.T) and key.op == 'const' else key if isinstance(key, str) else None
        why = possible(b_and(e.pc, g), tries, e.facts, given)
        if why:
            out.append(Read(k, e.site, where, why, obj))
        else:
            fine += 1
    return out, fine


class Chain:
    """transform() with every stage reduced to the fields its records carry afterwards"""

    def __init__(self, root, scope, names, start, tries):
        self.root, self.scope, self.tries = root, scope, tries
        self.missing, self.fine, self.stages, self.unknown, self.defs = [], 0, [], [], {}
        self.w = w = Stage(root, scope)
        S.hook_comments(w)
        S.hook_helpers(w)
        w.module(S.TM)
        st = w.fresh()
        self.refs = w.full(st, start)
        self.obj = w.make(S.TM, 'Transformer', st, self.refs)
        for ref, name in names.items():
            w.hooks[('transformer', name if ref in S.FUNCTIONS else 'Transformer.' + name)] = self.stage(ref, name)
        env = w.module('acetimetools.datatypes.attyping')
        cv = env.get('TransformerResult')
        f = {k: self.refs[k] for k in P.KIND}
        self.given = {n for n, _, _ in w.classes[cv.args[0]].annots}
        for n in self.given:
            if n not in f:
                f[n] = mk('sym', 'tresult.' + n, None)
        cid = ('obj', 'input', 'tresult')
        w.owner[cid] = ()
        st.heap[cid] = W.Cell('obj', f, (), w.classes[cv.args[0]])
        self.before = dict(f)
        fv = w.func(S.TM, 'Transformer.transform')
        self.fn = w.fns[fv.args[0]]
        self.lift = a = w.apply(fv, [self.obj, mk('ref', cid, ())], st)
        bad, n = reads([e for e in a.events if e.site[2].split('.')[-1] not in names.values()], 'transform()', tries)
        if not self.unknown:
            self.missing += bad
            self.fine += n
        self.after = a.st.heap[cid].fields
        self.fields = self.now(a.st)

    def now(self, st):
        out = {}
        for r in RECS:
            c = st.heap[self.refs[r].args[0]]
            out[r] = {}
            for k, v in c.fields.items():
                if not isinstance(k, str):
                    continue
                m = lacking(v) if isinstance(v, X.T) else FALSE
                if m is not TRUE:
                    out[r][k] = b_not(m)
        return out

    def define(self, a, seen):
        """text columns that are a function of other columns, or of what they were before"""
        for r in ('rule', 'era'):
            fields = a.st.heap[a.refs[r].args[0]].fields
            new = {}
            for k, v in fields.items():
                if not isinstance(v, X.T) or v.op == 'sym' and v.args[0] == '%s.%s' % (r, k):
                    continue
                leaves = {x for x in X.walk(v) if x.op == 'sym'}
                if not any(x.args[0] == '%s.%s?' % (r, k) for x in leaves):
                    new[k] = v, leaves
            changed = {'%s.%s' % (r, k) for k in new}
            self.defs = {d: t for d, t in self.defs.items()
                         if '%s.%s' % d in changed or not any(x.op == 'sym' and x.args[0] in changed for x in X.walk(t[0]))}
            for k, (v, leaves) in new.items():
                own = '%s.%s' % (r, k)
                before = self.defs.pop((r, k), None)
                parts = list(X.walk(v))
                if X.typ(v) != 'str' or lacking(v) is not FALSE or not leaves or len(parts) > 60 or any(x.op in ('src', 'edge', 'pick', 'elemkey') for x in parts):
                    continue
                names = {x.args[0] for x in leaves}
                if names == {own}:
                    was = mk('sym', '%s.before.%s' % (r, k), 'str')
                    X.SYM_LEVELS[was.args[0]] = W.RECORDS[r][1]
                    self.defs[(r, k)] = (X.subst(v, {x: before[0] if before else was for x in leaves}), before[1] if before else TRUE)
                elif not names & changed and all(n.startswith(r + '.') for n in names):
                    self.defs[(r, k)] = (v, b_not(X.unname_all(a.lift.aborts)))
            if seen.get(r, set()) - {a.refs[r]}:
                # other records than those that came in
                self.defs = {d: t for d, t in self.defs.items() if d[0] != r}

    def stage(self, ref, name):
        def go(eng, f, args, kw, st, node):
            F = self.now(st)
            main = P.main_map(ref)
            a = S.lift_stage(ref, self.scope, self.root, name, F, st.facts.assume(st.pc) if st.pc is not TRUE else None)
            bad, n = reads(a.lift.events, name + '()', self.tries)
            if not self.unknown:
                self.missing += bad
                self.fine += n
            self.stages.append((ref, name, {r: len(F[r]) for r in F}))
            if ref in P.LEAVES:
                t = mk('app', 'stage.' + ref)
                return mk('tuple', t, t) if ref in ('_calc_accurate_years', '_detect_tzdb_years') else t
            if a.lift.dead:
                return eng.deref(self.refs[main], st)
            ret = eng.deref(a.lift.value, a.st) if isinstance(a.lift.value, X.T) else None
            new, seen = {}, {}
            for kind, m in (('info', 'zones_map'), ('policy', 'policies_map')):
                s = Shape(a.w, a.st, self.tries)
                v = a.lift.value if m == main and ret is not None and ret.op in ('ref', 'ite') and ref not in S.FUNCTIONS else a.refs[m]
                s.collection(v, kind, TRUE)
                seen.update(s.seen)
                if s.weak:
                    self.unknown.append((name, m))
                    for r in (kind, KIDS[kind][1]):
                        new[r] = None
                else:
                    new.update({r: s.have.get(r) for r in (kind, KIDS[kind][1])})
            self.define(a, seen)
            for r, have in new.items():
                c = st.heap[self.refs[r].args[0]]
                fs = dict(c.fields)
                if have is None:
                    continue
                for k in list(fs):
                    if isinstance(k, str) and k not in have and st.pc is TRUE:
                        del fs[k]
                for k, g in have.items():
                    old = fs.get(k, MISSING)
                    v = mk('sym', '%s.%s' % (r, k), None) if old is MISSING or lacking(old) is not FALSE else old
                    v = X.ite(g, v, MISSING) if g is not TRUE else v
                    fs[k] = v if st.pc is TRUE else X.ite(st.pc, v, old)
                st.heap[self.refs[r].args[0]] = c.with_fields(fs)
            if ref == '_create_policies_to_zones':
                return mk('app', 'stage.' + ref)
            return self.refs[main]
        return go


FILLER = 'filler.'


def filler(w, st, name, ann):
    """stands for the value a table of the shared result had before anything produced it"""
    if ann in ('int', 'str'):
        return mk('sym', FILLER + name, ann)
    if ann == 'bool':
        return atom(mk('truthy', mk('sym', FILLER + name, 'bool')))
    lv = mk('src', FILLER + name, None)
    X.SYM_LEVELS[FILLER + name] = (lv,)
    return w.newcell(st, FILLER + name, 'dict', (), items=(
        ('loop', lv, W.INS, TRUE, (W.one(mk('elemkey', lv), mk('sym', FILLER + name, None), TRUE, None),)),))


def fillers(w, *terms):
    """names of the fillers in a term"""
    out = set()
    for t in terms:
        for x in X.walk(t):
            if x.op in ('sym', 'src') and isinstance(x.args[0], str) and x.args[0].startswith(FILLER):
                out.add(x.args[0][len(FILLER):])
    return out


def cut(chain):
    """what the rest of the program finds after transform()"""
    kept = {r: set(chain.fields[r]) for r in RECS}
    kept['tresult'] = {n for n in chain.given if chain.after.get(n) is not chain.before.get(n) or n in P.KIND}

    def conditions(w, st, tres, refs, run):
        given = {}
        for d, heap, pc, site, at, stack in run.built.get('Transformer', [])[-1:]:
            given = d
        facts = X.Facts()
        for n, v in given.items():
            a = mk('truthy', mk('sym', n, 'bool'))
            if v is TRUE or v.op == 'const' and v.args[1] is True:
                facts = facts.assume(atom(a)) or facts
            elif v is FALSE or v.op == 'const' and v.args[1] is False:
                facts = facts.assume(b_not(atom(a))) or facts
        was = {mk('sym', '%s.%s' % d, 'str'): t[0] for d, t in chain.defs.items()
               if any(x.op == 'sym' and x.args[0].startswith(d[0] + '.before.') for x in X.walk(t[0]))}
        for r in RECS:
            c = st.heap[refs[r].args[0]]
            fs = dict(c.fields)
            for k, g in chain.fields[r].items():
                if k not in fs:
                    fs[k] = mk('sym', '%s.%s' % (r, k), None)
                    X.SYM_LEVELS['%s.%s' % (r, k)] = W.RECORDS[r][1]
                if (r, k) in chain.defs:
                    fs[k] = X.subst(chain.defs[(r, k)][0], was)
                g = facts.restrict(g)
                if g is FALSE:
                    del fs[k]
                elif g is not TRUE:
                    fs[k] = X.ite(g, fs[k], MISSING)
            st.heap[refs[r].args[0]] = c.with_fields(fs)
        for n, a in w.annotations('TransformerResult').items():
            if n not in kept['tresult']:
                w.put_field(tres, n, filler(w, st, n, a), st)

    def make(run):
        out = dict(kept)
        out['conditions'] = lambda w, st, tres, refs: conditions(w, st, tres, refs, run)
        return out
    return make


# tables only the transformer of a language fills, and the sizes that can be left out
TABLES = {'letters_map': ('arduino', 'c'), 'formats_map': ('arduino', 'c'), 'fragments_map': ('arduino', 'c'),
          'compressed_names': ('arduino', 'c'), 'memory_map8': ('arduino', 'c'), 'memory_map32': ('arduino', 'c')}
ESTIMATED = ('buf_sizes', 'max_buf_size', 'estimator_min_year', 'estimator_max_year')
LANGUAGES = ('python', 'arduino', 'c', 'go')


def needed(table, lang):
    """the table has to be there when the database of one language is generated"""
    if table.startswith('go_'):
        return lang == 'go'
    return table not in TABLES or lang in TABLES[table]


def produced(res, ctx, scopes, tries):
    rule = 'fields are produced before they are read'
    try:
        start = extracted(ctx.root, tries)
    except Exception as e:
        start = None
    if start is None:
        res.add(rule, C.UND, 'records of the extractor', None, 'not lifted')
        return
    for scope in scopes:
        try:
            chain = Chain(ctx.root, scope, ctx.names(), start, tries)
        except Exception as e:
            if ctx.tier == 'debug':
                raise
            res.add(rule, C.UND, scope, None, 'transform() not lifted: %r' % e)
            continue
        bad = {}
        for m in chain.missing:
            if m.key is not None:
                bad.setdefault(m.where, m)
        site = (chain.fn.module, chain.fn.name, chain.fn.node.lineno)
        for ref, name, n in chain.stages:
            m = bad.pop(name + '()', None)
            res.add(rule, C.DIFF if m else C.EQ, '%s: %s()' % (scope, name), m.site if m else site,
                    'reads %s: %s' % (m.key, m.why) if m else None)
            res.saw('stages', '%s: %s' % (scope, name))
        for m in bad.values():
            res.add(rule, C.DIFF, '%s: %s' % (scope, m.where), m.site, 'reads %s: %s' % (m.key, m.why))
        if chain.unknown:
            res.add(rule, C.UND, '%s: what %s leaves' % (scope, ', '.join(sorted({n for n, _ in chain.unknown}))), site, 'not understood')
            continue
        measured(res, rule, ctx, scope, chain, tries)
        make = cut(chain)
        given = TRUE
        for v, g in chain.defs.values():
            given = b_and(given, g)
        for lang in LANGUAGES + ('all',):
            from . import outputs as O
            from .results import Vanished
            kw = dict(languages=lang, skip_bufestimator=False) if lang != 'all' else {}
            try:
                r = O.Run(ctx.root, scope, fields=make, **kw)
            except Vanished:
                raise
            except Exception as e:
                if ctx.tier == 'debug':
                    raise
                res.add(rule, C.UND, '%s, %s' % (scope, lang), None, 'not lifted: %r' % e)
                continue
            bad, fine = reads(r.events, 'run', tries, given)
            for m in bad:
                res.add(rule, C.DIFF, '%s, %s: %s' % (scope, lang, m.site[2]), m.site,
                        '%s: %s' % ('reads ' + m.key if m.key else 'lookup fails', m.why))
            if not bad:
                res.add(rule, C.EQ, '%s, %s: every function' % (scope, lang), site, None)
            res.saw('functions', *['%s.%s' % f if isinstance(f, tuple) else str(f) for f in r.w.stats['functions']])
            if lang == 'all':
                continue
            names = {e.data[0]: O.path_name(e.data[1]) for e in r.events if e.kind == 'open'}
            stand = {}
            for e in r.events:
                if e.kind not in ('open', 'write', 'json'):
                    continue
                fs = left(r.w, e)
                fs = {f for f in fs if needed(f, lang) and not (f in ESTIMATED and 'skip_bufestimator' not in kw)}
                k = names.get(e.data[0]) or 'file'
                old = stand.get(k)
                stand[k] = ((old[0] if old else set()) | fs, e.site)
            for k, (fs, at) in sorted(stand.items()):
                res.add('no table is written before it is produced', C.DIFF if fs else C.EQ, '%s, %s: %s' % (scope, lang, k), at,
                        ', '.join(sorted(fs)) if fs else None)


def measured(res, rule, ctx, scope, chain, tries):
    """fields read for the estimation of the buffer sizes"""
    from . import estimates as E
    w = Stage(ctx.root, scope)
    what = '%s: ZoneInfoInliner.generate_zonedb()' % scope
    try:
        env = w.module(E.INLINER)
        cv = env.get('ZoneInfoInliner')
        f = cv is not None and cv.op == 'class' and w.clsattr(w.classes[cv.args[0]], 'generate_zonedb')
        if not f:
            res.add(rule, C.UND, what, None, 'renamed or removed')
            return
        refs = w.full(w.base, chain.fields)
        X.CLOSED.clear()
        X.CLOSED[mk('sym', 'era.policy_name', 'str')] = W.P
        st = w.fresh()
        obj = w.make(E.INLINER, 'ZoneInfoInliner', st, refs)
        n0 = len(w.events)
        w.apply(f, [obj], st)
    except Exception as e:
        res.add(rule, C.UND, what, None, 'not lifted: %r' % e)
        return
    finally:
        X.CLOSED.clear()
    fn = w.fns[f.args[0]]
    bad, _ = reads([e for e in w.events[n0:]], what, tries)
    bad = [m for m in bad if m.key is not None]
    res.add(rule, C.DIFF if bad else C.EQ, what, bad[0].site if bad else (fn.module, fn.name, fn.node.lineno),
            'reads %s: %s' % (bad[0].key, bad[0].why) if bad else None)


def left(w, e):
    """fillers in what is written"""
    out = fillers(w, e.pc, *[x for x in e.data if isinstance(x, X.T)])
    if e.kind != 'json':
        return out
    seen = set()
    heap = e.data[3]

    def go(t):
        out.update(fillers(w, t))
        for x in X.walk(t):
            if x.op == 'ref' and x.args[0] not in seen and x.args[0] in heap:
                seen.add(x.args[0])
                c = heap[x.args[0]]
                for v in c.fields.values():
                    if isinstance(v, X.T):
                        go(v)
                its(c.items)

    def its(items):
        for it in items:
            for x in it[1:]:
                if isinstance(x, X.T):
                    go(x)
                elif isinstance(x, tuple):
                    its([y for y in x if isinstance(y, tuple)])
    go(e.data[1])
    return out
