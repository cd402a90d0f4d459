"""What main() writes: the text of every generated file as a closed form over arbitrary zones, policies and links,
compared piece by piece with the reference output model (spec/outputs.py)."""
import re
from . import terms as X
from . import model as M
from . import world as W
from . import template as T
from .stage import Stage
from .engine import Broken, Cell, one, INS, order_sorted, seq_loop
from .results import Vanished
from .terms import mk, const, TRUE, FALSE, NONE, b_and, b_or, b_not

EQ, DIFF, UND = 'equal', 'differ', 'undecided'
MAIN = 'acetimetools.tzcompiler'
FR = mk('src', 'FR', None)
FRK = mk('elemkey', FR)
X.SYM_LEVELS['fragment.index'] = (FR,)
X.APP_TYPES['compressed'] = 'str'
X.APP_TYPES['gobytes'] = 'str'


def bound(f, args, kw):
    """argument values by parameter name, in order"""
    names = [a.arg for a in f.node.args.args]
    out = dict(zip(names, args))
    out.update(kw)
    return out


class Hooks:
    """functions checked on their own and replaced by the same symbol on both sides"""

    def __init__(self, w):
        self.w = w
        self.hit = set()
        self.pairs = {
            'fragments': [('artransformer', '_generate_fragments'), ('encode', 'keyword_table')],
            'compress': [('artransformer', '_compress_name'), ('encode', 'compress')],
            'gostring': [('byteutils', 'convert_to_go_string'), ('out_go', 'go_string')],
            'sizes': [('bufestimator', 'BufSizeEstimator.transform'), ('estimate', 'estimate')],
        }
        for name, keys in self.pairs.items():
            w.hooks[keys[0]] = self.mark(name)

    def mark(self, name):
        def h(eng, f, args, kw, st, node):
            r = getattr(self, name)(eng, f, args, kw, st, node)
            if r is not None:
                self.hit.add(name)
            return r
        return h

    def second(self):
        """hook the reference where, and only where, the program was hooked"""
        for name, keys in self.pairs.items():
            if name in self.hit:
                self.w.hooks[keys[1]] = self.mark(name)

    def fragments(self, eng, f, args, kw, st, node):
        return eng.newcell(st, 'fragments', 'dict', (), items=(
            ('loop', FR, order_sorted(FRK, FALSE), TRUE, (one(FRK, mk('sym', 'fragment.index', 'int'), TRUE, None),)),))

    def compress(self, eng, f, args, kw, st, node):
        strs = [v for v in bound(f, args, kw).values() if X.typ(v) == 'str']
        if len(strs) != 1:
            return None
        return X.app('compressed', strs[0])

    def sizes(self, eng, f, args, kw, st, node):
        """arbitrary buffer sizes per zone"""
        self.sized.append((eng.chain_pc(st) if hasattr(eng, 'chain_pc') else st.pc, eng.site(node)))
        env = self.w.module('acetimetools.datatypes.attyping')
        cv = env.get('CountAndYear')
        if cv is None:
            return None
        n = mk('nt', cv.args[0], mk('sym', 'buffer.number', 'int'), mk('sym', 'buffer.year', 'int'))
        sizes = eng.newcell(st, 'buffer', 'dict', (), items=(
            ('loop', W.Z, order_sorted(W.ZK, FALSE), TRUE, (one(W.ZK, n, TRUE, None),)),))
        vals = [sizes] + [mk('sym', 'buffer.' + k, 'int') for k in ('largest', 'first', 'last')]
        refs = [v for v in bound(f, args, kw).values() if v is not None]
        if f.name == 'estimate':
            return mk('tuple', *vals)
        t = [v for v in args + list(kw.values()) if v is not None and v.op == 'ref']
        for v in t:
            c = st.heap.get(v.args[0])
            if c is not None and 'zone_ids' in c.fields:
                for k, x in zip(('buf_sizes', 'max_buf_size', 'estimator_min_year', 'estimator_max_year'), vals):
                    eng.setattr(v, k, x, st, node)
                return NONE
        return None

    def gostring(self, eng, f, args, kw, st, node):
        vs = list(bound(f, args, kw).values())
        data = [v for v in vs if X.typ(v) == 'ref' or eng.deref(v, st).op == 'ref']
        size = [v for v in vs if X.typ(v) == 'int']
        if len(data) != 1 or len(size) != 1:
            return None
        return X.app('gobytes', eng.seqval(eng.items_of(data[0], st, node)), size[0])


class File:
    def __init__(self, path, pc, text, site, facts):
        self.path, self.pc, self.text, self.site, self.facts = path, pc, text, site, facts
        self.name = path_name(path)


def path_name(p):
    """last constant component of a path"""
    last = None
    for x in X.walk(p):
        if x.op == 'const' and isinstance(x.args[1], str) and '.' in x.args[1]:
            last = x.args[1]
    return last or X.show(p, 3)


class Run:
    """program and reference lifted from the same arbitrary transformer result"""

    def __init__(self, root, scope, fields=None, **fixed):
        self.root, self.scope = root, scope
        w = self.w = Stage(root, scope)
        w.overrides = dict({'scope': const(scope)}, **{k: const(v) for k, v in fixed.items()})
        w.uniq = True
        try:
            w.cut_transform(fields(self) if fields else W.transform_products(root))
        except FileNotFoundError as e:
            raise Vanished(str(e))
        self.reached = [0, 0]

        def cut(eng, f, args, kw, st, node):
            self.reached[0] += 1
            self.cut_at.append((st.pc, st.facts, eng.site(node), len(w.events)))
            return w.transform_result(eng, f, args, kw, st, node)

        def refcut(eng, f, args, kw, st, node):
            self.reached[1] += 1
            self.ref_at = len(w.events) - len(self.events) - n0
            self.ref_params = (args[1], dict(st.heap))
            return w.transform_result(eng, f, [None, args[0]], kw, st, node)
        self.cut_at = []
        self.built = {}
        for c in ('Extractor', 'Transformer', 'BufSizeEstimator'):
            w.hooks[('class', c)] = self.record(c)

        def parse(eng, f, args, kw, st, node):
            eng.event('work', node, st, ('extract',))
            return NONE
        w.hooks[('extractor', 'Extractor.parse')] = parse
        w.hooks[('transformer', 'Transformer.transform')] = cut
        w.hooks[('outputs', 'transformed')] = refcut
        self.sized = []
        self.hooks = Hooks(w)
        self.hooks.sized = self.sized
        try:
            w.module(MAIN)
        except Broken as e:
            raise Vanished(str(e))
        w.module('spec.outputs')
        n0 = len(w.events)
        self.st = w.fresh()
        w.run(MAIN, 'main', st=self.st)
        if not self.reached[0]:
            raise Vanished('main() no longer calls Transformer.transform()')
        self.n0 = n0
        self.events = w.events[n0:]
        self.options = list(w.options)
        n1 = len(w.events)
        self.hooks.second()
        st2 = w.fresh()
        w.run('spec.outputs', 'main', st=st2)
        self.refheap = st2.heap
        self.refevents = w.events[n1:]
        self.refoptions = w.options[len(self.options):]
        self.files, self.loose = files(self.events)
        self.reffiles, _ = files(self.refevents)

    def record(self, name):
        """keeps the constructor arguments by parameter name"""
        def h(eng, c, args, kw, st, node):
            init = eng.clsattr(c, '__init__')
            if init is not None and init.op == 'fn':
                names = [a.arg for a in eng.fns[init.args[0]].node.args.args][1:]
                self.built.setdefault(name, []).append(
                    (dict(dict(zip(names, args)), **kw), dict(st.heap), st.pc, eng.site(node), len(eng.events), tuple(eng.pcstack)))
            return None
        return h


def files(events):
    """files written, and paths whose content is not a single closed form"""
    opened = {}
    for e in events:
        if e.kind == 'open':
            opened[e.data[0] if isinstance(e.data, tuple) and isinstance(e.data[0], X.T) and e.data[0].op == 'ref' else None] = e
    byref = {}
    for e in events:
        if e.kind == 'write':
            byref.setdefault(e.data[0], []).append(e)
    out, loose = [], []
    for ref, ws in byref.items():
        path = ref_path(ref, events)
        if path is None:
            loose.append((ref, ws))
            continue
        e = ws[0]
        if len(ws) == 1 and not e.ctx:
            out.append(File(path, e.pc, e.data[1], e.site, e.facts))
        elif all(not x.ctx for x in ws):
            pc = b_or(*[x.pc for x in ws])
            text = X.cat(*[X.ite(x.pc, x.data[1], const('')) if x.pc is not pc else x.data[1] for x in ws])
            out.append(File(path, pc, text, e.site, e.facts))
        else:
            loose.append((ref, ws))
    return out, loose


def ref_path(ref, events):
    for e in events:
        if e.kind == 'open' and any(x is ref for x in e.data if isinstance(x, X.T)):
            for x in e.data:
                if isinstance(x, X.T) and x is not ref and (X.typ(x) == 'str' or x.op in ('app', 'cat', 'const')):
                    return x
    return None


# ---------------------------------------------------------------- comparison, computed once per run

LANGS = ('python', 'arduino', 'c', 'go')


class Diff:
    """one compared piece of one file"""
    __slots__ = ('scope', 'lang', 'file', 'status', 'why', 'names', 'line', 'kind', 'site', 'levels', 'texts')

    def __init__(self, **kw):
        for k in self.__slots__:
            setattr(self, k, kw.get(k))


X.SYM_LEVELS['buffer.number'] = (W.Z,)
X.SYM_LEVELS['buffer.year'] = (W.Z,)


class Settled:
    """what the stages guarantee about the columns (the checks on the stages decide that they do)"""

    def __init__(self, run):
        self.cols = {'rule.at_time_suffix': ('w', 's', 'u'),
                     'era.until_time_suffix': ('w',) if run.scope == 'basic' else ('w', 's', 'u'),
                     'era.format': ('CE%sT', 'P%sT', 'EST', 'GMT/BST', '%z', '%s', 'CET', 'E%sT', '-03/-02', 'LMT'),
                     'era.format_short': lambda m, ty, el: m.draw('era.format', 'str', el).replace('%z', '').replace('%s', '%')}

    def __enter__(self):
        M.SETTLED.update(self.cols)

    def __exit__(self, *a):
        M.SETTLED.clear()


class Guard:
    """a text is written only where no stop is reached"""

    def __init__(self, run):
        if not hasattr(run, 'guards'):
            gs = [b_not(x[3]) for x in stops(run.refevents, run.ref_at)]
            gs += [b_not(x[3]) for x in stops(run.events, run.cut_at[0][3] - run.n0)] if run.cut_at else []
            run.guards = [g for i, g in enumerate(gs) if g not in gs[:i]]
        self.gs = run.guards

    def __enter__(self):
        M.GUARD[:] = self.gs

    def __exit__(self, *a):
        M.GUARD[:] = []


def compare_files(run, lang, out, tries=150):
    """pairs the files by path and compares their templates"""
    mine = {}
    for f in run.files:
        mine.setdefault(f.path, []).append(f)
    ref = {}
    for f in run.reffiles:
        ref.setdefault(f.path, []).append(f)
    left_a = [f for p, fs in mine.items() for f in fs[len(ref.get(p, ())):]]
    left_b = [f for p, fs in ref.items() for f in fs[len(mine.get(p, ())):]]
    for p, fs in ref.items():
        for a, b in zip(mine.get(p, ()), fs):
            with Guard(run):
                compare_texts(run, lang, a, b, out, tries)
    return left_a, left_b


def compare_texts(run, lang, a, b, out, tries):
    def report(status, why, x, y, line, levels, kind, about):
        names = set()
        texts = ()
        if status != EQ:
            for t in (x, y):
                if t is not None:
                    names |= T.names_in(t)
            if x is not None and y is not None and x.op == 'const' and y.op == 'const':
                texts = (str(x.args[1]), str(y.args[1]))
                names |= about
        out.append(Diff(scope=run.scope, lang=lang, file=b.name, status=status, why=why, names=names, line=line, kind=kind,
                        site=a.site, levels=levels, texts=texts))
    pc = X.unname_all(b.pc)
    ta, tb = T.normal(a.text), T.normal(b.text)
    T.Align(report, tries).run(ta, tb, pc)


def is_comment(line):
    l = line.strip()
    return l.startswith(('//', '#', '*', '/*')) and not l.startswith(('#include', '#if', '#endif', '#define'))


def shown_names(line):
    out = set()
    for m in re.findall(r'\{([^{}]*)\}', line):
        out |= set(m.split())
    return out


ENCODED = ('arduino', 'c', 'go')


def props_of(d):
    """properties a difference in a generated file speaks about"""
    n = set(d.names)
    ps = set()
    pure = bool(d.texts)
    if pure:
        n |= shown_names(d.line)
    elif d.status == DIFF:
        # a difference in one case of a value speaks about the whole value
        for m in re.findall(r'\{([^{}]*)\}', d.line):
            if n & set(m.split()):
                n |= set(m.split())
    lv = {l.args[0] for l in d.levels or () if l.op == 'src'}
    cols = {x for x in n if x.startswith(('rule.', 'era.'))}
    registry = 'registry' in d.file
    go = d.lang == 'go'
    if pure and is_comment(d.line):
        if re.findall(r'\d+', d.texts[0]) != re.findall(r'\d+', d.texts[1]):
            return {'C16', 'C10'} if go else {'C16'}
        if any('suffix' in c for c in cols):
            return {'C08'}
        return set()
    if cols:
        ps.add('C06')
        if d.lang in ENCODED and any(k in c for c in cols for k in ('seconds', 'delta', 'offset', 'suffix')):
            ps.add('C07')
        if any('suffix' in c for c in cols):
            ps.add('C08')
        if any('year' in c for c in cols) and d.scope != 'complete' and d.lang in ('arduino', 'c'):
            ps.add('C21')
        if 'era.policy_name' in cols:
            ps |= {'C15', 'C04'}
        if go and any('letter' in c or 'format' in c or 'policy' in c for c in cols):
            ps.add('C11')
    if lv & {'R', 'E'} or {'loop:R', 'loop:E'} & n:
        ps.add('C06')
    if n & {'zone.id', 'link.id'}:
        ps |= {'C13', 'C12', 'C15'}
    if n & {'key:Z', 'key:L', 'key:P', 'link.target'}:
        ps.add('C15')
        if 'link.target' in n:
            ps.add('C04')
    if n & {'fn:re.sub', 'fn:str.replace'}:
        ps |= {'C15', 'C13'}
    if n & {'count', 'fn:len'} or any(x.startswith('loop:') for x in n):
        ps.add('C16')
    if any(x.startswith('tresult.') for x in n):
        ps |= {'C20', 'C16'}
    if any(x.startswith('arg.') for x in n):
        ps.add('C22')
    if any(x.startswith('removed_') for x in lv | {m.split(':')[-1] for m in n}):
        ps |= {'C02', 'C16'}
    if any(x.startswith('notable_') for x in lv | {m.split(':')[-1] for m in n}):
        ps |= {'C24', 'C05', 'C16'}
    if n & {'fn:compressed', 'fragment.index', 'key:FR'} or 'FR' in lv:
        ps |= {'C25', 'C16'}
    if any(x.startswith('buffer.') for x in n):
        ps.add('C27')
    if 'fn:gobytes' in n:
        ps |= {'C10', 'C11'}
    if d.kind in ('loop', 'order', 'guard', 'region') and not pure:
        ps |= {'C16', 'C15'}
        if registry:
            ps.add('C12')
        if go:
            ps |= {'C10', 'C11'}
        if d.kind == 'order':
            ps.add('C14')
    if registry and (n & {'key:Z', 'key:L', 'zone.id', 'link.id'} or lv & {'Z', 'L'}):
        ps.add('C12')
    if go and ('count' in n or any(x.startswith('loop:') for x in n)):
        ps |= {'C11', 'C10'}
    if pure:
        ps.add('C15')
        if re.findall(r'\d+', d.texts[0]) != re.findall(r'\d+', d.texts[1]):
            ps.add('C16')
            if go:
                ps |= {'C10', 'C11'}
    return ps or {'C15'}


# properties a file speaks about as a whole, for the evidence of what held
def file_props(lang, name):
    ps = {'C15', 'C16', 'C06', 'C22'}
    if 'registry' in name:
        ps |= {'C12'}
    if lang in ENCODED:
        ps |= {'C07', 'C08'}
    if lang == 'go':
        ps |= {'C10', 'C11'}
    if lang in ('arduino', 'c'):
        ps |= {'C25', 'C27'}
    ps |= {'C20', 'C24', 'C02', 'C14', 'C13', 'C04'}
    return ps


# ---------------------------------------------------------------- stops

def stops(events, after):
    """conditions under which a run stops after the maps were transformed"""
    out = []
    for e in events[after:]:
        if e.kind == 'abort':
            out.append((e, tuple(c[0] for c in e.ctx), chain(e), closed(e)))
    return out


def chain(e):
    g = X.unname_all(e.pc)
    for c in reversed(e.ctx):
        g = b_and(X.unname_all(c[2]), X.unname_all(c[3]), g)
    return g


def closed(e):
    g = X.unname_all(e.pc)
    for c in reversed(e.ctx):
        g = b_and(X.unname_all(c[3]), X.exists(c[0], b_and(X.unname_all(c[2]), g)))
    return g


def counts(t):
    return {x for x in X.walk(t) if x.op in ('sum', 'pos', 'psum') and counting(x)}


def counting(x):
    return x.op == 'sum' or x.op == 'pos' or x.op == 'psum'


def compare_stops(run, lang, out, tries=150):
    a = stops(run.events, run.cut_at[0][3] - run.n0)
    b = stops(run.refevents, run.ref_at)
    alla, allb = b_or(*[x[3] for x in a]), b_or(*[x[3] for x in b])
    for mine, other, total, text in ((a, b, allb, 'stops where the reference writes its files'),
                                     (b, a, alla, 'writes files where the reference stops')):
        have = {x[3] for x in other}
        for e, lvs, g, c in mine:
            here = b_or(*[x[2] for x in other if x[1] == lvs])
            if c in have or X.b_and(c, b_not(total)) is FALSE or not X.feasible(b_and(g, b_not(here)), X.Facts(), 2000):
                r, why = EQ, None
            else:
                r, why = M.compare(FALSE, b_not(total), g, levels=lvs, tries=tries)
                if r == UND:
                    w = M.satisfied(g, [b_not(x[3]) for x in other], lvs)
                    if w:
                        r, why = DIFF, w
                if r == UND:
                    r, why = by_count(c, total)
            if r == DIFF:
                why = '%s: %s' % (text, why.rsplit(':', 1)[0])
            names = T.names_in(g)
            site = e.site if mine is a else None
            out.append(Diff(scope=run.scope, lang=lang, file='stop', status=r, why=why, names=names, line=str(e.data)[:80],
                            kind='stop', site=site or run.cut_at[0][2], levels=lvs, texts=()))


def by_count(c, total):
    """the same sizes as free numbers: a limit that differs is a limit some database meets"""
    cs = sorted(counts(c), key=lambda x: x.id)
    if len(cs) != 1:
        return UND, 'no witness'
    n = mk('sym', 'size', 'int')
    x = X.subst(c, {cs[0]: n})
    y = X.subst(total, {cs[0]: n})
    for rest in X.atoms_of(y):
        if n not in set(X.walk(rest)):
            y = X.restrict_atom(y, rest, False)
    for rest in X.atoms_of(x):
        if n not in set(X.walk(rest)):
            x = X.restrict_atom(x, rest, True)
    g = b_and(x, X.le(const(0), n))
    if g is FALSE:
        return UND, 'no witness'
    return M.compare(FALSE, b_not(y), g, tries=200)


def stop_props(d):
    n = d.names
    ps = set()
    for c in n:
        if c.startswith(('rule.', 'era.')):
            ps.add('C07')
            if 'suffix' in c:
                ps.add('C08')
            if d.lang == 'go':
                ps |= {'C11', 'C10', 'C09'}
    if 'count' in n or any(x.startswith('loop:') for x in n) or 'fn:len' in n:
        ps |= {'C11', 'C07'} if d.lang == 'go' else {'C07', 'C25', 'C16'}
    if any(x.startswith('arg.') for x in n):
        ps.add('C22')
    if any(x.startswith('buffer.') for x in n):
        ps.add('C27')
    if n & {'zone.id', 'link.id'}:
        ps |= {'C09', 'C10', 'C13'}
    return ps or {'C28'}
