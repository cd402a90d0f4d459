"""What may differ between two runs on the same input: hash order, directory order, the clock, the environment, object identity,
what is already on disk. None of it may reach what is written or handed on."""
from . import terms as X
from . import compare as C
from . import model as M
from . import outputs as O
from . import world as W
from .engine import Broken
from .stage import Stage
from .terms import mk, TRUE

ENV = ('time.', 'random.', 'uuid.', 'secrets.', 'os.environ', 'os.getenv', 'os.getpid', 'os.getppid', 'os.getlogin', 'os.stat',
       'os.uname', 'os.getcwd', 'os.urandom', 'os.cpu_count', 'os.name', 'os.path.getmtime', 'os.path.getsize', 'os.path.abspath',
       'os.path.realpath', 'os.path.expanduser', 'os.path.expandvars', 'locale.', 'platform.', 'socket.', 'getpass.',
       'tempfile.', 'sys.version', 'sys.platform', 'sys.hexversion', 'sys.flags', 'sys.maxsize', 'sys.executable', 'sys.hash_info',
       'pathlib.Path.cwd', 'pathlib.Path.home',
       'datetime.datetime.now', 'datetime.datetime.today', 'datetime.datetime.utcnow', 'datetime.date.today')
DISK = ('os.path.exists', 'os.path.isfile', 'os.path.isdir', 'os.listdir', 'os.scandir', 'os.walk', 'glob.')
# values that do not depend on the order of what they are taken from
FREE = {'min', 'max', 'len', 'countof', 'set', 'frozenset', 'uniqset', 'any', 'all'}


class Scan:
    def __init__(self, w, heap):
        self.w, self.heap = w, heap
        self.memo = {}
        self.cells = set()

    def term(self, t, free=False):
        """what makes t irreproducible, or None"""
        k = (t.id, free)
        if k in self.memo:
            return self.memo[k]
        self.memo[k] = None
        r = self.memo[k] = self.term1(t, free)
        return r

    def term1(self, t, free):
        op = t.op
        if op == 'order':
            if t.args[0] == 'hash':
                return None if free else 'order of a set'
            if t.args[0] == 'fs':
                return None if free else 'order of a directory'
            if t in self.w.ties and not free:
                return 'order of a set among equal sort keys'
        elif op == 'extcall' or op == 'ext':
            n = str(t.args[0])
            if n.startswith(ENV):
                return n
        elif op == 'app':
            n = str(t.args[0])
            if n == 'nondet':
                return X.show(t.args[1], 2).strip("'") + '()'
            if n.startswith(ENV):
                return n
            if n.startswith(DISK) and written_place(t):
                return n + '() of the output'
            if n in FREE:
                free = True
        elif op == 'fmt' and t in self.w.texts:
            return 'text form of ' + self.w.texts[t]
        elif op == 'ref':
            return self.cell(t.args[0]) or self.children(t, free)
        elif op == 'foreach':
            # the elements of a sorted loop come in the order of their keys
            lv, g, body, order = t.args[0], t.args[1], t.args[2], t.args[3]
            fixed = order.op == 'order' and order.args[0] == 'sorted'
            for x in lv:
                r = self.term(x, free or fixed)
                if r:
                    return r
            return self.term(g, free) or self.term(body, free) or self.term(order, free)
        elif op in ('sum', 'exists'):
            return self.term(t.args[0], True) or next((r for r in (self.term(x, free) for x in t.args[1:] if isinstance(x, X.T)) if r), None)
        return self.children(t, free)

    def children(self, t, free):
        for x in X._children(t):
            r = self.term(x, free)
            if r:
                return r
        return None

    def cell(self, cid):
        if cid in self.cells:
            return None
        self.cells.add(cid)
        c = self.heap.get(cid)
        if c is None:
            return None
        for k, v in c.fields.items():
            if isinstance(v, X.T):
                r = self.term(v)
                if r:
                    return '%s (%s)' % (r, k) if isinstance(k, str) and '(' not in r else r
        return self.items(c.items, c.kind == 'set')

    def items(self, its, free):
        for it in its:
            if it[0] == 'one':
                r = next((r for r in (self.term(x, False) for x in it[1:4] if isinstance(x, X.T)) if r), None)
            elif it[0] == 'loop':
                fixed = free or it[2].op == 'order' and it[2].args[0] == 'sorted'
                r = self.term(it[1], fixed) or self.term(it[2], free) or self.term(it[3], False) or self.items(it[4], free)
            else:
                r = None
            if r:
                return r
        return None


def written_place(t):
    return any(x.op == 'sym' and str(x.args[0]).split('.')[-1] in ('output_dir', 'json_file') for x in X.walk(t))


def mode(e):
    m = e.data[2]
    return m.args[1] if m.op == 'const' else None


def run(res, r, scope):
    """the files of one run of the program"""
    w = r.w
    rule = 'what is written depends on the input and the flags only'
    done = {}
    names = {}
    for e in r.events:
        if e.kind == 'open':
            names[e.data[0]] = O.path_name(e.data[1])
    for e in r.events:
        if e.kind not in ('open', 'write', 'json'):
            continue
        what = '%s: %s' % (scope, names.get(e.data[0]) or 'file')
        s = Scan(w, e.data[3] if e.kind == 'json' else {})
        bad = s.term(e.pc)
        for lv in e.ctx or ():
            for x in (lv if isinstance(lv, tuple) else (lv,)):
                if isinstance(x, X.T):
                    bad = bad or s.term(x)
        for x in (e.data[1:3] if e.kind == 'open' else e.data[1:2]):
            bad = bad or s.term(x)
        if bad is not None or (what, e.kind) not in done:
            done[(what, e.kind)] = (bad, e)
        if e.kind == 'open':
            place = written_place(e.data[1])
            m = mode(e)
            if place and m is not None:
                ok = 'w' in m and '+' not in m
                res.add('nothing of an earlier run survives or is read', C.EQ if ok else C.DIFF, what, e.site, 'opened in mode %r' % m)
        if e.kind == 'json':
            serializer(res, w, e, what)
    for (what, kind), (bad, e) in done.items():
        res.add(rule, C.DIFF if bad else C.EQ, '%s (%s)' % (what, {'open': 'name', 'write': 'text', 'json': 'data'}[kind]), e.site, bad)


def serializer(res, w, e, what):
    """sets in the data are listed in a fixed order"""
    rule = 'sets are listed in a fixed order'
    opts = e.data[2]
    fn = None
    for o in opts.args:
        if o.args[0] == 'default':
            fn = o.args[1]
    if fn is None or fn.op not in ('fn', 'bound'):
        return
    lv = mk('src', 'M', None)
    st = w.fresh()
    s = w.newcell(st, 'members', 'set', (), items=(('loop', lv, W.INS, TRUE, (W.one(None, mk('elemval', lv, 'str'), TRUE, None),)),))
    a = w.apply(fn, [s], st)
    if a.dead:
        return
    bad = Scan(w, a.st.heap).term(a.value)
    res.add(rule, C.DIFF if bad else C.EQ, what, e.site, bad)


def lifts(res, log, main, stages, consumer):
    """what functions of the program return and leave behind; `main` are covered by the run as a whole, for a stage of the
    transformer the consumer decides whether the order of its map matters"""
    rule = 'results are handed on in a reproducible order'
    done = {}
    for w, fv, args, a in log:
        f = fv
        obj = None
        if f.op == 'bound':
            obj, f = f.args[1], f.args[0]
        if f.op != 'fn':
            continue
        fn = w.fns[f.args[0]]
        if fn.module.startswith('spec') or '/spec/' in fn.module or a.dead:
            continue
        s = Scan(w, a.st.heap)
        bad = s.term(a.value)
        for x in list(args) + ([obj] if obj is not None else []):
            if bad is None and isinstance(x, X.T):
                bad = s.term(x)
        k = (fn.module, fn.name)
        if k in main:
            continue
        short = fn.name.split('.')[-1]
        if bad and short in stages:
            bad = consumer(stages[short]) and bad
        if bad or k not in done:
            done[k] = (bad, fn.node.lineno)
    for (m, n), (bad, line) in sorted(done.items()):
        res.add(rule, C.DIFF if bad else C.EQ, '%s.%s()' % (m.split('/')[-1].replace('.py', ''), n), (m, n, line), bad)
        res.saw('functions', '%s.%s' % (m, n))


def twice(res, rule, what, site, lift, view):
    """a literal set is looped over: the other order must give the same"""
    a = lift()
    if not a.hashsets:
        return
    W.World.hash_reversed = True
    try:
        b = lift()
    finally:
        W.World.hash_reversed = False
    va, vb = view(a), view(b)
    res.add(rule, C.EQ if va == vb else C.DIFF, what, site, 'order of a literal set')


def reading(res, root):
    """the files are read in a fixed order"""
    from . import source as S
    rule = 'input files are read in a fixed order'
    keep = {}

    def lift():
        w, st, obj = S.start(root)
        m = st and S.H.find_function(w, S.MOD, 'Extractor._parse_zone_files')
        if not m:
            keep['opens'] = None
            return w
        w.hooks[(S.MOD.split('.')[-1], 'Extractor._parse_zone_file')] = lambda eng, f, args, kw, s, node: mk('const', 'none', None)
        a = w.apply(m, [obj], st)
        keep['opens'] = w.opens = [e for e in a.events if e.kind == 'open']
        return w
    w = lift()
    if keep['opens'] is None:
        res.add(rule, C.UND, 'Extractor._parse_zone_files', None, 'renamed or removed')
        return
    for e in keep['opens']:
        s = Scan(w, {})
        bad = s.term(e.data[1]) or s.term(e.pc)
        for x in X_terms(e.ctx):
            bad = bad or s.term(x)
        res.add(rule, C.DIFF if bad else C.EQ, O.path_name(e.data[1]), e.site, bad)
    twice(res, rule, 'Extractor._parse_zone_files()', None, lift, lambda w: [e.data[1] for e in w.opens])


def X_terms(ctx):
    for x in ctx or ():
        if isinstance(x, X.T):
            yield x
        elif isinstance(x, tuple):
            yield from X_terms(x)


def written(r):
    return [(e.kind, e.data[1]) for e in r.events if e.kind == 'write']


def shows(r):
    """something irreproducible is written"""
    class Bad(Exception):
        pass

    class Sink:
        def add(self, rule, status, *a):
            if status == C.DIFF:
                raise Bad()

        def saw(self, *a):
            pass
    try:
        run(Sink(), r, '')
    except Bad:
        return True
    return False
