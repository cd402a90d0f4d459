"""Properties -> obligations."""
import traceback
from . import terms as X
from . import model as M
from . import compare as C
from . import stagecheck as S
from . import stagemap as SM
from . import composition as P
from . import helpercheck as H
from . import outputs as O
from . import maincheck as MC
from . import shell
from . import estimates as E
from . import notes as N
from . import source as SRC
from . import determinism as D
from . import presence as PR
from . import world as W
from .stage import Stage
import os
from . import results
from .results import Vanished, EQ, DIFF, UND
from .engine import Broken
from .terms import TRUE, FALSE, b_and, b_or, b_not

SCOPES = ('basic', 'extended', 'complete')
BASIC_ONLY = {'_remove_zone_with_non_simple_until_year', '_remove_policies_multiple_transitions_in_month',
              '_remove_policies_with_border_transitions'}
MUTATORS = {'.append', '.insert', '.update', '.pop', '.remove', '.clear', '.extend', '.setdefault', '.add', '.discard',
            '.sort', '.reverse', '.popitem', 'call', '.appendleft', '.write'}


class Ctx:
    def __init__(self, root, tier, seed):
        self.root = root
        self.tier = tier
        self.seed = seed
        self.tries = 400 if tier == 'quick' else 4000
        self.names_ = None
        self.pipe = {}
        self.outs = {}

    # ---- names of the stages in this tree
    def names(self):
        """reference stage -> method of the program (None: no method can be matched)"""
        if self.names_ is not None:
            return self.names_
        w = S.Stage(self.root)
        try:
            env = w.module(S.TM)
        except Broken as e:
            raise Vanished(str(e))
        cv = env.get('Transformer')
        if cv is None or cv.op != 'class':
            raise Vanished('class Transformer')
        cls = w.classes[cv.args[0]]
        if w.clsattr(cls, 'transform') is None:
            raise Vanished('Transformer.transform')
        out = {}
        called = list(dict.fromkeys(S.stage_names(w)))
        lost = []
        for r in P.all_stages():
            have = env.get(r) if r in S.FUNCTIONS else w.clsattr(cls, r)
            if have is not None:
                out[r] = r
            else:
                lost.append(r)
        spare = [c for c in called if c not in out.values() and
                 (w.clsattr(cls, c) is not None or (env.get(c) is not None and env[c].op == 'fn'))]
        for r in lost:
            best = None
            for c in spare:
                isfn = r in S.FUNCTIONS
                if (w.clsattr(cls, c) is None) != isfn:
                    continue
                try:
                    f, _, _ = S.compare_stage(r, 'basic' if r in BASIC_ONLY else 'extended', self.root, name=c)
                except Exception:
                    continue
                bad = sum(x.status != EQ for x in f)
                if any(x.status == EQ and x.kind == 'kept' for x in f) and (best is None or bad < best[0]):
                    best = (bad, c)
            if best is not None:
                out[r] = best[1]
                spare.remove(best[1])
        self.names_ = out
        return out

    def pipeline(self, scope):
        if scope not in self.pipe:
            try:
                self.pipe[scope] = P.compare_pipeline(self.root, scope, self.names())
            except Vanished:
                raise
            except Exception as e:
                self.pipe[scope] = ([('*', 'stage', UND, 'not lifted: %s' % e, None)], None, None)
        return self.pipe[scope]


    def output(self, scope, lang):
        """(run, compared pieces, files without a counterpart) or an exception"""
        k = (scope, lang)
        if k not in self.outs:
            try:
                kw = {} if lang == 'all' else dict(languages=lang, actions='zonedb')
                r = O.Run(self.root, scope, **kw)
                out = []
                tries = 150 if self.tier == 'quick' else 1500
                with O.Settled(r):
                    la, lb = O.compare_files(r, lang, out, tries)
                    O.compare_stops(r, lang, out, tries)
                weak = next(('%s at %s' % (e.kind, e.site) for e in r.events
                             if e.kind == 'opaque-loop' or e.kind == 'opaque' and e.data in MUTATORS), None)
                if weak:
                    for d in out:
                        if d.status == DIFF:
                            d.status, d.why = UND, 'witness set aside: ' + weak
                self.outs[k] = (r, out, la, lb, weak)
            except Exception as e:
                if self.tier == 'debug':
                    raise
                self.outs[k] = e
        return self.outs[k]


    def whole(self, scope):
        """the program as a whole, every action and language"""
        k = (scope, 'run')
        if k not in self.outs:
            try:
                self.outs[k] = O.Run(self.root, scope)
            except Exception as e:
                if self.tier == 'debug':
                    raise
                self.outs[k] = e
        return self.outs[k]

    def collected(self, scope, lang):
        """compared entries of the database of the json action"""
        k = (scope, lang, 'json')
        if k not in self.outs:
            try:
                r = O.Run(self.root, scope, languages=lang, actions='json')
                with O.Settled(r):
                    self.outs[k] = (r, MC.database(r, 100 if self.tier == 'quick' else 1000))
            except Exception as e:
                if self.tier == 'debug':
                    raise
                self.outs[k] = e
        return self.outs[k]


def unreliable(side):
    for e in side.lift.events:
        if e.kind == 'opaque-loop' or e.kind == 'opaque' and e.data in MUTATORS:
            return '%s at line %s' % (e.kind, e.site[1] if e.site else '?')
    return None


def stages(res, ctx, prop):
    """differences between stages and their reference models that concern this property"""
    names = ctx.names()
    for stage in SM.stages_of(prop):
        name = names.get(stage)
        if name is None:
            res.add('stage equals its reference', UND, stage, None, 'no method matches')
            continue
        for scope in SCOPES:
            if stage in BASIC_ONLY and scope != 'basic':
                continue
            one_stage(res, ctx, prop, stage, name, scope)


def one_stage(res, ctx, prop, stage, name, scope):
    rule = 'stage equals its reference'
    try:
        out, a, b = S.compare_stage(stage, scope, ctx.root, name=name)
    except Exception as e:
        res.add(rule, UND, '%s (%s)' % (stage, scope), None, 'not lifted: %r' % e)
        return
    weak = unreliable(a)
    res.saw('functions', *['%s.%s' % f if isinstance(f, tuple) else str(f) for f in a.w.stats['functions']])
    res.saw('stages', stage)
    for f in out:
        if prop not in SM.props_of(stage, f.kind, f.what):
            continue
        status, why = f.status, f.why
        if status == DIFF and weak:
            status, why = UND, 'witness %s set aside: %s' % (why, weak)
        res.add(rule, status, '%s (%s): %s %s' % (name, scope, f.kind, f.what), f.site, why)


def pipeline(res, ctx, prop):
    """calls, their order, their arguments, and the shared result"""
    for scope in SCOPES:
        out, a, b = ctx.pipeline(scope)
        if a is not None:
            res.saw('pipeline calls', *['%s %s' % (scope, c.name) for c in a.calls])
        for what, kind, status, why, site in out:
            names = what if isinstance(what, tuple) else (what,)
            if kind == 'result':
                ps = SM.RESULT.get(what, [])
            elif kind == 'abort':
                ps = ['C21']
            else:
                ps = [p for n in names for _, l in SM.T.get(n, ()) for p in l]
            if what == '*' and kind == 'stage' or prop in ps:
                rule = {'result': 'shared result holds the final values', 'order': 'dependent stages run in order',
                        'arg': 'stage works on the current maps', 'stage': 'stage runs under its condition',
                        'abort': 'tiny years checked first'}[kind]
                res.add(rule, status, '%s: %s' % (scope, why if status != EQ and why else '/'.join(names)), site, why)


def helpers(res, ctx, prop):
    for h in SM.helpers_of(prop):
        try:
            H.helper(res, ctx.root, h, ctx.tries)
        except Broken as e:
            res.add('helper equals its reference', UND, h, None, str(e))


def generic(res, ctx, prop):
    stages(res, ctx, prop)
    helpers(res, ctx, prop)
    pipeline(res, ctx, prop)


# ---------------------------------------------------------------- generated files

LANGS = {'C10': ('go',), 'C11': ('go',), 'C25': ('arduino', 'c'), 'C27': ('arduino', 'c'), 'C07': ('arduino', 'c', 'go'),
         'C21': ('arduino', 'c'), 'C09': ('go',)}


def outputs(res, ctx, prop):
    """the text of every generated file against the reference output"""
    rule = 'generated file equals its reference'
    for scope in SCOPES:
        for lang in LANGS.get(prop, O.LANGS):
            r = ctx.output(scope, lang)
            if isinstance(r, Vanished):
                raise r
            if isinstance(r, Exception):
                res.add(rule, UND, '%s %s' % (scope, lang), None, 'not lifted: %r' % r)
                continue
            run, out, la, lb, weak = r
            res.saw('files', *['%s %s' % (lang, f.name) for f in run.files])
            res.saw('functions', *['%s.%s' % f if isinstance(f, tuple) else str(f) for f in run.w.stats['functions']])
            same = {}
            for d in out:
                what = '%s %s %s' % (scope, lang, d.file)
                if d.kind == 'stop':
                    if prop in O.stop_props(d):
                        res.add('stops exactly where a value does not fit', d.status, '%s: %s' % (what, d.line), d.site, d.why)
                elif d.status == EQ:
                    if prop in O.file_props(lang, d.file):
                        same[d.file] = same.get(d.file, 0) + 1
                elif prop in O.props_of(d):
                    res.add(rule, d.status, '%s: %s' % (what, d.line[:160]), d.site, d.why)
            for f, n in same.items():
                res.add(rule, EQ, '%s %s %s: %d pieces' % (scope, lang, f, n))


# ---------------------------------------------------------------- the run as a whole

def whole(res, ctx, prop):
    """options, refusals, parameters of the stages, files"""
    for scope in SCOPES:
        r = ctx.whole(scope)
        if isinstance(r, Vanished):
            raise r
        if isinstance(r, Exception):
            res.add('run follows the command line', UND, scope, None, 'not lifted: %r' % r)
            continue
        res.saw('functions', *['%s.%s' % f if isinstance(f, tuple) else str(f) for f in r.w.stats['functions']])
        sub = results.Results(prop)
        if prop == 'C22':
            MC.options(sub, r)
            MC.refusals(sub, r, ctx.tries)
            MC.parameters(sub, r, ctx.tries)
        if prop in ('C22', 'C27'):
            MC.estimator(sub, r, ctx.tries)
        if prop in ('C22', 'C28'):
            MC.files(sub, r, ctx.tries, prop)
        weak = next(('%s at %s' % (e.kind, e.site) for e in r.events
                     if e.kind == 'opaque-loop' or e.kind == 'opaque' and e.data in MUTATORS), None)
        for rule, status, subject, site, why in sub.items:
            if weak and status == DIFF and rule not in ('option has its documented flags, type and default',
                                                        'opened to be rewritten in full', 'written in UTF-8'):
                status, why = UND, 'witness %s set aside: %s' % (why, weak)
            res.add(rule, status, '%s: %s' % (scope, subject), site, why)


DBLANGS = {'C11': ('go',), 'C25': ('arduino',), 'C27': ('arduino',), 'C16': ('arduino', 'go'), 'C06': ('c', 'go'),
           'C22': ('python', 'arduino')}


def database(res, ctx, prop):
    """entries of the collected database against the reference"""
    rule = 'entry of the database equals its reference'
    for scope in SCOPES:
        for lang in DBLANGS.get(prop, ('python',)):
            r = ctx.collected(scope, lang)
            if isinstance(r, Vanished):
                raise r
            if isinstance(r, Exception):
                res.add(rule, UND, '%s %s' % (scope, lang), None, 'not lifted: %r' % r)
                continue
            for path, status, why, site in r[1]:
                if prop in MC.entry_props(path):
                    res.add(rule, status, '%s %s: %s' % (scope, lang, path), site, why)


def buffers(res, ctx, prop):
    """estimation of the buffer sizes and the database it measures"""
    for f in (E.estimates, E.inliner):
        try:
            f(res, ctx.root, ctx.tries)
        except Exception as e:
            if ctx.tier == 'debug':
                raise
            res.add('every zone measured over all requested years', UND, f.__name__, None, 'not lifted: %r' % e)
    res.saw('functions', E.MOD + '.BufSizeEstimator.transform', E.INLINER + '.ZoneInfoInliner.generate_zonedb')


def notes(res, ctx, prop):
    """notes a zone shows, and the policies counted as its own"""
    rule = 'a zone shows its notes and those of the policies it uses'
    try:
        N.merged(res, ctx.root, ctx.tries)
    except Exception as e:
        if ctx.tier == 'debug':
            raise
        res.add(rule, UND, 'Commenter.transform', None, 'not lifted: %r' % e)
    res.saw('functions', N.MOD + '.Commenter.transform')


def source(res, ctx, prop):
    """from the lines of the TZ files to the records"""
    for rule, mod, name, sm, sn, types, cond, watch in SRC.FUNCS:
        try:
            H.compare_function(res, ctx.root, rule, mod, name, sm, sn, types, cond, hooks=SRC.lines, tries=ctx.tries, watch=watch)
        except Exception as e:
            if ctx.tier == 'debug':
                raise
            res.add(rule, UND, name, None, 'not lifted: %r' % e)
    SRC.read(res, ctx.root, ctx.tries)
    for name, sh, why in scripts(ctx):
        rule = 'the wrapper scripts keep the files the compiler reads'
        if sh is None or not sh.kept:
            res.add(rule, UND, name, None, why or 'no list of files')
            continue
        res.saw('scripts', name)
        for kept, line in sh.kept:
            for f in SRC.FILES:
                res.add(rule, EQ if f in kept else DIFF, '%s: %s' % (name, f), (name, '', line), 'deleted from the copy')


class Aside:
    """results of an analysis that runs for its lifted functions only"""
    prop = ''

    def add(self, *a, **k):
        pass

    ok = saw = add


def all_lifts(ctx):
    """every lifted call of a function of the program"""
    log = Stage.log = []
    aside = Aside()
    try:
        names = ctx.names()
        for stage, name in sorted(names.items()):
            for scope in SCOPES:
                if stage in BASIC_ONLY and scope != 'basic':
                    continue
                try:
                    S.lift_stage(stage, scope, ctx.root, name=name)
                except Exception:
                    pass
        jobs = [lambda h=h: H.helper(aside, ctx.root, h, 1) for h in H.TABLE]
        jobs += [lambda f=f: f(aside, ctx.root, 1) for f in (E.estimates, E.inliner, N.merged)]
        jobs += [lambda a=a: H.compare_function(aside, ctx.root, *a[:7], tries=1, watch=a[7]) for t in FUNCS.values() for a in t]
        for j in jobs:
            try:
                j()
            except Exception:
                pass
    finally:
        Stage.log = None
    return log


def reproducible(res, ctx, prop):
    """nothing that differs between two runs reaches the output"""
    runs = []
    for scope in SCOPES:
        r = ctx.whole(scope)
        if isinstance(r, Vanished):
            raise r
        if isinstance(r, Exception):
            res.add('what is written depends on the input and the flags only', UND, scope, None, 'not lifted: %r' % r)
            continue
        res.saw('functions', *['%s.%s' % f if isinstance(f, tuple) else str(f) for f in r.w.stats['functions']])
        runs.append(r)
        D.run(res, r, scope)
        if r.w.hashsets:
            def again(scope=scope):
                o = O.Run(ctx.root, scope)
                o.hashsets = o.w.hashsets
                return o
            D.twice(res, 'what is written depends on the input and the flags only', scope + ': all files', None, again, D.written)
    D.reading(res, ctx.root)
    if len(runs) < len(SCOPES):
        # what the files show of a result is not known
        return
    main = {f for r in runs for f in r.w.stats['functions'] if (f[0].split('.')[-1], f[1]) not in r.w.hooks}
    stages = {name: P.main_map(stage) for stage, name in ctx.names().items()}
    memo = {}

    def consumer(m):
        """does what is written show the order of this map?"""
        if m not in memo:
            W.World.unordered = frozenset([m])
            try:
                memo[m] = D.shows(O.Run(ctx.root, 'extended'))
            except Exception:
                memo[m] = False
            finally:
                W.World.unordered = frozenset()
        return memo[m]
    D.lifts(res, all_lifts(ctx), main, stages, consumer)


def presence(res, ctx, prop):
    """fields and tables are there when they are read"""
    PR.produced(res, ctx, SCOPES, 100 if ctx.tier == 'quick' else 1000)


SCRIPTS = ('tzcompiler.sh', 'copytz.sh')


def scripts(ctx):
    for name in SCRIPTS:
        path = os.path.join(os.path.dirname(os.path.abspath(ctx.root)), name)
        try:
            yield name, shell.analyse(path, name), None
        except OSError:
            yield name, None, 'no such script'
        except Exception as e:
            yield name, None, 'not parsed: %s' % e


def deletions(res, ctx, prop):
    rule = 'script deletes only what did not exist before it'
    for name, s, why in scripts(ctx):
        if s is None:
            res.add(rule, UND, name, None, why)
            continue
        for target, ok, line, why in s.deletes:
            res.add(rule, {True: EQ, False: DIFF, None: UND}[ok], '%s: deletion of %s' % (name, target),
                    (name, '', line), why)
        res.saw('scripts', name)


# ---------------------------------------------------------------- C02 without a reference model

def now(pres):
    """without what earlier stages had recorded"""
    return {k: g for k, g in pres.items() if not (k[0] and k[0][0].args[0].startswith('earlier:'))}


def reasons(res, ctx, prop):
    """per stage: what leaves the map has a reason under its own name, what stays has none"""
    names = ctx.names()
    filters = P.spec_filters(ctx.root)
    for stage in sorted(filters):
        name = names.get(stage)
        if name is None:
            continue
        for scope in SCOPES:
            if stage in BASIC_ONLY and scope != 'basic':
                continue
            rule = 'excluded exactly when a reason is recorded'
            try:
                a = S.Side(scope, ctx.root, S.TM, 'Transformer', name)
            except Exception as e:
                res.add(rule, UND, '%s (%s)' % (stage, scope), None, 'not lifted: %r' % e)
                continue
            res.saw('filters', stage)
            kg = S.kept_guard(a)
            lv = P.KIND[P.main_map(stage)]
            site = (a.fn.module, a.fn.name, a.fn.node.lineno)
            if a.lift.dead or kg is None or lv not in kg:
                res.add(rule, UND, '%s (%s)' % (name, scope), site, 'result has another shape')
                continue
            m = {'zones_map': 'all_removed_zones', 'policies_map': 'all_removed_policies',
                 'links_map': 'all_removed_links'}[P.main_map(stage)]
            items = C.flat(a.comments(m))
            pres = now(C.presence(items))
            key = X.mk('elemkey', lv)
            g = pres.pop(((lv,), key), FALSE)
            ok = b_not(X.unname_all(a.lift.aborts))
            weak = unreliable(a)
            r, why = M.compare(b_not(X.unname_all(kg[lv])), g, ok, levels=(lv,), tries=ctx.tries)
            if r == DIFF and weak:
                r = UND
            res.add(rule, r, '%s() (%s): %s' % (name, scope, m), site, why and why.replace('instead of', 'excluded, reason recorded:'))
            for k, other in pres.items():
                r, why = M.compare(FALSE, other, ok, levels=k[0], tries=ctx.tries)
                res.add('reason recorded under the name of the item', r if r != DIFF or not weak else UND,
                        '%s() (%s): reason under %s' % (name, scope, X.show(k[1], 3)), site, why)
            for o in set(S.MAPS[:3]) - {m}:
                extra = now(C.presence(C.flat(a.comments(o) or ())))
                for k, other in extra.items():
                    r, why = M.compare(FALSE, other, ok, levels=k[0], tries=ctx.tries)
                    res.add('reason recorded for the right kind of item', r if r != DIFF or not weak else UND,
                            '%s() (%s): reason in %s' % (name, scope, o), site, why)
            for levels, orders, gd, k, v in items:
                for l in X.leaves(v):
                    res.add('reason is not empty', DIFF if l.op == 'const' and not l.args[1] else EQ,
                            '%s() (%s)' % (name, scope), site, 'empty reason')


# ---------------------------------------------------------------- single functions against their reference

BYTES = 'acetimetools.generator.byteutils'
AR = 'acetimetools.transformer.artransformer'
ARGEN = 'acetimetools.generator.argenerator'
FUNCS = {
    'C09': [('writer equals its reference', BYTES, 'write_' + k, 'binary', k, [H.byte_list, 'int'], None, 'untouched on failure')
            for k in ('u8', 'i8', 'u16', 'i16', 'u32', 'i32')],
    'C10': [('bytes printed as written', BYTES, 'hex_encode', 'binary', 'hexed', [H.byte_list], None, None),
            ('bytes printed as written', BYTES, 'convert_to_go_string', 'binary', 'go_literal', [H.byte_list, 'int', 'str'],
             lambda a: [X.le(X.const(1), a[1])], None)],
    'C25': [('keyword table equals its reference', AR, '_generate_fragments', 'encode', 'keyword_table',
             [H.zones_map, H.links_map], None, None),
            ('compression replaces components by their keyword', AR, '_compress_name', 'encode', 'compress',
             ['str', H.index_table], None, None),
            ('literal denotes the bytes of the name', ARGEN, 'compressed_name_to_c_string', 'encode', 'c_string', ['str'],
             None, None)],
}


def functions(res, ctx, prop):
    for rule, mod, name, sm, sn, types, cond, watch in FUNCS[prop]:
        try:
            H.compare_function(res, ctx.root, rule, mod, name, sm, sn, types, cond, tries=ctx.tries, watch=watch)
        except Broken as e:
            res.add(rule, UND, name, None, str(e))


PROPS = {}


def claim(pid, *fns):
    PROPS[pid] = list(fns)


for _p in ('C17', 'C18', 'C19', 'C26'):
    claim(_p, generic)
for _p in ('C03', 'C05'):
    claim(_p, generic, database)
for _p in ('C07', 'C08', 'C21'):
    claim(_p, generic, outputs)
for _p in ('C04', 'C13', 'C20'):
    claim(_p, generic, outputs, database)
claim('C02', reasons, generic, outputs, database)
for _p in ('C06', 'C11', 'C15', 'C16'):
    claim(_p, outputs, database)
claim('C12', outputs)
for _p in ('C09', 'C10'):
    claim(_p, functions, outputs)
claim('C25', functions, outputs, database)
claim('C22', whole, outputs, database)
claim('C27', buffers, whole, outputs, database)
claim('C24', notes, outputs, database)
claim('C28', whole, deletions)
claim('C23', source)
claim('C14', reproducible)
claim('C01', presence)


def run(pid, res, ctx):
    for fn in PROPS[pid]:
        fn(res, ctx, pid)
