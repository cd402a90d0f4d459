"""The command line and the run as a whole: options, parameters handed to the stages, files and when they are written,
and the collected database of the json action."""
import ast
from . import terms as X
from . import model as M
from . import compare as C
from . import outputs as O
from .engine import St
from .terms import mk, const, TRUE, FALSE, NONE, b_and, b_or, b_not

EQ, DIFF, UND = 'equal', 'differ', 'undecided'
M.POOLS['actions'] = (0.95, ['zonedb', 'json', 'zonelist', 'zonedb,json', 'json,zonedb', 'zonelist,json,zonedb', '', 'foo',
                             'zonedb,foo', 'json,', 'zone', 'zonedb,zonelist', 'Json', 'zonedb json'])
M.POOLS['languages'] = (0.95, ['arduino', 'c', 'python', 'go', 'arduino,c', 'python,go', 'c,go', 'go,python,c,arduino', '', 'foo',
                               'c,foo', 'java', 'arduinoc', 'python,', 'cc', 'go,c', 'Go', 'c go'])
M.POOLS['start_year'] = (0.9, [1900, 1973, 1974, 1979, 1980, 1999, 2000, 2000, 2001, 2001, 2002])


def st_of(heap):
    return St({}, heap, X.Facts())


def chain(e):
    return O.closed(e)


# ---------------------------------------------------------------- options

def option_table(options):
    out = {}
    for info, site in options:
        flags = info['flags']
        long = [f for f in flags if f.startswith('--')] or flags
        dest = X.cval(info['dest']) if 'dest' in info else long[0].lstrip('-').replace('-', '_')
        out.setdefault(dest, []).append((info, site))
    return out


def plain(t):
    if t is None:
        return None
    if isinstance(t, X.T) and t.op == 'const':
        return t.args[1]
    if t is NONE:
        return None
    if isinstance(t, X.T) and t in (TRUE, FALSE):
        return t is TRUE
    return t


def action_of(info):
    return plain(info.get('action')) or 'store'


def type_of(info):
    t = info.get('type')
    if t is None:
        return 'str'
    return t.args[0] if t.op == 'builtin' else t


def default_of(info, all_):
    if 'default' in info:
        return plain(info['default'])
    act = action_of(info)
    for other, _ in all_:
        if other is not info and 'default' in other:
            return plain(other['default'])
    return {'store_true': False, 'store_false': True}.get(act)


def choices_of(r, info, heap):
    c = info.get('choices')
    if c is None:
        return None
    c = r.w.deref(c, st_of(heap))
    if c.op == 'tuple':
        return sorted(plain(x) for x in c.args)
    if c.op == 'ref':
        cell = heap.get(c.args[0])
        if cell is None or any(i[0] != 'one' for i in cell.items):
            return c
        return sorted(str(plain(i[2] if i[2] is not None else i[1])) for i in cell.items)
    return c


def options(res, r):
    rule = 'option has its documented flags, type and default'
    mine, ref = option_table(r.options), option_table(r.refoptions)
    heap = r.st.heap
    for dest, want in sorted(ref.items()):
        have = mine.get(dest)
        if have is None:
            res.add(rule, DIFF, 'option --%s' % dest, None, 'no longer accepted')
            continue
        site = have[0][1]
        a = {f: i for i, _ in have for f in i['flags']}
        b = {f: i for i, _ in want for f in i['flags']}
        for f in sorted(b):
            what = 'option %s' % f
            if f not in a:
                res.add(rule, DIFF, what, site, 'flag is gone')
                continue
            ia, ib = a[f], b[f]
            for name, va, vb in (('action', action_of(ia), action_of(ib)), ('type', type_of(ia), type_of(ib)),
                                 ('choices', choices_of(r, ia, heap), choices_of(r, ib, r.refheap))):
                known = not isinstance(va, X.T)
                res.add(rule, EQ if va == vb else DIFF if known else UND, '%s: %s' % (what, name), site,
                        '%s instead of %s' % (va, vb))
            need_a, need_b = plain(ia.get('required')) or False, plain(ib.get('required')) or False
            res.add(rule, EQ if need_a == need_b else UND if need_a and not need_b else DIFF, '%s: required' % what, site,
                    '%s instead of %s' % (need_a, need_b))
            da, db = default_of(ia, have), default_of(ib, want)
            if need_a and need_b:
                continue
            res.add(rule, EQ if da == db else UND if isinstance(da, X.T) or not da and not db else DIFF, '%s: default' % what,
                    site, '%r instead of %r' % (da, db))


# ---------------------------------------------------------------- what is refused before any work

def refusals(res, r, tries):
    rule = 'refused exactly what the documentation rules out, before any work'
    cut, refcut = r.cut_at[0][3], r.ref_at
    a = [(e, chain(e)) for e in r.events[:cut - r.n0] if e.kind == 'abort']
    b = [(e, chain(e)) for e in r.refevents[:refcut] if e.kind == 'abort']
    alla, allb = b_or(*[c for _, c in a]), b_or(*[c for _, c in b])
    for e, c in a:
        s, why = M.compare(FALSE, b_and(c, b_not(allb)), TRUE, tries=tries)
        res.add(rule, s, 'run stops', e.site, why and 'refused without need: ' + why)
    for e, c in b:
        s, why = M.compare(FALSE, b_and(c, b_not(alla)), TRUE, tries=tries)
        res.add(rule, s, 'run goes on', r.cut_at[0][2], why and 'accepted: ' + why)
    unknown = b_or(*[c for e, c in b if e.site[0].endswith('cli.py') and e.site[2] == 'refuse_unknown'])
    stopped = FALSE
    for e in r.events:
        if e.kind == 'abort':
            stopped = X.b_or(stopped, chain(e))
        if e.kind == 'work' or e.kind == 'open':
            # an earlier stop keeps the run from getting here
            s, why = M.compare(FALSE, b_and(chain(e), unknown, b_not(stopped)), TRUE, tries=tries)
            res.add(rule, s, 'files are touched', e.site, why and 'for an unknown action or language: ' + why)


# ---------------------------------------------------------------- parameters of the stages

def parameters(res, r, tries):
    rule = 'stage receives the documented parameter'
    ok = b_not(b_or(*[chain(e) for e in r.refevents[:r.ref_at] if e.kind == 'abort']))
    ref, heap = r.ref_params
    ref = r.w.deref(ref, st_of(heap))
    want = dict(heap[ref.args[0]].fields)
    built = r.built.get('Transformer')
    if not built:
        res.add(rule, UND, 'Transformer', None, 'not constructed by name')
    for kw, h, pc, site, at, ctx in (built or ())[:1]:
        for name, v in want.items():
            if name not in kw:
                res.add(rule, UND, 'Transformer(%s)' % name, site, 'no parameter of this name')
                continue

            def sink(path, s, why, x=None, y=None, name=name):
                res.add(rule, s, 'Transformer(%s)%s' % (name, path), site, why)
            C.Compare(r.w, st_of(h), r.w, st_of(heap), sink, tries=tries).value('', kw[name], v, ok)
    for kw, h, pc, site, at, ctx in r.built.get('Extractor', ())[:1]:
        if 'input_dir' in kw:
            s, why = M.compare(kw['input_dir'], mk('sym', 'arg.input_dir', 'str'), TRUE, tries=tries)
            res.add(rule, s, 'Extractor(input_dir)', site, why)


def estimator(res, r, tries):
    rule = 'buffer estimation runs unless skipped, on the requested years'
    built = r.built.get('BufSizeEstimator')
    if not built:
        res.add(rule, UND, 'BufSizeEstimator', None, 'not constructed by name')
        return
    skip = X.atom(mk('truthy', mk('sym', 'arg.skip_bufestimator', 'bool')))
    for kw, h, pc, site, at, ctx in built[:1]:
        for name, v in (('start_year', mk('sym', 'arg.start_year', 'int')), ('until_year', mk('sym', 'arg.until_year', 'int')),
                        ('ignore_buf_size_too_large', X.atom(mk('truthy', mk('sym', 'arg.ignore_buf_size_too_large', 'bool'))))):
            if name in kw:
                s, why = M.compare(kw[name], v, pc, tries=tries)
                res.add(rule, s, 'BufSizeEstimator(%s)' % name, site, why)
    if r.sized:
        pc, site = r.sized[0]
        ok = b_not(b_or(*[chain(e) for e in r.events if e.kind == 'abort']))
        s, why = M.compare(pc, b_not(skip), ok, tries=tries)
        if s == DIFF:
            why = why.replace('True instead of False', 'estimated although skipped').replace(
                'False instead of True', 'not estimated')
        res.add(rule, s, 'estimation', site, why)


# ---------------------------------------------------------------- files

WRITE = ('w', 'wt', 'x', 'a', 'wb', 'r+', 'w+', 'a+', 'at', 'xt')


def mode_of(e):
    m = e.data[2]
    return plain(m) if isinstance(m, X.T) else m


def is_write(e):
    m = mode_of(e)
    return isinstance(m, str) and any(c in m for c in 'wax+')


def openings(events):
    """path -> condition under which it is opened for writing"""
    out = {}
    for e in events:
        if e.kind == 'open' and is_write(e):
            out.setdefault(e.data[1], []).append(e)
    return out


STAGES = ('/transformer/', '/extractor/', '/bufestimator/')


def files(res, r, tries, which):
    """which: 'C28' file set, place, mode, moment; 'C22' the conditions under which each is written"""
    mine, ref = openings(r.events), openings(r.refevents)
    stop = b_or(*[chain(e) for e in r.refevents if e.kind == 'abort'])
    ok = b_not(b_or(*[chain(e) for e in r.refevents[:r.ref_at] if e.kind == 'abort']))
    rule = 'files written are those of the requested actions and languages' if which == 'C22' else \
        'complete file set, under the output directory'
    used = set()
    for p, es in sorted(ref.items(), key=lambda kv: kv[0].id):
        name = O.path_name(p)
        have = mine.get(p)
        want = b_or(*[chain(e) for e in es])
        if have is None:
            res.add(rule, DIFF if len(mine) and all(known_path(q) for q in mine) else UND, name, None, 'never written')
            continue
        used.add(p)
        got = b_or(*[chain(e) for e in have])
        # what stops the run on the way is compared separately
        s, why = M.compare(X.unname_all(got), X.unname_all(want), ok, tries=tries)
        if s == DIFF:
            why = why.replace('True instead of False', 'written').replace('False instead of True', 'not written')
        res.add(rule, s, name, have[0].site, why)
    for p, es in mine.items():
        if p not in ref:
            g = b_or(*[chain(e) for e in es])
            s, why = M.compare(FALSE, X.unname_all(g), ok, tries=tries)
            if not known_path(p) and s == DIFF:
                s = UND
            res.add(rule, s, O.path_name(p), es[0].site, 'not one of the files of the database')
    if which != 'C28':
        return
    cut = r.cut_at[0][3] - r.n0
    first = None
    for i, e in enumerate(r.events):
        if e.kind == 'open' and is_write(e):
            m = mode_of(e)
            res.add('opened to be rewritten in full', EQ if 'w' in m else DIFF, O.path_name(e.data[1]), e.site, 'mode %r' % m)
            enc = e.data[3]
            enc = plain(enc) if isinstance(enc, X.T) else enc
            good = isinstance(enc, str) and enc.lower().replace('_', '-') in ('utf-8', 'utf8') or 'b' in m
            res.add('written in UTF-8', EQ if good else UND if isinstance(enc, X.T) else DIFF, O.path_name(e.data[1]), e.site,
                    'encoding %s' % enc)
            res.add('nothing written before the input is transformed', EQ if i >= cut else DIFF, O.path_name(e.data[1]), e.site,
                    'opened before Transformer.transform()')
            if first is None:
                first = i
    for i, e in enumerate(r.events):
        if e.kind == 'abort' and first is not None and i > first and any(s in '/' + e.site[0] for s in STAGES):
            before = b_or(*[chain(o) for o in r.events[first:i] if o.kind == 'open' and is_write(o)])
            s, why = M.compare(FALSE, b_and(X.unname_all(chain(e)), X.unname_all(before)), TRUE, tries=tries)
            if s == UND:
                continue
            res.add('nothing written before everything is verified', s, str(e.data)[:80], e.site, why)
    if first is not None:
        res.add('nothing written before everything is verified', EQ, '%d checks precede the first file' % sum(
            1 for e in r.events[:first] if e.kind == 'abort'))


def known_path(p):
    """closed form made of options and constants only"""
    return all(x.op in ('const', 'cat', 'sym', 'app', 'ite', 'atom') or x.op == 'truthy' for x in X.walk(p))


# ---------------------------------------------------------------- the collected database

ENTRY = {
    'num_zones': 'C16', 'num_policies': 'C16', 'num_links': 'C16', 'num_eras': 'C16', 'num_rules': 'C16',
    'zone_ids': 'C13', 'link_ids': 'C13', 'removed_zones': 'C02', 'removed_links': 'C02', 'removed_policies': 'C02',
    'notable_zones': 'C24', 'notable_links': 'C24', 'notable_policies': 'C24', 'merged_notable_zones': 'C24',
    'zones_to_policies': 'C24', 'original_min_year': 'C20', 'original_max_year': 'C20', 'generated_min_year': 'C20',
    'generated_max_year': 'C20', 'lower_truncated': 'C20', 'upper_truncated': 'C20', 'start_year_accurate': 'C20',
    'until_year_accurate': 'C20', 'buf_sizes': 'C27', 'max_buf_size': 'C27', 'estimator_min_year': 'C27',
    'estimator_max_year': 'C27', 'fragments_map': 'C25', 'compressed_names': 'C25', 'memory_map8': 'C16',
    'memory_map32': 'C16', 'go_memory_map': 'C16', 'letters_map': 'C06', 'formats_map': 'C06', 'go_letters_map': 'C11',
    'go_formats_map': 'C11', 'go_names_map': 'C11', 'go_zone_and_link_index_map': 'C11', 'go_policy_index_size_map': 'C11',
    'go_info_index_size_map': 'C11', 'zones_map': 'C06', 'policies_map': 'C06', 'links_map': 'C06',
}
ALSO = {'zones_map': ('C02', 'C03'), 'links_map': ('C02', 'C03', 'C04'), 'policies_map': ('C02', 'C04'),
        'notable_zones': ('C05',), 'notable_policies': ('C05',), 'max_buf_size': ('C16',), 'fragments_map': ('C16',),
        'compressed_names': ('C15',)}


def entry_props(path):
    """properties the entry of the database under this path speaks about"""
    k = path.split("'")[1] if path.startswith("['") else ''
    rest = path.split("']", 1)[1] if k else ''
    ps = {ENTRY.get(k, 'C22')}
    if not rest.startswith("/Z['") and not rest.startswith("/P['"):
        ps |= set(ALSO.get(k, ()))
    return ps


def database(run, tries):
    """[(path, status, why, site)] of the object given to json.dump"""
    a = [e for e in run.events if e.kind == 'json']
    b = [e for e in run.refevents if e.kind == 'json']
    out = []
    if len(a) != 1 or len(b) != 1:
        return [('', UND, '%d objects written' % len(a), None)]
    weak = next(('%s at %s' % (e.kind, e.site) for e in run.events
                 if e.kind == 'opaque-loop' or e.kind == 'opaque' and e.data in C_MUTATORS), None)

    def sink(path, s, why, x=None, y=None):
        if s == DIFF and weak:
            s, why = UND, 'witness set aside: ' + weak
        if s == DIFF and extra(path):
            return
        out.append((path, s, why, a[0].site))
    C.Compare(run.w, st_of(a[0].data[3]), run.w, st_of(b[0].data[3]), sink, tries=tries).value('', a[0].data[1], b[0].data[1])
    return out


C_MUTATORS = {'.append', '.insert', '.update', '.pop', '.remove', '.clear', '.extend', '.setdefault', '.add', '.discard',
              '.sort', '.reverse', '.popitem', 'call', '.appendleft', '.write'}


def extra(path):
    """a column some generator adds to the records"""
    return path.endswith(' stored') and (path.startswith("['zones_map']/Z") or path.startswith("['policies_map']/P"))
