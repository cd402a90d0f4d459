"""Reading of TZ lines and files."""
import random
from . import compare as C
from . import helpercheck as H
from . import model as M
from . import terms as X
from . import world as W
from .helpercheck import OPAQUE
from .stage import Stage
from .terms import mk, const, TRUE, b_or

MOD = 'acetimetools.extractor.extractor'
_r = random.Random(7)
MONTHS = ['Jan', 'Feb', 'Mar', 'Apr', 'May', 'Jun', 'Jul', 'Aug', 'Sep', 'Oct', 'Nov', 'Dec', 'April', 'march', 'DEC', 'Sept', 'J']
CLOCKS = ['0:00', '0', '2:00', '2:00s', '1:00u', '24:00', '23:59:59', '1:30g', '4:00z', '0:00w', '-', '-1:00', '3:00x', '2:00S']
YEARS = ['1945', '1970', '1999', '2000', '2006', '2037']
DAYS = ['1', '15', '31', 'lastSun', 'Sun>=8', 'Sat<=30', 'Fri>=1']


def _rule():
    c = [_r.choice(['US', 'EU', 'SA']), _r.choice(YEARS), _r.choice(['only', 'max', 'only', 'max', 'o', 'ma'] + YEARS),
         _r.choice(['-', '-', 'even']), _r.choice(MONTHS), _r.choice(DAYS), _r.choice(CLOCKS),
         _r.choice(['0', '1:00', '0:30', '-1:00', '1:00d']), _r.choice(['S', 'D', '-', 'BST', 'GHST'])]
    n = _r.choice([9] * 12 + [10, 8, 7, 6, 5, 4, 3, 2, 1])
    sep = _r.choice([' ', '\t', '\t', '  '])
    return sep.join(['Rule'] + c[:n] + ['x'] * (n - 9))


def _era():
    c = [_r.choice(['0:00', '-8:00', '5:30', '-5:50:36', '0']), _r.choice(['-', 'US', 'EU', '1:00', '0:20']),
         _r.choice(['LMT', 'P%sT', 'GMT/BST', '%z', '+05']), _r.choice(YEARS + ['max', '19x']), _r.choice(MONTHS),
         _r.choice(DAYS), _r.choice(CLOCKS)]
    n = _r.choice([7, 7, 7, 7, 3, 3, 3, 4, 4, 4, 5, 5, 5, 6, 6, 6, 2, 1])
    return _r.choice(['', '\t\t\t']) + _r.choice([' ', '\t']).join(c[:n])


M.POOLS['month_text'] = (0.9, MONTHS + ['', 'j', 'Fo', 'Marzo', 'un'])
M.POOLS['clock_text'] = (0.9, CLOCKS + ['', 's', 'w', '2:00 ', 'z1', '5:00G'])
M.POOLS['rule_line'] = (0.97, [_rule() for _ in range(150)])
M.POOLS['era_line'] = (0.97, [_era() for _ in range(150)])

NAMES = ['US', 'EU', 'Europe/Paris', 'Asia/Tokyo', 'Link']


def _line():
    k = _r.randrange(12)
    n = _r.choice(NAMES)
    if k < 3:
        t = _rule().split(None, 2)
        t = t[0] + '\t' + n + ('\t' + t[2] if len(t) > 2 else '')
    elif k < 6:
        t = 'Zone' + _r.choice([' ', '\t']) + n + '\t' + _era().strip()
    elif k < 9:
        t = '\t\t\t' + _era().strip()
    elif k < 10:
        t = 'Link\t%s\t%s' % (_r.choice(NAMES), n)
    else:
        t = _r.choice(['', '   ', '# comment', '\t# Rule US', 'Rule', 'Zone', 'Link US', '    0:00 - LMT', '#Zone X', 'Rul US 1 2',
                       'Zone\tEU', 'LinkEU Asia/Tokyo US', '\t', '\t\t\t1:00 - CET', 'Zone US  2:00 - EET  # x'])
    return t + _r.choice(['', '', '  ', ' # note', '#']) + _r.choice(['\n', '\n', '\n', ''])


M.POOLS['tz_line'] = (1.0, [x for x in (_line() for _ in range(160)) if x])
M.POOLS['tzname'] = (0.97, NAMES)


def text(name):
    return lambda w: mk('sym', 'some.' + name, 'str')


def lines(w):
    w.index_errors = True


FUNCS = [('line is mapped column by column', MOD, 'month_to_index', 'source', 'month', [text('month_text')], None, None),
         ('line is mapped column by column', MOD, 'parse_at_time_string', 'source', 'clock', [text('clock_text')], None, None),
         ('line is mapped column by column', MOD, '_process_rule_line', 'source', 'rule', [text('rule_line')], None, None),
         ('line is mapped column by column', MOD, '_process_zone_line', 'source', 'era', [text('era_line')], None, None)]


# ---- collection of the lines of a file, and of the records of a table of lines

TABLES = (('rule_lines', 'rules_named'), ('link_lines', 'links_named'), ('zone_lines', 'eras_named'))
RECORDS = (
    ('_process_rules', 'rule_lines', 'policies_map', 'rules_of', 'rules_read', 'rules_bad', 'invalid_rule_lines', 'rule_line',
     ('from_year', 'to_year', 'in_month', 'on_day', 'at_time', 'at_time_suffix', 'delta_offset', 'letter')),
    ('_process_zones', 'zone_lines', 'zones_map', 'eras_of', 'eras_read', 'eras_bad', 'invalid_zone_lines', 'era_line',
     ('offset_string', 'rules', 'format', 'until_year', 'until_year_only', 'until_month', 'until_day_string', 'until_time',
      'until_time_suffix')),
    ('_process_links', 'link_lines', 'links_map', 'target_of', 'targets_read', 'links_bad', 'invalid_link_lines', 'tzname',
     (None,)),
)
COUNTS = (('invalid_rule_lines', 'Rule', 2), ('invalid_link_lines', 'Link', 3), ('invalid_zone_lines', 'Zone', 2))
NAME = mk('sym', 'some.tzname', 'str')


def start(root):
    w = Stage(root, 'extended')
    w.module('spec.source')
    env = w.module(MOD)
    cv = env.get('Extractor')
    if cv is None or cv.op != 'class':
        return w, None, None
    lines(w)
    st = w.fresh()
    return w, st, w.make(MOD, 'Extractor', st, {}, {'input_dir': mk('sym', 'input_dir', 'str')})


def weakness(a):
    return next((e.kind for e in a.events if e.kind == 'opaque-loop' or e.kind == 'opaque' and e.data in OPAQUE), None)


def seq(w, v, st):
    return X.unname_all(w.seqval(w.items_of(v, st, None)))


class Check:
    def __init__(self, res, root, tries):
        self.res, self.root, self.tries = res, root, tries

    def report(self, rule, what, a, b, site, weak, fatal=()):
        r, why = M.compare(a, b, TRUE, tries=self.tries)
        if r == C.DIFF and weak:
            r, why = C.UND, 'witness set aside: ' + weak
        self.res.add(rule, r, what, site, why)

    def method(self, w, name):
        return H.find_function(w, MOD, 'Extractor.' + name)

    def files(self):
        """lines kept per name from one file"""
        rule = 'lines of a file are collected under their names'
        w, st, obj = start(self.root)
        m = st and self.method(w, '_parse_zone_file')
        if not m:
            self.res.add(rule, C.UND, 'Extractor._parse_zone_file', None, 'renamed or removed')
            return
        fn = w.fns[m.args[0]]
        site = (fn.module, fn.name, fn.node.lineno)
        f = w.newcell(w.base, 'tzfile', 'file', (), {'path': mk('sym', 'tz', 'str'), 'mode': const('r'),
                                                    'encoding': const('utf-8')})
        st.heap.update(w.base.heap)
        s0 = st.fork()
        a = w.apply(m, [obj, f], st)
        weak = weakness(a)
        self.report('no line stops the compiler', 'Extractor._parse_zone_file() stops', X.unname_all(a.aborts), X.FALSE, site, weak)
        cell = st.heap[obj.args[0]]
        for table, ref in TABLES:
            if table not in cell.fields or a.dead:
                self.res.add(rule, C.UND, 'Extractor.%s' % table, site, 'renamed or removed')
                continue
            s1 = st.fork()
            x = w.apply(w.func('spec.source', 'named'), [cell.fields[table], NAME], s1)
            s2 = s0.fork()
            y = w.apply(w.func('spec.source', ref), [f, NAME], s2)
            self.report(rule, 'Extractor._parse_zone_file(): %s of an arbitrary name' % table, seq(w, x.value, x.st),
                        seq(w, y.value, y.st), site, weak)

        for count, tag, least in COUNTS:
            if count not in cell.fields or a.dead:
                self.res.add('a line without a name is counted', C.UND, 'Extractor.%s' % count, site, 'renamed or removed')
                continue
            y = w.apply(w.func('spec.source', 'nameless'), [f, const(tag), const(least)], s0.fork())
            self.report('a line without a name is counted', 'Extractor._parse_zone_file(): %s' % count,
                        X.unname_all(cell.fields[count]), X.unname_all(y.value), site, weak)

    def records(self):
        """records per name from a table of lines"""
        rule = 'every line that can be understood becomes one record'
        for meth, table, out, get, ref, bad, count, pool, cols in RECORDS:
            w, st, obj = start(self.root)
            m = st and self.method(w, meth)
            cell = st and st.heap[obj.args[0]]
            if not m or table not in cell.fields or out not in cell.fields:
                self.res.add(rule, C.UND, 'Extractor.' + meth, None, 'renamed or removed')
                continue
            fn = w.fns[m.args[0]]
            site = (fn.module, fn.name, fn.node.lineno)
            n = mk('src', 'N', None)
            ln = mk('src', 'N.' + pool, n)
            X.NONEMPTY.add(ln)
            lst = w.newcell(st, 'lines', 'list', (n,), items=(
                ('loop', ln, W.INS, TRUE, (W.one(None, mk('elemval', ln, 'str'), TRUE, None),)),))
            tab = w.newcell(st, 'table', 'dict', (), items=(('loop', n, W.INS, TRUE, (W.one(mk('elemkey', n), lst, TRUE, None),)),))
            fields = dict(cell.fields)
            fields[table] = tab
            st.heap[obj.args[0]] = cell.with_fields(fields)
            s0 = st.fork()
            a = w.apply(m, [obj], st)
            weak = weakness(a)
            self.report('no line stops the compiler', 'Extractor.%s() stops' % meth, X.unname_all(a.aborts), X.FALSE, site, weak)
            if a.dead:
                continue
            if count in fields:
                y = w.apply(w.func('spec.source', bad), [tab], s0.fork())
                self.report('a line that cannot be used is counted', 'Extractor.%s(): %s' % (meth, count),
                            X.unname_all(st.heap[obj.args[0]].fields[count]), X.unname_all(y.value), site, weak)
            x = w.apply(w.func('spec.source', get), [st.heap[obj.args[0]].fields[out], NAME], st.fork())
            y = w.apply(w.func('spec.source', ref), [tab, NAME], s0)
            for col in cols:
                vs = []
                for q in (x, y):
                    v, s = q.value, q.st.fork()
                    if col:
                        r = w.apply(w.func('spec.source', 'column'), [v, const(col)], s)
                        v, s = r.value, r.st
                    vs.append(seq(w, v, s))
                self.report(rule, 'Extractor.%s(): %s of an arbitrary name' % (meth, col or 'target'), vs[0], vs[1], site, weak)

    def places(self):
        """the files that are read"""
        rule = 'all files of the TZ database are read'
        w, st, obj = start(self.root)
        m = st and self.method(w, '_parse_zone_files')
        if not m:
            self.res.add(rule, C.UND, 'Extractor._parse_zone_files', None, 'renamed or removed')
            return
        fn = w.fns[m.args[0]]
        site = (fn.module, fn.name, fn.node.lineno)
        w.hooks[(MOD.split('.')[-1], 'Extractor._parse_zone_file')] = lambda eng, f, args, kw, s, node: const(None)
        a = w.apply(m, [obj], st)
        opened = []
        for e in a.events:
            if e.kind == 'open':
                path = e.data[1] if isinstance(e.data, tuple) else e.data
                opened.append((path, X.unname_all(e.pc)))
        for name in FILES:
            hits = [pc for path, pc in opened if ends(path, name)]
            if hits:
                r, why = M.compare(b_or(*hits), TRUE, TRUE, tries=self.tries)
            elif any(ends(path, n) for path, _ in opened for n in FILES):
                r, why = C.DIFF, 'never opened'
            else:
                r, why = C.UND, 'paths not understood'
            self.res.add(rule, r, 'file %s' % name, site, why)


# the files of the TZ database that describe today's zones, rules and links
FILES = ('africa', 'antarctica', 'asia', 'australasia', 'backward', 'etcetera', 'europe', 'northamerica', 'southamerica')


def ends(path, name):
    """path of a file with this name"""
    if path.op == 'app' and path.args[-1:]:
        return ends(path.args[-1], name) if isinstance(path.args[-1], X.T) else False
    if path.op == 'cat':
        return ends(path.args[-1], name)
    if path.op == 'const' and isinstance(path.args[1], str):
        return path.args[1] == name or path.args[1].endswith('/' + name)
    return False


def read(res, root, tries):
    c = Check(res, root, tries)
    for f in (c.places, c.files, c.records):
        try:
            f()
        except Exception as e:
            if getattr(res, 'debug', False):
                raise
            res.add('every line that can be understood becomes one record', C.UND, f.__name__, None, 'not lifted: %r' % e)
    for m in ('_parse_zone_files', '_parse_zone_file', '_process_rules', '_process_zones', '_process_links'):
        res.saw('functions', MOD + '.Extractor.' + m)
