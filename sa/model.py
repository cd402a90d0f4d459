"""Refutation witnesses on the value graph.

Two lifted values are equal when they share a normal form.  When they do not,
the normal form may merely be incomplete, so a difference is reported only
together with a witness: a small valuation of the inputs (a few zones, eras,
rules, field values at the boundaries that occur in the two terms) on which the
two closed forms disagree.  Only terms are evaluated here, never the analysed
program; anything the evaluator does not know makes the comparison undecided.
"""
import datetime
import random
import re
from . import terms as X


ZERO, ONE = X.mk('const', 'int', 0), X.mk('const', 'int', 1)


class Unsupported(Exception):
    pass


class NoValue(Exception):
    """undefined under this valuation (the program would have stopped)"""


NAMES = ['America/Los_Angeles', 'Europe/London', 'Etc/GMT+1', 'Etc/GMT-10', 'UTC', 'America/Argentina/Ushuaia',
         'Asia/Tokyo', 'EST5EDT', 'Africa/Abidjan', 'Antarctica/McMurdo', 'Pacific/Port_Moresby', 'Asia/Ust-Nera']
LINKS = ['US/Pacific', 'GB', 'Etc/UCT', 'Zulu', 'Japan', 'America/Indianapolis', 'Asia/Katmandu', 'GMT+0']
PARTS = ['America/', 'Europe/', 'Etc/', 'Argentina/', 'America', 'Asia/', 'GMT/', 'A/']
POLS = ['US', 'EU', 'Aus', 'GB-Eire', 'Russia', 'C-Eur', 'Chile', 'Japan']
TIMES = ['0', '0:00', '1:00', '2:00', '-1:00', '0:30', '24:00', '25:00', '26:00', '1:15', '-0:15', '2:30:20', '0:20',
         '-2:30', '0:01', '1:60', '0:00:01', 'x', '12:13', '-0:25:21', '9', '1:00:00:00', '23:59', '10:00', '-4:00', '3:00']
DAYS = ['1', '15', '31', 'lastSun', 'lastFri', 'Sun>=1', 'Sun>=8', 'Fri>=26', 'Sat<=7', 'Mon>=23', 'Thu<=1', 'Sun<=25', 'foo',
        'lastFoo', 'Foo>=3', 'Wed>=25', 'Tue<=24', '8']
ODD_DAYS = ['Sun<=0', 'Sun>=0', 'lastSunday', 'lastsun', 'last', 'Sun>=', 'Sun<=', '>=8', 'Sun>8', 'Sunday>=8', '0', '32', '08', '1.5',
            'Sun>=-1', 'Sun<=-1', 'Sun>=1x', 'sun>=8', 'Sun>=32', 'Sun>=8<=2', 'Sun<=2>=8', 'Sun', '', 'Last', 'LastSun', 'firstSun', 'Sat<=1']
ODD_TIMES = ['-0:30', '24', '-24:00', '1:59', '1:59:59', '1:59:60', '25:59:59', '26', '0:60', '1:2:3', '::', ':', '1:', ':1', '-', '--1', '1:00x',
             '+1:00', '1:00s', '-1:-30', '1:-30', '1:1:-1', '02:00', '-00:25:21', '1.5', '100:00', '0:0:1']
FMTS = ['%z', 'P%sT', 'EST', 'GMT/BST', '%s', 'A%zB', 'E%sT', '', 'CEST', '%z%z']
MISC = ['', '-', 'D', 'S', 'w', 's', 'u', 'g', 'z', 'DD', 'US', 'EU', '1:00', '-1:00', 'arduino', 'python', 'c', 'go', 'zonedb', 'zonelist',
        'json', 'basic', 'extended', 'complete', 'low', 'medium', 'high', 'a/b', 'a_b', 'a+b', 'ab', 'HEAD', '2023c', '2024b']
LINES = ['', '\n', '# note\n', '  # note\n', 'UTC\n', ' UTC  \n', 'Asia/Tokyo # x\n', '#UTC\n', 'UTC', '\t\n', 'A#B\n']
STRINGS = TIMES + DAYS + FMTS + MISC


# typical columns: (share of draws, values)
POOLS = {
    'from_year': (0.9, [1990, 1998, 1999, 2000, 2000, 2001, 2001, 2002, 2003, 2005, 2006, -32767]),
    'to_year': (0.9, [1998, 1999, 2000, 2001, 2001, 2002, 2003, 2005, 2009, 32766, -32767]),
    'until_year': (0.9, [2001, 2002, 2002, 2003, 2004, 2010]),
    'era.until_year': (0.85, [1990, 1999, 2000, 2000, 2001, 2002, 2005, 2010, 32767, 32767]),
    'start_year': (0.85, [1999, 2000, 2001, 2001, 2002]),
    'lower_zone_truncated': (1.0, [True, False, False]),
    'upper_zone_truncated': (1.0, [True, False, False]),
    'lower_era_truncated': (1.0, [True, False, False]),
    'upper_era_truncated': (1.0, [True, False, False]),
    'lower_rule_truncated': (1.0, [True, False, False]),
    'upper_rule_truncated': (1.0, [True, False, False]),
    'until_year_only': (1.0, [True, True, False]),
    'arg0:_parse_on_day_string': (0.9, DAYS + ODD_DAYS),
    'arg0:time_string_to_seconds': (0.9, TIMES + ODD_TIMES),
    'arg0:calc_day_of_month': (0.9, [1900, 1999, 2000, 2001, 2004, 2023, 2100, 2023, 2020]),
    'arg1:calc_day_of_month': (1.0, [1, 1, 2, 2, 3, 4, 8, 11, 12, 12]),
    'arg2:calc_day_of_month': (1.0, [0, 1, 2, 3, 4, 5, 6, 7]),
    'arg3:calc_day_of_month': (0.95, [0, 0, 0, 1, 1, 7, 8, 15, 22, 23, 24, 25, 26, 28, 30, 31, -1, -6, -7, -8, -25]),
    'in_month': (0.9, [1, 1, 2, 3, 10, 11, 12, 12]),
    'until_month': (0.9, [1, 1, 2, 3, 10, 11, 12, 12]),
    'until_day': (0.9, [1, 1, 2, 15, 30, 31]),
    'on_day_of_week': (0.95, [0, 0, 1, 5, 6, 7]),
    'on_day_of_month': (0.95, [0, 0, 1, 1, 2, 7, 8, 15, 22, 24, 25, 26, 30, -1, -7, -25]),
    'delta_seconds': (0.8, [0, 0, 0, 3600, 1800, -3600, 1200]),
    'letter': (0.8, ['S', 'D', '-', '', 'S', 'GHST']),
    'rules': (0.5, ['-', ':', 'US', '1:00']),
    'at_time_suffix': (0.8, ['w', 's', 'u', 'g', 'z', '']),
    'until_time_suffix': (0.8, ['w', 's', 'u', 'g', 'z', '']),
    'until_at_granularity': (0.9, [1, 60, 60, 900, 900, 1800]),
    'at_seconds_truncated': (0.8, [0, 3600, 7200, 86400, 900, 8100, 7380, 90000, 7200]),
    'until_seconds_truncated': (0.8, [0, 0, 3600, 7200, 86400, 900, 8100, 7380]),
    'offset_seconds_truncated': (0.8, [0, 3600, -28800, 19800, 20700, -900, 1200, -4500, 43200]),
    'delta_seconds_truncated': (0.8, [0, 0, 3600, 1800, -3600, 7200, 1200]),
    'offset_granularity': (0.9, [1, 60, 60, 900, 900, 1800]),
    'delta_granularity': (0.9, [1, 60, 900, 900, 900, 1800]),
    'at_time': (0.7, ['0', '0:00', '2:00', '24:00', '0:01', '12:13', '2:30:20', '23:59']),
    'until_time': (0.7, ['0', '0:00', '2:00', '24:00', '0:01', '12:13', '2:30:20', '23:59']),
    'delta_offset': (0.7, ['0', '0', '1:00', '0:20', '-1:00', '2:00', '0:30', '1:20:30']),
    'offset_string': (0.7, ['0', '1:00', '-8:00', '5:30', '5:45', '0:20', '-0:01:15', '-12:13:42']),
}


BUDGET = 1000000       # evaluation steps of one comparison
COUNTED = {'sum', 'pos', 'psum'}
IDS = [1, 2, 9, 10, 11, 255, 4096, 65535, 65536, 0x0fffffff, 0x10000000, 0x7fffffff, 0x80000000, 0xffffffff, 0xfffffffe, 0xabcdef, 99999999, 100000000]
# columns the stages before have already limited (set while the outputs are compared)
SETTLED = {}
WORDS = ('Ar', 'Bu', 'x', 'X1', 'a', 'Ar')
GUARD = []    # what holds wherever a value is written: none of the stops is reached
TWINS = {'era', 'rule'}
TZ_PATHS = {'tz', 'input_dir'}


class Model:
    """one valuation, drawn lazily from a seed"""

    def __init__(self, seed, pool_int=(), pool_str=(), guide=None, maxn=3, crowd=False, control=False, sizes=None, splits=()):
        self.rng = random.Random(seed)
        self.seed = seed
        self.ints = list(pool_int) or [0, 1]
        self.strs = list(pool_str)
        self.guide = guide or {}
        self.vals = {}
        self.counts = {}
        self.keys = {}
        self.memo = {}
        self.maxn = maxn
        self.mode = seed % 4
        self.base = self.rng.choice(self.ints)
        self.steps = 0
        self.touched = []
        self.crowd = None
        self.sizes = {}
        if sizes and self.rng.random() < 0.4:
            k = self.rng.choice(sorted(sizes))
            self.sizes = {k: [self.rng.choice(sizes[k])]}
        self.control = control and seed % 2
        self.splits = splits
        if crowd:
            # names sharing components: a few, or many of them
            self.crowd = [None, 'few', 'few', 'wide'][(seed // 7) % 4] if seed % 3 else 'few'
            if self.crowd == 'wide':
                self.prefixes = ['%s%02d/' % (self.rng.choice(('Dir', 'Ab', 'Region')), i) for i in range(self.rng.choice((28, 29, 30, 31, 32, 33, 34)))]
                self.rng.shuffle(self.prefixes)
            elif self.crowd:
                self.prefixes = ['ab/', 'abc/', 'abd/', 'abcd/', 'abce/', 'Etcet/', 'ab/cd/', 'abc/defg/', '']
                self.rng.shuffle(self.prefixes)
                del self.prefixes[self.rng.randint(1, 5):]

    # ---- input
    def count(self, lv, parent):
        k = (lv.id, parent)
        self.touched.append((None, lv, k))
        n = self.counts.get(k)
        if n is None and self.crowd and parent == ():
            if self.crowd == 'wide':
                n = (len(self.prefixes) * 4 if lv.args[0] == 'Z' else self.rng.choice((0, 1, 5))) if lv.args[0] in ('Z', 'L') else None
            elif lv.args[0] in ('Z', 'L'):
                n = self.rng.randint(1, 9)
            if n is not None:
                self.counts[k] = n
        if n is None:
            lo = 1 if lv in X.NONEMPTY else 0
            n = self.rng.randint(lo, self.maxn)
            if lv.args[0] in self.sizes:
                n = self.rng.choice(self.sizes[lv.args[0]])
            if lv.args[0].endswith('_line') and self.rng.random() < 0.25:
                n += 9
            if n == 0 and self.rng.random() < 0.6:
                n = 1
            self.counts[k] = n
        return n

    def key(self, lv, el):
        k = (lv.id, el)
        v = self.keys.get(k)
        if v is None and self.crowd and lv.args[0] in ('Z', 'L'):
            i = el[-1] if isinstance(el[-1], int) else 0
            pre = self.prefixes[i % len(self.prefixes)] if self.crowd == 'wide' else self.rng.choice(self.prefixes)
            v = self.keys[k] = '%s%s%d' % (pre, lv.args[0].lower(), i)
        if v is None:
            base = {'Z': NAMES, 'L': LINKS, 'P': POLS, 'T': PARTS}.get(lv.args[0], NAMES)
            if lv.args[0].endswith('_policies'):
                base = POLS
            elif lv.args[0].endswith('_links'):
                base = LINKS
            used = {x for (l, e), x in self.keys.items() if l == lv.id and e[:-1] == el[:-1]}
            free = [n for n in base if n not in used]
            v = self.rng.choice(free) if free else 'key%d' % len(self.keys)
            self.keys[k] = v
        return v

    def draw(self, name, ty, el):
        k = (name, el)
        self.touched.append(k)
        if k in self.vals:
            return self.vals[k]
        g = self.guide.get(name)
        r = self.rng
        v = None
        closed = X.CLOSED and X.CLOSED.get(X.mk('sym', name, 'str'))
        if closed is not None and closed:
            ks = [self.key(closed, e) for e in self.elements(closed, {}, None)]
            if not ks:
                raise NoValue('empty')
            v = self.vals[k] = r.choice(ks)
            return v
        if name in SETTLED:
            c = SETTLED[name]
            v = self.vals[k] = c(self, ty, el) if callable(c) else r.choice(c)
            return v
        if name in ('zone.id', 'link.id'):
            # ids are checked to be distinct before anything is generated
            used = {x for q, x in self.vals.items() if q[0] in ('zone.id', 'link.id')}
            free = [x for x in IDS if x not in used]
            v = self.vals[k] = r.choice(free) if free else r.randint(1, 0xffffffff)
            return v
        pool = POOLS.get(name) or POOLS.get(name.split('.')[-1])
        if el and isinstance(el[-1], int) and el[-1] > 0 and name.partition('.')[0] in TWINS:
            w = (name, el[:-1] + (el[-1] - 1,))
            if w in self.vals and self.rnd(('twin', name.partition('.')[0], el)) % 4 == 0 and r.random() < 0.8:
                v = self.vals[k] = self.vals[w]
                return v
        if name == 'rule.to_year' and ('rule.from_year', el) in self.vals and r.random() < 0.6:
            v = self.vals[k] = r.choice((0, 0, 1, 3)) + self.vals[('rule.from_year', el)]
            return v
        if name == 'rule.from_year' and ('rule.to_year', el) in self.vals and r.random() < 0.6:
            y = self.vals[('rule.to_year', el)]
            v = self.vals[k] = y - r.choice((0, 0, 1, 3)) if -32760 < y < 32760 else r.choice((1998, 2000, 2002))
            return v
        if g is not None and r.random() < 0.75:
            v = r.choice(g)
        elif pool is not None and r.random() < pool[0] * (1.0 if self.mode < 3 else 0.5):
            v = r.choice(pool[1])
        elif ty == 'bool':
            v = r.random() < (0.93 if name.startswith('keep:') else 0.5)
        elif ty == 'int' or ty is None and not self.strs:
            if name in X.SYM_RANGES:
                lo, hi = X.SYM_RANGES[name]
                v = r.randint(lo, hi) if r.random() < 0.6 else r.choice([lo, hi])
            elif self.mode == 0:
                v = self.base + r.randint(-2, 2)
            elif self.mode == 1:
                v = r.choice(self.ints)
            elif self.mode == 2:
                v = r.choice(self.ints) + r.choice((-1, 0, 0, 1))
            else:
                v = r.randint(-4000, 90000)
        else:
            x = r.random()
            if name.startswith('line:') and x < 0.7:
                v = r.choice(LINES)
            elif self.splits and x < (0.6 if self.mode < 2 else 0.2):
                v = r.choice(self.splits).join(r.choice(WORDS) for _ in range(r.randint(1, 6)))
            elif self.control:
                v = ''.join(r.choice('\x01\x02\x0f\x10\x1f abfg09/Z~') for _ in range(r.randint(0, 6)))
            elif name in ('era.policy_name', 'link.target') and x < 0.8:
                v = r.choice(POLS[:4]) if name == 'era.policy_name' else r.choice(NAMES[:6])
            elif self.strs and x < 0.4:
                v = r.choice(self.strs)
            elif 'time' in name or 'offset' in name or 'rules' in name or 'delta' in name:
                v = r.choice(TIMES) if x < 0.85 else r.choice(STRINGS)
            elif 'day' in name:
                v = r.choice(DAYS) if x < 0.85 else r.choice(STRINGS)
            elif 'format' in name:
                v = r.choice(FMTS) if x < 0.85 else r.choice(STRINGS)
            else:
                v = r.choice(STRINGS)
        self.vals[k] = v
        return v

    def rnd(self, key):
        v = self.vals.get(key)
        if v is None:
            v = self.vals[key] = self.rng.randint(0, 1 << 30)
        return v

    def change(self, keep=()):
        """draw again one of the inputs looked at last; there is at least one element of the levels to keep"""
        ks = list(dict.fromkeys(reversed(self.touched)))
        vs = [k for k in ks if k[0] is not None]
        ns = [k for k in ks if k[0] is None and k[1] not in X.NONEMPTY]
        self.memo.clear()
        self.steps = 0
        if ns and (not vs or self.rng.random() < 0.25):
            k = self.rng.choice(ns)[2]
            lo = 1 if any(lv.id == k[0] for lv in keep) else 0
            self.counts[k] = self.rng.randint(lo, max(lo, self.counts.get(k, 0) - 1))
            return True
        if not vs:
            return False
        k = self.rng.choice(vs[:3] if self.rng.random() < 0.6 else vs)
        self.vals.pop(k, None)
        return True

    # ---- elements
    def elements(self, lv, env, par):
        if lv.op == 'src':
            parent = lv.args[1]
            base = ()
            if parent is not None:
                if parent not in env:
                    raise Unsupported('unbound parent')
                base = env[parent]
            return [base + (i,) for i in range(self.count(lv, base))]
        if lv.op == 'range':
            lo, hi, st = (self.ev(a, env, par) for a in lv.args)
            r = range(lo, hi, st)
            if len(r) > 60:
                raise Unsupported('long range')
            return [('v', i, x) for i, x in enumerate(r)]
        if lv.op == 'elems':
            v = self.listval(lv.args[0], env, par)
            return [('v', i, x) for i, x in enumerate(v)]
        if lv.op == 'chars':
            return [('v', i, x) for i, x in enumerate(self.ev(lv.args[0], env, par))]
        if lv.op == 'lines':
            tz = any(x.op == 'sym' and x.args[0] in TZ_PATHS for x in X.walk(lv.args[0]))
            n = self.rnd(('lines', lv.id)) % (8 if tz else 4)
            if tz and self.rnd(('few', lv.id)) % 5 < 2 and 'tz_line' in POOLS:
                # few different lines, often repeated
                pool = POOLS['tz_line'][1]
                few = [pool[self.rnd(('few', lv.id, j)) % len(pool)] for j in range(3)]
                for i in range(n + 5):
                    self.vals.setdefault(('file:%d.tz_line' % lv.id, (i,)), few[self.rnd(('few', lv.id, 'at', i)) % 3])
                n += 5
            return [('v', i, self.draw(('file:%d.tz_line' if tz else 'line:%d') % lv.id, 'str', (i,))) for i in range(n)]
        raise Unsupported('level ' + lv.op)

    def listval(self, t, env, par):
        if t.op == 'ext':
            n = self.rnd(('ext', t.id)) % 4
            return [self.draw('ext:%s' % (t.args,), 'str', (i,)) for i in range(n)]
        v = self.ev(t, env, par)
        if not isinstance(v, (list, tuple)):
            raise Unsupported('not a list')
        return list(v)

    def ordered(self, lv, order, env, par):
        els = self.elements(lv, env, par)
        if order.op != 'order':
            raise Unsupported('order')
        if order.args[0] == 'sorted':
            key = order.args[1]
            if key.op == 'sortgroup' or key.op == 'app' and key.args[0] == 'nested':
                raise Unsupported('order of nested loops')
            # loops sorted together: the place among the elements of the same loop
            ks = []
            for e in els:
                e2 = dict(env)
                e2[lv] = e
                ks.append(self.ev(key, e2, par))
            rev = bool(self.ev(order.args[2], env, par)) if isinstance(order.args[2], X.T) else False
            idx = sorted(range(len(els)), key=lambda i: ks[i], reverse=rev)
            return [els[i] for i in idx]
        if order.args[0] == 'rev':
            return list(reversed(self.ordered(lv, order.args[1], env, par)))
        return els

    def bind(self, env, lv, e):
        e2 = dict(env)
        e2[lv] = e
        if lv.op == 'src' and lv.args[1] is not None:
            e2.setdefault(lv.args[1], e[:-1])
            e2[lv.args[1]] = e[:-1]
        return e2

    def tag(self, tag, env, par):
        """element named by a tag"""
        if tag.op == 'ite':
            return self.tag(tag.args[1] if self.ev(tag.args[0], env, par) else tag.args[2], env, par)
        lv = tag.args[0]
        if tag.op == 'pick':
            k = self.ev(tag.args[1], env, par)
            if lv.op != 'src':
                raise Unsupported('pick')
            for e in self.elements(lv, env, par):
                if self.key(lv, e) == k:
                    return e
            raise NoValue('pick')
        if tag.op == 'edge':
            els = self.ordered(lv, tag.args[3], env, par)
            hit = None
            for e in els:
                if self.ev(tag.args[2], self.bind(env, lv, e), par):
                    hit = e
                    if tag.args[1] == 'first':
                        break
            if hit is None:
                raise NoValue('edge')
            return hit
        raise Unsupported('tag ' + tag.op)

    # ---- evaluation
    def ev(self, t, env, par):
        op = t.op
        if op == 'const':
            return t.args[1]
        fl = X.free_levels(t)
        key = (t.id, tuple((lv.id, env[lv]) for lv in sorted(fl, key=lambda z: z.id) if lv in env), id(par) if par else 0)
        if key in self.memo:
            v = self.memo[key]
            if isinstance(v, Exception):
                raise v
            return v
        self.steps += 1
        if self.steps > 200000:
            raise Unsupported('steps')
        try:
            v = self.ev1(t, env, par)
        except (Unsupported, NoValue) as e:
            self.memo[key] = e
            raise
        except (TypeError, ValueError, IndexError, KeyError, ZeroDivisionError, OverflowError, AttributeError) as e:
            e2 = NoValue(str(e))
            self.memo[key] = e2
            raise e2
        self.memo[key] = v
        return v

    def ev1(self, t, env, par):
        op = t.op
        a = t.args
        ev = lambda x: self.ev(x, env, par)
        if op == 'ite':
            return ev(a[1]) if ev(a[0]) else ev(a[2])
        if op == 'sym':
            n = a[0]
            if par and t in par:
                return par[t]
            if n.startswith(('acc:', 'joint:', 'cur:')) or re.match(r'p\w+:', n):
                raise Unsupported('free parameter ' + n)
            lvs = X.SYM_LEVELS.get(n, ())
            el = ()
            for lv in lvs:
                if lv not in env:
                    raise Unsupported('unbound level of ' + n)
                el = env[lv]
            return self.draw(n, a[1], el)
        if op == 'lin':
            r = a[0]
            for x, k in a[1]:
                v = ev(x)
                if not isinstance(v, (int, float)):
                    raise NoValue('not a number')
                r += int(v) * k
            return r
        if op == 'fdiv':
            return ev(a[0]) // a[1]
        if op == 'le0':
            return ev(a[0]) <= 0
        if op == 'eq0':
            return ev(a[0]) == 0
        if op == 'eqs':
            x, y = ev(a[0]), ev(a[1])
            return x == y
        if op == 'sle':
            return ev(a[0]) <= ev(a[1])
        if op == 'isnone':
            return ev(a[0]) is None
        if op == 'truthy':
            return bool(ev(a[0]))
        if op == 'contains':
            return ev(a[1]) in ev(a[0])
        if op == 'named':
            return ev(a[0])
        if op == 'cat':
            return ''.join(self.text(x) for x in self.parts(a, env, par))
        if op == 'fmt':
            v = ev(a[0])
            return format(v, a[1] if isinstance(a[1], str) else ev(a[1]))
        if op == 'tuple':
            return tuple(ev(x) for x in a)
        if op == 'nt':
            return tuple(ev(x) for x in a[1:])
        if op == 'elemkey':
            if a[0] not in env:
                raise Unsupported('unbound ' + op)
            e = env[a[0]]
            return self.key(a[0], e) if a[0].op == 'src' else e[2]
        if op == 'elemval':
            if a[0] not in env:
                raise Unsupported('unbound ' + op)
            e = env[a[0]]
            if a[0].op == 'src':
                return self.draw('elem:' + a[0].args[0], a[1] if len(a) > 1 else 'str', e)
            return e[2]
        if op == 'exists':
            return any(self.ev(a[1], self.bind(env, a[0], e), par) for e in self.elements(a[0], env, par))
        if op == 'sum':
            return sum(int(self.ev(a[2], self.bind(env, a[0], e), par)) for e in self.elements(a[0], env, par)
                       if self.ev(a[1], self.bind(env, a[0], e), par))
        if op == 'in':
            k = ev(a[0])
            if a[1].op != 'src':
                return any(self.ev(X.mk('elemkey', a[1]), self.bind(env, a[1], e), par) == k
                           for e in self.elements(a[1], env, par))
            return any(self.key(a[1], e) == k for e in self.elements(a[1], env, par))
        if op == 'member' and a[1].op == 'rel':
            # an element of the same loop under the key this element asks for
            lv, m = a[1].args
            v = ev(a[0])
            if not isinstance(v, str):
                raise Unsupported('op member')
            m = X.subst(m, {a[0]: X.mk('const', 'str', v)})
            return any(self.ev(m, self.bind(env, lv, e), par) for e in self.elements(lv, env, par))
        if op == 'at':
            lv = a[0]
            while lv.op == 'ite':
                lv = lv.args[1]
            e = self.tag(a[0], env, par)
            return self.ev(a[1], self.bind(env, lv.args[0], e), par)
        if op == 'sel':
            lv = a[0].args[0]
            return env.get(lv) == self.tag(a[0], env, par)
        if op == 'before':
            return any(self.ev(a[1], self.bind(env, a[0], e), par) for e in self.earlier(a[0], a[2], env, par))
        if op in ('seenat', 'valat'):
            lv, cur = a[0], a[-1]
            p2 = dict(par or {})
            p2[cur] = ev(a[1])
            p2 = self.keep(p2)
            hit = None
            for e in self.earlier(lv, a[4], env, par):
                e2 = self.bind(env, lv, e)
                if self.ev(a[2], e2, p2):
                    hit = e2
            if op == 'seenat':
                return hit is not None
            if hit is None:
                raise NoValue('no earlier value')
            return self.ev(a[3], hit, p2)
        if op == 'pos':
            lv, = a[0]
            return sum(1 for e in self.earlier(lv, a[2], env, par) if self.ev(a[1], self.bind(env, lv, e), par))
        if op == 'psum':
            lv, = a[0]
            return sum(int(self.ev(a[1], self.bind(env, lv, e), par)) for e in self.earlier(lv, a[2], env, par))
        if op == 'prev':
            lv, = a[0]
            r = None
            for e in self.earlier(lv, a[4], env, par):
                if self.ev(a[3], self.bind(env, lv, e), par):
                    r = e
            if r is None:
                return ev(a[2])
            return self.ev(a[1], self.bind(env, lv, r), par)
        if op in ('fold', 'pfold'):
            lv, = a[0]
            els = self.ordered(lv, a[3], env, par) if op == 'fold' else self.earlier(lv, a[3], env, par)
            acc = ev(a[2])
            syms = [s for s in X.walk(a[1]) if s.op == 'sym' and s.args[0].startswith('acc:')]
            for e in els:
                p2 = dict(par or {})
                for s in syms:
                    p2[s] = acc
                acc = self.ev(a[1], self.bind(env, lv, e), self.keep(p2))
            return acc
        if op in ('jprev', 'jlast'):
            return self.joint(t, env, par)
        if op == 'foreach':
            lv, = a[0]
            out = []
            for e in self.ordered(lv, a[3], env, par):
                e2 = self.bind(env, lv, e)
                if self.ev(a[1], e2, par):
                    out.append(self.ev(a[2], e2, par))
            if X.typ(a[2]) == 'str' or out and isinstance(out[0], str):
                return ''.join(self.text(x) for x in out)
            r = []
            for x in out:
                r += x if isinstance(x, list) else [x]
            return r if out else ''
        if op == 'sofar':
            lv, = a[0]
            out = []
            for e in self.earlier(lv, a[3], env, par):
                e2 = self.bind(env, lv, e)
                if self.ev(a[1], e2, par):
                    out.append(self.ev(a[2], e2, par))
            return ''.join(self.text(x) for x in out)
        if op == 'seq':
            r = []
            for v in self.parts(a, env, par):
                r += v if isinstance(v, list) else []
            return r
        if op == 'one':
            return [ev(a[0])] if ev(a[1]) else []
        if op == 'call':
            p2 = {}
            syms = {s.args[0].split(':')[0]: s for s in X.walk(a[0]) if s.op == 'sym' and re.match(r'p\w+:', s.args[0])}
            vals = [ev(x) for x in a[1:]]
            for n, s in syms.items():
                m = re.match(r'p(\d+)$', n)
                if not m or int(m.group(1)) >= len(vals):
                    raise Unsupported('call parameters')
                p2[s] = vals[int(m.group(1))]
            return self.ev(a[0], {}, self.keep(p2))
        if op == 'app':
            return self.app(t, env, par)
        if op == 'extcall':
            return self.ext(t, env, par)
        if op == 'ref':
            return ('ref', a[0]) + tuple(self.tag(x, env, par) for x in a[1])
        if op in ('bitand', 'bitor'):
            return ev(a[0]) & ev(a[1]) if op == 'bitand' else ev(a[0]) | ev(a[1])
        if op in ('missing', 'unbound', 'none-yet'):
            raise NoValue(op)
        if op == 'exc':
            return self.exc(t, env, par)
        if op == 'distinct':
            v = ev(a[0])
            if not isinstance(v, (list, tuple)):
                raise Unsupported('distinct')
            return list(dict.fromkeys(v))
        raise Unsupported('op ' + op)

    def keep(self, p):
        """parameter environments are interned so the memo can key on identity"""
        k = ('par', tuple(sorted((s.id, repr(v)) for s, v in p.items())))
        r = self.vals.get(k)
        if r is None:
            r = self.vals[k] = p
        return r

    def parts(self, a, env, par):
        """values of adjacent parts; loops sorted together are merged by their keys"""
        out = []
        i = 0
        while i < len(a):
            n = joined(a[i])
            if n is None:
                out.append(self.ev(a[i], env, par))
                i += 1
                continue
            group = a[i:i + n]
            if len(group) < n or any(joined(x) != n for x in group):
                raise Unsupported('order of several loops')
            rows = []
            for x in group:
                lv, = x.args[0]
                order = x.args[3]
                if order.args[1].op in ('sortgroup', 'app'):
                    raise Unsupported('order')
                for e in self.elements(lv, env, par):
                    e2 = self.bind(env, lv, e)
                    if self.ev(x.args[1], e2, par):
                        rows.append((self.ev(order.args[1], e2, par), x.args[2], e2))
            rev = group[0].args[3].args[2]
            rows.sort(key=lambda t: t[0], reverse=bool(self.ev(rev, env, par)) if isinstance(rev, X.T) else False)
            vals = [self.ev(b, e2, par) for _, b, e2 in rows]
            if all(isinstance(v, str) for v in vals):
                out.append(''.join(vals))
            else:
                out.append([y for v in vals for y in (v if isinstance(v, list) else [v])])
            i += n
        return out

    def text(self, v):
        if isinstance(v, str):
            return v
        if isinstance(v, list) and not v:
            return ''
        raise NoValue('not text')

    def earlier(self, lv, order, env, par):
        if lv not in env:
            raise Unsupported('unbound level in prefix')
        out = []
        for e in self.ordered(lv, order, env, par):
            if e == env[lv]:
                return out
            out.append(e)
        raise NoValue('element not in its level')

    def joint(self, t, env, par):
        (lv,), sysT, idx, order = t.args
        n = (len(sysT.args) - 3) // 2
        fs, inits = sysT.args[:n], sysT.args[n:2 * n]
        guard, stop = sysT.args[-3:-1]
        depth = str(sysT.args[-1].args[-1])
        syms = {}
        for s in X.walk(sysT):
            if s.op == 'sym' and s.args[0].startswith('joint:') and s.args[0].rpartition(':')[2] == depth:
                i, _, k = s.args[0].split(':')[1].partition('.')
                syms[s] = (int(i), int(k) if k else None)
        els = self.ordered(lv, order, env, par) if t.op == 'jlast' else self.earlier(lv, order, env, par)

        def val(x, e, p):
            if x.op in ('unbound', 'missing'):
                return None
            return self.ev(x, e, p)
        state = [val(i, env, par) for i in inits]

        for e in els:
            e2 = self.bind(env, lv, e)
            p2 = dict(par or {})
            for s, (i, k) in syms.items():
                p2[s] = state[i] if k is None else state[i][k]
            p2 = self.keep(p2)
            if not self.ev(guard, e2, p2):
                continue
            nxt = [val(f, e2, p2) for f in fs]
            halt = self.ev(stop, e2, p2)
            state = nxt
            if halt:
                break
        return state[idx.args[1]]

    def app(self, t, env, par):
        n = t.args[0]
        xs = t.args[1:]
        ev = lambda x: self.ev(x, env, par) if isinstance(x, X.T) else x
        if n == 'mul':
            r = 1
            for x in xs:
                r *= ev(x)
            return r
        if n == 'fdivt':
            return ev(xs[0]) // ev(xs[1])
        if n == 'truediv':
            return ev(xs[0]) / ev(xs[1])
        if n == 'pow':
            return ev(xs[0]) ** ev(xs[1])
        if n == 'len':
            return len(ev(xs[0]))
        if n == 'intable':
            try:
                int(ev(xs[0]))
                return True
            except ValueError:
                return False
        if n == 'datetime.date':
            return datetime.date(*[ev(x) for x in xs])
        if n in ('ord', 'chr', 'str', 'abs'):
            return {'ord': ord, 'chr': chr, 'str': str, 'abs': abs}[n](ev(xs[0]))
        if n == 'int':
            return int(ev(xs[0]))
        if n == 'repeat':
            return ev(xs[0]) * ev(xs[1])
        if n in ('min', 'max'):
            vs = [ev(x) for x in xs]
            if len(vs) == 1 and isinstance(vs[0], list):
                vs = vs[0]
            return (min if n == 'min' else max)(vs)
        if n == 'index':
            v = ev(xs[0])
            return v[ev(xs[1])]
        if n in ('slice.str', 'slice'):
            v = ev(xs[0])
            if not isinstance(v, (str, list, tuple)):
                raise Unsupported('slice')
            s = [ev(x) for x in xs[1:]]
            return v[slice(*s)]
        if n == 'compressed':
            return '\x01' + ev(xs[0])
        if n.startswith('probe.'):
            h = self.rnd((n, repr(tuple(ev(x) for x in xs))))
            return h % 4 == 0 if n == 'probe.terminal' else h % 12
        if n == 'gobytes':
            v = ev(xs[0])
            return '<%d:%s>' % (ev(xs[1]), ','.join(str(x) for x in v)) if isinstance(v, list) else '<>'
        if n == 'sublist':
            v, lo, hi = [ev(x) for x in xs]
            return v[lo:hi]
        if n == 'loopend':
            lo, hi, k = [ev(x) for x in xs]
            if k <= 0:
                raise NoValue('step')
            return max(lo, lo - (lo - hi) // k * k)
        if n == 'countof':
            return ev(xs[0]).count(ev(xs[1]))
        if n == 'uniqset':
            return list(dict.fromkeys(ev(xs[0])))
        if n == 're.sub':
            return re.sub(*[ev(x) for x in xs])
        if n == 'str.join':
            v = ev(xs[1])
            if not isinstance(v, list):
                raise Unsupported('join')
            return ev(xs[0]).join(v)
        if n == 'os.path.join':
            import os
            return os.path.join(*[ev(x) for x in xs])
        if n.startswith('str.'):
            o = ev(xs[0])
            if not isinstance(o, str):
                raise Unsupported(n)
            return getattr(o, n[4:])(*[ev(x) for x in xs[1:]])
        raise Unsupported('app ' + n)

    def ext(self, t, env, par):
        n = t.args[0]
        vs = tuple(self.ev(x, env, par) for x in t.args[1:-1])
        if n == 'round' and 1 <= len(vs) <= 2:
            return round(*vs)
        if n == 'float' and len(vs) == 1:
            return float(vs[0])
        if n.endswith('datetime.date') and len(vs) == 3:
            return datetime.date(*vs)
        if n in ('.isoweekday', '.weekday') and len(vs) == 1:
            return getattr(vs[0], n[1:])()
        lv = tuple(env.get(l) for l in t.args[-1]) if not n in ('int', 'str') else ()
        h = self.rnd(('ext', n, repr(vs), lv))
        ty = X.typ(t)
        return h % 7 if ty in (None, 'int') else 's%d' % (h % 7)

    def exc(self, t, env, par):
        raise Unsupported('exc')


def joined(x):
    """number of loops sorted together with this one"""
    if x.op == 'foreach' and len(x.args[3].args) > 3 and isinstance(x.args[3].args[3], X.T):
        return x.args[3].args[3].args[0]
    return None


def harvest(*ts):
    ints, strs = set(), set()
    seen = set()
    ops = set()
    for t in ts:
        for x in X.walk(t, seen):
            ops.add(x.op)
            if x.op == 'const':
                v = x.args[1]
                if isinstance(v, bool) or v is None:
                    continue
                if isinstance(v, int):
                    ints.add(v)
                elif isinstance(v, str) and len(v) < 40:
                    strs.add(v)
            elif x.op == 'lin':
                ints.add(x.args[0])
            elif x.op == 'fdiv':
                ints.add(x.args[1])
            elif x.op in ('le0', 'eq0') and x.args[0].op == 'lin' and len(x.args[0].args[1]) == 1:
                (u, k), = x.args[0].args[1]
                thr = -x.args[0].args[0] // k if k else 0
                while u.op == 'fdiv' and isinstance(u.args[1], int):
                    for d in (-1, 0, 1):
                        ints.add((thr + d) * u.args[1])
                    ints.add((thr + 1) * u.args[1] - 1)
                    thr *= u.args[1]
                    u = u.args[0]
    big = {i for i in ints if abs(i) > 1}
    pool = ints | {-i for i in ints} | {i * 2 for i in big if abs(i) < 5000} | {i + 450 for i in big if i in (900,)} | {0, 1, 2000, 2001}
    return sorted(pool), sorted(strs)


def kinds(*ts):
    """which unusual inputs the terms call for"""
    apps = set()
    seen = set()
    seps = set()
    for t in ts:
        for x in X.walk(t, seen):
            if x.op == 'app':
                apps.add(x.args[0])
                if x.args[0] == 'str.split' and len(x.args) > 2 and X.is_const(x.args[2]) and isinstance(x.args[2].args[-1], str):
                    seps.add(x.args[2].args[-1])
    return {'crowd': 'countof' in apps, 'control': 'ord' in apps, 'sizes': sizes(*ts),
            'splits': tuple(sorted(seps - {''}))}


def sizes(*ts):
    """thresholds that numbers of elements are compared with, by level"""
    out = {}
    seen = set()
    for t in ts:
        for x in X.walk(t, seen):
            if x.op in ('le0', 'eq0') and x.args[0].op == 'lin' and len(x.args[0].args[1]) == 1:
                (u, k), = x.args[0].args[1]
                if u.op == 'sum' and u.args[2].op == 'const' and u.args[0].op == 'src' and k:
                    n = abs(x.args[0].args[0] // k)
                    if 3 <= n <= 400:
                        out.setdefault(u.args[0].args[0], set()).update((n - 1, n, n + 1))
            elif x.op == 'fdiv' and 3 <= x.args[1] <= 100 and (x.args[0].op in COUNTED or x.args[0].op == 'lin' and
                                                               any(u.op in COUNTED for u, _ in x.args[0].args[1])):
                # every so many elements
                for u in X.walk(x.args[0]):
                    if u.op == 'src':
                        out.setdefault(u.args[0], set()).update((x.args[1], x.args[1] + 1, x.args[1] + 2))
    return {k: sorted(v) for k, v in out.items()}


def guided(facts):
    """single-variable constraints of a path as candidate values"""
    g = {}
    for x, c in facts.eqc.items():
        if x.op == 'sym':
            g.setdefault(x.args[0], []).append(c.args[1])
    for key, (lo, hi) in facts.bnd.items():
        if len(key) == 1 and key[0][1] == 1 and key[0][0].op == 'sym':
            n = key[0][0].args[0]
            c = []
            if lo is not None:
                c += [lo, lo + 1, lo + 7]
            if hi is not None:
                c += [hi, hi - 1, hi - 7]
            if lo is not None and hi is not None:
                c = [v for v in c if lo <= v <= hi]
            if c:
                g.setdefault(n, []).extend(c)
    for a, v in facts.lits.items():
        if a.op == 'truthy' and a.args[0].op == 'sym':
            g.setdefault(a.args[0].args[0], []).append(v)
    return g


def inner_guides(a, b, most=4):
    """values on which what is quantified over in a and in b disagrees"""
    qa = {x for x in X.walk(a) if x.op == 'exists'}
    qb = {x for x in X.walk(b) if x.op == 'exists'}
    out = []
    for x in sorted(qa - qb, key=lambda x: x.id):
        for y in sorted(qb - qa, key=lambda x: x.id):
            if x.args[0] is not y.args[0] or len(out) >= most:
                continue
            for p, q in ((x, y), (y, x)):
                g = X.b_and(p.args[1], X.b_not(q.args[1]))
                path = None if g is X.FALSE else X.diff(g, X.FALSE, budget=1500)
                if path is not None:
                    c = guided(path[0])
                    if c and c not in out:
                        out.append(c)
    return out


class Result:
    EQUAL, DIFFER, UNDECIDED = 'equal', 'differ', 'undecided'


def compare(a, b, cond=X.TRUE, facts=None, levels=(), tries=400, repair=True):
    """('equal'|'differ'|'undecided', witness text)

    a and b are compared where cond holds, for arbitrary elements of `levels`."""
    if a is b:
        return Result.EQUAL, None
    facts = facts or X.Facts()
    f = facts.assume(cond)
    if f is None:
        return Result.EQUAL, None
    a2, b2 = f.restrict_now(a), f.restrict_now(b)
    if a2 is b2:
        return Result.EQUAL, None
    path = X.diff(a2, b2, f)
    guides = [{}]
    if path is not None:
        guides.append(guided(path[0]))
    guides.append(guided(f))
    guides += inner_guides(a2, b2)
    ints, strs = harvest(a2, b2, cond)
    lits = [X.atom(k) if v else X.b_not(X.atom(k)) for k, v in facts.lits.items()] + list(facts.bdds)
    kw = kinds(a2, b2, cond)
    why = None
    agreed = 0
    bad = 0
    barred = 0
    spent = 0
    m = None
    for i in range(tries):
        spent += m.steps if m else 0
        if spent > BUDGET:
            break
        m = Model(i * 7919 + 13, ints, strs, guides[i % len(guides)], **kw)
        try:
            env = {}
            for lv in levels:
                els = m.elements(lv, env, None)
                if not els:
                    raise NoValue('empty')
                env = m.bind(env, lv, m.rng.choice(els))
            if not m.ev(cond, env, None):
                continue
            if not all(m.ev(l, env, None) for l in lits):
                continue
        except NoValue:
            continue
        except Unsupported as e:
            why = str(e)
            bad += 1
            if bad > 40 and not agreed:
                return Result.UNDECIDED, why
            continue
        try:
            va = m.ev(a2, env, None)
        except NoValue:
            va = NoValue
        except Unsupported as e:
            why = str(e)
            bad += 1
            if bad > 40 and not agreed:
                return Result.UNDECIDED, why
            continue
        try:
            vb = m.ev(b2, env, None)
        except NoValue:
            vb = NoValue
        except Unsupported as e:
            why = str(e)
            bad += 1
            continue
        if va is NoValue or vb is NoValue:
            continue
        if va != vb:
            text = '%r instead of %r' % (short(va), short(vb))
            if barred < 12 and not allowed(m, a2, b2, cond, lits, levels, env):
                barred += 1
                why = 'differs only where the run stops'
                continue
            if barred < 12:
                return Result.DIFFER, 'on %s: %s' % (witness(m), text)
            break
        agreed += 1
    if repair and agreed < 10 and (lits or cond is not X.TRUE):
        w = repaired(a2, b2, cond, lits, levels, guides, kw, max(4, tries // 10))
        if w:
            return Result.DIFFER, w
    w = directed(a2, b2, cond, lits, levels, kw, 14)
    if w:
        return Result.DIFFER, w
    return Result.UNDECIDED, why or ('no witness in %d valuations' % agreed)


def split_path(a, b, f, rng, budget=60):
    """literals of one feasible path on which the diagrams a and b end in different leaves"""
    def go(a, b, f, lits):
        nonlocal budget
        budget -= 1
        if a is b or budget < 0:
            return None
        if a.op != 'ite' and b.op != 'ite':
            return lits
        top = min((t.args[0] for t in (a, b) if t.op == 'ite'), key=lambda t: t.id)
        for v in rng.sample((True, False), 2):
            l = X.atom(top) if v else X.b_not(X.atom(top))
            f2 = f.assume(l)
            if f2 is None:
                continue
            r = go(X.cof(a, top, v), X.cof(b, top, v), f2, lits + [l])
            if r is not None:
                return r
        return None
    return go(a, b, f, [])


def directed(a, b, cond, lits, levels, kw, tries):
    """valuations changed towards one path on which a and b differ, or on which what they quantify over does"""
    rng = random.Random(5)
    f = X.Facts().assume(cond)
    goals = []
    pairs = [(a, b, ())]
    qa = {x for x in X.walk(a) if x.op == 'exists'}
    qb = {x for x in X.walk(b) if x.op == 'exists'}
    for x in sorted(qa - qb, key=lambda x: x.id)[:4]:
        for y in sorted(qb - qa, key=lambda x: x.id)[:4]:
            if x.args[0] is y.args[0] and x.args[0] not in levels:
                pairs.append((x.args[1], y.args[1], (x.args[0],)))
    for p, q, more in pairs[:5]:
        for _ in range(tries):
            path = split_path(p, q, f or X.Facts(), rng)
            if path and len(path) < 40 and (path, more) not in goals:
                goals.append((path, more))
    ints, strs = harvest(a, b, cond, *lits)
    spent = 0
    for i, (path, more) in enumerate(goals[:24]):
        m = Model(i * 65537 + 11, ints, strs, {}, **kw)
        try:
            env = settle(m, [cond] + lits + path, tuple(levels) + more, 80)
            spent += m.steps
            if env is None:
                continue
            m.memo.clear()
            va, vb = m.ev(a, env, None), m.ev(b, env, None)
        except (Unsupported, NoValue):
            continue
        if va != vb and allowed(m, a, b, cond, lits, levels, env):
            return 'on %s: %r instead of %r' % (witness(m), short(va), short(vb))
        if spent > BUDGET:
            break
    return None


def witness(m):
    ins = {}
    for k, v in m.vals.items():
        n, el = k if len(k) == 2 else (None, None)
        if isinstance(n, str) and isinstance(el, tuple) and not n.startswith('par'):
            ins['%s%s' % (n, list(el) if el else '')] = v
    return ', '.join('%s=%r' % kv for kv in sorted(ins.items())[:14])


def repaired(a, b, cond, lits, levels, guides, kw, tries, steps=120):
    """valuations changed input by input until what is assumed holds"""
    ints, strs = harvest(a, b, cond, *lits)
    for i in range(tries):
        m = Model(i * 104729 + 17, ints, strs, guides[i % len(guides)], **kw)
        try:
            env = settle(m, [cond] + lits, levels, steps)
            if env is None:
                continue
            va, vb = m.ev(a, env, None), m.ev(b, env, None)
        except (Unsupported, NoValue):
            continue
        if va != vb and allowed(m, a, b, cond, lits, levels, env):
            return 'on %s: %r instead of %r' % (witness(m), short(va), short(vb))
    return None


def settle(m, wants, levels, steps):
    """changes inputs of m until all of wants hold; the environment, or None"""
    for _ in range(steps):
        env = {}
        ok = True
        m.touched = []
        for lv in levels:
            els = m.elements(lv, env, None)
            if not els:
                ok = False
                break
            env = m.bind(env, lv, els[0])
        if not ok:
            return None
        for l in wants:
            m.touched = []
            m.memo.clear()
            try:
                ok = m.ev(l, env, None)
            except NoValue:
                ok = False
            if not ok:
                break
        if ok:
            return env
        last = m.touched
        hopeless = not last
        for _ in range(6):
            m.touched = last
            if not m.change(levels):
                hopeless = True
                break
            if any(lv.op == 'src' and env[lv][-1] >= m.count(lv, env[lv][:-1]) for lv in env):
                break
            try:
                if m.ev(l, env, None):
                    break
            except NoValue:
                pass
        if hopeless:
            return None
    return None


def allowed(m, a, b, cond, lits, levels, env):
    """does the disagreement survive where no stop is reached (GUARD)? None if it cannot be told"""
    if not GUARD:
        return True
    bad = []
    for g in GUARD:
        m.memo.clear()
        try:
            if not m.ev(g, env, None):
                bad.append(g)
        except (NoValue, Unsupported):
            pass
    if not bad:
        return True
    try:
        wants = [cond] + lits
        for _ in range(12):
            e2 = settle(m, wants + bad, levels, 60)
            if e2 is None:
                return False
            m.memo.clear()
            if m.ev(a, e2, None) == m.ev(b, e2, None):
                return False
            more = []
            for g in GUARD:
                m.memo.clear()
                try:
                    if g not in bad and not m.ev(g, e2, None):
                        more.append(g)
                except (NoValue, Unsupported):
                    pass
            if not more:
                return True
            bad += more
    except (NoValue, Unsupported):
        pass
    return False


def satisfied(cond, others, levels, tries=14):
    """a valuation on which cond and all others hold"""
    return repaired(ZERO, ONE, cond, list(others), levels, [{}], kinds(cond, *others), tries)


def short(v):
    s = v if not isinstance(v, str) else v
    if isinstance(s, str) and len(s) > 120:
        return s[:120] + '…'
    return s
