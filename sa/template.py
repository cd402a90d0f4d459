"""Alignment of two text templates: literals, holes, loops and alternatives."""
import difflib
import re
from . import terms as X
from . import model as M
from .terms import mk, const, TRUE, FALSE, NONE, b_and, b_or, b_not

EQ, DIFF, UND = 'equal', 'differ', 'undecided'
TOKEN = re.compile(r'\n|[ \t]+|\w+|.', re.S)


class Node:
    __slots__ = ('kind', 'term', 'key')

    def __init__(self, kind, term, key):
        self.kind, self.term, self.key = kind, term, key


def normal(t):
    """site dependent parts replaced by placeholders"""
    def f(x):
        if x.op == 'ref' and x.args[0][1] != 'input':
            return mk('sym', 'some:' + str(x.args[0][0]), None)
        if x.op == 'unknown':
            return mk('unknown', *x.args[:1])
        if x.op == 'order' and x.args[0] == 'sorted' and x.args[1].op == 'tuple' and x.args[1].args and unique(x.args[1].args[0]):
            return mk('order', 'sorted', x.args[1].args[0], *x.args[2:])
        return None
    return rewrite(t, f, {})


def unique(k):
    if k.op == 'elemkey':
        return True
    return k.op == 'elemval' and k.args[0].op == 'elems' and k.args[0].args[0].op == 'app' and k.args[0].args[0].args[0] == 'uniqset'


def rewrite(t, f, memo):
    r = memo.get(t)
    if r is not None:
        return r

    def go(x):
        if isinstance(x, X.T):
            return rewrite(x, f, memo)
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        return x
    r = f(t)
    if r is None:
        if t.op in ('const', 'sym'):
            r = t
        else:
            args = tuple(go(a) for a in t.args)
            r = t if all(p is q for p, q in zip(args, t.args)) else mk(t.op, *args)
            r2 = f(r)
            if r2 is not None:
                r = r2
    memo[t] = r
    return r


def flatten(t):
    out = []

    def push(p):
        if p.op == 'cat':
            for q in p.args:
                push(q)
        elif p.op == 'const' and isinstance(p.args[1], str):
            for m in TOKEN.findall(p.args[1]):
                out.append(Node('text', const(m), m))
        elif p.op == 'foreach':
            n = M.joined(p)
            if n is not None and out and out[-1].kind == 'joint' and len(out[-1].term) < n and M.joined(out[-1].term[0]) == n:
                ts = out[-1].term + (p,)
                out[-1] = Node('joint', ts, tuple(x.id for x in ts))
            elif n is not None:
                out.append(Node('joint', (p,), (p.id,)))
            else:
                out.append(Node('each', p, p.id))
        elif p.op == 'ite':
            if p.args[1].op == 'const' and p.args[2].op == 'const' and not isinstance(p.args[1].args[1], str):
                out.append(Node('hole', p, p.id))
            else:
                out.append(Node('if', p, p.id))
        elif p.op == 'fmt' and p.args[1] == '' and X.typ(p.args[0]) == 'str':
            push(p.args[0])
        else:
            out.append(Node('hole', p, p.id))
    push(t)
    return out


def text_of(nodes):
    parts = []
    for n in nodes:
        parts += n.term if n.kind == 'joint' else (n.term,)
    return X.cat(*parts)


class Align:
    """report(status, why, names, a, b, context line) for every compared piece"""

    def __init__(self, report, tries=150):
        self.sink = report
        self.tries = tries
        self.n = 0
        self.about = []          # names of the alternatives a piece is chosen by

    def report(self, status, why, a, b, line, levels, kind):
        self.sink(status, why, a, b, line, levels, kind, set().union(*self.about) if self.about else set())

    def run(self, a, b, cond=TRUE, levels=()):
        if a is b:
            self.report(EQ, None, a, b, '', levels, 'text')
            return
        self.nodes(flatten(a), flatten(b), cond, levels, '')

    def nodes(self, na, nb, cond, levels, lead):
        ka, kb = [n.key for n in na], [n.key for n in nb]
        i, pre = 0, 0
        while pre < min(len(ka), len(kb)) and ka[pre] == kb[pre]:
            pre += 1
        suf = 0
        while suf < min(len(ka), len(kb)) - pre and ka[-1 - suf] == kb[-1 - suf]:
            suf += 1
        sm = difflib.SequenceMatcher(None, ka[pre:len(ka) - suf], kb[pre:len(kb) - suf], autojunk=False)
        for op, i1, i2, j1, j2 in sm.get_opcodes():
            if op == 'equal':
                self.report(EQ, None, None, None, '', levels, 'text')
                continue
            ra, rb = na[pre + i1:pre + i2], nb[pre + j1:pre + j2]
            self.region(ra, rb, cond, levels, self.line(nb, pre + j1, pre + j2, lead))
        if not sm.get_opcodes():
            self.report(EQ, None, None, None, '', levels, 'text')

    def line(self, nodes, i, j, lead):
        """the line(s) of the reference around a region, holes shown by their symbols"""
        k = i
        while k > 0 and not (nodes[k - 1].kind == 'text' and nodes[k - 1].key == '\n'):
            k -= 1
        e = j
        while e < len(nodes) and not (nodes[e].kind == 'text' and nodes[e].key == '\n'):
            e += 1
        s = ''
        for n in nodes[k:e]:
            s += n.key if n.kind == 'text' else '{%s}' % ' '.join(sorted(names_of(n))[:6])
            if len(s) > 300:
                break
        if k == 0:
            s = lead + s
        return s.strip('\n')

    def region(self, ra, rb, cond, levels, line):
        ca, cb = [n for n in ra if n.kind != 'text'], [n for n in rb if n.kind != 'text']
        if ca and len(ca) == len(cb) and all(x.kind == y.kind for x, y in zip(ca, cb)) and gaps(ra) == gaps(rb):
            for x, y in zip(ca, cb):
                self.pair(x, y, cond, levels, line)
            return
        a, b = text_of(ra), text_of(rb)
        if not ca and not cb and a.args[1].split() == b.args[1].split():
            self.report(EQ, None, a, b, line, levels, 'space')
            return
        self.whole(a, b, cond, levels, line, 'text' if not ca and not cb else 'region')

    def whole(self, a, b, cond, levels, line, kind):
        self.n += 1
        if self.n > 400:
            self.report(UND, 'too many differences', a, b, line, levels, kind)
            return
        r, why = M.compare(a, b, cond, levels=levels, tries=self.tries)
        self.report(r, why, a, b, line, levels, kind)

    def pair(self, x, y, cond, levels, line):
        if x.key == y.key:
            return
        if x.kind == 'hole':
            self.whole(x.term, y.term, cond, levels, line, 'hole')
        elif x.kind == 'joint':
            if len(x.term) != len(y.term):
                self.whole(X.cat(*x.term), X.cat(*y.term), cond, levels, line, 'loop')
                return
            ta, tb = list(x.term), list(y.term)
            pairs = []
            for t in tb:
                m = [s for s in ta if s.args[0] == t.args[0]]
                if not m:
                    self.whole(X.cat(*x.term), X.cat(*y.term), cond, levels, line, 'loop')
                    return
                ta.remove(m[0])
                pairs.append((m[0], t))
            if any(s.args[3] is not t.args[3] for s, t in pairs):
                self.whole(X.cat(*x.term), X.cat(*y.term), cond, levels, line, 'order')
                return
            for s, t in pairs:
                self.loop(s, t, cond, levels, line, False)
        elif x.kind == 'each':
            self.loop(x.term, y.term, cond, levels, line, True)
        else:
            self.cases(x.term, y.term, cond, levels, line)

    def loop(self, s, t, cond, levels, line, single):
        if s.args[0] != t.args[0]:
            self.whole(s, t, cond, levels, line, 'loop')
            return
        if s.args[3] is not t.args[3]:
            if not single:
                return
            r, why = self.same_order(s.args[3], t.args[3], cond, levels, s.args[0])
            if r is not EQ:
                self.n += 1
                r, why = M.compare(s, t, cond, levels=levels, tries=self.tries)
            self.report(r, why, s, t, line, levels, 'order')
            if r == DIFF:
                return
        lv = levels + s.args[0]
        if s.args[1] is not t.args[1]:
            r, why = M.compare(s.args[1], t.args[1], cond, levels=lv, tries=self.tries)
            self.report(r, why, s.args[1], t.args[1], line, lv, 'guard')
        g = b_and(cond, X.unname_all(t.args[1]), X.unname_all(s.args[1]))
        if g is FALSE:
            return
        self.nodes(flatten(s.args[2]), flatten(t.args[2]), g, lv, '')

    def same_order(self, a, b, cond, levels, lv):
        if a.args[0] != b.args[0] or a.args[0] != 'sorted' or a.args[2:] != b.args[2:]:
            return UND, None
        return M.compare(a.args[1], b.args[1], cond, levels=levels + lv, tries=self.tries)

    def cases(self, s, t, cond, levels, line):
        """leaf by leaf under the conjunction of both paths"""
        todo = []
        n = 0
        for la, ga in X.guarded_leaves(s):
            for lb, gb in X.guarded_leaves(t):
                n += 1
                if n > 400:
                    self.whole(s, t, cond, levels, line, 'if')
                    return
                c = b_and(cond, X.unname_all(ga), X.unname_all(gb))
                if c is FALSE or la is lb:
                    continue
                if not X.feasible(c, X.Facts(), 300):
                    continue
                todo.append((la, lb, c))
        if not todo:
            self.report(EQ, None, s, t, line, levels, 'if')
        for la, lb, c in todo:
            self.about.append(set().union(*[names_in(x) for x in X.atoms_of(c)]) if c is not cond else set())
            self.nodes(flatten(la), flatten(lb), c, levels, line)
            self.about.pop()


def gaps(nodes):
    out, cur = [], []
    for n in nodes:
        if n.kind == 'text':
            if n.key.strip():
                cur.append(n.key)
        else:
            out.append(tuple(cur))
            cur = []
    out.append(tuple(cur))
    return out


def names_in(t, seen=None):
    """symbols, loops and functions a term is made of"""
    out = set()
    for x in X.walk(t):
        if x.op == 'sym':
            out.add(x.args[0].rstrip('?'))
        elif x.op in ('elemkey', 'elemval') and x.args[0].op == 'src':
            out.add('key:' + x.args[0].args[0])
        elif x.op in ('foreach', 'sum', 'exists', 'pos', 'psum', 'fold') and x.args:
            for l in x.args[0] if isinstance(x.args[0], tuple) else (x.args[0],):
                if l.op == 'src':
                    out.add('loop:' + l.args[0])
            if x.op in ('sum', 'pos', 'psum'):
                out.add('count')
        elif x.op == 'app' and x.args[0] in ('len', 'gobytes', 'compressed', 'repeat', 're.sub', 'str.replace'):
            out.add('fn:' + x.args[0])
        elif x.op == 'in':
            out.add('member')
    return out


def names_of(n):
    ts = n.term if n.kind == 'joint' else (n.term,)
    r = set()
    for t in ts:
        r |= names_in(t)
    return r
