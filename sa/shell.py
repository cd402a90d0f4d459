"""Wrapper shell scripts: a small path-sensitive analysis of what they delete and which files they keep.

A path is `fresh` once a test has shown on this path that nothing of that name existed; a deletion is allowed only inside a
fresh directory.  Functions are followed at their calls, an exit trap under the facts known where it is installed."""
import re


class Unparsed(Exception):
    pass


# ---------------------------------------------------------------- lexer

def lex(text):
    """[(kind, text, line)] with kind word, op or nl"""
    out = []
    i, n, line = 0, len(text), 1
    while i < n:
        c = text[i]
        if c == '\\' and i + 1 < n and text[i + 1] == '\n':
            i += 2
            line += 1
        elif c in ' \t':
            i += 1
        elif c == '#':
            while i < n and text[i] != '\n':
                i += 1
        elif c == '\n':
            out.append(('nl', '\n', line))
            i += 1
            line += 1
        elif text.startswith((';;', '&&', '||'), i):
            out.append(('op', text[i:i + 2], line))
            i += 2
        elif c in ';|&()':
            out.append(('op', c, line))
            i += 1
        else:
            w, i, nl = word(text, i)
            out.append(('word', w, line))
            line += nl
    return out


def word(text, i):
    w, nl, n = '', 0, len(text)
    while i < n:
        c = text[i]
        if c == '\\' and i + 1 < n:
            if text[i + 1] == '\n':
                nl += 1
            else:
                w += text[i:i + 2]
            i += 2
        elif c == "'":
            j = text.index("'", i + 1)
            w += text[i:j + 1]
            nl += text.count('\n', i, j)
            i = j + 1
        elif c == '"':
            j = i + 1
            while text[j] != '"':
                j += 2 if text[j] == '\\' else 1
            w += text[i:j + 1]
            nl += text.count('\n', i, j)
            i = j + 1
        elif c == '$' and i + 1 < n and text[i + 1] in '({' or c in '!?*+@' and i + 1 < n and text[i + 1] == '(':
            op = text[i + 1]
            cl = {'(': ')', '{': '}'}[op]
            depth, j = 0, i + 1
            while j < n:
                if text[j] == op:
                    depth += 1
                elif text[j] == cl:
                    depth -= 1
                    if not depth:
                        break
                j += 1
            w += text[i:j + 1].replace('\\\n', '')
            nl += text.count('\n', i, j)
            i = j + 1
        elif c in ' \t\n;|&()' :
            break
        elif c in '<>':
            w += c
            i += 1
        else:
            w += c
            i += 1
    if not w:
        raise Unparsed('character %r' % text[i])
    return w, i, nl


# ---------------------------------------------------------------- parser

class Parser:
    def __init__(self, text):
        self.t = lex(text)
        self.i = 0

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else ('eof', '', 0)

    def take(self):
        x = self.peek()
        self.i += 1
        return x

    def skip(self):
        while self.peek()[0] == 'nl' or self.peek()[1] == ';' and self.peek()[0] == 'op':
            self.i += 1

    def expect(self, w):
        self.skip()
        x = self.take()
        if x[1] != w:
            raise Unparsed('%r where %r is expected, line %s' % (x[1], w, x[2]))

    def block(self, *ends):
        out = []
        while True:
            self.skip()
            k, w, line = self.peek()
            if k == 'eof':
                if ends:
                    raise Unparsed('end of file')
                return out
            if w in ends:
                return out
            out.append(self.andor())

    def andor(self):
        a = self.pipe()
        while self.peek()[0] == 'op' and self.peek()[1] in ('&&', '||'):
            op = self.take()[1]
            while self.peek()[0] == 'nl':
                self.take()
            b = self.pipe()
            a = ('and' if op == '&&' else 'or', a, b, a[-1])
        if self.peek()[1] == '&' and self.peek()[0] == 'op':
            self.take()
        return a

    def pipe(self):
        if self.peek()[1] == '!' and self.peek()[0] == 'word':
            line = self.take()[2]
            return ('not', self.pipe(), line)
        a = self.command()
        while self.peek()[0] == 'op' and self.peek()[1] == '|':
            self.take()
            b = self.command()
            a = ('pipe', a, b, a[-1])
        return a

    def command(self):
        k, w, line = self.peek()
        if k == 'op' and w == '(':
            self.take()
            b = self.block(')')
            self.take()
            return ('sub', b, line)
        if k != 'word':
            raise Unparsed('%r, line %s' % (w, line))
        if w == '{':
            self.take()
            b = self.block('}')
            self.take()
            return ('group', b, line)
        if w == 'if':
            self.take()
            arms = [(self.block('then'), (self.take(), self.block('elif', 'else', 'fi'))[1])]
            other = []
            while True:
                x = self.take()[1]
                if x == 'fi':
                    break
                if x == 'elif':
                    arms.append((self.block('then'), (self.take(), self.block('elif', 'else', 'fi'))[1]))
                else:
                    other = self.block('fi')
            return ('if', arms, other, line)
        if w in ('while', 'until'):
            self.take()
            c = self.block('do')
            self.take()
            b = self.block('done')
            self.take()
            return ('loop', c, b, line)
        if w == 'for':
            while self.peek()[1] != 'do':
                self.take()
            self.take()
            b = self.block('done')
            self.take()
            return ('loop', [], b, line)
        if w == 'case':
            while self.take()[1] != 'in':
                pass
            arms = []
            while True:
                self.skip()
                if self.peek()[1] == 'esac':
                    self.take()
                    break
                while self.take()[1] != ')':
                    pass
                arms.append(self.block(';;', 'esac'))
                if self.peek()[1] == ';;':
                    self.take()
            return ('case', arms, line)
        if w == 'function' or self.t[self.i + 1:self.i + 3] and [x[1] for x in self.t[self.i + 1:self.i + 3]] == ['(', ')']:
            if w == 'function':
                self.take()
            name = self.take()[1]
            if self.peek()[1] == '(':
                self.take()
                self.take()
            while self.peek()[0] == 'nl':
                self.take()
            return ('func', name, self.command(), line)
        words = []
        if w in ('[[', '['):
            close = ']]' if w == '[[' else ']'
            self.take()
            while self.peek()[1] != close:
                x = self.take()
                if x[0] == 'eof':
                    raise Unparsed('test')
                words.append(x[1])
            self.take()
            return ('test', words, line)
        while self.peek()[0] == 'word':
            words.append(self.take()[1])
        return ('test', words[1:], line) if words[0] == 'test' else ('cmd', words, line)


# ---------------------------------------------------------------- analysis

class Dead(Exception):
    pass


class State:
    def __init__(self, fresh=(), env=None, cwd='$PWD', errexit=False, sure=True):
        self.fresh = set(fresh)
        self.env = dict(env or {})
        self.cwd = cwd
        self.errexit = errexit
        self.sure = sure        # the current directory is certainly cwd

    def copy(self):
        return State(self.fresh, self.env, self.cwd, self.errexit, self.sure)


class Script:
    def __init__(self, text, name):
        self.name = name
        self.tree = Parser(text).block()
        self.funcs = {}
        self.deletes = []        # (target, allowed, line, why)
        self.kept = []           # (pattern, line)
        self.depth = 0
        self.count = 0
        self.collect(self.tree)

    def collect(self, body):
        for x in body:
            if x[0] == 'func':
                self.funcs[x[1]] = x[2]

    def run(self):
        try:
            self.block(self.tree, State())
        except Dead:
            pass

    def block(self, body, st):
        for x in body:
            self.node(x, st)

    def symbol(self, k):
        """a value known only as what the variable holds here"""
        self.count += 1
        return '$%s~%d' % (k, self.count)

    def merge(self, st, outs):
        if not outs:
            raise Dead()
        st.fresh = set.intersection(*[o.fresh for o in outs])
        e = {}
        for k in set().union(*[o.env for o in outs]):
            vs = {o.env.get(k) for o in outs}
            e[k] = vs.pop() if len(vs) == 1 else None if None in vs and k not in '@*#' and any(
                k in o.env and o.env[k] is None for o in outs) else self.symbol(k)
        st.env = e
        st.cwd = outs[0].cwd if len({o.cwd for o in outs}) == 1 else None
        st.errexit = all(o.errexit for o in outs)
        st.sure = all(o.sure for o in outs)

    def node(self, x, st):
        k = x[0]
        if k == 'func':
            return
        if k == 'cmd':
            self.cmd(x[1], st, x[2])
        elif k == 'test':
            pass
        elif k == 'group':
            self.block(x[1], st)
        elif k == 'sub':
            s = st.copy()
            try:
                self.block(x[1], s)
            except Dead:
                if st.errexit:
                    pass
        elif k == 'if':
            outs = []
            cur = st.copy()
            alive = True
            for cond, body in x[1]:
                if not alive:
                    break
                yes, no = self.cond(cond, cur)
                if yes is not None:
                    try:
                        self.block(body, yes)
                        outs.append(yes)
                    except Dead:
                        pass
                if no is None:
                    alive = False
                else:
                    cur = no
            if alive:
                try:
                    self.block(x[2], cur)
                    outs.append(cur)
                except Dead:
                    pass
            self.merge(st, outs)
        elif k == 'loop':
            s = st.copy()
            for _ in range(2):
                self.cond(x[1], s)
                t = s.copy()
                try:
                    self.block(x[2], t)
                    outs = [s, t]
                except Dead:
                    outs = [s]
                self.merge(s, outs)
            self.merge(st, [st.copy(), s])
        elif k == 'case':
            outs = [st.copy()]
            for b in x[1]:
                s = st.copy()
                try:
                    self.block(b, s)
                    outs.append(s)
                except Dead:
                    pass
            self.merge(st, outs)
        elif k in ('and', 'or'):
            yes, no = self.cond([x[1]], st.copy())
            go, rest = (yes, no) if k == 'and' else (no, yes)
            outs = [rest] if rest is not None else []
            if go is not None:
                try:
                    self.node(x[2], go)
                    outs.append(go)
                except Dead:
                    pass
            self.merge(st, outs)
        elif k == 'not':
            self.node(x[1], st)
        elif k == 'pipe':
            for y in x[1:3]:
                try:
                    self.node(y, st.copy())
                except Dead:
                    pass

    # ---- conditions: states where it holds and where it does not
    def cond(self, body, st):
        if not body:
            return st.copy(), st.copy()
        for y in body[:-1]:
            self.node(y, st)
        return self.cond1(body[-1], st)

    def cond1(self, y, st):
        if y[0] == 'test':
            t, f = self.facts(y[1], st)
            a, b = st.copy(), st.copy()
            a.fresh |= t
            b.fresh |= f
            return a, b
        if y[0] == 'not':
            a, b = self.cond1(y[1], st)
            return b, a
        if y[0] in ('and', 'or'):
            a, b = self.cond1(y[1], st)
            if y[0] == 'and':
                c, d = self.cond1(y[2], a)
                b.fresh &= d.fresh
                return c, b
            c, d = self.cond1(y[2], b)
            a.fresh &= c.fresh
            return a, d
        s = st.copy()
        s.errexit = False
        try:
            self.node(y, s)
        except Dead:
            return None, None
        ok = s.copy()
        if y[0] == 'cmd' and y[1][0] == 'mkdir' and not any(w.startswith('-') for w in y[1][1:]):
            ok.fresh |= {p for p in (self.path(w, st) for w in y[1][1:]) if p is not None}
        ok.errexit = st.errexit
        if y[0] == 'cmd' and y[1][0] == 'cd':
            ok.sure = True
        s.errexit = st.errexit
        return ok, s

    def facts(self, ws, st):
        """paths known not to exist when a test holds / does not hold"""
        def orr(i):
            t, f, i = andd(i)
            while i < len(ws) and ws[i] in ('||', '-o'):
                t2, f2, i = andd(i + 1)
                t, f = t & t2, f | f2
            return t, f, i

        def andd(i):
            t, f, i = prim(i)
            while i < len(ws) and ws[i] in ('&&', '-a'):
                t2, f2, i = prim(i + 1)
                t, f = t | t2, f & f2
            return t, f, i

        def prim(i):
            if i >= len(ws):
                return set(), set(), i
            if ws[i] == '!':
                t, f, j = prim(i + 1)
                return f, t, j
            if ws[i] == '(':
                t, f, j = orr(i + 1)
                return t, f, j + 1
            if ws[i] in ('-e', '-d', '-f') and i + 1 < len(ws):
                p = self.path(ws[i + 1], st)
                if ws[i] in ('-e', '-d') and p is not None:
                    return set(), {p if ws[i] == '-e' else 'dir:' + p}, i + 2
                return set(), set(), i + 2
            j = i
            while j < len(ws) and ws[j] not in ('&&', '||', '-a', '-o', ')'):
                j += 1
            return set(), set(), j
        return orr(0)[:2]

    # ---- words
    def expand(self, w, st):
        """canonical text of a word; unknown variables stay symbolic"""
        def sub(m):
            n = m.group(1) or m.group(2)
            if n in st.env:
                v = st.env[n]
                return v if v is not None else '?'
            if n == 'PWD':
                return st.cwd or '?'
            return '$' + n
        out = ''
        i = 0
        while i < len(w):
            c = w[i]
            if c == "'":
                j = w.index("'", i + 1)
                out += w[i + 1:j]
                i = j + 1
            elif c == '"':
                i += 1
            elif c == '$':
                m = re.compile(r'\$(?:\{(\w+)\}|(\w+|[@*#?]))').match(w, i)
                if not m:
                    return '?'
                out += sub(m)
                i = m.end()
            else:
                out += c
                i += 1
        return out

    def path(self, w, st, done=False):
        p = w if done else self.expand(w, st)
        if '?' in p or not p:
            return None
        if p[0] not in '/$~':
            if st.cwd is None:
                return None
            p = st.cwd + '/' + p
        p = re.sub(r'(/\.)+(?=/|$)', '', re.sub('/+', '/', p))
        return p.rstrip('/') or '/'

    # ---- commands
    def cmd(self, ws, st, line):
        i = 0
        while i < len(ws) and re.match(r'^\w+=', ws[i]):
            k, v = ws[i].split('=', 1)
            st.env[k] = self.value(v, st)
            i += 1
        ws = ws[i:]
        if not ws:
            return
        c = ws[0]
        if c in ('command', 'exec', 'sudo', 'builtin', 'env'):
            ws = ws[1:]
            if not ws:
                return
            c = ws[0]
        if c in ('local', 'declare', 'readonly', 'export', 'typeset'):
            for w in ws[1:]:
                if '=' in w and not w.startswith('-'):
                    k, v = w.split('=', 1)
                    st.env[k] = self.value(v, st)
            return
        if c == 'set':
            for w in ws[1:]:
                if w.startswith('-') and 'e' in w[1:] and not w.startswith('--') or w == 'errexit' and '-o' in ws:
                    st.errexit = True
                if w.startswith('+') and 'e' in w:
                    st.errexit = False
            return
        if c in ('exit', 'return'):
            raise Dead()
        if c == 'cd':
            p = self.path(ws[-1], st) if len(ws) > 1 else None
            st.cwd = p
            st.sure = st.errexit
            return
        if c == 'mkdir' and not any(w.startswith('-') for w in ws[1:]):
            for w in ws[1:]:
                p = self.path(w, st)
                if p is not None and st.errexit:
                    st.fresh.add(p)
            return
        if c == 'trap':
            if len(ws) > 2 and ws[1] not in ('-', "''", '""'):
                s = st.copy()
                s.cwd = None
                try:
                    body = Parser(self.expand(ws[1], st) if ws[1][0] in '"' else ws[1].strip("'")).block()
                    self.block(body, s)
                except Dead:
                    pass
            return
        if c in ('rm', 'rmdir', 'unlink', '/bin/rm'):
            self.remove(ws[1:], st, line)
            return
        if c == 'find' and '-delete' in ws:
            self.remove([w for w in ws[1:2]], st, line)
            return
        if c == 'shift':
            for k in set('123456789') | {k for k in st.env if k.isdigit()}:
                st.env[k] = self.symbol(k)
            return
        if c in self.funcs and self.depth < 8:
            saved = {k: st.env.get(k) for k in st.env if k.isdigit() or k in '@*#'}
            for k in saved:
                del st.env[k]
            for j, w in enumerate(ws[1:], 1):
                st.env[str(j)] = self.value(w, st, saved)
            self.depth += 1
            try:
                body = self.funcs[c]
                self.node(body, st)
            except Dead:
                if self.returns(body):
                    pass
                else:
                    raise
            finally:
                self.depth -= 1
                for k in [k for k in st.env if k.isdigit()]:
                    del st.env[k]
                st.env.update(saved)

    def returns(self, body):
        if isinstance(body, (tuple, list)):
            if body and body[0] == 'cmd' and body[1][0] == 'return':
                return True
            return any(self.returns(x) for x in body)
        return False

    def value(self, v, st, saved=None):
        if saved:
            s = st.copy()
            s.env.update(saved)
            st = s
        if re.match(r'^"?\$\(mktemp -d\b[^;&|]*\)"?$', v):
            p = self.symbol('mktemp')
            st.fresh.add(p)
            return p
        if '$(' in v or '`' in v:
            return None
        return self.expand(v, st)

    def remove(self, args, st, line):
        for w in args:
            if w.startswith('-') or w == '--':
                continue
            m = re.match(r'^!\((.*)\)$', w, re.S)
            if m:
                self.kept.append((sorted(x.strip() for x in m.group(1).split('|') if x.strip()), line))
            raw = self.expand(re.sub(r'[!?*+@]\(.*\)', '*', w, flags=re.S), st)
            if raw[:1] not in ('/', '$', '~', '?', ''):
                if not st.sure:
                    self.deletes.append((w[:40], False, line, 'relative to a directory that may not have been entered'))
                    continue
                p = st.cwd
            else:
                p = self.path(re.sub(r'[*].*$', '', raw), st, True) if '?' not in raw else None
            if p is None:
                self.deletes.append((w[:40], None, line, 'path not known'))
                continue
            ok = any(p == f or p.startswith(f + '/') for f in st.fresh)
            if not ok and any(f.startswith('dir:') and (p + '/').startswith(f[4:] + '/') for f in st.fresh):
                ok = None
            self.deletes.append((w[:40], ok, line, 'nothing shows that %s did not exist before the script' % p))


def analyse(path, name):
    with open(path, encoding='utf-8') as f:
        s = Script(f.read(), name)
    s.run()
    return s
