"""Dictionaries that only count keys, recognised from how a function uses the local name."""
import ast


def subscript_of(e, n):
    return e.slice if isinstance(e, ast.Subscript) and isinstance(e.value, ast.Name) and e.value.id == n else None


def is_one(e):
    return isinstance(e, ast.Constant) and e.value == 1 and e.value is not True


def is_zero(e):
    return isinstance(e, ast.Constant) and e.value == 0 and e.value is not False


def same(a, b):
    return ast.dump(a).replace('Store()', 'Load()') == ast.dump(b).replace('Store()', 'Load()')


def step(s):
    """(name, key) when statement s adds one to name[key]"""
    if isinstance(s, ast.AugAssign) and isinstance(s.op, ast.Add) and is_one(s.value) and \
            isinstance(s.target, ast.Subscript) and isinstance(s.target.value, ast.Name):
        return s.target.value.id, s.target.slice
    if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Subscript) and \
            isinstance(s.targets[0].value, ast.Name) and isinstance(s.value, ast.BinOp) and isinstance(s.value.op, ast.Add):
        n, k = s.targets[0].value.id, s.targets[0].slice
        for a, b in ((s.value.left, s.value.right), (s.value.right, s.value.left)):
            if not is_one(b):
                continue
            if subscript_of(a, n) is not None and same(a.slice, k):
                return n, k
            if isinstance(a, ast.Call) and isinstance(a.func, ast.Attribute) and a.func.attr == 'get' and \
                    isinstance(a.func.value, ast.Name) and a.func.value.id == n and len(a.args) == 2 and \
                    same(a.args[0], k) and is_zero(a.args[1]):
                return n, k
    if isinstance(s, ast.If) and isinstance(s.test, ast.Compare) and len(s.test.ops) == 1 and len(s.body) == 1 and \
            len(s.orelse) == 1 and isinstance(s.test.comparators[0], ast.Name):
        yes, no = s.body[0], s.orelse[0]
        if isinstance(s.test.ops[0], ast.NotIn):
            yes, no = no, yes
        elif not isinstance(s.test.ops[0], ast.In):
            return None
        r = step(yes)
        n = s.test.comparators[0].id
        if r and r[0] == n and same(r[1], s.test.left) and isinstance(no, ast.Assign) and len(no.targets) == 1 and \
                subscript_of(no.targets[0], n) is not None and same(no.targets[0].slice, r[1]) and is_one(no.value):
            return r
    return None


def start(s):
    """(name, key) when statement s only makes sure name[key] exists as zero"""
    if isinstance(s, ast.If) and not s.orelse and len(s.body) == 1 and isinstance(s.test, ast.Compare) and \
            len(s.test.ops) == 1 and isinstance(s.test.ops[0], ast.NotIn) and isinstance(s.test.comparators[0], ast.Name):
        n, a = s.test.comparators[0].id, s.body[0]
        if isinstance(a, ast.Assign) and len(a.targets) == 1 and subscript_of(a.targets[0], n) is not None and \
                same(a.targets[0].slice, s.test.left) and is_zero(a.value):
            return n, s.test.left
    if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and \
            s.value.func.attr == 'setdefault' and isinstance(s.value.func.value, ast.Name) and len(s.value.args) == 2 and \
            is_zero(s.value.args[1]):
        return s.value.func.value.id, s.value.args[0]
    return None


def makes(e):
    """an expression creating an empty dictionary"""
    if isinstance(e, ast.Dict):
        return not e.keys
    if isinstance(e, ast.Call):
        f = e.func.attr if isinstance(e.func, ast.Attribute) else e.func.id if isinstance(e.func, ast.Name) else ''
        if f in ('dict', 'OrderedDict', 'Counter'):
            return not e.args and not e.keywords
        if f == 'defaultdict':
            return len(e.args) == 1 and isinstance(e.args[0], ast.Name) and e.args[0].id == 'int'
    return False


READS = {'items', 'keys', 'values', 'get', 'most_common', 'copy'}


def own(f):
    """nodes of a function without nested functions"""
    todo = list(f.body)
    while todo:
        n = todo.pop()
        yield n
        if not isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            todo += list(ast.iter_child_nodes(n))


def scan(tree):
    """initialisers, counting statements and no-op statements of a module, by node id"""
    init, steps, noop = set(), {}, set()
    for f in ast.walk(tree):
        if not isinstance(f, ast.FunctionDef):
            continue
        made = {}
        for s in own(f):
            t = None
            if isinstance(s, ast.Assign) and len(s.targets) == 1:
                t, v = s.targets[0], s.value
            elif isinstance(s, ast.AnnAssign) and s.value is not None:
                t, v = s.target, s.value
            if isinstance(t, ast.Name) and makes(v):
                made.setdefault(t.id, []).append(s)
        for n, ss in made.items():
            if len(ss) == 1:
                r = uses(f, n, ss[0])
                if r:
                    init.add(id(ss[0]))
                    for s, k in r[0]:
                        steps[id(s)] = (n, k)
                    noop |= {id(s) for s in r[1]}
    return init, steps, noop


def uses(f, n, made):
    found, nops, inside = [], [], set()

    def block(body):
        for i, s in enumerate(body):
            if id(s) in inside:
                continue
            r = step(s)
            if r and r[0] == n:
                found.append((s, r[1]))
                inside.update(id(x) for x in ast.walk(s))
                inside.difference_update(id(x) for x in ast.walk(r[1]))
                continue
            r = start(s)
            if r and r[0] == n and i + 1 < len(body):
                r2 = step(body[i + 1])
                if r2 and r2[0] == n and same(r2[1], r[1]):
                    nops.append(s)
                    inside.update(id(x) for x in ast.walk(s))
                    continue
            for field in ('body', 'orelse', 'finalbody'):
                block(getattr(s, field, None) or [])
            for h in getattr(s, 'handlers', None) or []:
                block(h.body)
    block(f.body)
    if not found:
        return None
    parent = {}
    for x in ast.walk(f):
        for c in ast.iter_child_nodes(x):
            parent[id(c)] = x
    for x in ast.walk(f):
        if isinstance(x, ast.Name) and x.id == n and id(x) not in inside:
            p = parent[id(x)]
            if p is made:
                continue
            if isinstance(x.ctx, ast.Load):
                if isinstance(p, ast.Attribute) and p.attr in READS:
                    continue
                if isinstance(p, ast.Subscript) and isinstance(p.ctx, ast.Load):
                    continue
                if isinstance(p, (ast.Return, ast.For, ast.comprehension, ast.Compare, ast.Tuple)):
                    continue
                if isinstance(p, ast.Call) and isinstance(p.func, ast.Name) and p.func.id in ('len', 'sorted', 'list', 'set'):
                    continue
            return None
    return found, nops
