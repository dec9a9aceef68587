"""One spelling for statements that can be written in several ways.

Each rewriting keeps what the code does; it is applied to the reviewed text and
to the current one alike before either is analysed."""
import ast
import copy

SIMPLE = (ast.Assign, ast.AugAssign, ast.Expr, ast.Return, ast.AnnAssign)


def normal(tree, facts=None):
    t = copy.deepcopy(tree)
    facts = facts or Facts([])
    Maps(facts).visit(t)
    for n in list(ast.walk(t)):
        if isinstance(n, (ast.FunctionDef, ast.Module)):
            if isinstance(n, ast.FunctionDef):
                sorts_in_place(n)
            local = Local(n, facts)
            blocks(n, local)
    ast.fix_missing_locations(t)
    return t


class Facts:
    """What holds of attribute names and methods throughout a directory."""

    def __init__(self, trees):
        kinds, meth = {}, {}
        for t in trees:
            for n in ast.walk(t):
                if isinstance(n, ast.Assign):
                    for x in n.targets:
                        for y in ast.walk(x):
                            if isinstance(y, ast.Attribute) and isinstance(y.ctx, ast.Store):
                                kinds.setdefault(y.attr, set()).add(kind_of(n.value) if y is x else None)
                elif isinstance(n, (ast.For, ast.AnnAssign, ast.With)):
                    for y in ast.walk(n.target if not isinstance(n, ast.With) else ast.Tuple(elts=[i.optional_vars for i in n.items if i.optional_vars])):
                        if isinstance(y, ast.Attribute) and isinstance(y.ctx, ast.Store):
                            kinds.setdefault(y.attr, set()).add(None)
                elif isinstance(n, ast.ClassDef):
                    for m in n.body:
                        if isinstance(m, ast.FunctionDef):
                            meth.setdefault(m.name, []).append(m)
                        elif isinstance(m, ast.Assign):
                            for x in m.targets:
                                if isinstance(x, ast.Name):
                                    kinds.setdefault(x.id, set()).add(kind_of(m.value))
        self.kind = {k: next(iter(v)) for k, v in kinds.items() if len(v) == 1 and None not in v}
        self.nat = naturals(trees)
        self.position = positions(trees)
        self.seen = set(kinds)
        self.meth = set(meth)
        self.macro = {}
        for k, ms in meth.items():
            if len(ms) == 1 and not k.startswith('__') and k not in kinds and k not in BUILTIN and not ms[0].decorator_list:
                b = [x for x in ms[0].body if not isinstance(x, ast.Pass) and not (isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant))]
                ps = ms[0].args
                if len(b) == 1 and isinstance(b[0], ast.Return) and b[0].value is not None and len(ps.args) == 1 and not ps.vararg and not ps.kwarg and not ps.kwonlyargs:
                    v = b[0].value
                    me = ps.args[0].arg
                    used = [n for n in ast.walk(v) if isinstance(n, ast.Name)]
                    if used and all(n.id == me for n in used) and any(isinstance(n, ast.Call) for n in ast.walk(v)):
                        self.macro[k] = (me, v)


def naturals(trees):
    """Names of functions that only ever return whole numbers from 0 up."""
    fns = {}
    for t in trees:
        for n in ast.walk(t):
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                fns.setdefault(n.name, []).append(n)
    top = set(id(x) for t in trees for x in t.body)
    fns = {k: v[0] for k, v in fns.items() if len(v) == 1 and isinstance(v[0], ast.FunctionDef) and id(v[0]) in top and not v[0].decorator_list}
    out = set()
    while True:
        new = set()
        for k, fn in fns.items():
            if k in out or not isinstance(fn.body[-1], ast.Return) or any(isinstance(n, (ast.Yield, ast.YieldFrom, ast.FunctionDef, ast.Lambda, ast.Global)) for n in ast.walk(fn) if n is not fn):
                continue
            w = Whole(fn, out)
            if all(n.value is not None and w.of(n.value) for n in ast.walk(fn) if isinstance(n, ast.Return)):
                new.add(k)
        if not new:
            return out
        out |= new


def positions(trees):
    """Names of functions that only ever return -1 or whole numbers from 0 up."""
    fns = {}
    for t in trees:
        for n in ast.walk(t):
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                fns.setdefault(n.name, []).append(n)
    out = set()
    for k, fs in fns.items():
        for fn in fs:
            if not isinstance(fn, ast.FunctionDef) or not isinstance(fn.body[-1], (ast.Return, ast.Raise)) or any(
                    isinstance(n, (ast.Yield, ast.YieldFrom, ast.FunctionDef, ast.Lambda, ast.Global)) for n in ast.walk(fn) if n is not fn):
                break
            w = Whole(fn, low=-1)
            rs = [n for n in ast.walk(fn) if isinstance(n, ast.Return)]
            if not rs or not all(n.value is not None and w.of(n.value) for n in rs):
                break
        else:
            out.add(k)
    return out


class Whole:
    """Which local names of a function are never below 0."""

    def __init__(self, fn, nat=(), low=0):
        self.nat = nat
        self.low = low
        self.grows = set()
        self.src = {}
        args = [a.arg for a in ast.walk(fn.args) if isinstance(a, ast.arg)] if isinstance(fn, ast.FunctionDef) else []
        for a in args:
            self.src.setdefault(a, []).append(None)
        known = set()
        for n in ast.walk(fn):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                self.src.setdefault(n.targets[0].id, []).append(n.value)
                known.add(id(n.targets[0]))
            elif isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
                self.grows.add(n.target.id)
                self.src.setdefault(n.target.id, []).append(n.value if isinstance(n.op, (ast.Add, ast.Mult, ast.RShift)) else None)
                known.add(id(n.target))
            elif isinstance(n, ast.For) and isinstance(n.target, ast.Name) and isinstance(n.iter, ast.Call) and isinstance(n.iter.func, ast.Name) and \
                    n.iter.func.id in ('range', 'xrange') and n.iter.args and not n.iter.keywords:
                a = n.iter.args
                known.add(id(n.target))
                if len(a) == 1:
                    v = ast.Constant(value=0)
                elif len(a) == 3:
                    try:
                        st = ast.literal_eval(a[2])
                        lim = ast.literal_eval(a[1])
                    except ValueError:
                        st, lim = 0, None
                    v = ast.Constant(value=0) if type(st) is int and st < 0 and type(lim) is int and lim >= -1 else a[0] if type(st) is int and st > 0 else None
                else:
                    v = a[0]
                self.src.setdefault(n.target.id, []).append(v)
            elif isinstance(n, ast.For) and isinstance(n.target, ast.Tuple) and len(n.target.elts) == 2 and isinstance(n.target.elts[0], ast.Name) and \
                    isinstance(n.iter, ast.Call) and isinstance(n.iter.func, ast.Name) and n.iter.func.id == 'enumerate' and len(n.iter.args) == 1 and not n.iter.keywords:
                known.add(id(n.target.elts[0]))
                self.src.setdefault(n.target.elts[0].id, []).append(ast.Constant(value=0))
        for n in ast.walk(fn):
            if isinstance(n, ast.Name) and not isinstance(n.ctx, ast.Load) and id(n) not in known:
                self.src.setdefault(n.id, []).append(None)
        self.busy = set()

    def of(self, e, but=None):
        if self.low < 0 and (isinstance(e, (ast.BinOp, ast.Call)) or isinstance(e, ast.Name) and e.id in self.grows):
            # sums and the like of values that may be -1 are not followed
            was = self.low, self.busy
            self.low, self.busy = 0, set()
            try:
                return self.of(e, but)
            finally:
                self.low, self.busy = was
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub) and isinstance(e.operand, ast.Constant):
            return type(e.operand.value) is int and -e.operand.value >= self.low
        if isinstance(e, ast.Constant):
            return type(e.value) is int and e.value >= self.low
        if isinstance(e, ast.Name):
            if e.id in self.busy:
                return True
            if e.id == but or e.id not in self.src:
                return False
            self.busy.add(e.id)
            try:
                return all(v is not None and self.of(v, but) for v in self.src[e.id])
            finally:
                self.busy.discard(e.id)
        if isinstance(e, ast.IfExp):
            return self.of(e.body, but) and self.of(e.orelse, but)
        if isinstance(e, ast.BinOp):
            if isinstance(e.op, (ast.Add, ast.Mult, ast.FloorDiv, ast.RShift, ast.LShift)):
                return self.of(e.left, but) and self.of(e.right, but)
            return isinstance(e.op, ast.BitAnd) and (self.of(e.left, but) or self.of(e.right, but))
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and not e.keywords and e.func.id not in self.src and not any(isinstance(a, ast.Starred) for a in e.args):
            f = e.func.id
            if f in ('len', 'ord'):
                return True
            if f == 'abs':
                return len(e.args) == 1 and self.of(e.args[0], but)
            if f == 'min':
                return len(e.args) > 1 and all(self.of(a, but) for a in e.args)
            if f == 'max':
                return len(e.args) > 1 and any(self.of(a, but) for a in e.args) and all(self.of(a, but) or isinstance(a, ast.Name) for a in e.args)
            return f in self.nat
        return False


def ends_at(out, local):
    """while n < b (and c): ..; n += 1   leaves n at b when the test on b is
    what ended it: said in an else clause."""
    for k, w in enumerate(out):
        if not isinstance(w, ast.While) or w.orelse or len(w.body) < 1:
            continue
        tests = w.test.values if isinstance(w.test, ast.BoolOp) and isinstance(w.test.op, ast.And) else [w.test]
        c = tests[0]
        step = w.body[-1]
        if not isinstance(step, ast.AugAssign) or not isinstance(step.target, ast.Name) or ast.unparse(step.value) != '1':
            continue
        n = step.target.id
        zero = ast.Constant(value=0)
        if isinstance(step.op, ast.Add) and isinstance(c, ast.Compare) and len(c.ops) == 1 and ast.unparse(c.left) == n and isinstance(c.ops[0], (ast.Lt, ast.NotEq)):
            b = c.comparators[0]
        elif isinstance(step.op, ast.Sub) and (isinstance(c, ast.Name) and c.id == n or ast.unparse(c) in ('%s > 0' % n, '%s != 0' % n, '%s >= 1' % n, '0 < %s' % n)):
            b = None
        else:
            continue
        if len(tests) == 1 and not any(isinstance(x, ast.Break) for x in own_loop(w.body)):
            continue
        if any(isinstance(x, ast.Continue) for x in own_loop(w.body)) or any(isinstance(x, ast.NamedExpr) for x in ast.walk(w)):
            continue
        if sum(1 for x in ast.walk(w) if isinstance(x, ast.Name) and x.id == n and not isinstance(x.ctx, ast.Load)) != 1:
            continue
        start = None
        for p in reversed(out[:k]):
            if isinstance(p, ast.Assign) and len(p.targets) == 1 and isinstance(p.targets[0], ast.Name) and p.targets[0].id == n:
                start = p.value
                break
            if not isinstance(p, SIMPLE) or n in stored(p):
                break
        if start is None or local.fn is None:
            continue
        whole = Whole(local.fn, local.facts.nat)
        if b is not None:
            if not isinstance(b, ast.Name) or b.id == n or b.id in set(x.id for x in ast.walk(w) if isinstance(x, ast.Name) and not isinstance(x.ctx, ast.Load)):
                continue
            if not (isinstance(start, ast.Constant) and start.value == 0 and type(start.value) is int and whole.of(b)):
                continue
            end = copy.deepcopy(b)
        else:
            if not whole.of(start, n):
                continue
            end = zero
        w.orelse = [ast.copy_location(ast.Assign(targets=[ast.copy_location(ast.Name(id=n, ctx=ast.Store()), w)], value=ast.copy_location(end, w)), w)]
        if len(tests) > 1:
            rest = tests[1] if len(tests) == 2 else ast.copy_location(ast.BoolOp(op=ast.And(), values=tests[1:]), w.test)
            w.test = c
            w.body = [ast.copy_location(ast.If(test=ast.copy_location(ast.UnaryOp(op=ast.Not(), operand=rest), rest), body=[ast.copy_location(ast.Break(), rest)], orelse=[]), w)] + w.body


BUILTIN = set(n for t in (str, bytes, list, dict, set, tuple, int, float) for n in dir(t)) | {'read', 'write', 'close', 'flush', 'seek', 'readline', 'group', 'start', 'end'}


def agreed(ref, cur):
    """Both trees read with what holds of names in both."""
    if ref is cur:
        return ref, cur
    out = {}
    for d in set(ref.facts) & set(cur.facts):
        a, b = ref.facts[d], cur.facts[d]
        f = Facts([])
        f.kind = {k: v for k, v in a.kind.items() if b.kind.get(k) == v}
        f.kind.update((k, v) for k, v in b.kind.items() if k not in a.seen)
        f.kind.update((k, v) for k, v in a.kind.items() if k not in b.seen)
        fa, fb = Facts([]), Facts([])
        fa.kind = fb.kind = f.kind
        fa.nat = fb.nat = a.nat & b.nat
        fa.position = fb.position = a.position & b.position
        fa.macro = {k: v for k, v in a.macro.items() if k in b.macro or k not in b.meth}
        fb.macro = {k: v for k, v in b.macro.items() if k in a.macro or k not in a.meth}
        out[d] = (fa, fb)
    res = []
    for i, prj in enumerate((ref, cur)):
        want = {d: fs[i] for d, fs in out.items()}
        if all(set(prj.facts[d].macro) == set(f.macro) and prj.facts[d].nat == f.nat and prj.facts[d].kind == {k: v for k, v in f.kind.items() if k in prj.facts[d].seen} for d, f in want.items()):
            res.append(prj)
            continue
        p = type(prj)(parsed=prj.parsed, facts=want)
        p.base = prj.base
        for f in p.facts.values():
            if not hasattr(f, 'seen'):
                f.seen = set()
        res.append(p)
    return tuple(res)


def kind_of(v):
    if isinstance(v, (ast.List, ast.ListComp)):
        return 'list'
    if isinstance(v, (ast.Set, ast.SetComp)):
        return 'set'
    if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in ('set', 'list', 'sorted'):
        return {'sorted': 'list'}.get(v.func.id, v.func.id)
    return None


class Local:
    """What holds of the local names of a function."""

    def __init__(self, fn, facts):
        self.facts = facts
        self.fn = fn if isinstance(fn, ast.FunctionDef) else None
        self.fresh = fresh_lists(fn) if isinstance(fn, ast.FunctionDef) else set()
        self.kind = {}
        self.count = {}
        for n in ast.walk(fn):
            if isinstance(n, ast.Name):
                self.count[n.id] = self.count.get(n.id, 0) + 1
        if isinstance(fn, ast.FunctionDef):
            kinds = {}
            for a in ast.walk(fn.args):
                if isinstance(a, ast.arg):
                    kinds.setdefault(a.arg, set()).add(None)
            plain = set()
            for n in ast.walk(fn):
                if isinstance(n, ast.Assign):
                    for x in n.targets:
                        if isinstance(x, ast.Name):
                            kinds.setdefault(x.id, set()).add(kind_of(n.value))
                            plain.add(id(x))
                elif isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
                    plain.add(id(n.target))
                elif isinstance(n, (ast.Global, ast.Nonlocal)):
                    for x in n.names:
                        kinds.setdefault(x, set()).add(None)
            for n in ast.walk(fn):
                if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)) and id(n) not in plain:
                    kinds.setdefault(n.id, set()).add(None)
            self.kind = {k: next(iter(v)) for k, v in kinds.items() if len(v) == 1 and None not in v}

    def of(self, e):
        if isinstance(e, ast.Name):
            return self.kind.get(e.id)
        if isinstance(e, ast.Attribute):
            return self.facts.kind.get(e.attr)
        return None


def blocks(fn, local):
    todo = [fn]
    while todo:
        n = todo.pop()
        for f in ('body', 'orelse', 'finalbody'):
            b = getattr(n, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                setattr(n, f, block(b, local))
                todo += [x for x in getattr(n, f) if not isinstance(x, ast.FunctionDef)]
        for h in getattr(n, 'handlers', ()):
            todo.append(h)


def block(sts, local):
    out = []
    for s in [y for x in sts for y in alike(x) or [x]]:
        for x in [z for y in respelt(s, local) for z in taken(y, local.fresh)]:
            if isinstance(x, ast.For):
                a = out[-1] if out else None
                if isinstance(x.iter, ast.Name) and isinstance(a, ast.Assign) and len(a.targets) == 1 and isinstance(a.targets[0], ast.Name) and \
                        a.targets[0].id == x.iter.id and isinstance(a.value, ast.ListComp) and local.count.get(x.iter.id) == 2:
                    y = fused(ast.copy_location(ast.For(target=x.target, iter=a.value, body=x.body, orelse=x.orelse), x))
                    if not isinstance(y.iter, ast.ListComp):
                        out.pop()
                        x = y
                x = fused(x)
            back = returns_to_break(x)
            if back is not None:
                out += [x, back]
                continue
            both = stored_twice(out[-1], x) if out else None
            if both:
                out[-1:] = both
                continue
            if out and patched(out[-1], x):
                out[-1].value.args[0] = x.value
                continue
            if out and writes(out[-1]) is not None and writes(out[-1]) == writes(x):
                a, b = out[-1].value, x.value
                out[-1] = ast.copy_location(ast.Expr(value=ast.copy_location(ast.Call(
                    func=a.func, args=[ast.copy_location(ast.BinOp(left=a.args[0], op=ast.Add(), right=b.args[0]), a)], keywords=[]), a)), a)
                continue
            two = flagged(x, local)
            if two:
                out += two
                continue
            if isinstance(x, ast.While) and not x.orelse and out and isinstance(out[-1], SIMPLE):
                k = 0
                while k < len(out) and k < len(x.body) - 1 and isinstance(out[-1 - k], SIMPLE) and not isinstance(out[-1 - k], ast.Return) and \
                        ast.dump(out[-1 - k]) == ast.dump(x.body[-1 - k]):
                    k += 1
                if k and not goes_on(x.body) and not (isinstance(x.test, ast.Constant) and x.test.value) and any(
                        v in names(x.test) for s2 in out[-k:] for v in stored(s2)):
                    pre = out[-k:]
                    del out[-k:]
                    brk = ast.copy_location(ast.Break(), x.test)
                    iff = ast.copy_location(ast.If(test=ast.copy_location(ast.UnaryOp(op=ast.Not(), operand=x.test), x.test), body=[brk], orelse=[]), x.test)
                    x = ast.copy_location(ast.While(test=ast.copy_location(ast.Constant(value=True), x), body=pre + [iff] + x.body[:-k], orelse=[]), x)
            out.append(x)
    for k, x in enumerate(out):
        if isinstance(x, ast.While):
            known_after(x, out[k + 1:])
    ends_at(out, local)
    return just_added(out)


def flagged(w, local):
    """while c: S; if not f: break   as   f = True; while c and f: S
    where f is a flag of this loop alone."""
    if local.fn is None or not isinstance(w, ast.While) or w.orelse or isinstance(w.test, ast.Constant) or len(w.body) < 2 or goes_on(w.body) or breaks_in(w.body[:-1]):
        return None
    e = w.body[-1]
    if not (isinstance(e, ast.If) and not e.orelse and len(e.body) == 1 and isinstance(e.body[0], ast.Break) and isinstance(e.test, ast.UnaryOp) and
            isinstance(e.test.op, ast.Not) and isinstance(e.test.operand, ast.Name)):
        return None
    f = e.test.operand.id
    if any(isinstance(n, (ast.Call, ast.Await, ast.NamedExpr)) for n in ast.walk(w.test)) or f in names(w.test):
        return None
    a = w.body[0]
    if not (isinstance(a, ast.Assign) and len(a.targets) == 1 and isinstance(a.targets[0], ast.Name) and a.targets[0].id == f and isinstance(a.value, ast.Constant)):
        return None
    inside = sum(1 for n in ast.walk(w) if isinstance(n, ast.Name) and n.id == f)
    everywhere = sum(1 for n in ast.walk(local.fn) if isinstance(n, ast.Name) and n.id == f)
    if inside != everywhere or any(isinstance(n, (ast.Global, ast.Nonlocal)) for n in ast.walk(local.fn)):
        return None
    both = ast.copy_location(ast.BoolOp(op=ast.And(), values=[w.test, e.test.operand]), w.test)
    set_ = ast.copy_location(ast.Assign(targets=[ast.copy_location(ast.Name(id=f, ctx=ast.Store()), w)], value=ast.copy_location(ast.Constant(value=True), w)), w)
    return [set_, ast.copy_location(ast.While(test=both, body=w.body[:-1], orelse=[]), w)]


def breaks_in(body):
    """Does a break belong to this loop?"""
    for s in body:
        if isinstance(s, ast.Break):
            return True
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            continue
        if isinstance(s, (ast.For, ast.While)):
            if breaks_in(s.orelse):
                return True
            continue
        for f in ('body', 'orelse', 'finalbody'):
            if breaks_in(getattr(s, f, None) or []):
                return True
        for h in getattr(s, 'handlers', ()):
            if breaks_in(h.body):
                return True
    return False


def stored_twice(a, b):
    """X[c] = e; if g: X[c] += e2   as   t = e; if g: t += e2; X[c] = t"""
    if not (isinstance(a, ast.Assign) and len(a.targets) == 1 and isinstance(a.targets[0], ast.Subscript)):
        return None
    t = a.targets[0]
    if not isinstance(t.value, ast.Name) or not isinstance(t.slice, ast.Constant):
        return None
    c = b
    if isinstance(b, ast.If):
        if len(b.body) != 1 or b.orelse or t.value.id in names(b.test) or any(isinstance(n, (ast.Call, ast.Yield)) for n in ast.walk(b.test)):
            return None
        c = b.body[0]
    elif t.value.id in names(a.value):
        return None
    if isinstance(c, ast.Assign) and len(c.targets) == 1:
        d = c.targets[0]
    elif isinstance(c, ast.AugAssign):
        d = c.target
    else:
        return None
    if ast.dump(d) != ast.dump(t) or any(isinstance(n, (ast.Call, ast.Yield)) for n in ast.walk(c.value)):
        return None
    nm = '$put%d' % getattr(a, 'lineno', 0)
    want = ast.dump(t).replace('Store()', 'Load()')

    class Sw(ast.NodeTransformer):
        def visit_Subscript(self, n):
            if ast.dump(n) == want:
                return ast.copy_location(ast.Name(id=nm, ctx=ast.Load()), n)
            return self.generic_visit(n)
    v = Sw().visit(copy.deepcopy(c.value))
    if t.value.id in names(v):
        return None

    def name(ctx):
        return ast.copy_location(ast.Name(id=nm, ctx=ctx), t)
    if isinstance(c, ast.AugAssign):
        v = ast.copy_location(ast.BinOp(left=name(ast.Load()), op=c.op, right=v), c)
    again = ast.copy_location(ast.Assign(targets=[name(ast.Store())], value=v), c)
    if isinstance(b, ast.If):
        again = ast.copy_location(ast.If(test=b.test, body=[again], orelse=[]), b)
    return [ast.copy_location(ast.Assign(targets=[name(ast.Store())], value=a.value), a), again,
            ast.copy_location(ast.Assign(targets=[t], value=name(ast.Load())), a)]


def alike(s):
    """Branches going over the same loop but for one constant: the constant is
    chosen, then the loop."""
    if not isinstance(s, ast.If) or len(s.body) != len(s.orelse) or len(s.body) > 3:
        return None
    if not any(isinstance(n, (ast.For, ast.While, ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)) for x in s.body for n in ast.walk(x)):
        return None
    found = []

    def go(a, b, at, f, i):
        if type(a) is not type(b):
            if isinstance(a, ast.expr) and isinstance(b, ast.expr) and isinstance(a, (ast.Constant, ast.Name)) and isinstance(b, (ast.Constant, ast.Name)):
                found.append((a, b, at, f, i))
                return True
            return False
        if isinstance(a, ast.Constant) and (type(a.value) is not type(b.value) or a.value != b.value) or \
                isinstance(a, ast.Name) and isinstance(a.ctx, ast.Load) and a.id != b.id:
            found.append((a, b, at, f, i))
            return True
        for f, x in ast.iter_fields(a):
            y = getattr(b, f, None)
            if isinstance(x, list):
                if not isinstance(y, list) or len(x) != len(y):
                    return False
                for i, (p, q) in enumerate(zip(x, y)):
                    if isinstance(p, ast.AST):
                        if not isinstance(q, ast.AST) or not go(p, q, a, f, i):
                            return False
                    elif p != q:
                        return False
            elif isinstance(x, ast.AST):
                if not isinstance(y, ast.AST) or not go(x, y, a, f, None):
                    return False
            elif x != y:
                return False
        return True
    for i, (a, b) in enumerate(zip(s.body, s.orelse)):
        if not go(a, b, None, None, None):
            return None
    if len(found) != 1 or found[0][2] is None:
        return None
    a, b, at, f, i = found[0]
    if any(isinstance(n, (ast.FunctionDef, ast.Lambda, ast.JoinedStr)) for x in s.body for n in ast.walk(x)):
        return None
    kept = set(n.id for x in s.body + s.orelse for n in ast.walk(x) if isinstance(n, ast.Name) and not isinstance(n.ctx, ast.Load))
    if any(isinstance(x, ast.Name) and x.id in kept for x in (a, b)):
        return None
    nm = '$alt%d' % getattr(s, 'lineno', 0)
    pick = ast.copy_location(ast.Assign(targets=[ast.copy_location(ast.Name(id=nm, ctx=ast.Store()), s)], value=ast.copy_location(
        ast.IfExp(test=s.test, body=a, orelse=b), s)), s)
    use = ast.copy_location(ast.Name(id=nm, ctx=ast.Load()), a)
    if i is None:
        setattr(at, f, use)
    else:
        getattr(at, f)[i] = use
    return [pick] + s.body


def fused(s):
    """for v in [e for f in X if c]: body   as   for f in X: if c: v = e; body"""
    if not isinstance(s, ast.For) or not isinstance(s.iter, (ast.ListComp, ast.GeneratorExp)) or len(s.iter.generators) != 1 or s.iter.generators[0].is_async:
        return s
    c = s.iter
    g = c.generators[0]
    lazy = isinstance(c, ast.GeneratorExp)
    parts = [c.elt] + g.ifs
    if not lazy and any(isinstance(n, ast.Call) for p in parts for n in ast.walk(p)):
        return s
    inner = set(n.id for n in ast.walk(g.target) if isinstance(n, ast.Name))
    used = set().union(*(names(p) for p in parts)) - inner
    if any((used | names(g.iter)) & stored(b) for b in s.body) or used & stored_in(s.target) and not lazy:
        return s
    if not lazy:
        text = set(ast.dump(n) for n in ast.walk(g.iter) if isinstance(n, (ast.Name, ast.Attribute)) and not (isinstance(n, ast.Name) and n.id in ('range', 'xrange', 'len', 'sorted', 'zip', 'enumerate')))
        if any(ast.dump(n) in text for b in s.body for n in ast.walk(b) if isinstance(n, (ast.Name, ast.Attribute))):
            return s
    if ast.dump(c.elt).replace('Load()', 'Store()') == ast.dump(g.target):
        ren = {}
        if isinstance(g.target, ast.Name) and isinstance(s.target, ast.Name):
            ren = {g.target.id: s.target.id}
        elif ast.dump(g.target) != ast.dump(s.target):
            ren = None
        target, body = s.target, list(s.body)
    else:
        ren = None
    if ren is None:
        ren = {x: '_from_' + x for x in inner}
        target = Rename(ren).visit(copy.deepcopy(g.target))
        body = [ast.copy_location(ast.Assign(targets=[s.target], value=Rename(ren).visit(copy.deepcopy(c.elt))), s)] + list(s.body)
    ifs = [Rename(ren).visit(copy.deepcopy(i)) for i in g.ifs]
    if ifs:
        test = ifs[0] if len(ifs) == 1 else ast.copy_location(ast.BoolOp(op=ast.And(), values=ifs), s)
        body = [ast.copy_location(ast.If(test=test, body=body, orelse=[]), s)]
    return ast.copy_location(ast.For(target=target, iter=g.iter, body=body, orelse=s.orelse), s)


def returns_to_break(w):
    """while True: .. if c: return X   as   while True: .. if c: break   and then return X"""
    if not (isinstance(w, ast.While) and isinstance(w.test, ast.Constant) and w.test.value and not w.orelse):
        return None
    found = []

    def walk(sts):
        for i, s in enumerate(sts):
            if isinstance(s, ast.Break):
                return False
            if isinstance(s, ast.Return):
                found.append((sts, i))
            elif isinstance(s, ast.If):
                if not walk(s.body) or not walk(s.orelse):
                    return False
            elif any(isinstance(n, (ast.Return, ast.Yield)) for n in ast.walk(s)) or isinstance(s, (ast.Try, ast.With)) and any(isinstance(n, ast.Break) for n in ast.walk(s)):
                return False
        return True
    if not walk(w.body) or not found or len(set(ast.dump(b[i]) for b, i in found)) != 1:
        return None
    r = found[0][0][found[0][1]]
    if r.value is None or not any(isinstance(n, ast.Call) for n in ast.walk(r.value)):
        return None
    for b, i in found:
        b[i] = ast.copy_location(ast.Break(), b[i])
    return r


def stored_in(t):
    return set(n.id for n in ast.walk(t) if isinstance(n, ast.Name))


def just_added(sts):
    """X.append(v) and then X[-1]: that is v, until X changes."""
    i = 0
    while i < len(sts):
        r = method(sts[i], 'append')
        if r is not None and simple(r[0]):
            x = ast.dump(r[0])
            root = r[0]
            while isinstance(root, (ast.Attribute, ast.Subscript)):
                root = root.value
            hits, keep = [], set()
            for s in sts[i + 1:]:
                if not isinstance(s, SIMPLE) or root.id in stored(s) if isinstance(root, ast.Name) else True:
                    break
                last = [n for n in ast.walk(s) if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load) and ast.dump(n.value) == x and ast.unparse(n.slice) == '-1']
                inner = set(id(n.value) for n in last)
                other = [n for n in ast.walk(s) if ast.dump(n) == x and id(n) not in inner]
                calls = isinstance(r[0], ast.Attribute) and any(isinstance(n, ast.Call) for n in ast.walk(s))
                if other or calls or isinstance(r[1], ast.Name) and r[1].id in stored(s):
                    break
                if isinstance(r[0], ast.Attribute) and any(isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and n.attr == r[0].attr for n in ast.walk(s)):
                    break
                hits += [(s, n) for n in last]
            if hits:
                v = r[1]
                if not isinstance(v, ast.Name):
                    nm = '_last_%d_%d' % (sts[i].lineno, sts[i].col_offset)
                    put = ast.copy_location(ast.Assign(targets=[ast.copy_location(ast.Name(id=nm, ctx=ast.Store()), v)], value=v), sts[i])
                    v = ast.copy_location(ast.Name(id=nm, ctx=ast.Load()), v)
                    sts[i].value.args[0] = v
                    sts.insert(i, put)
                    i += 1
                for s, n in hits:
                    replace(s, n, ast.copy_location(ast.Name(id=v.id, ctx=ast.Load()), n))
        i += 1
    return sts


def names(e):
    return set(n.id for n in ast.walk(e) if isinstance(n, ast.Name))


def stored(s):
    return set(n.id for n in ast.walk(s) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store))


def goes_on(body):
    """Does a continue belong to this loop?"""
    for s in body:
        if isinstance(s, ast.Continue):
            return True
        if isinstance(s, (ast.For, ast.While, ast.FunctionDef, ast.ClassDef)):
            continue
        for f in ('body', 'orelse', 'finalbody'):
            if goes_on(getattr(s, f, None) or []):
                return True
        for h in getattr(s, 'handlers', ()):
            if goes_on(h.body):
                return True
    return False


def writes(s):
    """'sys.stdout' for sys.stdout.write(x)."""
    if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call):
        c = s.value
        if isinstance(c.func, ast.Attribute) and c.func.attr == 'write' and len(c.args) == 1 and not c.keywords and not isinstance(c.args[0], ast.Starred):
            b = c.func.value
            while isinstance(b, ast.Attribute):
                b = b.value
            if isinstance(b, ast.Name) and isinstance(c.func.value, ast.Attribute) and not any(isinstance(n, ast.Call) for n in ast.walk(c.args[0]) if not pure(n)):
                return ast.dump(c.func.value)
    return None


def pure(n):
    return isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('join', 'format', 'encode', 'strip', 'lower', 'upper')


# -- X.pop(i) is X[i] followed by del X[i]
FRESH = {'split', 'splitlines', 'rsplit', 'list', 'sorted', 'keys', 'values', 'items'}


def fresh_lists(fn):
    """Local lists nobody else can have a reference to when they are made, and
    that are only looked at, shortened or iterated."""
    ok, bad = set(), set(a.arg for a in ast.walk(fn) if isinstance(a, ast.arg))
    up = {}
    for n in ast.walk(fn):
        for c in ast.iter_child_nodes(n):
            up[c] = n
    for n in ast.walk(fn):
        if isinstance(n, ast.Name):
            p = up[n]
            if isinstance(n.ctx, ast.Store):
                v = p.value if isinstance(p, ast.Assign) and len(p.targets) == 1 and p.targets[0] is n else None
                f = v.func if isinstance(v, ast.Call) else None
                nm = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else None
                if nm in FRESH or (isinstance(v, ast.Subscript) and isinstance(v.slice, ast.Slice) and isinstance(v.value, ast.Name) and v.value.id == n.id):
                    ok.add(n.id)
                else:
                    bad.add(n.id)
            elif isinstance(n.ctx, ast.Del):
                bad.add(n.id)
            elif isinstance(p, ast.Attribute):
                if p.attr != 'pop':
                    bad.add(n.id)
            elif isinstance(p, ast.Subscript) and p.value is n:
                if isinstance(p.ctx, ast.Store):
                    bad.add(n.id)
            elif isinstance(p, (ast.For, ast.While, ast.If, ast.UnaryOp, ast.comprehension)) or (
                    isinstance(p, ast.Call) and isinstance(p.func, ast.Name) and p.func.id in ('len', 'sorted', 'enumerate')):
                pass
            else:
                bad.add(n.id)
        elif isinstance(n, (ast.FunctionDef, ast.Lambda)) and n is not fn:
            bad |= names(n)
        elif isinstance(n, (ast.Global, ast.Nonlocal)):
            bad |= set(n.names)
    return ok - bad


def certain(s):
    """Sub-expressions evaluated exactly once whenever the statement runs, in
    no particular order."""
    todo = [c for c in ast.iter_child_nodes(s) if isinstance(c, ast.expr)]
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            continue
        if isinstance(n, ast.BoolOp):
            todo.append(n.values[0])
        elif isinstance(n, ast.IfExp):
            todo.append(n.test)
        else:
            for c in ast.iter_child_nodes(n):
                if isinstance(c, ast.expr):
                    todo.append(c)
                elif isinstance(c, (ast.keyword,)):
                    todo.append(c.value)


def taken(s, local):
    """The statement with one pop(i) written as a look and a removal."""
    if isinstance(s, ast.Delete) and len(s.targets) > 1:
        return [y for t in s.targets for y in taken(ast.copy_location(ast.Delete(targets=[t]), s), local)]
    if isinstance(s, (ast.Assign, ast.AugAssign, ast.Expr)):
        ps = [n for n in certain(s) if popped(n)]
        if len(ps) == 1 and not isinstance(s, ast.AugAssign):
            n = ps[0]
            base = ast.dump(n.func.value)
            if sum(1 for x in ast.walk(s.value) if isinstance(x, ast.expr) and ast.dump(x) == base) == 1 and (
                    not isinstance(s, ast.Expr) or s.value is n):
                root = n.func.value
                get = ast.copy_location(ast.Subscript(value=copy.deepcopy(root), slice=copy.deepcopy(n.args[0]), ctx=ast.Load()), n)
                rm = ast.copy_location(ast.Delete(targets=[ast.copy_location(ast.Subscript(
                    value=copy.deepcopy(root), slice=copy.deepcopy(n.args[0]), ctx=ast.Del()), n)]), s)
                if stored(s) & (names(root) | names(n.args[0])):
                    return [s]
                if isinstance(s, ast.Expr):
                    return taken(rm, local)
                replace(s, n, get)
                return [s] + taken(rm, local)
    if isinstance(s, ast.For) and not s.orelse and len(s.body) == 1 and writes(s.body[0]) is not None:
        # one write per element
        w = s.body[0].value
        if not names(s.target) & names(w.func):
            gen = ast.ListComp(elt=w.args[0], generators=[ast.comprehension(target=s.target, iter=s.iter, ifs=[], is_async=0)])
            if isinstance(s.target, ast.Name) and isinstance(w.args[0], ast.Name) and s.target.id == w.args[0].id:
                gen = s.iter
            join = ast.Call(func=ast.Attribute(value=ast.Constant(value=''), attr='join', ctx=ast.Load()), args=[gen], keywords=[])
            r = ast.copy_location(ast.Expr(value=ast.copy_location(ast.Call(func=w.func, args=[join], keywords=[]), w)), s)
            for x in ast.walk(r):
                if isinstance(x, ast.expr) and not hasattr(x, 'lineno'):
                    ast.copy_location(x, s)
            return [r]
    if isinstance(s, ast.Delete) and isinstance(s.targets[0], ast.Subscript):
        t = s.targets[0]
        if isinstance(t.value, ast.Name) and t.value.id in local and isinstance(t.slice, ast.Constant) and t.slice.value == 0 and t.slice.value is not False:
            nm = t.value.id
            return [ast.copy_location(ast.Assign(targets=[ast.copy_location(ast.Name(id=nm, ctx=ast.Store()), s)], value=ast.copy_location(ast.Subscript(
                value=ast.copy_location(ast.Name(id=nm, ctx=ast.Load()), s), slice=ast.copy_location(ast.Slice(
                    lower=ast.copy_location(ast.Constant(value=1), s), upper=None, step=None), s), ctx=ast.Load()), s)), s)]
    return [s]


def popped(n):
    return isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'pop' and len(n.args) == 1 and not n.keywords and \
        plain(n.func.value) and plain(n.args[0]) and not (isinstance(n.args[0], ast.Constant) and n.args[0].value == -1)


def plain(e):
    while isinstance(e, ast.Attribute):
        e = e.value
    return isinstance(e, (ast.Name, ast.Constant))


def replace(s, old, new):
    for n in ast.walk(s):
        for f, v in ast.iter_fields(n):
            if v is old:
                setattr(n, f, new)
                return
            if isinstance(v, list):
                for i, x in enumerate(v):
                    if x is old:
                        v[i] = new
                        return


INPLACE = {ast.BitXor: 'symmetric_difference_update', ast.BitOr: 'update', ast.BitAnd: 'intersection_update', ast.Sub: 'difference_update'}


def respelt(s, local):
    """Statements whose effect has a plainer name."""
    if isinstance(s, ast.AugAssign):
        k = local.of(s.target)
        if k is None and isinstance(s.op, tuple(INPLACE)) and kind_of(s.value) == 'set':
            k = 'set'
        m = INPLACE.get(type(s.op)) if k == 'set' else 'extend' if k == 'list' and isinstance(s.op, ast.Add) else None
        if m and not (k == 'list' and isinstance(s.target, ast.Name)):
            t = copy.deepcopy(s.target)
            t.ctx = ast.Load()
            return respelt(call_st(s, t, m, [s.value]), local)
    r = method(s, 'symmetric_difference_update')
    if r is not None and simple(r[0]):
        # one element: it goes when it is there and comes when it is not
        v = r[1]
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in ('set', 'frozenset', 'list', 'tuple') and len(v.args) == 1 and not v.keywords:
            v = v.args[0]
        if isinstance(v, (ast.List, ast.Tuple, ast.Set)) and len(v.elts) == 1 and simple(v.elts[0]):
            v = v.elts[0]
            cp = copy.deepcopy
            test = ast.copy_location(ast.Compare(left=cp(v), ops=[ast.In()], comparators=[cp(r[0])]), s)
            return [ast.copy_location(ast.If(test=test, body=[call_st(s, cp(r[0]), 'remove', [cp(v)])], orelse=[call_st(s, cp(r[0]), 'add', [cp(v)])]), s)]
    if isinstance(s, ast.If) and isinstance(s.test, ast.Compare) and len(s.test.ops) == 1 and isinstance(s.test.ops[0], (ast.In, ast.NotIn)):
        b = s.body if isinstance(s.test.ops[0], ast.In) else s.orelse
        r = method(b[0], 'discard') if b else None
        if r is not None and (s.orelse or len(b) > 1) and same(r[0], s.test.comparators[0]) and same(r[1], s.test.left) and simple(r[0]) and simple(r[1]):
            b[0].value.func.attr = 'remove'
    if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and s.value.func.attr == 'extend' and \
            len(s.value.args) == 1 and not s.value.keywords and isinstance(s.value.args[0], (ast.ListComp, ast.GeneratorExp)) and \
            not isinstance(s.value.func.value, ast.Name) and simple(s.value.func.value):
        c = s.value.args[0]
        ns = set(n.id for g in c.generators for n in ast.walk(g.target) if isinstance(n, ast.Name))
        if not ns & names(s.value.func.value):
            ren = {x: '_each_' + x for x in ns}
            c = copy.deepcopy(c)
            first = c.generators[0].iter
            Rename(ren).visit(c)
            c.generators[0].iter = first
            body = call_st(s, s.value.func.value, 'append', [c.elt])
            for g in reversed(c.generators):
                for i in reversed(g.ifs):
                    body = ast.copy_location(ast.If(test=i, body=[body], orelse=[]), s)
                body = ast.copy_location(ast.For(target=g.target, iter=g.iter, body=[body], orelse=[]), s)
            return [body]
    if isinstance(s, ast.If) and not s.orelse and len(s.body) == 1 and isinstance(s.test, ast.Compare) and len(s.test.ops) == 1 and isinstance(s.test.ops[0], ast.In):
        r = method(s.body[0], 'remove')
        if r is not None and same(r[0], s.test.comparators[0]) and same(r[1], s.test.left) and simple(r[0]) and simple(r[1]):
            return [call_st(s, r[0], 'discard', [r[1]])]
    if isinstance(s, ast.Try) and not s.orelse and not s.finalbody and len(s.body) == 1 and len(s.handlers) == 1:
        h = s.handlers[0]
        en = h.type.id if isinstance(h.type, ast.Name) else None
        r = method(s.body[0], 'remove')
        if r is not None and en in ('KeyError', 'ValueError') and all(isinstance(x, ast.Pass) for x in h.body) and simple(r[0]) and simple(r[1]):
            return [call_st(s, r[0], 'discard', [r[1]])]
        b = s.body[0]
        if en == 'KeyError' and not h.name and isinstance(b, (ast.Return, ast.Assign)) and isinstance(b.value, ast.Subscript) and isinstance(b.value.ctx, ast.Load) and \
                simple(b.value.value) and simple(b.value.slice) and not isinstance(b.value.value, ast.Subscript) and not isinstance(b.value.slice, ast.Subscript) and (
                    isinstance(b, ast.Return) or all(isinstance(t, ast.Name) for t in b.targets)) and \
                not any(isinstance(n, ast.Raise) and n.exc is None for x in h.body for n in ast.walk(x)):
            test = ast.copy_location(ast.Compare(left=copy.deepcopy(b.value.slice), ops=[ast.In()], comparators=[copy.deepcopy(b.value.value)]), b)
            if isinstance(b, ast.Return):
                return [ast.copy_location(ast.If(test=test, body=[b], orelse=[]), s)] + h.body
            return [ast.copy_location(ast.If(test=test, body=[b], orelse=h.body), s)]
    if isinstance(s, ast.For) and not s.orelse and len(s.body) == 1 and isinstance(s.target, ast.Name):
        # the same text n times
        b = s.body[0]
        it = s.iter
        if isinstance(b, ast.AugAssign) and isinstance(b.op, ast.Add) and isinstance(b.target, ast.Name) and isinstance(b.value, ast.Constant) and isinstance(b.value.value, (str, bytes)) and \
                isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id in ('range', 'xrange') and len(it.args) == 1 and not it.keywords and s.target.id != b.target.id:
            b.value = ast.copy_location(ast.BinOp(left=b.value, op=ast.Mult(), right=it.args[0]), b)
            return [b]
    return [s]


class Rename(ast.NodeTransformer):
    def __init__(self, ren):
        self.ren = ren

    def visit_Name(self, n):
        n.id = self.ren.get(n.id, n.id)
        return n


def method(s, name):
    """(X, v) for the statement X.name(v)."""
    if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and s.value.func.attr == name and \
            len(s.value.args) == 1 and not s.value.keywords:
        return s.value.func.value, s.value.args[0]
    return None


def call_st(at, base, name, args):
    f = ast.copy_location(ast.Attribute(value=base, attr=name, ctx=ast.Load()), at)
    return ast.copy_location(ast.Expr(value=ast.copy_location(ast.Call(func=f, args=args, keywords=[]), at)), at)


def same(a, b):
    return ast.dump(a) == ast.dump(b)


def simple(e):
    """Names, attributes, constants and their subscripts."""
    while isinstance(e, (ast.Attribute, ast.Subscript)):
        if isinstance(e, ast.Subscript) and not simple(e.slice):
            return False
        e = e.value
    return isinstance(e, (ast.Name, ast.Constant))


def patched(a, b):
    """X.append(c) and then X[-1] = v."""
    r = method(a, 'append')
    if r is None or not isinstance(r[1], ast.Constant) or not simple(r[0]):
        return False
    if not isinstance(b, ast.Assign) or len(b.targets) != 1:
        return False
    t = b.targets[0]
    if not (isinstance(t, ast.Subscript) and ast.unparse(t.slice) == '-1'):
        return False
    base = ast.unparse(r[0])
    return ast.unparse(t.value) == base and not any(
        isinstance(n, ast.Call) or isinstance(n, (ast.Name, ast.Attribute, ast.Subscript)) and ast.unparse(n) == base for n in ast.walk(b.value))


def sorts_in_place(fn):
    """X.sort(..) of a list only this function can see so far: X = sorted(X, ..)."""
    for k, s in enumerate(fn.body):
        c = s.value if isinstance(s, ast.Expr) else None
        if not (isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == 'sort' and isinstance(c.func.value, ast.Name) and not c.args):
            continue
        x = c.func.value.id
        if any(isinstance(n, ast.arg) and n.arg == x for n in ast.walk(fn)) or any(
                isinstance(n, (ast.Global, ast.Nonlocal)) and x in n.names for n in ast.walk(fn)) or any(
                isinstance(n, ast.Name) and n.id == x for kw in c.keywords for n in ast.walk(kw.value)):
            continue
        good = made = True
        made = False
        for b in fn.body[:k]:
            up = {d: n for n in ast.walk(b) for d in ast.iter_child_nodes(n)}
            for n in ast.walk(b):
                if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)) and x in names(n):
                    good = False
                if not isinstance(n, ast.Name) or n.id != x:
                    continue
                p = up.get(n)
                if isinstance(n.ctx, ast.Store):
                    if isinstance(p, ast.Assign) and len(p.targets) == 1 and p.targets[0] is n and kind_of(p.value) == 'list':
                        made = True
                        continue
                elif isinstance(n.ctx, ast.Load):
                    if isinstance(p, ast.Attribute) and isinstance(up.get(p), ast.Call) and up[p].func is p and p.attr in ('append', 'extend', 'insert', 'pop', 'remove', 'sort', 'count', 'index', 'reverse'):
                        continue
                    if isinstance(p, ast.Call) and isinstance(p.func, ast.Name) and p.func.id in ('len', 'sorted', 'list', 'tuple', 'set', 'sum'):
                        continue
                    if isinstance(p, ast.Subscript) and p.value is n or isinstance(p, (ast.For, ast.comprehension, ast.If, ast.While, ast.UnaryOp)):
                        continue
                good = False
        if good and made:
            new = ast.Assign(targets=[ast.Name(id=x, ctx=ast.Store())], value=ast.Call(func=ast.Name(id='sorted', ctx=ast.Load()), args=[c.func.value], keywords=c.keywords))
            for n in ast.walk(new):
                if not hasattr(n, 'lineno'):
                    ast.copy_location(n, s)
            fn.body[k] = new


def known_after(w, rest):
    """A loop left only because its condition failed: the tests after it know
    as much, until something could change it."""
    if w.orelse or any(isinstance(n, ast.Break) for n in own_loop(w.body)):
        return
    if any(isinstance(n, (ast.Call, ast.NamedExpr)) for n in ast.walk(w.test)):
        return
    gone = []
    for t in (w.test.values if isinstance(w.test, ast.BoolOp) and isinstance(w.test.op, ast.Or) else [w.test]):
        gone.append((ast.unparse(t), False))
        gone.append((ast.unparse(inverse(t)), True))
        gone.append(('not ' + ast.unparse(t), True))
    gone = dict(gone)
    about = names(w.test)
    deep = any(isinstance(n, (ast.Attribute, ast.Subscript)) for n in ast.walk(w.test))

    def put(e):
        if isinstance(e, ast.BoolOp):
            vs = [put(v) for v in e.values]
            unit = isinstance(e.op, ast.And)
            out = []
            for v in vs:
                if isinstance(v, ast.Constant) and v.value is unit:
                    continue
                out.append(v)
                if isinstance(v, ast.Constant) and v.value is (not unit):
                    break
            if not out:
                return ast.copy_location(ast.Constant(value=unit), e)
            if len(out) == 1:
                return out[0]
            return ast.copy_location(ast.BoolOp(op=e.op, values=out), e)
        k = gone.get(ast.unparse(e))
        if k is not None:
            return ast.copy_location(ast.Constant(value=k), e)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            v = put(e.operand)
            if isinstance(v, ast.Constant) and isinstance(v.value, bool):
                return ast.copy_location(ast.Constant(value=not v.value), e)
            if v is not e.operand:
                return ast.copy_location(ast.UnaryOp(op=ast.Not(), operand=v), e)
        return e

    def changes(s):
        for n in ast.walk(s):
            if isinstance(n, (ast.NamedExpr, ast.Yield, ast.YieldFrom, ast.Await)):
                return True
            if isinstance(n, ast.Name) and not isinstance(n.ctx, ast.Load) and n.id in about:
                return True
            if deep and isinstance(n, (ast.Call, ast.Delete)):
                return True
            if deep and isinstance(n, (ast.Attribute, ast.Subscript)) and not isinstance(n.ctx, ast.Load):
                return True
        return False

    def walk(sts):
        for s in sts:
            if isinstance(s, ast.If):
                if changes(ast.Expr(value=s.test)):
                    return
                s.test = put(s.test)
                walk(s.body)
                walk(s.orelse)
                # what leaves does not matter to what follows
                if any(changes(x) for b in (s.body, s.orelse) if not (b and isinstance(b[-1], (ast.Return, ast.Raise, ast.Break, ast.Continue))) for x in b):
                    return
                continue
            if not isinstance(s, SIMPLE + (ast.Pass,)) or changes(s):
                return
    walk(rest)


def own_loop(body):
    """Statements of a loop body that a break could belong to."""
    for s in body:
        yield s
        if isinstance(s, (ast.For, ast.While)):
            for x in own_loop(s.orelse):
                yield x
            continue
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            continue
        for f in ('body', 'orelse', 'finalbody'):
            for x in own_loop(getattr(s, f, None) or []):
                yield x
        for h in getattr(s, 'handlers', ()):
            for x in own_loop(h.body):
                yield x


INVERSE = {ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.In: ast.NotIn, ast.NotIn: ast.In}


def inverse(t):
    if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        return t.operand
    if isinstance(t, ast.Compare) and len(t.ops) == 1 and type(t.ops[0]) in INVERSE:
        return ast.Compare(left=t.left, ops=[INVERSE[type(t.ops[0])]()], comparators=t.comparators)
    return ast.UnaryOp(op=ast.Not(), operand=t)


class Put(ast.NodeTransformer):
    def __init__(self, name, e):
        self.name, self.e = name, e

    def visit_Name(self, n):
        return copy.deepcopy(self.e) if n.id == self.name else n


class Maps(ast.NodeTransformer):
    """map(f, X) and filter(f, X) as comprehensions; calls of one-line methods
    as what they return; type(x) == T as isinstance(x, T)."""

    def __init__(self, facts):
        self.facts = facts
        self.inside = []

    def visit_FunctionDef(self, n):
        self.inside.append(n.name)
        self.generic_visit(n)
        self.inside.pop()
        return n

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.Eq, ast.Is, ast.NotEq, ast.IsNot)):
            c = n.left
            if isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id == 'type' and len(c.args) == 1 and not c.keywords and \
                    isinstance(n.comparators[0], ast.Name):
                r = ast.copy_location(ast.Call(func=ast.copy_location(ast.Name(id='isinstance', ctx=ast.Load()), n), args=[c.args[0], n.comparators[0]], keywords=[]), n)
                if isinstance(n.ops[0], (ast.NotEq, ast.IsNot)):
                    r = ast.copy_location(ast.UnaryOp(op=ast.Not(), operand=r), n)
                return r
        return n

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Attribute) and not n.args and not n.keywords and n.func.attr in self.facts.macro and plain(n.func.value) and \
                n.func.attr not in self.inside and len(self.inside) < 8:
            me, e = self.facts.macro[n.func.attr]
            e = Put(me, n.func.value).visit(copy.deepcopy(e))
            for x in ast.walk(e):
                if isinstance(x, ast.expr):
                    ast.copy_location(x, n)
            self.inside.append(n.func.attr)
            e = self.visit(e)
            self.inside.pop()
            return e
        if isinstance(n.func, ast.Name) and n.func.id == 'len' and len(n.args) == 1 and isinstance(n.args[0], ast.Call) and isinstance(n.args[0].func, ast.Name) and \
                n.args[0].func.id in ('max', 'min') and len(n.args[0].args) == 1 and [k.arg for k in n.args[0].keywords] == ['key'] and \
                isinstance(n.args[0].keywords[0].value, ast.Name) and n.args[0].keywords[0].value.id == 'len':
            # the length of the longest is the greatest of the lengths
            m = n.args[0]
            size = ast.Call(func=n.func, args=[ast.Name(id='_each', ctx=ast.Load())], keywords=[])
            m.args[0] = ast.ListComp(elt=size, generators=[ast.comprehension(target=ast.Name(id='_each', ctx=ast.Store()), iter=m.args[0], ifs=[], is_async=0)])
            m.keywords = []
            for x in ast.walk(m):
                if isinstance(x, ast.expr) and not hasattr(x, 'lineno'):
                    ast.copy_location(x, n)
            return m
        if not (isinstance(n.func, ast.Name) and n.func.id in ('map', 'filter') and len(n.args) == 2 and not n.keywords):
            return n
        f, xs = n.args
        if isinstance(f, ast.Lambda) and len(f.args.args) == 1 and not f.args.defaults and f.args.vararg is None and f.args.kwarg is None:
            v, body = f.args.args[0].arg, f.body
        elif plain(f) and not isinstance(f, ast.Constant):
            v = '_each'
            body = ast.Call(func=f, args=[ast.Name(id=v, ctx=ast.Load())], keywords=[])
        elif isinstance(f, ast.Constant) and f.value is None and n.func.id == 'filter':
            v = '_each'
            body = ast.Name(id=v, ctx=ast.Load())
        else:
            return n
        elt = body if n.func.id == 'map' else ast.Name(id=v, ctx=ast.Load())
        c = ast.ListComp(elt=elt, generators=[ast.comprehension(target=ast.Name(id=v, ctx=ast.Store()), iter=xs,
                                                               ifs=[body] if n.func.id == 'filter' else [], is_async=0)])
        ast.copy_location(c, n)
        for x in ast.walk(c):
            if isinstance(x, ast.expr) and not hasattr(x, 'lineno'):
                ast.copy_location(x, n)
        return c
