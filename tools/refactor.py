#!/usr/bin/env python3
"""Behaviour-preserving and behaviour-changing edits of the syntax trees, in
memory, to measure false alarms and detection of sa/conform.py.

usage: refactor.py keep|break SEED ROUNDS [name-glob] [module-glob]"""
import ast, copy, fnmatch, os, random, sys, threading
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'sa'))
sys.setrecursionlimit(100000)
import conform, load, project

FN = (ast.FunctionDef,)


def N(name, ctx=None):
    return ast.Name(id=name, ctx=ctx or ast.Load())


def S(name):
    return ast.Name(id=name, ctx=ast.Store())


def bodies(fn, loops=True):
    """(list, enclosing stmt, in_loop) of every statement list of fn (not nested defs)."""
    out = []

    def walk(lst, owner, inloop):
        out.append((lst, owner, inloop))
        for st in lst:
            if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
                continue
            for f in ('body', 'orelse', 'finalbody'):
                v = getattr(st, f, None)
                if isinstance(v, list) and v:
                    walk(v, st, inloop or (isinstance(st, (ast.For, ast.While)) and f == 'body'))
            for h in getattr(st, 'handlers', []):
                walk(h.body, st, inloop)
    walk(fn.body, fn, False)
    return out


def has(node, *types):
    nodes = node if isinstance(node, list) else [node]
    return any(isinstance(x, types) for n in nodes for x in ast.walk(n))


def names(node, ctx=None):
    nodes = node if isinstance(node, list) else [node]
    return set(x.id for n in nodes for x in ast.walk(n) if isinstance(x, ast.Name) and (ctx is None or isinstance(x.ctx, ctx)))


def fresh(fn, base):
    used = names(fn) | set(a.arg for a in ast.walk(fn) if isinstance(a, ast.arg))
    n = base
    i = 0
    while n in used:
        i += 1
        n = '%s%d' % (base, i)
    return n


def scoped(fn):
    """Names that comprehensions, lambdas or nested defs bind or capture."""
    out = set()
    for n in ast.walk(fn):
        if n is not fn and isinstance(n, (ast.Lambda, ast.FunctionDef, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp, ast.ClassDef)):
            out |= names(n)
            for a in ast.walk(n):
                if isinstance(a, ast.arg):
                    out.add(a.arg)
    return out


def negate(t):
    if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        return t.operand
    return ast.UnaryOp(op=ast.Not(), operand=t)


SIMPLE_CALLS = {'len', 'str', 'int', 'min', 'max', 'ord', 'chr', 'sum', 'range', 'list', 'dict', 'set', 'tuple', 'sorted', 'repr'}


def quiet_expr(e):
    """Expression without effects (over-careful)."""
    for n in ast.walk(e):
        if isinstance(n, ast.Call):
            if not (isinstance(n.func, ast.Name) and n.func.id in SIMPLE_CALLS):
                return False
        if isinstance(n, (ast.Yield, ast.YieldFrom, ast.Await, ast.NamedExpr)):
            return False
    return True


TX = {}


def tx(f):
    TX[f.__name__] = f
    return f


# Each transform: list of thunks for one function; running one edits fn.
@tx
def ret_temp(fn, ctx):
    for lst, o, l in bodies(fn):
        for i, st in enumerate(lst):
            if isinstance(st, ast.Return) and st.value is not None and not isinstance(st.value, ast.Constant):
                def go(lst=lst, i=i, st=st):
                    t = fresh(fn, 'outcome')
                    lst[i:i + 1] = [ast.Assign(targets=[S(t)], value=st.value), ast.Return(value=N(t))]
                yield go


@tx
def arg_temp(fn, ctx):
    for lst, o, l in bodies(fn):
        for i, st in enumerate(lst):
            if isinstance(st, (ast.Expr, ast.Assign)) and isinstance(st.value, ast.Call) and st.value.args:
                c = st.value
                a = c.args[0]
                if isinstance(a, (ast.Constant, ast.Name, ast.Starred)):
                    continue
                if isinstance(c.func, ast.Name) or isinstance(c.func, ast.Attribute) and isinstance(c.func.value, ast.Name):
                    def go(lst=lst, i=i, c=c, a=a):
                        t = fresh(fn, 'piece')
                        c.args[0] = N(t)
                        lst[i:i] = [ast.Assign(targets=[S(t)], value=a)]
                    yield go


@tx
def cond_temp(fn, ctx):
    for lst, o, l in bodies(fn):
        for i, st in enumerate(lst):
            if isinstance(st, ast.If):
                def go(lst=lst, i=i, st=st):
                    t = fresh(fn, 'wanted')
                    v = st.test
                    st.test = N(t)
                    lst[i:i] = [ast.Assign(targets=[S(t)], value=v)]
                yield go


@tx
def inline_temp(fn, ctx):
    cap = scoped(fn)
    for lst, o, l in bodies(fn):
        for i, st in enumerate(lst[:-1]):
            if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name):
                n = st.targets[0].id
                if n in cap or sum(1 for x in ast.walk(fn) if isinstance(x, ast.Name) and x.id == n) != 2:
                    continue
                nx = lst[i + 1]
                if not isinstance(nx, (ast.Expr, ast.Assign, ast.Return)):
                    continue
                if not quiet_expr(st.value):
                    continue
                v = nx.value
                if v is None or n not in names(v, ast.Load):
                    continue
                if isinstance(nx, ast.Assign) and has(nx.targets, ast.Call):
                    continue
                # only when nothing with effects can run before the use
                if not (quiet_expr(v) or isinstance(v, ast.Call) and all(quiet_expr(a) for a in v.args)):
                    continue
                if isinstance(v, (ast.ListComp, ast.GeneratorExp, ast.Lambda)):
                    continue

                def go(lst=lst, i=i, n=n, nx=nx, val=st.value):
                    class R(ast.NodeTransformer):
                        def visit_Name(self, x):
                            return val if x.id == n and isinstance(x.ctx, ast.Load) else x
                    nx.value = R().visit(nx.value)
                    del lst[i]
                yield go


@tx
def invert_if(fn, ctx):
    for lst, o, l in bodies(fn):
        for st in lst:
            if isinstance(st, ast.If) and st.orelse:
                def go(st=st):
                    st.test = negate(st.test)
                    st.body, st.orelse = st.orelse, st.body
                yield go


@tx
def guard_clause(fn, ctx):
    for lst, o, l in bodies(fn):
        st = lst[-1]
        if isinstance(st, ast.If) and not st.orelse and isinstance(o, (ast.FunctionDef, ast.For, ast.While)):
            if isinstance(o, (ast.For, ast.While)) and lst is not o.body:
                continue
            if fn.name == '<body>':
                continue

            def go(lst=lst, o=o, st=st):
                j = ast.Return(value=None) if isinstance(o, ast.FunctionDef) else ast.Continue()
                lst[-1:] = [ast.If(test=negate(st.test), body=[j], orelse=[])] + st.body
            yield go


@tx
def unguard(fn, ctx):
    """if c: continue; REST -> if not c: REST"""
    for lst, o, l in bodies(fn):
        if not (isinstance(o, (ast.For, ast.While)) and lst is o.body):
            continue
        for i, st in enumerate(lst[:-1]):
            if isinstance(st, ast.If) and not st.orelse and len(st.body) == 1 and isinstance(st.body[0], ast.Continue):
                def go(lst=lst, i=i, st=st):
                    lst[i:] = [ast.If(test=negate(st.test), body=lst[i + 1:], orelse=[])]
                yield go


@tx
def nest_and(fn, ctx):
    for lst, o, l in bodies(fn):
        for st in lst:
            if isinstance(st, ast.If) and not st.orelse and isinstance(st.test, ast.BoolOp) and isinstance(st.test.op, ast.And):
                def go(st=st):
                    a, rest = st.test.values[0], st.test.values[1:]
                    st.body = [ast.If(test=rest[0] if len(rest) == 1 else ast.BoolOp(op=ast.And(), values=rest), body=st.body, orelse=[])]
                    st.test = a
                yield go


@tx
def merge_nested(fn, ctx):
    for lst, o, l in bodies(fn):
        for st in lst:
            if isinstance(st, ast.If) and not st.orelse and len(st.body) == 1 and isinstance(st.body[0], ast.If) and not st.body[0].orelse:
                def go(st=st):
                    st.test = ast.BoolOp(op=ast.And(), values=[st.test, st.body[0].test])
                    st.body = st.body[0].body
                yield go


FLIP = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}
NEG = {ast.Lt: ast.GtE, ast.Gt: ast.LtE, ast.LtE: ast.Gt, ast.GtE: ast.Lt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq,
       ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is}


@tx
def flip_cmp(fn, ctx):
    for n in ast.walk(fn):
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in FLIP and quiet_expr(n):
            def go(n=n):
                n.left, n.comparators[0] = n.comparators[0], n.left
                n.ops[0] = FLIP[type(n.ops[0])]()
            yield go


class Repl(ast.NodeTransformer):
    def __init__(self, old, new):
        self.old, self.new, self.done = old, new, 0

    def generic_visit(self, n):
        return super().generic_visit(n)

    def visit(self, n):
        if n is self.old and not self.done:
            self.done = 1
            return self.new
        return self.generic_visit(n)


@tx
def neg_cmp(fn, ctx):
    for n in ast.walk(fn):
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in NEG:
            def go(n=n):
                m = ast.Compare(left=n.left, ops=[NEG[type(n.ops[0])]()], comparators=n.comparators)
                Repl(n, ast.UnaryOp(op=ast.Not(), operand=m)).visit(fn)
            yield go


@tx
def demorgan(fn, ctx):
    for n in ast.walk(fn):
        if isinstance(n, ast.If) and isinstance(n.test, ast.BoolOp):
            def go(n=n):
                b = n.test
                op = ast.Or() if isinstance(b.op, ast.And) else ast.And()
                n.test = ast.UnaryOp(op=ast.Not(), operand=ast.BoolOp(op=op, values=[negate(v) for v in b.values]))
            yield go


@tx
def aug_expand(fn, ctx):
    for lst, o, l in bodies(fn):
        for i, st in enumerate(lst):
            if isinstance(st, ast.AugAssign) and isinstance(st.target, (ast.Name, ast.Attribute)):
                v = st.value
                num = isinstance(v, ast.Constant) and isinstance(v.value, (int, float, str)) or isinstance(v, ast.Call) and isinstance(
                    v.func, ast.Name) and v.func.id in ('len', 'ord')
                if not num or isinstance(st.target, ast.Attribute) and not isinstance(st.target.value, ast.Name):
                    continue

                def go(lst=lst, i=i, st=st):
                    t = copy.deepcopy(st.target)
                    t.ctx = ast.Load()
                    lst[i] = ast.Assign(targets=[st.target], value=ast.BinOp(left=t, op=st.op, right=st.value))
                yield go


@tx
def aug_contract(fn, ctx):
    for lst, o, l in bodies(fn):
        for i, st in enumerate(lst):
            if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name) and isinstance(st.value, ast.BinOp):
                b = st.value
                if isinstance(b.left, ast.Name) and b.left.id == st.targets[0].id and isinstance(b.right, ast.Constant):
                    def go(lst=lst, i=i, st=st, b=b):
                        lst[i] = ast.AugAssign(target=st.targets[0], op=b.op, value=b.right)
                    yield go


@tx
def rename_local(fn, ctx):
    if fn.name == '<body>':
        return
    cap = scoped(fn)
    glob = set(x for n in ast.walk(fn) if isinstance(n, (ast.Global, ast.Nonlocal)) for x in n.names)
    ps = set(a.arg for a in ast.walk(fn.args) if isinstance(a, ast.arg))
    for v in sorted(names(fn, ast.Store) - cap - glob - ps):
        def go(v=v):
            nn = fresh(fn, v + '_val')
            for x in ast.walk(fn):
                if isinstance(x, ast.Name) and x.id == v:
                    x.id = nn
                elif isinstance(x, ast.ExceptHandler) and x.name == v:
                    x.name = nn
        yield go


@tx
def noop_stmt(fn, ctx):
    for lst, o, l in bodies(fn):
        if lst is fn.body and isinstance(lst[0], ast.Expr) and isinstance(lst[0].value, ast.Constant):
            continue

        def go(lst=lst):
            i = ctx.rng.randrange(len(lst) + 1) if not (isinstance(lst[-1], (ast.Return, ast.Raise, ast.Break, ast.Continue))) else 0
            if lst is fn.body:
                i = max(i, 1 if isinstance(lst[0], ast.Expr) and isinstance(lst[0].value, ast.Constant) else 0)
            lst.insert(i, ctx.rng.choice([ast.Pass(), ast.Assign(targets=[S('_unused_x')], value=ast.Constant(value=0)),
                                          ast.Expr(value=ast.Constant(value=None))]))
        yield go


@tx
def while_true(fn, ctx):
    for lst, o, l in bodies(fn):
        for st in lst:
            if isinstance(st, ast.While) and not st.orelse and not (isinstance(st.test, ast.Constant)):
                def go(st=st):
                    st.body = [ast.If(test=negate(st.test), body=[ast.Break()], orelse=[])] + st.body
                    st.test = ast.Constant(value=True)
                yield go


@tx
def untrue_while(fn, ctx):
    for lst, o, l in bodies(fn):
        for st in lst:
            if isinstance(st, ast.While) and isinstance(st.test, ast.Constant) and st.test.value and isinstance(st.body[0], ast.If) and not st.orelse:
                f = st.body[0]
                if len(f.body) == 1 and isinstance(f.body[0], ast.Break) and not f.orelse and len(st.body) > 1:
                    def go(st=st, f=f):
                        st.test = negate(f.test)
                        st.body = st.body[1:]
                    yield go


def local_continue(body):
    """continue statements that belong to this loop body"""
    for st in body:
        if isinstance(st, ast.Continue):
            return True
        if isinstance(st, (ast.For, ast.While, ast.FunctionDef)):
            continue
        for f in ('body', 'orelse', 'finalbody'):
            v = getattr(st, f, None)
            if isinstance(v, list) and local_continue(v):
                return True
        for h in getattr(st, 'handlers', []):
            if local_continue(h.body):
                return True
    return False


@tx
def range_while(fn, ctx):
    cap = scoped(fn)
    for lst, o, l in bodies(fn):
        for i, st in enumerate(lst):
            if isinstance(st, ast.For) and isinstance(st.target, ast.Name) and isinstance(st.iter, ast.Call) and isinstance(st.iter.func, ast.Name) \
                    and st.iter.func.id in ('range', 'xrange') and len(st.iter.args) in (1, 2) and not st.orelse and not local_continue(st.body):
                v = st.target.id
                if v in names(st.body, ast.Store) or v in cap:
                    continue
                # loop variable must be dead afterwards
                if sum(1 for x in ast.walk(fn) if isinstance(x, ast.Name) and x.id == v) != sum(
                        1 for x in ast.walk(st) if isinstance(x, ast.Name) and x.id == v):
                    continue

                def go(lst=lst, i=i, st=st, v=v):
                    a = st.iter.args
                    lo = a[0] if len(a) == 2 else ast.Constant(value=0)
                    t = fresh(fn, 'stop')
                    lst[i:i + 1] = [ast.Assign(targets=[S(t)], value=a[-1]), ast.Assign(targets=[S(v)], value=lo),
                                    ast.While(test=ast.Compare(left=N(v), ops=[ast.Lt()], comparators=[N(t)]),
                                              body=st.body + [ast.AugAssign(target=S(v), op=ast.Add(), value=ast.Constant(value=1))], orelse=[])]
                yield go


@tx
def for_index(fn, ctx):
    """for x in NAME -> for i in range(len(NAME)): x = NAME[i] when NAME is an unchanged local/param list"""
    for lst, o, l in bodies(fn):
        for i, st in enumerate(lst):
            if isinstance(st, ast.For) and isinstance(st.iter, ast.Name) and isinstance(st.target, ast.Name) and not st.orelse:
                n = st.iter.id
                # must be a list: it was built by a list display / split / list()
                defs = [x.value for x in ast.walk(fn) if isinstance(x, ast.Assign) and any(isinstance(t, ast.Name) and t.id == n for t in x.targets)]
                if not defs or not all(isinstance(d, (ast.List, ast.ListComp)) or isinstance(d, ast.Call) and (
                        isinstance(d.func, ast.Attribute) and d.func.attr == 'split' or isinstance(d.func, ast.Name) and d.func.id in ('list', 'sorted')) for d in defs):
                    continue
                if n in names(st.body):
                    continue

                def go(st=st, n=n):
                    k = fresh(fn, 'pos')
                    st.body = [ast.Assign(targets=[st.target], value=ast.Subscript(value=N(n), slice=N(k), ctx=ast.Load()))] + st.body
                    st.target = S(k)
                    st.iter = ast.Call(func=N('range'), args=[ast.Call(func=N('len'), args=[N(n)], keywords=[])], keywords=[])
                yield go


@tx
def enum_index(fn, ctx):
    """for x in xs: -> for i, x in enumerate(xs) with unused i"""
    for lst, o, l in bodies(fn):
        for i, st in enumerate(lst):
            if isinstance(st, ast.For) and not (isinstance(st.iter, ast.Call) and isinstance(st.iter.func, ast.Name) and st.iter.func.id == 'enumerate'):
                def go(st=st):
                    k = fresh(fn, 'pos')
                    st.target = ast.Tuple(elts=[S(k), st.target], ctx=ast.Store())
                    st.iter = ast.Call(func=N('enumerate'), args=[st.iter], keywords=[])
                yield go


@tx
def range_enum(fn, ctx):
    """for i in range(len(X)): ... X[i] (read) -> for i, x in enumerate(X)"""
    for lst, o, l in bodies(fn):
        for st in lst:
            if isinstance(st, ast.For) and isinstance(st.target, ast.Name) and isinstance(st.iter, ast.Call) and isinstance(st.iter.func, ast.Name) and st.iter.func.id in (
                    'range', 'xrange') and len(st.iter.args) == 1 and isinstance(st.iter.args[0], ast.Call) and isinstance(st.iter.args[0].func, ast.Name) and st.iter.args[0].func.id == 'len':
                X = st.iter.args[0].args[0]
                if not isinstance(X, ast.Name) or X.id in names(st.body, ast.Store):
                    continue
                d = ast.dump(ast.Subscript(value=N(X.id), slice=N(st.target.id), ctx=ast.Load()))
                if any(isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == X.id for x in ast.walk(st)):
                    continue
                if any(isinstance(x, ast.Subscript) and not isinstance(x.ctx, ast.Load) and X.id in names(x) for x in ast.walk(st)):
                    continue
                if st.target.id in names(st.body, ast.Store):
                    continue

                def go(st=st, X=X, d=d):
                    t = fresh(fn, 'item')
                    body = []

                    class R(ast.NodeTransformer):
                        def visit_Subscript(self, n):
                            if ast.dump(n) == d:
                                return N(t)
                            return self.generic_visit(n)
                    st.body = [R().visit(b) for b in st.body]
                    st.iter = ast.Call(func=N('enumerate'), args=[X], keywords=[])
                    st.target = ast.Tuple(elts=[st.target, S(t)], ctx=ast.Store())
                yield go


@tx
def comp_loop(fn, ctx):
    for lst, o, l in bodies(fn):
        for i, st in enumerate(lst):
            if isinstance(st, (ast.Assign, ast.Return)) and isinstance(st.value, ast.ListComp) and len(st.value.generators) == 1:
                g = st.value.generators[0]
                if isinstance(st, ast.Assign) and not isinstance(st.targets[0], (ast.Name, ast.Attribute)):
                    continue

                def go(lst=lst, i=i, st=st, g=g):
                    acc = fresh(fn, 'acc')
                    ren = {}
                    used = names(fn)
                    for x in names(g.target, ast.Store):
                        ren[x] = fresh(fn, x + '_it')
                    comp = copy.deepcopy(st.value)
                    for x in ast.walk(comp):
                        if isinstance(x, ast.Name) and x.id in ren:
                            x.id = ren[x.id]
                    it = g.iter
                    g2 = comp.generators[0]
                    b = [ast.Expr(value=ast.Call(func=ast.Attribute(value=N(acc), attr='append', ctx=ast.Load()), args=[comp.elt], keywords=[]))]
                    for c in reversed(g2.ifs):
                        b = [ast.If(test=c, body=b, orelse=[])]
                    loop = ast.For(target=g2.target, iter=it, body=b, orelse=[])
                    st.value = N(acc)
                    lst[i:i] = [ast.Assign(targets=[S(acc)], value=ast.List(elts=[], ctx=ast.Load())), loop]
                yield go


@tx
def loop_comp(fn, ctx):
    for lst, o, l in bodies(fn):
        for i, st in enumerate(lst):
            if isinstance(st, ast.For) and not st.orelse and len(st.body) == 1:
                b = st.body[0]
                ifs = []
                while isinstance(b, ast.If) and not b.orelse and len(b.body) == 1:
                    ifs.append(b.test)
                    b = b.body[0]
                if not (isinstance(b, ast.Expr) and isinstance(b.value, ast.Call) and isinstance(b.value.func, ast.Attribute)
                        and b.value.func.attr == 'append' and isinstance(b.value.func.value, ast.Name)):
                    continue
                x = b.value.func.value.id
                if x in names(b.value.args[0]) or any(x in names(c) for c in ifs) or x in names(st.iter):
                    continue
                tv = names(st.target, ast.Store)
                if any(sum(1 for y in ast.walk(fn) if isinstance(y, ast.Name) and y.id == v) != sum(1 for y in ast.walk(st) if isinstance(y, ast.Name) and y.id == v) for v in tv):
                    continue
                if not quiet_expr(b.value.args[0]) or not all(quiet_expr(c) for c in ifs):
                    continue

                def go(lst=lst, i=i, st=st, b=b, ifs=ifs, x=x):
                    comp = ast.ListComp(elt=b.value.args[0], generators=[ast.comprehension(target=st.target, iter=st.iter, ifs=ifs, is_async=0)])
                    p = lst[i - 1] if i else None
                    if isinstance(p, ast.Assign) and isinstance(p.value, ast.List) and not p.value.elts and isinstance(p.targets[0], ast.Name) and p.targets[0].id == x:
                        p.value = comp
                        del lst[i]
                    else:
                        lst[i] = ast.Expr(value=ast.Call(func=ast.Attribute(value=N(x), attr='extend', ctx=ast.Load()), args=[comp], keywords=[]))
                yield go


@tx
def swap_indep(fn, ctx):
    def rw(st):
        if not isinstance(st, ast.Assign) or len(st.targets) != 1 or not quiet_expr(st.value):
            return None
        t = st.targets[0]
        if isinstance(t, ast.Name):
            return names(st.value), {t.id}
        if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name):
            attrs = set(x.attr for x in ast.walk(st.value) if isinstance(x, ast.Attribute))
            return names(st.value) | attrs | {t.value.id}, {'.' + t.attr}
        return None
    for lst, o, l in bodies(fn):
        for i in range(len(lst) - 1):
            a, b = rw(lst[i]), rw(lst[i + 1])
            if a and b and not (a[1] & b[0] or b[1] & a[0] or a[1] & b[1]):
                aw, bw = list(a[1])[0], list(b[1])[0]
                if aw.startswith('.') and (aw[1:] in b[0] or any(isinstance(x, ast.Attribute) and x.attr == aw[1:] for x in ast.walk(lst[i + 1]))):
                    continue
                if bw.startswith('.') and (bw[1:] in a[0] or any(isinstance(x, ast.Attribute) and x.attr == bw[1:] for x in ast.walk(lst[i]))):
                    continue

                def go(lst=lst, i=i):
                    lst[i], lst[i + 1] = lst[i + 1], lst[i]
                yield go


@tx
def if_ternary(fn, ctx):
    for lst, o, l in bodies(fn):
        for i, st in enumerate(lst):
            if isinstance(st, ast.If) and len(st.body) == 1 and len(st.orelse) == 1:
                a, b = st.body[0], st.orelse[0]
                if isinstance(a, ast.Return) and isinstance(b, ast.Return) and a.value and b.value:
                    def go(lst=lst, i=i, st=st, a=a, b=b):
                        lst[i] = ast.Return(value=ast.IfExp(test=st.test, body=a.value, orelse=b.value))
                    yield go
                elif isinstance(a, ast.Assign) and isinstance(b, ast.Assign) and ast.dump(a.targets[0]) == ast.dump(b.targets[0]) and isinstance(a.targets[0], (ast.Name, ast.Attribute)):
                    def go(lst=lst, i=i, st=st, a=a, b=b):
                        lst[i] = ast.Assign(targets=a.targets, value=ast.IfExp(test=st.test, body=a.value, orelse=b.value))
                    yield go


@tx
def ternary_if(fn, ctx):
    for lst, o, l in bodies(fn):
        for i, st in enumerate(lst):
            if isinstance(st, (ast.Assign, ast.Return)) and isinstance(st.value, ast.IfExp):
                def go(lst=lst, i=i, st=st):
                    e = st.value
                    a, b = copy.deepcopy(st), st
                    a.value, b.value = e.body, e.orelse
                    lst[i] = ast.If(test=e.test, body=[a], orelse=[b])
                yield go


@tx
def else_after_return(fn, ctx):
    for lst, o, l in bodies(fn):
        for i, st in enumerate(lst):
            if isinstance(st, ast.If) and st.orelse and isinstance(st.body[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break)):
                def go(lst=lst, i=i, st=st):
                    tail = st.orelse
                    st.orelse = []
                    lst[i + 1:i + 1] = tail
                yield go


@tx
def return_else(fn, ctx):
    for lst, o, l in bodies(fn):
        for i, st in enumerate(lst[:-1]):
            if isinstance(st, ast.If) and not st.orelse and isinstance(st.body[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break)):
                def go(lst=lst, i=i, st=st):
                    st.orelse = lst[i + 1:]
                    del lst[i + 1:]
                yield go


@tx
def single_exit(fn, ctx):
    """if c: return A; return B -> r = B; if c: r = A; return r (constants)"""
    lst = fn.body
    if len(lst) >= 2 and isinstance(lst[-1], ast.Return) and isinstance(lst[-2], ast.If) and not lst[-2].orelse:
        b = lst[-2].body
        if len(b) == 1 and isinstance(b[0], ast.Return) and isinstance(lst[-1].value, ast.Constant) and b[0].value is not None:
            def go():
                t = fresh(fn, 'outcome')
                last = lst.pop()
                lst[-1].body = [ast.Assign(targets=[S(t)], value=b[0].value)]
                lst.insert(len(lst) - 1, ast.Assign(targets=[S(t)], value=last.value))
                lst.append(ast.Return(value=N(t)))
            yield go


@tx
def fmt_format(fn, ctx):
    import re
    for n in ast.walk(fn):
        if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
            parts = re.findall(r'%[-0-9.]*[a-zA-Z%]', n.left.value)
            if not parts or not all(p == '%s' for p in parts) or '{' in n.left.value:
                continue
            args = n.right.elts if isinstance(n.right, ast.Tuple) else [n.right]
            if len(args) != len(parts) or len(args) == 1 and not isinstance(n.right, ast.Tuple) and not isinstance(n.right, (ast.Attribute, ast.Constant)):
                continue

            def go(n=n, args=args):
                m = ast.Call(func=ast.Attribute(value=ast.Constant(value=n.left.value.replace('%s', '{}')), attr='format', ctx=ast.Load()), args=list(args), keywords=[])
                Repl(n, m).visit(fn)
            yield go
            if ctx.py3:
                def go2(n=n, args=args):
                    vals, segs = [], n.left.value.split('%s')
                    for k, s in enumerate(segs):
                        if s:
                            vals.append(ast.Constant(value=s))
                        if k < len(args):
                            vals.append(ast.FormattedValue(value=args[k], conversion=-1, format_spec=None))
                    Repl(n, ast.JoinedStr(values=vals)).visit(fn)
                yield go2


@tx
def items_loop(fn, ctx):
    """for k, v in d.items(): -> for k in d: v = d[k]"""
    for lst, o, l in bodies(fn):
        for st in lst:
            if isinstance(st, ast.For) and isinstance(st.target, ast.Tuple) and len(st.target.elts) == 2 and isinstance(st.iter, ast.Call) and isinstance(
                    st.iter.func, ast.Attribute) and st.iter.func.attr in ('items', 'iteritems') and not st.iter.args and isinstance(st.iter.func.value, (ast.Name, ast.Attribute)) and isinstance(st.target.elts[0], ast.Name):
                d = st.iter.func.value
                if isinstance(d, ast.Attribute) or d.id in names(st.body) or has(st.body, ast.Call) and not all(True for _ in ()):
                    continue

                def go(st=st, d=d):
                    k, v = st.target.elts
                    st.body = [ast.Assign(targets=[v], value=ast.Subscript(value=copy.deepcopy(d), slice=N(k.id), ctx=ast.Load()))] + st.body
                    st.target = k
                    st.iter = d
                yield go


@tx
def get_default(fn, ctx):
    """d.get(k, c) -> d[k] if k in d else c for quiet d, k"""
    for n in ast.walk(fn):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'get' and len(n.args) == 2 and quiet_expr(n.func.value) and quiet_expr(n.args[0]) and isinstance(n.args[1], ast.Constant):
            def go(n=n):
                d, k = n.func.value, n.args[0]
                m = ast.IfExp(test=ast.Compare(left=k, ops=[ast.In()], comparators=[d]), body=ast.Subscript(value=copy.deepcopy(d), slice=copy.deepcopy(k), ctx=ast.Load()), orelse=n.args[1])
                Repl(n, m).visit(fn)
            yield go


@tx
def hoist_attr(fn, ctx):
    """local alias of self.x when x is bound in __init__ only"""
    if fn.name == '__init__' or ctx.cls is None or not fn.args.args:
        return
    me = fn.args.args[0].arg
    stored = {}
    for f in ctx.cls.body:
        if isinstance(f, ast.FunctionDef):
            for x in ast.walk(f):
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, (ast.Store, ast.Del)):
                    stored.setdefault(x.attr, set()).add(f.name)
    if has(fn, ast.Lambda) or any(isinstance(x, ast.FunctionDef) for x in fn.body):
        return
    uses = {}
    for x in ast.walk(fn):
        if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == me:
            uses.setdefault(x.attr, []).append(x)
    for a, xs in sorted(uses.items()):
        if stored.get(a) != {'__init__'} or a in ctx.outer_stores:
            continue

        def go(a=a):
            t = fresh(fn, a.strip('_') + '_')

            class R(ast.NodeTransformer):
                def visit_Attribute(self, x):
                    if isinstance(x.value, ast.Name) and x.value.id == me and x.attr == a:
                        return N(t)
                    return self.generic_visit(x)
            doc = 1 if isinstance(fn.body[0], ast.Expr) and isinstance(fn.body[0].value, ast.Constant) else 0
            fn.body = [R().visit(b) for b in fn.body]
            fn.body.insert(doc, ast.Assign(targets=[S(t)], value=ast.Attribute(value=N(me), attr=a, ctx=ast.Load())))
        yield go


@tx
def extract_stmts(fn, ctx):
    if fn.name == '<body>' or any(isinstance(x, (ast.FunctionDef, ast.Lambda)) for x in ast.walk(fn) if x is not fn):
        return
    params = [a.arg for a in fn.args.args]
    for lst, o, l in bodies(fn):
        L = len(lst)
        for i in range(L):
            for j in range(i + 1, min(L, i + 6) + 1):
                blk = lst[i:j]
                if lst is fn.body and i == 0 and j == L:
                    continue
                if has(blk, ast.Return, ast.Yield, ast.Global, ast.Import, ast.ImportFrom, ast.Raise) or loose(blk):
                    continue
                if len(blk) == 1 and not isinstance(blk[0], (ast.If, ast.For, ast.While)):
                    if not isinstance(blk[0], ast.Expr):
                        continue
                if isinstance(blk[0], ast.Expr) and isinstance(blk[0].value, ast.Constant):
                    continue
                w = names(blk, ast.Store)
                r = names(blk, ast.Load)
                loc = names(fn, ast.Store) | set(params) | set(x.name for x in ast.walk(fn) if isinstance(x, ast.ExceptHandler) and x.name)
                # variables written in the block and read elsewhere
                cnt = lambda v, nd: sum(1 for n in (nd if isinstance(nd, list) else [nd]) for x in ast.walk(n) if isinstance(x, ast.Name) and x.id == v)
                outv = sorted(v for v in w if cnt(v, fn) > cnt(v, blk))
                if len(outv) > 2:
                    continue
                # out values must be definitely assigned in the block: require a plain assignment at its top level
                top = set(t.id for st in blk if isinstance(st, ast.Assign) for t in st.targets if isinstance(t, ast.Name))
                if not all(v in top for v in outv):
                    continue
                if l and any(v not in top for v in w):
                    pass
                inv = sorted((r & loc) - set(params[:1] if ctx.cls is not None and not ctx.static else ()))
                # reads must be of variables surely assigned before: params or assigned at an earlier top level
                sure = set(params)
                for st in fn.body[:fn.body.index(blk[0])] if lst is fn.body else []:
                    if isinstance(st, ast.Assign):
                        for t in st.targets:
                            sure |= names(t, ast.Store)
                if lst is not fn.body:
                    first = None
                    for k, st in enumerate(fn.body):
                        if any(x is blk[0] for x in ast.walk(st)):
                            first = k
                    for st in fn.body[:first]:
                        if isinstance(st, ast.Assign):
                            for t in st.targets:
                                sure |= names(t, ast.Store)
                    # loop targets around
                    for x in ast.walk(fn):
                        if isinstance(x, ast.For) and any(y is blk[0] for b in x.body for y in ast.walk(b)):
                            sure |= names(x.target, ast.Store)
                    for st in lst[:i]:
                        if isinstance(st, ast.Assign):
                            for t in st.targets:
                                sure |= names(t, ast.Store)
                first_w = set()
                need = []
                for v in inv:
                    if v in w:
                        # assigned first inside the block?
                        if isinstance(blk[0], ast.Assign) and v in names(blk[0].targets, ast.Store) and v not in names(blk[0].value):
                            continue
                        if isinstance(blk[0], ast.For) and v in names(blk[0].target, ast.Store) and v not in names(blk[0].iter):
                            continue
                    need.append(v)
                if not all(v in sure for v in need):
                    continue

                def go(lst=lst, i=i, j=j, blk=blk, need=need, outv=outv):
                    nm = '_part_of_%s' % fn.name.strip('_')
                    method = ctx.cls is not None and not ctx.static and params and (params[0] in names(blk) or ctx.rng.random() < .5)
                    if not method and ctx.cls is not None and not ctx.static and params and params[0] in names(blk):
                        return
                    args = ([params[0]] if method else []) + [v for v in need if not (method and v == params[0])]
                    body = list(blk)
                    if outv:
                        body.append(ast.Return(value=N(outv[0]) if len(outv) == 1 else ast.Tuple(elts=[N(v) for v in outv], ctx=ast.Load())))
                    new = ast.FunctionDef(name=nm, args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=a) for a in args], kwonlyargs=[], kw_defaults=[], defaults=[], vararg=None, kwarg=None),
                                          body=body, decorator_list=[], type_params=[])
                    f = ast.Attribute(value=N(params[0]), attr=nm, ctx=ast.Load()) if method else N(nm)
                    call = ast.Call(func=f, args=[N(v) for v in args[1 if method else 0:]], keywords=[])
                    if outv:
                        st = ast.Assign(targets=[S(outv[0]) if len(outv) == 1 else ast.Tuple(elts=[S(v) for v in outv], ctx=ast.Store())], value=call)
                    else:
                        st = ast.Expr(value=call)
                    lst[i:j] = [st]
                    where = ctx.cls.body if method else ctx.tree.body
                    k = next((n for n, x in enumerate(where) if x is fn or x is ctx.cls or any(y is fn for y in ast.walk(x))), 0)
                    where.insert(k, new)
                yield go


def loose(blk):
    """break/continue that would leave the block"""
    def walk(b, inl):
        for st in b:
            if isinstance(st, (ast.Break, ast.Continue)) and not inl:
                return True
            if isinstance(st, ast.FunctionDef):
                continue
            for f in ('body', 'orelse', 'finalbody'):
                v = getattr(st, f, None)
                if isinstance(v, list) and walk(v, inl or isinstance(st, (ast.For, ast.While)) and f == 'body'):
                    return True
            for h in getattr(st, 'handlers', []):
                if walk(h.body, inl):
                    return True
        return False
    return walk(blk, False)


@tx
def extract_expr(fn, ctx):
    if fn.name == '<body>':
        return
    cap = scoped(fn)
    params = [a.arg for a in fn.args.args]
    glob = set(ctx.names)
    for lst, o, l in bodies(fn):
        for st in lst:
            for field in ('value', 'test'):
                e = getattr(st, field, None)
                if not isinstance(e, (ast.BinOp, ast.Compare, ast.BoolOp, ast.Call)) or isinstance(st, ast.While):
                    continue
                if has(e, ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.Yield):
                    continue
                loc = sorted((names(e, ast.Load) & (names(fn, ast.Store) | set(params))))

                def go(st=st, field=field, e=e, loc=loc):
                    nm = '_calc_%s' % fn.name.strip('_')
                    new = ast.FunctionDef(name=nm, args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=a) for a in loc], kwonlyargs=[], kw_defaults=[], defaults=[], vararg=None, kwarg=None),
                                          body=[ast.Return(value=e)], decorator_list=[], type_params=[])
                    setattr(st, field, ast.Call(func=N(nm), args=[N(v) for v in loc], keywords=[]))
                    where = ctx.tree.body
                    k = next((n for n, x in enumerate(where) if any(y is fn for y in ast.walk(x))), 0)
                    where.insert(k, new)
                yield go


@tx
def name_const(fn, ctx):
    if fn.name == '<body>':
        return
    skip = set()
    for n in ast.walk(fn):
        if isinstance(n, ast.JoinedStr):
            skip |= set(id(x) for x in ast.walk(n))
    doc = fn.body[0].value if isinstance(fn.body[0], ast.Expr) and isinstance(fn.body[0].value, ast.Constant) else None
    for n in ast.walk(fn):
        if isinstance(n, ast.Constant) and not isinstance(n.value, bool) and isinstance(n.value, (int, str)) and n is not doc and id(n) not in skip:
            if any(n in ast.walk(d) for d in fn.args.defaults):
                continue

            def go(n=n):
                nm = '_LIMIT_OF_%s' % fn.name.strip('_').upper()
                k = 0
                while k < len(ctx.tree.body) and isinstance(ctx.tree.body[k], (ast.Expr, ast.Import, ast.ImportFrom)):
                    k += 1
                Repl(n, N(nm)).visit(fn)
                ctx.tree.body.insert(k, ast.Assign(targets=[S(nm)], value=ast.Constant(value=n.value)))
            yield go


@tx
def bool_return(fn, ctx):
    for lst, o, l in bodies(fn):
        for i, st in enumerate(lst):
            if isinstance(st, ast.Return) and isinstance(st.value, ast.Compare):
                def go(lst=lst, i=i, st=st):
                    lst[i:i + 1] = [ast.If(test=st.value, body=[ast.Return(value=ast.Constant(value=True))], orelse=[]), ast.Return(value=ast.Constant(value=False))]
                yield go


@tx
def chain_append(fn, ctx):
    """x.append(a); x.append(b) -> x.extend([a, b])"""
    for lst, o, l in bodies(fn):
        for i in range(len(lst) - 1):
            a, b = lst[i], lst[i + 1]

            def ap(s):
                return isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and s.value.func.attr == 'append' and isinstance(
                    s.value.func.value, ast.Name) and len(s.value.args) == 1 and quiet_expr(s.value.args[0])
            if ap(a) and ap(b) and a.value.func.value.id == b.value.func.value.id and a.value.func.value.id not in names(b.value.args[0]):
                def go(lst=lst, i=i, a=a, b=b):
                    a.value.func.attr = 'extend'
                    a.value.args = [ast.List(elts=[a.value.args[0], b.value.args[0]], ctx=ast.Load())]
                    del lst[i + 1]
                yield go


@tx
def rename_func(fn, ctx):
    """rename a project function everywhere when its name is unique"""
    n = fn.name
    if n == '<body>' or n.startswith('__') or n in ('compress', 'decompress', 'streamify', 'done', 'main', 'format_http1', 'parse_http1'):
        return
    if ctx.defcount.get(n) != 1 or n in ctx.strings:
        return

    def go():
        for t in ctx.trees:
            for x in ast.walk(t):
                if isinstance(x, ast.FunctionDef) and x.name == n:
                    x.name = n + '_renamed'
                elif isinstance(x, ast.Attribute) and x.attr == n:
                    x.attr = n + '_renamed'
                elif isinstance(x, ast.Name) and x.id == n:
                    x.id = n + '_renamed'
                elif isinstance(x, ast.alias) and x.name == n:
                    x.name = n + '_renamed'
    yield go


@tx
def rename_attr(fn, ctx):
    if ctx.cls is None or not fn.args.args or fn.name != '__init__':
        return
    for x in list(ast.walk(fn)):
        if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name) and x.value.id == fn.args.args[0].arg:
            a = x.attr
            if ctx.attr_classes.get(a, 9) != 1 or a in ('name', 'options', 'params', 'is_request') or ctx.defcount.get(a):
                continue
            if a in ('times', 'process', 'file'):
                continue

            def go(a=a):
                for t in ctx.trees:
                    for x in ast.walk(t):
                        if isinstance(x, ast.Attribute) and x.attr == a:
                            x.attr = a + '_renamed'
            yield go


@tx
def kwargs_call(fn, ctx):
    """positional argument of a project function -> keyword"""
    for n in ast.walk(fn):
        if isinstance(n, ast.Call) and n.args and not has(n.args, ast.Starred) and isinstance(n.func, ast.Name) and not n.keywords:
            d = ctx.defs.get(n.func.id)
            if isinstance(d, ast.FunctionDef) and len(d.args.args) >= len(n.args) and d.args.vararg is None:
                def go(n=n, d=d):
                    k = len(n.args) - 1
                    n.keywords = [ast.keyword(arg=d.args.args[k].arg, value=n.args.pop())]
                yield go


@tx
def tuple_assign(fn, ctx):
    """a, b = x, y -> two assignments (independent) and back"""
    for lst, o, l in bodies(fn):
        for i, st in enumerate(lst):
            if isinstance(st, ast.Assign) and isinstance(st.targets[0], ast.Tuple) and isinstance(st.value, ast.Tuple) and len(st.targets[0].elts) == len(st.value.elts):
                ts, vs = st.targets[0].elts, st.value.elts
                w = set()
                ok = all(isinstance(t, ast.Name) for t in ts)
                for t, v in zip(ts, vs):
                    if names(v) & w:
                        ok = False
                    w |= names(t)
                if ok:
                    def go(lst=lst, i=i, ts=ts, vs=vs):
                        lst[i:i + 1] = [ast.Assign(targets=[t], value=v) for t, v in zip(ts, vs)]
                    yield go


@tx
def empty_test(fn, ctx):
    """len(x) == 0 -> not len(x); len(x) > 0 -> len(x)  (in conditions)"""
    for n in ast.walk(fn):
        if isinstance(n, (ast.If, ast.While)) and isinstance(n.test, ast.Compare) and len(n.test.ops) == 1 and isinstance(n.test.left, ast.Call) and isinstance(
                n.test.left.func, ast.Name) and n.test.left.func.id == 'len' and isinstance(n.test.comparators[0], ast.Constant) and n.test.comparators[0].value == 0:
            op = type(n.test.ops[0])
            if op is ast.Eq:
                def go(n=n):
                    n.test = ast.UnaryOp(op=ast.Not(), operand=n.test.left)
                yield go
            elif op in (ast.Gt, ast.NotEq):
                def go(n=n):
                    n.test = n.test.left
                yield go


@tx
def dict_literal(fn, ctx):
    """x = {}/dict(); x[k] = v ... <-> literal"""
    for lst, o, l in bodies(fn):
        for i, st in enumerate(lst):
            if isinstance(st, ast.Assign) and isinstance(st.value, ast.Dict) and st.value.keys and isinstance(st.targets[0], ast.Name) and all(quiet_expr(v) for v in st.value.values):
                def go(lst=lst, i=i, st=st):
                    n = st.targets[0].id
                    ks, vs = st.value.keys, st.value.values
                    st.value = ast.Dict(keys=[], values=[])
                    lst[i + 1:i + 1] = [ast.Assign(targets=[ast.Subscript(value=N(n), slice=k, ctx=ast.Store())], value=v) for k, v in zip(ks, vs)]
                if not any(n == st.targets[0].id for v in st.value.values for n in names(v)):
                    yield go


@tx
def join_concat(fn, ctx):
    """a + b (a string constant) -> ''.join([a, b])"""
    for n in ast.walk(fn):
        if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Add) and (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str) or isinstance(n.right, ast.Constant) and isinstance(n.right.value, str)):
            def go(n=n):
                m = ast.Call(func=ast.Attribute(value=ast.Constant(value=''), attr='join', ctx=ast.Load()), args=[ast.List(elts=[n.left, n.right], ctx=ast.Load())], keywords=[])
                Repl(n, m).visit(fn)
            yield go


@tx
def inline_call(fn, ctx):
    """x = helper(args) -> body of helper when it is a single return"""
    for n in list(ast.walk(fn)):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and ctx.cls is not None and fn.args.args \
                and n.func.value.id == fn.args.args[0].arg and not n.keywords:
            d = next((f for f in ctx.cls.body if isinstance(f, ast.FunctionDef) and f.name == n.func.attr), None)
            if d is None or d is fn or d.decorator_list or d.args.defaults:
                continue
            body = [b for b in d.body if not (isinstance(b, ast.Expr) and isinstance(b.value, ast.Constant))]
            if len(body) != 1 or not isinstance(body[0], ast.Return) or body[0].value is None or has(body[0], ast.Lambda, ast.ListComp, ast.GeneratorExp):
                continue
            ps = [a.arg for a in d.args.args]
            if len(ps) != len(n.args) + 1 or not all(isinstance(a, (ast.Name, ast.Constant)) for a in n.args):
                continue

            def go(n=n, body=body, ps=ps):
                m = dict(zip(ps, [n.func.value] + n.args))

                class R(ast.NodeTransformer):
                    def visit_Name(self, x):
                        return copy.deepcopy(m[x.id]) if x.id in m else x
                e = R().visit(copy.deepcopy(body[0].value))
                Repl(n, e).visit(fn)
            yield go


# ---------------------------------------------------------------- breaking
MX = {}


def mx(f):
    MX[f.__name__] = f
    return f


def skip_nodes(fn):
    out = set()
    for n in ast.walk(fn):
        if isinstance(n, (ast.Raise, ast.Assert)):
            out |= set(id(x) for x in ast.walk(n))
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            out |= {id(n), id(n.value)}
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'print':
            out |= set(id(x) for x in ast.walk(n))
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Name) and n.value.func.id == 'print':
            out.add(id(n))
        if isinstance(n, ast.If) and len(n.body) == 1 and not n.orelse and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Call) and isinstance(n.body[0].value.func, ast.Name) and n.body[0].value.func.id == 'print':
            out |= set(id(x) for x in ast.walk(n))
    return out


@mx
def m_const(fn, ctx):
    sk = skip_nodes(fn)
    for n in ast.walk(fn):
        if isinstance(n, ast.Constant) and isinstance(n.value, int) and not isinstance(n.value, bool) and id(n) not in sk:
            def go(n=n):
                n.value += ctx.rng.choice([1, -1])
            yield go


@mx
def m_str(fn, ctx):
    sk = skip_nodes(fn)
    for n in ast.walk(fn):
        if isinstance(n, ast.Constant) and isinstance(n.value, str) and id(n) not in sk:
            def go(n=n):
                n.value = n.value + 'x' if len(n.value) < 3 else n.value[:-1]
            yield go


@mx
def m_cmp(fn, ctx):
    sk = skip_nodes(fn)
    alt = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is}
    for n in ast.walk(fn):
        if isinstance(n, ast.Compare) and id(n) not in sk:
            def go(n=n):
                n.ops[0] = alt[type(n.ops[0])]()
            yield go


@mx
def m_del(fn, ctx):
    sk = skip_nodes(fn)
    for lst, o, l in bodies(fn):
        for i, st in enumerate(lst):
            if id(st) in sk or isinstance(st, (ast.FunctionDef, ast.ClassDef, ast.Pass, ast.Raise, ast.Assert, ast.Global, ast.Import, ast.ImportFrom)):
                continue
            if isinstance(st, ast.Expr) and not isinstance(st.value, ast.Call):
                continue

            def go(lst=lst, i=i):
                lst[i] = ast.Pass()
            yield go


@mx
def m_neg(fn, ctx):
    for n in ast.walk(fn):
        if isinstance(n, (ast.If, ast.While)) and not (isinstance(n.test, ast.Constant)):
            if isinstance(n, ast.If) and id(n) in skip_nodes(fn):
                continue

            def go(n=n):
                n.test = negate(n.test)
            yield go


@mx
def m_args(fn, ctx):
    sk = skip_nodes(fn)
    for n in ast.walk(fn):
        if isinstance(n, ast.Call) and len(n.args) >= 2 and ast.dump(n.args[0]) != ast.dump(n.args[1]) and id(n) not in sk:
            def go(n=n):
                n.args[0], n.args[1] = n.args[1], n.args[0]
            yield go


@mx
def m_bool(fn, ctx):
    for n in ast.walk(fn):
        if isinstance(n, ast.BoolOp):
            def go(n=n):
                n.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
            yield go


@mx
def m_else(fn, ctx):
    sk = skip_nodes(fn)
    for n in ast.walk(fn):
        if isinstance(n, ast.If) and n.orelse and not all(id(x) in sk or isinstance(x, (ast.Pass, ast.Raise)) for x in n.orelse):
            def go(n=n):
                n.orelse = []
            yield go


@mx
def m_attr(fn, ctx):
    sk = skip_nodes(fn)
    xs = [x for x in ast.walk(fn) if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and id(x) not in sk]
    for x in xs:
        others = sorted(set(y.attr for y in xs if y.value.id == x.value.id and type(y.ctx) is type(x.ctx)) - {x.attr})
        if others:
            def go(x=x, others=others):
                x.attr = ctx.rng.choice(others)
            yield go


@mx
def m_jump(fn, ctx):
    for lst, o, l in bodies(fn):
        for i, st in enumerate(lst):
            if isinstance(st, ast.Continue):
                def go(lst=lst, i=i):
                    lst[i] = ast.Break()
                yield go
            elif isinstance(st, ast.Break):
                def go(lst=lst, i=i):
                    lst[i] = ast.Continue()
                yield go


@mx
def m_arith(fn, ctx):
    sk = skip_nodes(fn)
    alt = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.FloorDiv, ast.LShift: ast.RShift, ast.RShift: ast.LShift, ast.BitAnd: ast.BitOr, ast.BitOr: ast.BitAnd, ast.Mod: ast.FloorDiv}
    for n in ast.walk(fn):
        if isinstance(n, (ast.BinOp, ast.AugAssign)) and type(n.op) in alt and id(n) not in sk and not (isinstance(n, ast.BinOp) and isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
            def go(n=n):
                n.op = alt[type(n.op)]()
            yield go


@mx
def m_swap(fn, ctx):
    for lst, o, l in bodies(fn):
        for i in range(len(lst) - 1):
            a, b = lst[i], lst[i + 1]
            wa, wb = names(a, ast.Store), names(b, ast.Store)
            if not isinstance(a, (ast.Assign, ast.AugAssign, ast.Expr)) or not isinstance(b, (ast.Assign, ast.AugAssign, ast.Expr)):
                continue
            if not (wa & names(b) or wb & names(a)):
                # attribute dependence
                sa = set(ast.dump(x)[:-9] for t in getattr(a, 'targets', [getattr(a, 'target', None)]) if t is not None for x in ast.walk(t) if isinstance(x, ast.Attribute))
                continue

            def go(lst=lst, i=i):
                lst[i], lst[i + 1] = lst[i + 1], lst[i]
            yield go


@mx
def m_var(fn, ctx):
    """use another local of the function instead"""
    sk = skip_nodes(fn)
    loc = sorted(names(fn, ast.Store) | set(a.arg for a in fn.args.args))
    for n in ast.walk(fn):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in loc and id(n) not in sk and len(loc) > 1:
            def go(n=n):
                n.id = ctx.rng.choice([v for v in loc if v != n.id])
            yield go


@mx
def m_method(fn, ctx):
    alt = {'append': 'extend', 'popleft': 'pop', 'appendleft': 'append', 'strip': 'lstrip', 'lower': 'upper', 'index': 'count', 'startswith': 'endswith',
           'items': 'keys', 'update': 'clear', 'split': 'rsplit', 'add': 'discard', 'remove': 'append'}
    sk = skip_nodes(fn)
    for n in ast.walk(fn):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in alt and id(n) not in sk:
            def go(n=n):
                n.func.attr = alt[n.func.attr]
            yield go


@mx
def m_slice(fn, ctx):
    for n in ast.walk(fn):
        if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            def go(n=n):
                if n.slice.lower is not None:
                    n.slice.lower = ast.BinOp(left=n.slice.lower, op=ast.Add(), right=ast.Constant(value=1))
                elif n.slice.upper is not None:
                    n.slice.upper = ast.BinOp(left=n.slice.upper, op=ast.Sub(), right=ast.Constant(value=1))
                else:
                    n.slice.lower = ast.Constant(value=1)
            yield go


@mx
def m_early(fn, ctx):
    """return / continue moved: body of if executed one level out"""
    sk = skip_nodes(fn)
    for lst, o, l in bodies(fn):
        for i, st in enumerate(lst):
            if isinstance(st, ast.If) and not st.orelse and id(st) not in sk and not isinstance(st.body[0], ast.Raise):
                def go(lst=lst, i=i, st=st):
                    lst[i:i + 1] = st.body
                yield go


@mx
def m_raise(fn, ctx):
    for lst, o, l in bodies(fn):
        for i, st in enumerate(lst):
            if isinstance(st, ast.Raise):
                def go(lst=lst, i=i):
                    lst[i] = ast.Pass()
                yield go


@mx
def m_alias(fn, ctx):
    """drop a copy: list(x) -> x, dict(x) -> x, x[:] -> x"""
    for n in ast.walk(fn):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('list', 'dict', 'set') and len(n.args) == 1 and not isinstance(n.args[0], (ast.Call, ast.GeneratorExp, ast.ListComp)):
            def go(n=n):
                Repl(n, n.args[0]).visit(fn)
            yield go


# ----------------------------------------------------------------- driver
class Ctx:
    pass


def stats(trees):
    defc, attrc, strings = {}, {}, set()
    for t in trees.values():
        for x in ast.walk(t):
            if isinstance(x, ast.FunctionDef):
                defc[x.name] = defc.get(x.name, 0) + 1
            elif isinstance(x, ast.ClassDef):
                s = set()
                for y in ast.walk(x):
                    if isinstance(y, ast.Attribute) and isinstance(y.ctx, ast.Store):
                        s.add(y.attr)
                for a in s:
                    attrc[a] = attrc.get(a, 0) + 1
            elif isinstance(x, ast.Constant) and isinstance(x.value, str):
                strings.add(x.value)
    return defc, attrc, strings


def run(kind, seed, rounds, tg, mg, verbose=True):
    rng = random.Random(seed)
    base = load.parse_all()
    ref = project.Project(load.SPEC + '/ref')
    table = TX if kind == 'keep' else MX
    OUTER = set()
    for rel, (y2, k, s) in base.items():
        for z in ast.walk(y2):
            if isinstance(z, ast.Attribute) and isinstance(z.ctx, ast.Store) and not (isinstance(z.value, ast.Name) and z.value.id == 'self'):
                OUTER.add(z.attr)
    defc, attrc, strings = stats({rel: t for rel, (t, k, s) in base.items()})
    per = {}
    wheres = [w for w, f in conform.index(project.Project()).items() if fnmatch.fnmatch(w.split(':')[0], mg) and not w.endswith('>')]
    def one(tname, per):
        tot = bad = 0
        # each round: one edit in each of several functions of different modules
        parsed = {}
        trees = {}
        for rel, (t, k, s) in base.items():
            trees[rel] = t
        cand = list(wheres)
        rng.shuffle(cand)
        done = {}
        touched = set()
        for w in cand:
            rel, qual = w.split(':')
            if rel in touched or len(done) >= 8:
                continue
            node, cls = find(base[rel][0], qual)
            if node is None:
                continue
            ctx = Ctx()
            ctx.rng, ctx.tree, ctx.cls, ctx.py3 = rng, base[rel][0], cls, base[rel][1] == 'py3'
            ctx.static = any(isinstance(d, ast.Name) and d.id in ('staticmethod', 'classmethod') for d in node.decorator_list)
            ctx.names = ()
            ctx.defs = {st.name: st for st in base[rel][0].body if isinstance(st, ast.FunctionDef)}
            ctx.defcount, ctx.attr_classes, ctx.strings, ctx.outer_stores, ctx.trees = defc, attrc, strings, OUTER, []
            if not any(True for _ in table[tname](node, ctx)):
                continue
            t = copy.deepcopy(base[rel][0])
            node, cls = find(t, qual)
            ctx = Ctx()
            ctx.rng, ctx.tree, ctx.cls, ctx.py3 = rng, t, cls, base[rel][1] == 'py3'
            ctx.static = any(isinstance(d, ast.Name) and d.id in ('staticmethod', 'classmethod') for d in node.decorator_list)
            ctx.names = names(t)
            ctx.defs = {st.name: st for st in t.body if isinstance(st, ast.FunctionDef)}
            ctx.defcount, ctx.attr_classes, ctx.strings = defc, attrc, strings
            tmp = dict(trees)
            tmp[rel] = t
            if tname in ('rename_func', 'rename_attr'):
                if done:
                    continue
                tmp = {x: copy.deepcopy(y) if x != rel else y for x, y in tmp.items()}
            ctx.trees = list(tmp.values())
            ctx.outer_stores = OUTER
            sites = list(table[tname](node, ctx))
            if not sites:
                continue
            before = {rel: ast.dump(base[rel][0])}
            rng.choice(sites)()
            if ast.dump(t) == before[rel]:
                continue
            for x in ctx.trees:
                ast.fix_missing_locations(x)
            trees = tmp
            touched.add(rel)
            done[w] = t
        if not done:
            return per
        parsed = {rel: (trees[rel], k, s) for rel, (t, k, s) in base.items()}
        cur = project.Project(parsed=parsed)
        P = conform.Pair(ref, cur)
        flagged = {}
        for w in P.ri:
            try:
                v = [x for x in P.verdict(w) if x.conf]
            except Exception as e:
                import traceback
                print('CRASH', w, tname, traceback.format_exc()[-600:])
                raise
            if v:
                flagged.setdefault(w.split(':')[0], []).append((w, v))
        for w in done:
            rel = w.split(':')[0]
            f = flagged.get(rel)
            if tname in ('rename_func', 'rename_attr'):
                f = [x for v in flagged.values() for x in v]
            p = per.setdefault(tname, [0, 0])
            p[0] += 1
            tot += 1
            if f:
                p[1] += 1
                bad += 1
            if verbose and (bool(f) == (kind == 'keep')):
                print('==', 'ALARM' if f else 'MISS', tname, w, [x[0] for x in f or []])
                a, b = ast.unparse(find(base[rel][0], w.split(':')[1])[0]).split('\n'), ast.unparse(find2(trees[rel], w.split(':')[1])).split('\n')
                import difflib
                for ln in list(difflib.unified_diff(a, b, lineterm='', n=1))[2:24]:
                    print('    ' + ln[:200])
                for ww, v in (f or [])[:2]:
                    for d in v[:4]:
                        print('   >', ww.split(':')[1], d.kind, (d.text[:200] + ' ... ' + d.text[d.text.find('[differs in'):][:500]) if '[differs in' in d.text else d.text[:300])
                sys.stdout.flush()
        return per

    def forked(tname):
        rd, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            import pickle
            code = 1
            try:
                d = one(tname, {})
                os.write(wr, pickle.dumps(d))
                code = 0
            except BaseException:
                import traceback
                traceback.print_exc()
            sys.stdout.flush()
            os._exit(code)
        os.close(wr)
        data = b''
        while True:
            x = os.read(rd, 65536)
            if not x:
                break
            data += x
        os.close(rd)
        os.waitpid(pid, 0)
        import pickle
        return pickle.loads(data) if data else {}

    for r in range(rounds):
        tname = rng.choice([t for t in table if fnmatch.fnmatch(t, tg)])
        rng.seed('%s %s' % (seed, r))
        for k, (n, b) in forked(tname).items():
            p = per.setdefault(k, [0, 0])
            p[0] += n
            p[1] += b
    return per


def find(t, qual):
    node, cls = t, None
    for p in qual.split('.'):
        if isinstance(node, ast.ClassDef):
            cls = node
        elif isinstance(node, ast.FunctionDef):
            cls = None
        nxt = None
        for st in node.body:
            if isinstance(st, (ast.FunctionDef, ast.ClassDef)) and st.name in (p, p + '_renamed'):
                nxt = st
        if nxt is None:
            return None, None
        node = nxt
    return (node, cls) if isinstance(node, ast.FunctionDef) else (None, None)


def find2(t, qual):
    n = find(t, qual)[0]
    return n if n is not None else ast.Pass()


def main():
    kind, seed, rounds = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    tg = sys.argv[4] if len(sys.argv) > 4 else '*'
    mg = sys.argv[5] if len(sys.argv) > 5 else '*'
    per = run(kind, seed, rounds, tg, mg)
    for t, (n, b) in sorted(per.items()):
        print('TOTAL %-20s %4d edits %4d flagged' % (t, n, b))


threading.stack_size(512 * 1024 * 1024)
th = threading.Thread(target=main)
th.start()
th.join()
