"""Value-numbered control-flow graphs of repository functions.

A function (with every project function it calls spliced in) is lowered from
its syntax tree to a CFG whose blocks carry *events* (calls, stores, deletes,
returns, raises) over *terms* (interned value expressions in SSA form, phi
nodes at joins).  Nothing is executed and no path is enumerated: all queries
are dataflow facts (dominance, reachability avoiding events, use-def).
"""
import ast
import builtins

from load import AnalysisBroken
from project import Cls, Ext, Func, GlobalVar, Mod, member, trivial

BUILTINS = set(dir(builtins)) | {'xrange', 'unicode', 'long', 'basestring', 'raw_input',
                                 'StandardError', 'cmp', 'reduce', 'unichr', 'file', 'exec'}


# ------------------------------------------------------------------- terms
class T:
    __slots__ = ('op', 'args', 'id', 'loc', 'meta')
    _n = 0

    def __init__(self, op, args, loc=None):
        T._n += 1
        self.op, self.args, self.id, self.loc, self.meta = op, args, T._n, loc, None

    def __repr__(self):
        return show(self)


def show(t, d=6):
    if not isinstance(t, T):
        return getattr(t, 'name', None) or repr(t)
    if d == 0:
        return '..'
    o, a = t.op, t.args
    s = lambda x: show(x, d - 1)
    if o == 'const':
        return repr(a[0])
    if o in ('param', 'builtin', 'ext', 'undef'):
        return str(a[0])
    if o in ('func', 'cls', 'mod', 'global'):
        return str(getattr(a[0], 'name', a[0]))
    if o == 'attr':
        return '%s.%s' % (s(a[0]), a[1])
    if o == 'sub':
        return '%s[%s]' % (s(a[0]), s(a[1]))
    if o == 'slice':
        return '%s[%s:%s]' % (s(a[0]), s(a[1]) if a[1] else '', s(a[2]) if a[2] else '')
    if o == 'bin':
        return '(%s %s %s)' % (s(a[1]), a[0], s(a[2]))
    if o == 'cmp':
        return '(%s %s %s)' % (s(a[1]), a[0], s(a[2]))
    if o in ('not', 'neg', 'inv', 'star'):
        return '%s(%s)' % (o, s(a[0]))
    if o in ('and', 'or', 'tuple'):
        return '%s(%s)' % (o, ', '.join(s(x) for x in a))
    if o == 'list' or o == 'set':
        return '%s(%s)' % (o, ', '.join(s(x) for x in a[1]))
    if o == 'dict':
        return 'dict(%s)' % ', '.join('%s: %s' % (s(k), s(v)) for k, v in a[1])
    if o == 'elem':
        return 'elem(%s)' % s(a[1])
    if o == 'call':
        c = t.meta
        f = ('%s.%s' % (s(c.base), c.name)) if c.base is not None else (c.name or s(c.fn))
        return '%s(%s)' % (f, ', '.join([s(x) for x in c.args] + ['%s=%s' % (k, s(v)) for k, v in c.kw.items()]))
    if o == 'new':
        return 'new %s' % a[1].name
    if o == 'phi':
        return 'phi#%d' % t.id
    if o == 'bound':
        return '%s.%s' % (s(a[1]), a[0].name)
    return '%s%r' % (o, t.id)


_INTERN = {}


def mk(op, *args):
    key = (op,) + tuple((x.id, 'T') if isinstance(x, T) else (type(x).__name__, x) for x in args)
    try:
        t = _INTERN.get(key)
    except TypeError:
        return T(op, args)
    if t is None:
        t = _INTERN[key] = T(op, args)
    return t


def const(v):
    return mk('const', v)



NONE = const(None)
STAR = mk('star', NONE)


def is_str(t):
    return t.op == 'const' and isinstance(t.args[0], (str, bytes))


def is_const(t, v):
    return t.op == 'const' and type(t.args[0]) is type(v) and t.args[0] == v


# ------------------------------------------------------------------ events
class Ev:
    __slots__ = ('kind', 'block', 'func', 'node', 'base', 'name', 'fn', 'args', 'kw',
                 'value', 'old', 'idx', 'target', 'term', 'site', 'synth', 'extra', 'mem', 'vers')

    def __init__(self, kind, func, node, **kw):
        self.kind, self.func, self.node = kind, func, node
        for s in ('block', 'base', 'name', 'fn', 'value', 'old', 'idx', 'target', 'term', 'site', 'extra'):
            setattr(self, s, None)
        self.args, self.kw, self.synth, self.mem, self.vers = [], {}, False, {}, {}
        for k, v in kw.items():
            setattr(self, k, v)

    @property
    def where(self):
        return '%s:%s:%s' % (self.func.mod.rel, getattr(self.node, 'lineno', 0), self.func.qual)

    def arg(self, i, name=None):
        if i is not None and i < len(self.args):
            return self.args[i]
        return self.kw.get(name)

    def __repr__(self):
        if self.kind == 'call':
            return '<call %s @%s>' % (show(self.term), getattr(self.node, 'lineno', 0))
        if self.kind == 'setattr':
            return '<%s.%s = %s @%s>' % (show(self.base), self.name, show(self.value), getattr(self.node, 'lineno', 0))
        if self.kind in ('setsub', 'delsub'):
            return '<%s %s[%s] = %s @%s>' % (self.kind, show(self.base), show(self.idx), show(self.value) if self.value else '', getattr(self.node, 'lineno', 0))
        return '<%s %s @%s>' % (self.kind, show(self.value) if self.value is not None else '', getattr(self.node, 'lineno', 0))


class Block:
    __slots__ = ('id', 'events', 'succs', 'preds', 'cond', 'sealed', 'incomplete', 'defs', 'exc', 'stores',
                 'loops', 'kind', 'exit_e', 'exit_x', 'iter', 'node')

    def __init__(self, i):
        self.id, self.events, self.succs, self.preds = i, [], [], []
        self.loops = ()           # headers of the enclosing loops, outermost first
        self.kind = self.exit_e = self.exit_x = self.iter = self.node = None
        self.cond = None          # for edge blocks: (kind, term, polarity)
        self.sealed, self.incomplete, self.defs, self.exc = False, {}, {}, False
        self.stores = None        # loop headers: (frame id, names stored in the loop)

    def __repr__(self):
        return 'B%d' % self.id


class Frame:
    def __init__(self, fid, func, parent=None, closure=None):
        self.id, self.func, self.parent, self.closure = fid, func, parent, closure
        self.locals, self.globals = set(), set()
        self.ret_block = self.ret_cond = None
        self.cls = None
        self.depth = 0
        self.finals = []
        self.lists = None
        self.handlers = []
        self.loops = []


def _collect_locals(node):
    names, globs = set(), set()
    a = node.args
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        names.add(x.arg)
    for x in (a.vararg, a.kwarg):
        if x:
            names.add(x.arg)

    def walk(n):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.ClassDef)):
                names.add(c.name)
                continue
            if isinstance(c, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                continue
            if isinstance(c, ast.Name) and isinstance(c.ctx, (ast.Store, ast.Del)):
                names.add(c.id)
            elif isinstance(c, ast.ExceptHandler) and c.name:
                names.add(c.name)
            elif isinstance(c, (ast.Import, ast.ImportFrom)):
                for al in c.names:
                    names.add((al.asname or al.name).split('.')[0])
            elif isinstance(c, (ast.Global, ast.Nonlocal)):
                globs.update(c.names)
            walk(c)
    body = node.body if isinstance(node.body, list) else [node.body]
    for st in body:
        w = ast.Module(body=[st], type_ignores=[]) if isinstance(st, ast.stmt) else ast.Expression(body=st)
        walk(w)
    return names - globs, globs


def _stores(nodes):
    out = set()
    for st in nodes:
        for n in ast.walk(st):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)
            elif isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.ExceptHandler)) and n.name:
                out.add(n.name)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                out.update((a.asname or a.name).split('.')[0] for a in n.names)
    return out


MUTATORS = {'append', 'add', 'extend', 'insert', 'update', 'pop', 'popleft', 'popitem', 'remove', 'discard',
            'clear', 'sort', 'reverse', 'setdefault', 'appendleft', 'extendleft', '__iadd__', 'subtract'}
_TOUCH = {}


def attr_touch(func, stack=()):
    """(read, stored, changed in place) attribute names of the receiver in a
    method and the methods of the same object it calls."""
    if func in _TOUCH:
        return _TOUCH[func]
    if func in stack:
        return set(), set(), set()
    reads, writes, muts = set(), set(), set()
    ps = func.params()
    me = ps[0] if ps and not func.static else None

    def selfattr(n):
        return isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == me

    def root(n):
        while isinstance(n, (ast.Subscript, ast.Attribute)) and not selfattr(n):
            n = n.value
        return n
    if me is not None:
        for n in ast.walk(func.node):
            if selfattr(n):
                if isinstance(n.ctx, (ast.Store, ast.Del)):
                    writes.add(n.attr)
                else:
                    reads.add(n.attr)
            if isinstance(n, (ast.Subscript, ast.Attribute)) and isinstance(n.ctx, (ast.Store, ast.Del)) and not selfattr(n):
                r = root(n.value)
                if selfattr(r):
                    muts.add(r.attr)
            if isinstance(n, ast.AugAssign) and selfattr(n.target):
                reads.add(n.target.attr)
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
                if selfattr(n.func) and func.cls is not None:
                    g = func.cls.find(n.func.attr)
                    if g is not None:
                        r2, w2, m2 = attr_touch(g, stack + (func,))
                        reads |= r2
                        writes |= w2
                        muts |= m2
                else:
                    r = root(n.func.value)
                    if selfattr(r) and n.func.attr not in PURE_METHODS:
                        muts.add(r.attr)
    if not stack:
        _TOUCH[func] = (reads, writes, muts)
    return reads, writes, muts


PURE_METHODS = {'split', 'rsplit', 'strip', 'lower', 'upper', 'join', 'encode', 'decode', 'format', 'startswith',
                'endswith', 'replace', 'items', 'keys', 'values', 'iteritems', 'iterkeys', 'itervalues', 'get',
                'has_key', 'find', 'rfind', 'index', 'count', 'rstrip', 'lstrip', 'ljust', 'rjust', 'zfill', 'title',
                'capitalize', 'partition', 'rpartition', 'isdigit', 'isalpha', 'isalnum', 'isspace', 'islower',
                'isupper', 'copy', 'splitlines', 'most_common', 'union', 'intersection', 'difference', 'issubset',
                'issuperset', 'symmetric_difference', 'translate', 'hex', 'group', 'groups', 'tobytes', 'swapcase',
                'bit_length', 'cpp_begin', 'cpp_end', 'cpp_find', 'cpp_count', 'find_first_of', 'find_first_not_of', 'substr', '__getitem__', '__contains__', '__len__'}


QUIET_FN = {'len', 'range', 'xrange', 'enumerate', 'zip', 'isinstance', 'str', 'list', 'dict', 'set', 'tuple', 'sorted', 'reversed',
            'repr', 'bool', 'type', 'hasattr', 'min', 'max', 'abs', 'print', 'iter', 'collections.defaultdict', 'collections.OrderedDict'}
QUIET_METH = {'append', 'add', 'extend', 'join', 'strip', 'lstrip', 'rstrip', 'lower', 'upper', 'items', 'keys', 'values', 'iteritems',
              'iterkeys', 'itervalues', 'get', 'has_key', 'startswith', 'endswith', 'format', 'copy', 'setdefault', 'replace', 'split', 'count'}


def quiet(ev):
    """A call that raises only on a programming error."""
    if ev.kind == 'setsub' and ev.base is not None and ev.base.op == 'dict':
        return True
    if ev.kind == 'getsub' and ev.idx.op == 'elem':
        # X[i] for i in range(len(X))
        r = ev.idx.args[1]
        r = r.meta if r.op == 'call' else None
        if r is not None and r.fn is not None and r.fn.op == 'builtin' and r.fn.args[0] in ('range', 'xrange') and len(r.args) == 1:
            n = r.args[0].meta if r.args[0].op == 'call' else None
            if n is not None and n.fn is not None and n.fn.op == 'builtin' and n.fn.args[0] == 'len' and n.args[0] is ev.base:
                return True
    if ev.kind != 'call' or ev.target is not None:
        return False
    if ev.fn is not None:
        return ev.fn.op in ('builtin', 'ext') and ev.fn.args[0] in QUIET_FN
    return ev.base is not None and ev.name in QUIET_METH


_ATTRT = {}


def attr_class(cls, name):
    """Class of instance attribute `name` when every store of it in the class
    is a construction of one project class."""
    key = (cls, name)
    if key in _ATTRT:
        return _ATTRT[key]
    found, bad = set(), False
    for c in cls.mro():
        for m in c.methods.values():
            for n in ast.walk(m.node):
                tg = []
                if isinstance(n, ast.Assign):
                    tg = n.targets
                for t in tg:
                    if isinstance(t, ast.Attribute) and t.attr == name and isinstance(t.value, ast.Name) and m.params() and t.value.id == m.params()[0]:
                        v = n.value
                        r = None
                        if isinstance(v, ast.Call):
                            r = c.mod.resolve_expr(v.func) if not _local_root(v.func, m) else None
                            if r is None and isinstance(v.func, ast.Name):
                                r = _local_alias(m, v.func.id)
                        if isinstance(r, Cls):
                            found.add(r)
                        elif not (isinstance(v, ast.Constant) and v.value is None):
                            bad = True
    r = found.pop() if len(found) == 1 and not bad else None
    _ATTRT[key] = r
    return r


def _local_root(e, m):
    while isinstance(e, ast.Attribute):
        e = e.value
    return isinstance(e, ast.Name) and e.id in _collect_locals(m.node)[0]


def _local_alias(m, name):
    """codecClass = HTTP2Codec; codecClass(...)"""
    vals = [n.value for n in ast.walk(m.node) if isinstance(n, ast.Assign)
            and any(isinstance(t, ast.Name) and t.id == name for t in n.targets)]
    if len(vals) == 1:
        return m.mod.resolve_expr(vals[0])
    return None


# ----------------------------------------------------------------- lowering
# sizes of the loop bodies of the reviewed text, so that a small edit does not
# move a loop across the limit: (file, loop header) -> sizes
SIZES = {}


def body_size(st):
    return sum(1 for x in st.body for _ in ast.walk(x))


def loop_size(st, rel):
    n = body_size(st)
    near = [m for m in SIZES.get((rel, ast.dump(st.iter)), ()) if m * 2 <= n * 3 and n * 2 <= m * 3]
    return min(near, key=lambda m: abs(m - n)) if near else n


class Graph:
    """CFG of `func` with project callees inlined.

    opaque: names (qualified or bare) kept as call events.
    types:  {param name or attribute name: Cls} hints.
    """

    def __init__(self, func, cls=None, opaque=(), types=None, maxdepth=8, inline=True, params=None):
        self.func, self.opaque, self.types = func, set(opaque), dict(types or {})
        self.maxdepth, self.inline = maxdepth, inline
        self.steady = None          # attribute names nothing here stores
        self.wrote = set()
        self.build(func, cls, params)
        if any(b.kind is not None for b in self.blocks):
            # attributes no round of a loop can store need no phi
            self.steady = frozenset(self.wrote)
            self.build(func, cls, params)

    def build(self, func, cls, params):
        self.wrote = set()
        self.blocks, self.nframe, self.events = [], 0, []
        self.params = {}
        self.enters = []            # inlined calls: Ev kind 'enter'
        self.unresolved = []
        self.stack = []
        self.cls_of = {}
        self.loopstack = ()
        self.busy = set()
        self.final = []
        self.havocs = []
        self.entry = self.new_block(sealed=True)
        self.exit = self.new_block()
        self.rexit = self.new_block()
        self.cur = self.entry
        fr = self.frame(func)
        fr.cls = cls or func.cls
        self.root = fr
        fr.ret_block = self.exit
        self.retvals = []
        a = func.node.args
        names = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        for i, x in enumerate(names):
            t = mk('param', x) if not (params and x in params) else params[x]
            self.params[x] = t
            if i == 0 and fr.cls is not None and not func.static:
                self.cls_of[t.id] = fr.cls
            elif x in self.types:
                self.cls_of[t.id] = self.types[x]
            self.wvar((fr.id, x), t)
        for x in (a.vararg, a.kwarg):
            if x:
                self.params[x.arg] = t = mk('param', '*' + x.arg)
                self.wvar((fr.id, x.arg), t)
        self.stack.append(func)
        if isinstance(func.node, ast.Lambda):
            v = self.expr(func.node.body, fr)
            self.ret(fr, v, func.node)
        else:
            self.body(func.node.body, fr)
            if self.cur is not None:
                self.ret(fr, NONE, func.node)
        self.stack.pop()
        self.seal(self.exit)
        self.seal(self.rexit)
        self.finish()

    # -- blocks, SSA
    def new_block(self, sealed=False):
        b = Block(len(self.blocks))
        b.sealed = sealed
        b.loops = self.loopstack
        self.blocks.append(b)
        return b

    def edge(self, a, b, cond=None):
        if a is None:
            return
        if cond is not None:
            e = self.new_block(sealed=True)
            e.cond = cond
            a.succs.append(e)
            e.preds.append(a)
            a = e
        a.succs.append(b)
        b.preds.append(a)

    def seal(self, b):
        if b.sealed:
            return
        b.sealed = True
        for var, phi in list(b.incomplete.items()):
            self.fill_phi(var, phi, b)
        b.incomplete = {}

    def wvar(self, var, val, b=None):
        if var[0] == '@':
            self.wrote.add(var[2])
        b = b or self.cur
        if b is not None:
            b.defs[var] = val

    def rvar(self, var, b=None):
        b = b or self.cur
        if b is None:
            return mk('undef', 'unreachable')
        if var in b.defs:
            return self.res(b.defs[var])
        if not b.sealed and b.stores is not None and b.preds and var[0] not in ('@', '#') and (
                var[0] != b.stores[0] or var[1] not in b.stores[1]):
            v = self.rvar(var, b.preds[0])       # the loop cannot rebind it
            b.defs[var] = v
            return v
        if not b.sealed:
            phi = T('phi', ())
            phi.meta = (b, var)
            b.incomplete[var] = phi
            b.defs[var] = phi
            return phi
        if not b.preds:
            if var[0] == '@':
                v = mk('attr', self.byid[var[1]], var[2])
            elif var[0] == '#':
                v = const(0)
            else:
                v = mk('undef', var[1])
        elif len(b.preds) == 1:
            v = self.rvar(var, b.preds[0])
        else:
            phi = T('phi', ())
            phi.meta = (b, var)
            b.defs[var] = phi
            v = self.fill_phi(var, phi, b)
        b.defs[var] = v
        return v

    def res(self, t):
        while t.op == 'phi' and isinstance(t.args, T):
            t = t.args
        return t

    def fill_phi(self, var, phi, b):
        ops = []
        phi.loc = tuple(b.preds)
        for p in phi.loc:
            v = self.res(self.rvar(var, p))
            ops.append(v)
        phi.args = tuple(ops)
        return self.simplify(phi)

    def simplify(self, phi):
        if isinstance(phi.args, T):
            return self.res(phi)
        same = None
        for o in phi.args:
            o = self.res(o)
            if o is phi or o is same:
                continue
            if same is not None:
                return phi
            same = o
        if same is None:
            same = mk('undef', str(phi.meta[1]))
        phi.args = same
        return same

    byid = {}

    def leaves(self, t):
        """Values a phi can take, looking through other phis; None while a
        loop is still open."""
        out, seen, todo = [], set(), [t]
        while todo:
            x = self.res(todo.pop())
            if x.id in seen:
                continue
            seen.add(x.id)
            if x.op != 'phi':
                out.append(x)
            elif not x.args:
                out.append(x)
            else:
                todo.extend(x.args)
        return out

    def settle(self, t):
        t = self.res(t)
        if t.op == 'phi' and t.args:
            ls = self.leaves(t)
            if len(ls) == 1 and ls[0].op != 'phi':
                t.args = ls[0]
                return ls[0]
        return t

    # -- frames
    def frame(self, func, parent=None, closure=None):
        self.nframe += 1
        fr = Frame(self.nframe, func, parent, closure)
        fr.locals, fr.globals = _collect_locals(func.node)
        fr.start = self.cur
        return fr

    def handlers(self, fr):
        return fr.handlers

    def emit(self, ev, fr):
        if self.cur is None:
            self.cur = self.new_block(sealed=True)     # unreachable code
        ev.block = self.cur
        self.cur.events.append(ev)
        self.events.append(ev)
        if ev.kind in ('setsub', 'delsub') or (ev.kind == 'call' and ev.base is not None and ev.name in MUTATORS):
            self.bump(ev.base, ev)
        if ev.kind in ('call', 'getsub', 'delsub', 'setsub') and not ev.synth:
            h = self.active_handler(fr)
            if h is not None and not quiet(ev):
                self.edge(self.cur, h, ('exc', ev, True))
                nb = self.new_block()
                self.edge(self.cur, nb)
                self.seal(nb)
                self.cur = nb
        return ev

    def active_handler(self, fr):
        f = fr
        while f is not None:
            if f.handlers:
                return f.handlers[-1]
            f = f.parent
        return None

    # -- statements
    def body(self, sts, fr):
        for st in sts:
            if self.cur is None:
                # unreachable statement: lower it in a dangling block
                return
            self.stmt(st, fr)

    def stmt(self, st, fr):
        m = getattr(self, 's_' + type(st).__name__, None)
        if m is None:
            return
        m(st, fr)

    def s_Expr(self, st, fr):
        if isinstance(st.value, ast.Constant):
            return
        self.expr(st.value, fr)

    def s_Assign(self, st, fr):
        v = self.expr(st.value, fr)
        for t in st.targets:
            self.assign(t, v, fr, st)

    def s_AnnAssign(self, st, fr):
        if st.value is not None:
            self.assign(st.target, self.expr(st.value, fr), fr, st)

    def s_AugAssign(self, st, fr):
        op = opname(st.op, fr, st.value)
        t = st.target
        if isinstance(t, ast.Name):
            old = self.name(t.id, fr, t)
            x = self.expr(st.value, fr)
            if op in '+|' and (self.is_container(old) or op == '+' and t.id in self.listvars(fr)):
                # changes the list in place
                self.emit(Ev('call', fr.func, st, base=old, name='extend' if op == '+' else '__iadd__', args=[x],
                             term=T('call', ()), synth=True), fr)
                self.events[-1].term.meta = self.events[-1]
                v = old
            else:
                v = self.binop(op, old, x)
            self.assign(t, v, fr, st)
        elif isinstance(t, ast.Attribute):
            b = self.expr(t.value, fr)
            old = self.attr(b, t.attr, fr, t)
            v = self.binop(op, old, self.expr(st.value, fr))
            self.setattr(b, t.attr, v, fr, st, old, aug=op)
        elif isinstance(t, ast.Subscript):
            b = self.expr(t.value, fr)
            i = self.expr(t.slice, fr)
            old = self.readsub(b, i)
            v = self.binop(op, old, self.expr(st.value, fr))
            self.emit(Ev('setsub', fr.func, st, base=b, idx=i, value=v, old=old, extra=op), fr)

    def listvars(self, fr):
        """Locals only ever bound, once, to a new list."""
        if fr.lists is None:
            good, bad = {}, set(fr.globals)
            node = fr.func.node
            if isinstance(node, ast.Lambda):
                fr.lists = frozenset()
                return fr.lists
            bad |= set(a.arg for a in node.args.args + node.args.kwonlyargs)
            plain = set()
            for n in _own_nodes(node):
                if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                    v, x = n.value, n.targets[0].id
                    plain.add(id(n.targets[0]))
                    if isinstance(v, (ast.List, ast.ListComp)) or isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in ('list', 'sorted'):
                        good[x] = good.get(x, 0) + 1
                    else:
                        bad.add(x)
                elif isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
                    plain.add(id(n.target))
            for n in ast.walk(node):
                if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)) and id(n) not in plain:
                    bad.add(n.id)
                elif isinstance(n, ast.Nonlocal):
                    bad.update(n.names)
            fr.lists = frozenset(x for x, c in good.items() if c == 1 and x not in bad)
        return fr.lists

    def is_container(self, t):
        return t.op in ('list', 'set', 'dict')

    def assign(self, t, v, fr, st):
        if isinstance(t, ast.Name):
            if t.id in fr.globals:
                self.emit(Ev('setglobal', fr.func, st, name=t.id, value=v), fr)
            else:
                self.wvar((fr.id, t.id), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            for i, e in enumerate(t.elts):
                if isinstance(e, ast.Starred):
                    self.assign(e.value, mk('slice', v, const(i), const(None), const(None)), fr, st)
                elif star and i > star[0]:
                    self.assign(e, self.sub(v, const(i - len(t.elts))), fr, st)
                else:
                    self.assign(e, self.sub(v, const(i)), fr, st)
        elif isinstance(t, ast.Attribute):
            b = self.expr(t.value, fr)
            self.setattr(b, t.attr, v, fr, st, self.attr(b, t.attr, fr, t, load=False))
        elif isinstance(t, ast.Subscript):
            b = self.expr(t.value, fr)
            i = self.expr(t.slice, fr)
            self.emit(Ev('setsub', fr.func, st, base=b, idx=i, value=v), fr)

    def sub(self, b, i):
        if b.op == 'tuple' and i.op == 'const' and isinstance(i.args[0], int) and -len(b.args) <= i.args[0] < len(b.args):
            return b.args[i.args[0]]
        if b.op == 'list' and i.op == 'const' and isinstance(i.args[0], int) and -len(b.args[1]) <= i.args[0] < len(b.args[1]) and b.meta == 'frozen':
            return b.args[1][i.args[0]]
        if b.op == 'phi' and not isinstance(b.args, T) and i.op == 'const' and b.args and all(
                self.res(o).op == 'tuple' for o in b.args):
            # a tuple assigned on several branches, then unpacked
            blk = b.meta[0]
            ops = [self.sub(self.res(o), i) for o in b.args]
            if len(set(o.id for o in ops)) == 1:
                return ops[0]
            phi = T('phi', tuple(ops), b.loc)
            phi.meta = (blk, (b.meta[1], i.args[0]))
            return phi
        return mk('sub', b, i)

    def setattr(self, b, name, v, fr, st, old, aug=None):
        self.emit(Ev('setattr', fr.func, st, base=b, name=name, value=v, old=old, extra=aug), fr)
        Graph.byid[b.id] = b
        self.wvar(('@', b.id, name), v)

    TRACK = ('param', 'new', 'attr')

    def ver(self, b):
        """State of a container held by an attribute or parameter: const 0
        until this code changes it."""
        if b.op not in ('attr', 'param') or self.cur is None:
            return None
        v = self.rvar(('#', b.id))
        return None if is_const(v, 0) else v

    def bump(self, b, ev):
        if b is not None and b.op in ('attr', 'param') and self.cur is not None:
            t = T('ver', ())
            t.meta = ev
            self.wvar(('#', b.id), t)

    def readsub(self, b, i):
        t = self.sub(b, i)
        if t.op == 'sub' and len(t.args) == 2:
            v = self.ver(b)
            if v is not None:
                return mk('sub', b, i, v)
        return t

    def attr(self, b, name, fr, node, load=True):
        if b.op == 'mod' or b.op == 'cls' or b.op == 'ext':
            r = member(b.args[0] if b.op != 'ext' else Ext(b.args[0]), name)
            t = self.obj(r)
            if t is not None:
                return t
        if b.op in self.TRACK:
            Graph.byid[b.id] = b
            if self.steady is not None and name not in self.steady:
                return mk('attr', b, name)
            return self.rvar(('@', b.id, name))
        return mk('attr', b, name)

    def obj(self, r):
        if isinstance(r, Func):
            return mk('func', r, 0)
        if isinstance(r, Cls):
            return mk('cls', r)
        if isinstance(r, Mod):
            return mk('mod', r)
        if isinstance(r, GlobalVar):
            return mk('global', r)
        if isinstance(r, Ext):
            return mk('ext', r.name)
        return None

    def s_Delete(self, st, fr):
        for t in st.targets:
            if isinstance(t, ast.Subscript):
                b = self.expr(t.value, fr)
                i = self.expr(t.slice, fr)
                self.emit(Ev('delsub', fr.func, st, base=b, idx=i), fr)
            elif isinstance(t, ast.Attribute):
                self.emit(Ev('delattr', fr.func, st, base=self.expr(t.value, fr), name=t.attr), fr)
            elif isinstance(t, ast.Name):
                self.wvar((fr.id, t.id), mk('undef', t.id))

    def s_Return(self, st, fr):
        if fr.ret_cond is not None:
            t, f = fr.ret_cond
            if fr.finals:
                v = self.expr(st.value, fr) if st.value else NONE
                self.run_finals(fr)
                self.branch_term(v, t, f)
            else:
                self.cond(st.value or ast.Constant(value=None), fr, t, f)
            self.cur = None
            return
        v = self.expr(st.value, fr) if st.value is not None else NONE
        self.run_finals(fr)
        self.ret(fr, v, st)

    def ret(self, fr, v, st):
        if fr is self.root:
            if fr.func.node is not st or True:
                ev = self.emit(Ev('ret', fr.func, st, value=v), fr)
                self.retvals.append(ev)
        if self.cur is not None:
            self.wvar((fr.id, '$ret'), v)
            self.edge(self.cur, fr.ret_block)
        self.cur = None

    def run_finals(self, fr, upto=0):
        saved, hs = list(fr.finals), list(fr.handlers)
        for body, nh in reversed(saved[upto:]):
            fr.finals = saved[:saved.index((body, nh))]
            fr.handlers = hs[:nh]
            self.body(body, fr)
            if self.cur is None:
                break
        fr.finals, fr.handlers = saved, hs

    def s_If(self, st, fr):
        t, f, j = self.new_block(), self.new_block(), self.new_block()
        self.cond(st.test, fr, t, f)
        self.seal(t)
        self.seal(f)
        self.cur = t if t.preds else None
        if self.cur is not None:
            self.body(st.body, fr)
            self.edge(self.cur, j)
        self.cur = f if f.preds else None
        if self.cur is not None:
            self.body(st.orelse, fr)
            self.edge(self.cur, j)
        self.seal(j)
        self.cur = j if j.preds else None

    def s_While(self, st, fr):
        st = straight(st)
        h, b, x, e = self.loop_blocks(st, fr, 'while')
        self.emit(Ev('loop', fr.func, st, name='while', site=h), fr)
        self.cond(st.test, fr, b, e)
        self.seal(b)
        self.seal(e)
        fr.loops.append((h, x, len(fr.finals)))
        self.cur = b if b.preds else None
        if self.cur is not None:
            self.body(st.body, fr)
            self.edge(self.cur, h)
        fr.loops.pop()
        self.loopstack = x.loops
        self.seal(h)
        self.cur = e if e.preds else None
        if self.cur is not None:
            self.body(st.orelse, fr)
            self.edge(self.cur, x)
        self.seal(x)
        self.cur = x if x.preds else None

    def loop_blocks(self, st, fr, kind):
        x, e = self.new_block(), self.new_block()
        h = self.new_block()
        self.loopstack = self.loopstack + (h,)
        h.loops = self.loopstack
        h.kind, h.exit_e, h.exit_x, h.node = kind, e, x, st
        b = self.new_block()
        self.edge(self.cur, h)
        self.cur = h
        h.stores = (fr.id, _stores([st]))
        return h, b, x, e

    def literal(self, it, fr):
        """Elements of a short tuple or list written out in the loop header."""
        if isinstance(it, (ast.Tuple, ast.List)):
            if len(it.elts) <= 6 and not any(isinstance(x, ast.Starred) for x in it.elts):
                return list(it.elts)
        elif isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and not it.keywords and it.func.id not in fr.locals:
            if it.func.id in ('tuple', 'list', 'iter') and len(it.args) == 1:
                return self.literal(it.args[0], fr)
            if it.func.id == 'enumerate' and len(it.args) == 1:
                r = self.literal(it.args[0], fr)
                return r and [ast.Tuple(elts=[ast.Constant(value=i), x], ctx=ast.Load()) for i, x in enumerate(r)]
            if it.func.id == 'zip' and it.args:
                rs = [self.literal(a, fr) for a in it.args]
                if all(rs):
                    return [ast.Tuple(elts=list(x), ctx=ast.Load()) for x in zip(*rs)]
        elif isinstance(it, ast.Name):
            for f in _chain(fr):
                if it.id in f.locals:
                    return None
            d = fr.func.mod.lookup(it.id)
            if isinstance(d, GlobalVar):
                v = d.mod.defs.get(d.name)
                if isinstance(v, tuple) and len(v[1]) == 1 and isinstance(v[1][0], (ast.Tuple, ast.List)) and all(
                        _plain(x) for x in v[1][0].elts) and not mutated(d.mod, d.name):
                    return self.literal(v[1][0], fr)
        return None

    def unroll(self, elts, st, fr, bodyfn, orelse=()):
        vals = [self.expr(x, fr) for x in elts]
        x = self.new_block()
        for v in vals:
            nxt = self.new_block()
            fr.loops.append((nxt, x, len(fr.finals)))
            bodyfn(v)
            fr.loops.pop()
            self.edge(self.cur, nxt)
            self.seal(nxt)
            self.cur = nxt if nxt.preds else None
            if self.cur is None:
                break
        if self.cur is not None:
            self.body(orelse, fr)
            self.edge(self.cur, x)
        self.seal(x)
        self.cur = x if x.preds else None

    def s_For(self, st, fr):
        lit = self.literal(st.iter, fr)
        if lit is not None and len(lit) * loop_size(st, fr.func.mod.rel) <= 500 and len(self.blocks) < 4000:
            self.unroll(lit, st, fr, lambda el: (self.assign(st.target, el, fr, st), self.body(st.body, fr)), st.orelse)
            return
        it = self.expr(st.iter, fr)
        self.forloop(it, st, fr, lambda el: (self.assign(st.target, el, fr, st), self.body(st.body, fr)),
                     st.orelse)

    def forloop(self, it, st, fr, bodyfn, orelse=()):
        v = self.ver(it)
        h, b, x, e = self.loop_blocks(st, fr, 'for')
        h.iter = (it, v)
        el = T('elem', (h.id, it))
        el.meta = h
        self.emit(Ev('loop', fr.func, st, name='for', site=h, value=it, term=el), fr)
        self.edge(self.cur, b, ('iter', el, True))
        self.edge(self.cur, e, ('iter', el, False))
        self.seal(b)
        self.seal(e)
        fr.loops.append((h, x, len(fr.finals)))
        self.cur = b
        bodyfn(el)
        self.edge(self.cur, h)
        fr.loops.pop()
        self.loopstack = x.loops
        self.seal(h)
        self.cur = e
        if orelse:
            self.body(orelse, fr)
        self.edge(self.cur, x)
        self.seal(x)
        self.cur = x if x.preds else None

    def s_Break(self, st, fr):
        h, x, nf = fr.loops[-1]
        self.run_finals(fr, nf)
        self.edge(self.cur, x)
        self.cur = None

    def s_Continue(self, st, fr):
        h, x, nf = fr.loops[-1]
        self.run_finals(fr, nf)
        self.edge(self.cur, h)
        self.cur = None

    def s_Raise(self, st, fr):
        v = self.expr(st.exc, fr) if st.exc is not None else mk('reraise')
        ev = self.emit(Ev('raise', fr.func, st, value=v), fr)
        h = self.active_handler(fr)
        if self.cur is not None:
            self.edge(self.cur, h or self.rexit)
        self.cur = None

    def s_Assert(self, st, fr):
        t, f = self.new_block(), self.new_block()
        self.cond(st.test, fr, t, f)
        self.seal(t)
        self.seal(f)
        self.cur = f if f.preds else None
        if self.cur is not None:
            self.emit(Ev('raise', fr.func, st, value=mk('builtin', 'AssertionError')), fr)
            self.edge(self.cur, self.active_handler(fr) or self.rexit)
        self.cur = t if t.preds else None

    def s_Try(self, st, fr):
        if st.finalbody and all(isinstance(x, ast.Expr) and isinstance(x.value, ast.Call) and isinstance(x.value.func, ast.Attribute)
                                and x.value.func.attr == 'close' and not x.value.args for x in st.finalbody):
            # what a with statement does
            fr.finals.append((st.finalbody, len(fr.handlers)))
            if st.handlers:
                self.s_Try(ast.copy_location(ast.Try(body=st.body, handlers=st.handlers, orelse=st.orelse, finalbody=[]), st), fr)
            else:
                self.body(st.body, fr)
            fr.finals.pop()
            if self.cur is not None:
                self.body(st.finalbody, fr)
            return
        j = self.new_block()
        hd = self.new_block()
        if st.finalbody:
            fh = self.new_block()
            fr.handlers.append(fh)
            fr.finals.append((st.finalbody, len(fr.handlers) - 1))
        if st.handlers:
            fr.handlers.append(hd)
        self.body(st.body, fr)
        if st.handlers:
            fr.handlers.pop()
        if self.cur is not None:
            self.body(st.orelse, fr)
        ends = [self.cur]
        self.seal(hd)
        if st.handlers and hd.preds:
            self.cur = hd
            caught_all = False
            for h in st.handlers:
                hb = self.new_block()
                nxt = self.new_block()
                ty = h.type
                names = []
                if ty is None:
                    names = [None]
                else:
                    for e in (ty.elts if isinstance(ty, ast.Tuple) else [ty]):
                        names.append(e.attr if isinstance(e, ast.Attribute) else getattr(e, 'id', '?'))
                self.edge(self.cur, hb, ('handler', tuple(names), True))
                if None in names or 'BaseException' in names:
                    caught_all = True
                else:
                    self.edge(self.cur, nxt, ('handler', tuple(names), False))
                self.seal(hb)
                self.seal(nxt)
                self.cur = hb
                if h.name:
                    self.wvar((fr.id, h.name), T('exc', (tuple(names),)))
                self.emit(Ev('handler', fr.func, h, name=tuple(names)), fr)
                self.body(h.body, fr)
                ends.append(self.cur)
                self.cur = nxt
                if caught_all:
                    break
            if not caught_all and self.cur is not None:
                self.emit(Ev('raise', fr.func, st, value=mk('reraise'), synth=True), fr)
                self.edge(self.cur, self.active_handler(fr) or self.rexit)
        elif st.handlers and not hd.preds:
            pass
        if st.finalbody:
            fr.handlers.pop()
            fr.finals.pop()
        for e in ends:
            self.edge(e, j)
        self.seal(j)
        self.cur = j if j.preds else None
        if st.finalbody:
            if self.cur is not None:
                self.body(st.finalbody, fr)
            keep = self.cur
            self.seal(fh)
            if fh.preds:
                self.cur = fh
                self.body(st.finalbody, fr)
                if self.cur is not None:
                    self.emit(Ev('raise', fr.func, st, value=mk('reraise'), synth=True), fr)
                    self.edge(self.cur, self.active_handler(fr) or self.rexit)
            self.cur = keep

    s_TryStar = s_Try

    def s_With(self, st, fr):
        for it in st.items:
            v = self.expr(it.context_expr, fr)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, fr, st)
        self.body(st.body, fr)

    def s_FunctionDef(self, st, fr):
        f = Func(fr.func.mod, st, fr.func.qual + '.' + st.name, None, fr.func)
        t = T('func', (f, fr.id))
        t.meta = fr
        self.wvar((fr.id, st.name), t)

    def s_ClassDef(self, st, fr):
        c = Cls(fr.func.mod, st, fr.func.qual + '.' + st.name)
        self.wvar((fr.id, st.name), mk('cls', c))

    def s_Import(self, st, fr):
        for a in st.names:
            m = fr.func.mod.find_module(a.name)
            nm = a.asname or a.name.split('.')[0]
            self.wvar((fr.id, nm), mk('mod', m) if m else mk('ext', a.name if a.asname else a.name.split('.')[0]))

    def s_ImportFrom(self, st, fr):
        base = '.' * st.level + (st.module or '')
        m = fr.func.mod.find_module(base)
        for a in st.names:
            r = m.lookup(a.name) if m else None
            t = self.obj(r) if r is not None else mk('ext', base + '.' + a.name)
            self.wvar((fr.id, a.asname or a.name), t)

    # -- conditions
    def cond(self, e, fr, t, f):
        if isinstance(e, ast.BoolOp):
            vals = e.values
            for i, v in enumerate(vals[:-1]):
                n = self.new_block()
                if isinstance(e.op, ast.And):
                    self.cond(v, fr, n, f)
                else:
                    self.cond(v, fr, t, n)
                self.seal(n)
                self.cur = n if n.preds else None
                if self.cur is None:
                    return
            self.cond(vals[-1], fr, t, f)
            return
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            self.cond(e.operand, fr, f, t)
            return
        if isinstance(e, ast.Compare) and len(e.ops) > 1:
            l = self.expr(e.left, fr)
            for i, (o, r) in enumerate(zip(e.ops, e.comparators)):
                rt = self.expr(r, fr)
                c = self.cmp(o, l, rt)
                if i == len(e.ops) - 1:
                    self.branch_term(c, t, f)
                else:
                    n = self.new_block()
                    self.branch_term(c, n, f)
                    self.seal(n)
                    self.cur = n
                l = rt
            self.cur = None
            return
        if isinstance(e, ast.Constant):
            self.edge(self.cur, t if e.value else f)
            self.cur = None
            return
        if isinstance(e, ast.IfExp):
            a, b = self.new_block(), self.new_block()
            self.cond(e.test, fr, a, b)
            self.seal(a)
            self.seal(b)
            for blk, x in ((a, e.body), (b, e.orelse)):
                self.cur = blk if blk.preds else None
                if self.cur is not None:
                    self.cond(x, fr, t, f)
            self.cur = None
            return
        if isinstance(e, ast.Call):
            v = self.call(e, fr, ret_cond=(t, f))
            if v is None:
                self.cur = None
                return
            self.branch_term(v, t, f)
            return
        self.branch_term(self.expr(e, fr), t, f)

    def branch_term(self, v, t, f):
        v = self.res(v)
        if v.op == 'const':
            self.edge(self.cur, t if v.args[0] else f)
        elif v.op == 'not':
            self.branch_term(v.args[0], f, t)
        elif v.op in ('and', 'or'):
            for x in v.args[:-1]:
                n = self.new_block()
                if v.op == 'and':
                    self.branch_term(x, n, f)
                else:
                    self.branch_term(x, t, n)
                self.seal(n)
                self.cur = n
            self.branch_term(v.args[-1], t, f)
        elif v.op == 'phi' and not isinstance(v.args, T) and v.args and all(
                self.res(o).op == 'const' for o in v.args) and v.meta[0] is self.cur and not self.cur.events and self.cur.preds and len(self.cur.preds) == len(v.args):
            # boolean built by an if/else just above: thread the branch
            preds = self.cur.preds
            for p, o in zip(list(preds), v.args):
                n = self.new_block(sealed=True)
                p.succs[p.succs.index(self.cur)] = n
                n.preds.append(p)
                tgt = t if self.res(o).args[0] else f
                n.succs.append(tgt)
                tgt.preds.append(n)
            self.cur.preds = []
        else:
            self.edge(self.cur, t, ('if', v, True))
            self.edge(self.cur, f, ('if', v, False))
        self.cur = None

    # -- expressions
    def expr(self, e, fr):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            for c in ast.iter_child_nodes(e):
                if isinstance(c, ast.expr):
                    self.expr(c, fr)
            return T('unknown', (), (fr.func, e))
        return m(e, fr)

    def e_Constant(self, e, fr):
        return const(e.value)

    def e_JoinedStr(self, e, fr):
        return mk('fmt', *[self.expr(v, fr) for v in e.values])

    def e_FormattedValue(self, e, fr):
        return self.expr(e.value, fr)

    def e_Name(self, e, fr):
        return self.name(e.id, fr, e)

    def name(self, n, fr, node):
        f = fr
        while f is not None:
            if n in f.locals and n not in f.globals:
                return self.rvar((f.id, n)) if self.cur is not None else T('unknown', ())
            f = f.closure
        r = fr.func.mod.lookup(n)
        t = self.obj(r)
        if t is not None:
            return t
        if n in BUILTINS:
            return mk('builtin', n)
        if n in ('__name__', '__file__', '__doc__'):
            return T('unknown', ())
        self.unresolved.append((n, fr.func, node))
        return mk('undef', n)

    def e_Attribute(self, e, fr):
        return self.attr(self.expr(e.value, fr), e.attr, fr, e)

    def e_Subscript(self, e, fr):
        b = self.expr(e.value, fr)
        if isinstance(e.slice, ast.Slice):
            s = e.slice
            g = [self.expr(x, fr) if x is not None else NONE for x in (s.lower, s.upper, s.step)]
            v = self.ver(b)
            if v is not None:
                g.append(v)
            return mk('slice', b, *g)
        i = self.expr(e.slice, fr)
        t = self.readsub(b, i)
        if t.op == 'sub' and self.active_handler(fr) is not None:
            self.emit(Ev('getsub', fr.func, e, base=b, idx=i, term=t), fr)
        return t

    def e_Slice(self, e, fr):
        return T('unknown', ())

    def e_Starred(self, e, fr):
        return mk('star', self.expr(e.value, fr))

    def binop(self, op, l, r):
        if l.op == 'const' and r.op == 'const':
            a, b = l.args[0], r.args[0]
            try:
                if isinstance(a, (int, float)) and isinstance(b, (int, float)) and op != '**':
                    if op in ('<<', '>>') and not 0 <= b < 4096:
                        raise ValueError
                    v = {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b,
                         '|': lambda: a | b, '&': lambda: a & b, '^': lambda: a ^ b,
                         '<<': lambda: a << b, '>>': lambda: a >> b, '//': lambda: a // b}.get(op)
                    if v:
                        return const(v())
                if op == '**' and isinstance(a, int) and isinstance(b, int) and 0 <= b < 128:
                    return const(a ** b)
                if op == '+' and isinstance(a, str) and isinstance(b, str):
                    return const(a + b)
            except Exception:
                pass
        return mk('bin', op, l, r)

    def e_BinOp(self, e, fr):
        l = self.expr(e.left, fr)
        r = self.expr(e.right, fr)
        return self.binop(opname(e.op, fr, e.left, e.right), l, r)

    def e_UnaryOp(self, e, fr):
        v = self.expr(e.operand, fr)
        if isinstance(e.op, ast.Not):
            return mk('not', v)
        if isinstance(e.op, ast.USub):
            return const(-v.args[0]) if v.op == 'const' and isinstance(v.args[0], (int, float)) else mk('neg', v)
        if isinstance(e.op, ast.Invert):
            return const(~v.args[0]) if v.op == 'const' and isinstance(v.args[0], int) else mk('inv', v)
        return v

    def cmp(self, o, l, r):
        if isinstance(o, (ast.In, ast.NotIn)):
            v = self.ver(r)
            if v is not None:
                return mk('cmp', _CMP[type(o)], l, r, v)
        return mk('cmp', _CMP[type(o)], l, r)

    def e_Compare(self, e, fr):
        l = self.expr(e.left, fr)
        out = []
        for o, c in zip(e.ops, e.comparators):
            r = self.expr(c, fr)
            out.append(self.cmp(o, l, r))
            l = r
        return out[0] if len(out) == 1 else mk('and', *out)

    def e_BoolOp(self, e, fr):
        if any(isinstance(n, (ast.Call, ast.Subscript)) for v in e.values[1:] for n in ast.walk(v)):
            # evaluation order matters: branch
            key = (fr.id, '$bool%d' % T._n)
            j = self.new_block()
            isand = isinstance(e.op, ast.And)
            for v in e.values[:-1]:
                n, s = self.new_block(), self.new_block()
                val = self.expr(v, fr)
                if self.cur is None:
                    return T('unknown', ())
                c = self.cur
                self.edge(c, n, ('if', val, isand))
                self.edge(c, s, ('if', val, not isand))
                self.seal(n)
                self.seal(s)
                self.wvar(key, val, s)
                self.edge(s, j)
                self.cur = n
            val = self.expr(e.values[-1], fr)
            self.wvar(key, val)
            self.edge(self.cur, j)
            self.seal(j)
            self.cur = j
            phi = self.rvar(key)
            if phi.op == 'phi':
                phi.meta = phi.meta[:2] + (('and' if isand else 'or'),)
            return phi
        return mk('and' if isinstance(e.op, ast.And) else 'or', *[self.expr(v, fr) for v in e.values])

    def e_IfExp(self, e, fr):
        t, f, j = self.new_block(), self.new_block(), self.new_block()
        key = (fr.id, '$if%d' % T._n)
        self.cond(e.test, fr, t, f)
        self.seal(t)
        self.seal(f)
        for b, x in ((t, e.body), (f, e.orelse)):
            self.cur = b if b.preds else None
            if self.cur is not None:
                v = self.expr(x, fr)
                self.wvar(key, v)
                self.edge(self.cur, j)
        self.seal(j)
        self.cur = j
        return self.rvar(key)

    def e_Tuple(self, e, fr):
        return mk('tuple', *[self.expr(x, fr) for x in e.elts])

    def fresh(self, op, items, e, fr):
        t = T(op, ((fr.id, e), items), (fr.func, e))
        t.meta = self.cur
        return t

    def e_List(self, e, fr):
        return self.fresh('list', tuple(self.expr(x, fr) for x in e.elts), e, fr)

    def e_Set(self, e, fr):
        return self.fresh('set', tuple(self.expr(x, fr) for x in e.elts), e, fr)

    def e_Dict(self, e, fr):
        items = []
        for k, v in zip(e.keys, e.values):
            items.append((self.expr(k, fr) if k is not None else STAR, self.expr(v, fr)))
        return self.fresh('dict', tuple(items), e, fr)

    def comp(self, e, fr, kind, emitfn):
        out = self.fresh(kind, (), e, fr)
        f2 = Frame(self.nframe + 1, fr.func, fr, fr)
        self.nframe += 1
        for g in e.generators:
            for n in ast.walk(g.target):
                if isinstance(n, ast.Name):
                    f2.locals.add(n.id)

        def gen(i):
            if i == len(e.generators):
                emitfn(out, f2)
                return
            g = e.generators[i]
            lit = self.literal(g.iter, f2 if i else fr)
            it = self.expr(g.iter, f2 if i else fr) if lit is None else None

            def bodyfn(el):
                self.assign(g.target, el, f2, e)
                skip = self.new_block()
                for c in g.ifs:
                    n = self.new_block()
                    self.cond(c, f2, n, skip)
                    self.seal(n)
                    self.cur = n if n.preds else None
                if self.cur is not None:
                    gen(i + 1)
                self.edge(self.cur, skip)
                self.seal(skip)
                self.cur = skip if skip.preds else None
            if lit is not None:
                self.unroll(lit, e, f2, bodyfn)
            else:
                self.forloop(it, e, f2, bodyfn)
        gen(0)
        return out

    def synth_call(self, base, name, args, node, fr):
        t = T('call', ())
        ev = Ev('call', fr.func, node, base=base, name=name, args=args, term=t, synth=True)
        t.meta = ev
        self.emit(ev, fr)

    def e_ListComp(self, e, fr):
        return self.comp(e, fr, 'list', lambda out, f: self.synth_call(out, 'append', [self.expr(e.elt, f)], e, f))

    e_GeneratorExp = e_ListComp

    def e_SetComp(self, e, fr):
        return self.comp(e, fr, 'set', lambda out, f: self.synth_call(out, 'add', [self.expr(e.elt, f)], e, f))

    def e_DictComp(self, e, fr):
        def em(out, f):
            k = self.expr(e.key, f)
            v = self.expr(e.value, f)
            self.emit(Ev('setsub', fr.func, e, base=out, idx=k, value=v, synth=True), f)
        return self.comp(e, fr, 'dict', em)

    def e_Lambda(self, e, fr):
        f = Func(fr.func.mod, e, fr.func.qual + '.<lambda>', None, fr.func)
        t = T('func', (f, fr.id))
        t.meta = fr
        return t

    def e_Yield(self, e, fr):
        v = self.expr(e.value, fr) if e.value is not None else NONE
        g = self.gen_list(fr)
        self.synth_call(g, 'append', [v], e, fr)
        return T('unknown', ())

    def gen_list(self, fr):
        if not hasattr(fr, 'gen'):
            fr.gen = T('list', ((fr.id, fr.func.node), ()), (fr.func, fr.func.node))
            fr.gen.meta = fr.start
        return fr.gen

    def e_Call(self, e, fr):
        v = self.call(e, fr)
        return v if v is not None else T('unknown', ())

    # -- calls
    def klass(self, t):
        t = self.res(t)
        if t.op != 'phi':
            return self.klass_(t)
        if t.id in self.busy:
            return None
        self.busy.add(t.id)
        try:
            return self.klass_(t)
        finally:
            self.busy.discard(t.id)

    def klass_(self, t):
        c = self.cls_of.get(t.id)
        if c is not None:
            return c
        if t.op == 'new':
            return t.args[1]
        if t.op == 'attr':
            if t.args[1] in self.types:
                return self.types[t.args[1]]
            k = self.klass(t.args[0])
            if k is not None:
                return attr_class(k, t.args[1])
        if t.op == 'global':
            vals = t.args[0].mod.defs.get(t.args[0].name)
            if isinstance(vals, tuple) and len(vals[1]) == 1 and isinstance(vals[1][0], ast.Call):
                r = t.args[0].mod.resolve_expr(vals[1][0].func)
                if isinstance(r, Cls):
                    return r
        if t.op == 'phi' and not isinstance(t.args, T) and not t.args and t.meta:
            b, var = t.meta[:2]
            if var[0] == '@' and var[2] in self.types:
                return self.types[var[2]]
            k = self.klass(Graph.byid[var[1]]) if var[0] == '@' else None
            k = attr_class(k, var[2]) if k is not None else None
            if k is None and not b.sealed and b.preds:
                k = self.klass(self.rvar(var, b.preds[0]))
            return k
        if t.op == 'phi':
            ks = set(self.klass(o) for o in self.leaves(t) if o.id not in self.busy and not is_const(o, None))
            if len(ks) == 1:
                return ks.pop()
        return None

    def pattern(self, t):
        """The text of the regular expression t was compiled from."""
        if t.op == 'call' and t.meta is not None and t.meta.fn is not None and t.meta.fn.op == 'ext' and t.meta.fn.args[0] == 're.compile' and \
                len(t.meta.args) == 1 and not t.meta.kw and is_str(t.meta.args[0]):
            return t.meta.args[0]
        v, mod = None, None
        if t.op == 'global':
            d = t.args[0].mod.defs.get(t.args[0].name)
            mod = t.args[0].mod
            if isinstance(d, tuple) and len(d[1]) == 1:
                v = d[1][0]
        elif t.op == 'attr' and t.args[0].op in ('param', 'cls'):
            k = t.args[0].args[0] if t.args[0].op == 'cls' else self.klass(t.args[0])
            fa = k.find_attr(t.args[1]) if isinstance(k, Cls) else None
            if fa is not None and not any(isinstance(x, ast.Attribute) and x.attr == t.args[1] and isinstance(x.ctx, (ast.Store, ast.Del)) for x in ast.walk(k.mod.tree)):
                v, mod = fa[1], k.mod
        if isinstance(v, ast.Call) and len(v.args) == 1 and not v.keywords and isinstance(v.args[0], ast.Constant) and isinstance(v.args[0].value, (str, bytes)):
            r = mod.resolve_expr(v.func)
            if isinstance(r, Ext) and r.name == 're.compile':
                return const(v.args[0].value)
        return None

    def call(self, e, fr, ret_cond=None):
        f = e.func
        base = None
        target = None
        recv = None
        name = None
        fn = None
        pre = []
        if isinstance(f, ast.Attribute):
            name = f.attr
            bt = self.settle(self.expr(f.value, fr))
            pat = self.pattern(bt)
            if pat is not None and not any(isinstance(x, ast.Starred) for x in e.args):
                # P = re.compile(x); P.sub(..) is re.sub(x, ..)
                pre = [pat]
                fn = mk('ext', 're.' + name)
            elif bt.op in ('mod', 'cls', 'ext'):
                r = member(bt.args[0] if bt.op != 'ext' else Ext(bt.args[0]), name)
                fn = self.obj(r) or mk('attr', bt, name)
                if isinstance(r, Func):
                    target = r
                    if bt.op == 'cls' and r.classm:
                        recv = bt
                elif bt.op == 'cls' and r is None:
                    base = bt
            elif bt.op == 'call' and bt.meta.fn is not None and bt.meta.fn.op == 'builtin' and bt.meta.fn.args[0] == 'super':
                c = fr.func.cls
                for k in (c.mro()[1:] if c else []):
                    if name in k.methods:
                        target = k.methods[name]
                        break
                recv = self.params.get(fr.func.params()[0]) if fr is self.root else self.rvar((fr.id, fr.func.params()[0]))
                base = recv
            else:
                base = bt
                k = self.klass(bt)
                if k is not None:
                    target = k.find(name)
                    if target is not None:
                        recv = bt
                if target is None:
                    v = self.attr(bt, name, fr, f)
                    v = self.res(v)
                    if v.op in ('func', 'bound'):
                        fn = v
        else:
            fn = self.res(self.expr(f, fr))
        cargs = list(pre)
        kws = {}
        if fn is not None and fn.op == 'attr' and base is None and not isinstance(f, ast.Attribute):
            base, name = fn.args[0], fn.args[1]       # bound method kept in a local
            k = self.klass(base)
            if k is not None:
                target = k.find(name)
                recv = base if target is not None else None
            fn = None
        for a in e.args:
            cargs.append(self.expr(a, fr))
        for k in e.keywords:
            kws[k.arg or '**%d' % len(kws)] = self.expr(k.value, fr)
        if self.cur is None:
            return None
        closure = None
        if fn is not None:
            if fn.op == 'func':
                target = fn.args[0]
                closure = fn.meta
                name = name or target.name
                base = None
            elif fn.op == 'bound':
                target, recv = fn.args
            elif fn.op == 'cls':
                return self.construct(fn.args[0], cargs, kws, e, fr)
            elif fn.op in ('builtin', 'ext'):
                name = fn.args[0]
            elif fn.op == 'attr' and name is None:
                name = fn.args[1]
        if target is not None and base is None and recv is None and name is None:
            name = target.name
        if target is None and base is not None and fn is None and name is not None and not e.args and not e.keywords and len(self.stack) <= self.maxdepth:
            # an accessor that every class in reach spells the same way
            acc = fr.func.mod.accessor(name)
            if acc is not None:
                return self.inline_call(acc, base, cargs, kws, e, fr, None, ret_cond)
        if target is not None and (self.can_inline(target, cargs, e, fr) or recv is not None and not e.args and not e.keywords and trivial(target) is not None):
            return self.inline_call(target, recv, cargs, kws, e, fr, closure, ret_cond)
        if fn is not None and fn.op == 'builtin' and fn.args[0] in ('getattr', 'setattr') and not kws and len(cargs) == (
                2 if fn.args[0] == 'getattr' else 3) and cargs[1].op == 'const' and isinstance(cargs[1].args[0], str):
            b, n = self.res(cargs[0]), cargs[1].args[0]
            if fn.args[0] == 'getattr':
                return self.attr(b, n, fr, e)
            self.setattr(b, n, cargs[2], fr, e, self.attr(b, n, fr, e, load=False))
            return NONE
        if fn is not None and fn.op == 'ext' and fn.args[0] == 'json.load' and len(cargs) == 1:
            rd = T('call', ())
            ev = Ev('call', fr.func, e, base=cargs[0], name='read', term=rd)
            rd.meta = ev
            self.emit(ev, fr)
            fn, name, cargs = mk('ext', 'json.loads'), 'json.loads', [rd]
        t = T('call', ())
        ev = Ev('call', fr.func, e, base=base, name=name, fn=fn, args=cargs, kw=kws, term=t, target=target)
        t.meta = ev
        for i, a in enumerate(cargs):
            v = self.ver(a)
            if v is not None:
                ev.vers[i] = v
        if base is not None:
            v = self.ver(base)
            if v is not None:
                ev.vers['base'] = v
        # functional iteration
        if fn is not None and fn.op == 'builtin' and fn.args[0] in ('map', 'filter') and len(cargs) == 2 and self.res(cargs[0]).op == 'func':
            return self.map_filter(fn.args[0], cargs, e, fr)
        if recv is not None and target is not None:
            reads, writes, muts = attr_touch(target)
            Graph.byid[recv.id] = recv
            if recv.op in self.TRACK:
                for a in sorted(reads | muts):
                    ev.mem[a] = self.rvar(('@', recv.id, a))
                    v = self.ver(ev.mem[a])
                    if v is not None:
                        ev.mem['#' + a] = v
            self.havoc(recv, target, ev)
            for a in sorted(muts):
                if recv.op in self.TRACK:
                    self.bump(self.rvar(('@', recv.id, a)), ev)
        self.emit(ev, fr)
        return t

    def map_filter(self, kind, cargs, e, fr):
        out = self.fresh('list', (), e, fr)
        f = self.res(cargs[0])

        def bodyfn(el):
            r = self.inline_call(f.args[0], None, [el], {}, e, fr, f.meta, None)
            if kind == 'map':
                self.synth_call(out, 'append', [r], e, fr)
            else:
                a, s = self.new_block(), self.new_block()
                self.branch_term(r, a, s)
                self.seal(a)
                self.cur = a
                self.synth_call(out, 'append', [el], e, fr)
                self.edge(self.cur, s)
                self.seal(s)
                self.cur = s
        self.forloop(cargs[1], e, fr, bodyfn)
        return out

    def havoc(self, recv, target, ev=None):
        Graph.byid[recv.id] = recv
        for a in sorted(attr_touch(target)[1]):
            t = T('havoc', (recv, a, target))
            t.meta = ev
            self.wvar(('@', recv.id, a), t)
            self.havocs.append((recv.id, a, self.cur))

    def can_inline(self, target, cargs, e, fr):
        if not self.inline:
            return False
        if target.name in self.opaque or target.qual in self.opaque or target.where in self.opaque:
            return False
        if target in self.stack or any(t.node is target.node for t in self.stack) or len(self.stack) > self.maxdepth:
            return False
        if any(isinstance(a, ast.Starred) for a in e.args) or any(k.arg is None for k in e.keywords):
            return False
        return True

    def construct(self, cls, cargs, kws, e, fr):
        t = T('new', ((fr.id, e), cls), (fr.func, e))
        ev = Ev('new', fr.func, e, name=cls.name, args=cargs, kw=kws, term=t, target=cls)
        self.emit(ev, fr)
        t.meta = ev
        init = cls.find('__init__')
        if init is not None and self.can_inline(init, cargs, e, fr):
            self.inline_call(init, t, cargs, kws, e, fr, None, None)
        elif init is not None:
            self.havoc(t, init, ev)
        return t

    def inline_call(self, target, recv, cargs, kws, e, fr, closure, ret_cond):
        nf = self.frame(target, fr, closure if closure is not None else None)
        nf.depth = fr.depth + 1
        nf.cls = target.cls
        a = target.node.args
        pn = [x.arg for x in a.posonlyargs + a.args]
        vals = list(cargs)
        if recv is not None and not target.static:
            vals = [recv] + vals
        ev = Ev('enter', target, e, args=vals, kw=kws, target=target, base=recv, site=nf.id, extra=fr.func)
        self.emit(ev, fr)
        dflt = a.defaults
        doff = len(pn) - len(dflt)
        bound = {}
        for i, p in enumerate(pn):
            if i < len(vals):
                bound[p] = vals[i]
            elif p in kws:
                bound[p] = kws[p]
            elif i >= doff:
                d = dflt[i - doff]
                bound[p] = const(d.value) if isinstance(d, ast.Constant) else T('default', (target, p, d))
                if not isinstance(d, ast.Constant):
                    r = target.mod.resolve_expr(d)
                    bound[p] = self.obj(r) or bound[p]
            else:
                bound[p] = mk('undef', p)
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            bound[x.arg] = kws.get(x.arg, const(d.value) if isinstance(d, ast.Constant) else mk('undef', x.arg))
        if a.vararg:
            bound[a.vararg.arg] = mk('tuple', *vals[len(pn):])
        if a.kwarg:
            bound[a.kwarg.arg] = self.fresh('dict', tuple((const(k), v) for k, v in kws.items() if k not in pn), e, fr)
        for p, v in bound.items():
            self.wvar((nf.id, p), v)
        # tuple parameters (py2) are not used in the repository
        isgen = not isinstance(target.node, ast.Lambda) and any(
            isinstance(n, (ast.Yield, ast.YieldFrom)) for n in _own_nodes(target.node))
        if isgen:
            ret_cond = None
        self.stack.append(target)
        nf.ret_block = self.new_block()
        if ret_cond is not None and not isinstance(target.node, ast.Lambda):
            nf.ret_cond = ret_cond
            self.body(target.node.body, nf)
            if self.cur is not None:
                self.edge(self.cur, ret_cond[1])
            self.cur = None
            self.stack.pop()
            self.seal(nf.ret_block)
            return None
        if isinstance(target.node, ast.Lambda):
            v = self.expr(target.node.body, nf)
            if self.cur is not None:
                self.wvar((nf.id, '$ret'), v)
                self.edge(self.cur, nf.ret_block)
        else:
            self.body(target.node.body, nf)
            if self.cur is not None:
                self.wvar((nf.id, '$ret'), NONE)
                self.edge(self.cur, nf.ret_block)
        self.stack.pop()
        self.seal(nf.ret_block)
        if not nf.ret_block.preds:
            self.cur = None
            return None
        self.cur = nf.ret_block
        v = self.gen_list(nf) if isgen else self.rvar((nf.id, '$ret'))
        ev.value = v
        self.emit(Ev('leave', target, e, args=vals, value=v, target=target, site=nf.id, extra=fr.func), fr)
        return v

    # -- finishing
    def finish(self):
        # resolve trivial phis everywhere, prune unreachable blocks
        reach, todo = set(), [self.entry]
        while todo:
            b = todo.pop()
            if b.id in reach:
                continue
            reach.add(b.id)
            todo.extend(b.succs)
        self.live = [b for b in self.blocks if b.id in reach]
        for b in self.live:
            b.preds = [p for p in b.preds if p.id in reach]
        changed = True
        phis = [d for b in self.blocks for d in b.defs.values() if d.op == 'phi']
        done = set()
        for e in self.events:
            if e.kind == 'setattr' and e.base.op in self.TRACK and (e.base.id, e.name) not in done:
                done.add((e.base.id, e.name))
                if self.exit.id in reach:
                    self.final.append([e.base, e.name, self.rvar(('@', e.base.id, e.name), self.exit), e])
        for b in list(self.blocks):
            phis.extend(d for d in b.defs.values() if d.op == 'phi')
        while changed:
            changed = False
            for p in phis:
                if not isinstance(p.args, T) and p.args:
                    if self.simplify(p) is not p:
                        changed = True
        for p in phis:
            if not isinstance(p.args, T) and p.args:
                self.settle(p)
        self.events = [e for b in self.live for e in b.events]
        memo = {}
        for e in self.events:
            for s in ('base', 'fn', 'value', 'old', 'idx'):
                v = getattr(e, s)
                if isinstance(v, T):
                    setattr(e, s, self.norm(v, memo))
            e.args = [self.norm(a, memo) for a in e.args]
            e.kw = {k: self.norm(v, memo) for k, v in e.kw.items()}
            e.mem = {k: self.norm(v, memo) for k, v in e.mem.items()}
            e.vers = {k: self.norm(v, memo) for k, v in e.vers.items()}
            e.vers = {k: v for k, v in e.vers.items() if not is_const(v, 0)}
        for b in self.live:
            if b.cond is not None and isinstance(b.cond[1], T):
                b.cond = (b.cond[0], self.norm(b.cond[1], memo), b.cond[2])
        for p in phis:
            if not isinstance(p.args, T):
                p.args = tuple(self.norm(o, memo) for o in p.args)
        for f in self.final:
            f[0], f[2] = self.norm(f[0], memo), self.norm(f[2], memo)
        for b in self.live:
            if b.iter is not None:
                b.iter = tuple(self.norm(x, memo) if x is not None else None for x in b.iter)

    def norm(self, t, memo):
        """Rebuild a term with trivial phis removed."""
        t = self.res(t)
        if t.id in memo:
            return memo[t.id]
        memo[t.id] = t
        if t.op in ('bin', 'cmp', 'not', 'neg', 'inv', 'and', 'or', 'tuple', 'attr', 'sub', 'slice', 'star', 'fmt'):
            na = tuple(self.norm(a, memo) if isinstance(a, T) else a for a in t.args)
            if any(x is not y for x, y in zip(na, t.args)):
                if t.op in ('sub', 'slice', 'cmp') and isinstance(na[-1], T) and len(na) > {'sub': 2, 'slice': 4, 'cmp': 3}[t.op] \
                        and is_const(na[-1], 0):
                    na = na[:-1]
                r = mk(t.op, *na)
                if r.op == 'sub' and len(na) == 2:
                    r = self.sub(*r.args)
                memo[t.id] = r
                return r
        elif t.op in ('list', 'set'):
            t.args = (t.args[0], tuple(self.norm(a, memo) for a in t.args[1]))
        elif t.op == 'dict':
            t.args = (t.args[0], tuple((self.norm(k, memo), self.norm(v, memo)) for k, v in t.args[1]))
        elif t.op == 'elem':
            t.args = (t.args[0], self.norm(t.args[1], memo))
        return t


def _chain(fr):
    while fr is not None:
        yield fr
        fr = fr.closure


def _plain(n):
    return isinstance(n, ast.Constant) or isinstance(n, ast.Tuple) and all(_plain(x) for x in n.elts)


_MUT = {}


def mutated(mod, name):
    """Is the module-level list of that name ever changed?"""
    k = (id(mod), name)
    if k not in _MUT:
        r = False
        for n in ast.walk(mod.tree):
            if isinstance(n, ast.Global) and name in n.names:
                r = True
            elif isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == name and n.attr in MUTATORS:
                r = True
            elif isinstance(n, ast.Subscript) and isinstance(n.value, ast.Name) and n.value.id == name and isinstance(n.ctx, (ast.Store, ast.Del)):
                r = True
            elif isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and n.target.id == name:
                r = True
        _MUT[k] = (mod, r)
    return _MUT[k][1]


def straight(st):
    """while True: if c: break; rest  ->  while not c: rest"""
    if st.orelse:
        return st
    for _ in range(4):
        if not st.body or not isinstance(st.body[0], ast.If):
            break
        i = st.body[0]
        brk = lambda b: len(b) == 1 and isinstance(b[0], ast.Break)
        if brk(i.body):
            c, rest = ast.UnaryOp(op=ast.Not(), operand=i.test), list(i.orelse) + st.body[1:]
        elif brk(i.orelse):
            c, rest = i.test, list(i.body) + st.body[1:]
        else:
            break
        if not (isinstance(st.test, ast.Constant) and st.test.value):
            c = ast.BoolOp(op=ast.And(), values=[st.test, c])
        n = ast.While(test=c, body=rest or [ast.Pass()], orelse=[])
        ast.copy_location(n, st)
        ast.fix_missing_locations(n)
        st = n
    return st


def _own_nodes(node):
    todo = list(node.body) if isinstance(node.body, list) else [node.body]
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        todo.extend(ast.iter_child_nodes(n))


_OPS = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.Mod: '%', ast.FloorDiv: '//',
        ast.LShift: '<<', ast.RShift: '>>', ast.BitOr: '|', ast.BitAnd: '&', ast.BitXor: '^',
        ast.Pow: '**', ast.MatMult: '@'}


def opname(op, fr, *operands):
    o = _OPS.get(type(op), '?')
    if o == '/' and fr.func.mod.rel.endswith('.py') and not fr.func.mod.py3 and not any(
            isinstance(n, ast.Constant) and isinstance(n.value, float) or isinstance(n, ast.Name) and n.id == 'float' for x in operands for n in ast.walk(x)):
        return '//'               # what / means for the integers of Python 2
    return o


_CMP = {ast.Eq: '==', ast.NotEq: '!=', ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=',
        ast.Is: 'is', ast.IsNot: 'is not', ast.In: 'in', ast.NotIn: 'not in'}
