"""Which objects can an expression denote?

A points-to analysis over the whole project: allocation sites, one heap field
per attribute and one for the contents of containers, locals flow-sensitive.
Every function is analysed in two phases: 'I' as called while the modules are
imported, 'R' as called later.  An object allocated in phase I exists once per
process and is therefore shared by all codec instances; one allocated in phase
R belongs to whoever created it.

Used by C02 (nothing made at import, no class and no module variable is
changed later) and C03 (compress changes nothing it was handed)."""
import ast

import ir
from project import Cls, Ext, Func, GlobalVar, Mod

E = frozenset()
PURE = set(ir.PURE_METHODS) | {
    'iteritems', 'iterkeys', 'itervalues', 'viewitems', 'viewkeys', 'viewvalues', 'isdisjoint', 'findall', 'match', 'search',
    'sub', 'finditer', 'fullmatch', 'elements', 'most_common', 'pack', 'unpack', 'calcsize', 'casefold', 'isnumeric', 'isdecimal',
    'expandtabs', 'center', 'removeprefix', 'removesuffix', 'rindex', 'format_map', 'total_seconds', 'copy', '__len__',
    '__iter__', '__eq__', '__repr__', '__str__', '__getitem__', '__contains__', 'fileno', 'isatty', 'getvalue', 'group', 'groups',
    'union', 'difference', 'intersection', 'symmetric_difference', 'issubset', 'issuperset', 'pack_from', 'unpack_from', 'keys',
    'values', 'items', 'get', 'index', 'count', 'read', 'tobytes', 'tolist', 'hexdigest', 'digest', 'upper', 'lower'}
GETS = {'get', 'pop', 'popleft', 'popitem', 'setdefault', '__getitem__', 'next', '__next__'}
VIEWS = {'items', 'values', 'keys', 'iteritems', 'itervalues', 'iterkeys', '__iter__', 'copy', 'union', 'difference', 'intersection',
         'symmetric_difference'}
PUT = {'append': 0, 'add': 0, 'appendleft': 0, 'insert': 1, 'setdefault': 1, '__setitem__': 1}
PUTALL = {'extend', 'extendleft', 'update'}
COPY = {'list', 'dict', 'set', 'tuple', 'sorted', 'reversed', 'frozenset', 'deque', 'copy', 'defaultdict', 'OrderedDict', 'enumerate',
        'zip', 'iter', 'map', 'filter', 'izip', 'chain', 'islice', 'Counter', 'imap', 'groupby'}
VALUES = {'str', 'repr', 'len', 'int', 'float', 'bool', 'ord', 'chr', 'hash', 'isinstance', 'type', 'bytes', 'unicode', 'unichr', 'hex',
          'id', 'format', 'range', 'xrange', 'sum', 'abs', 'round', 'hasattr', 'any', 'all', 'divmod', 'callable', 'bin', 'oct', 'pow',
          'long', 'compile', 'namedtuple', 'maketrans', 'print', 'issubclass', 'basestring', 'input', 'raw_input'}
ARGMUT = {'heappush', 'heappop', 'heapify', 'heapreplace', 'heappushpop', 'shuffle', 'insort', 'insort_left', 'insort_right', 'setitem',
          'delitem', 'iadd', 'iconcat', 'ior', 'setattr', 'delattr', 'pack_into'}


class Alias:
    def __init__(self, prj):
        self.prj = prj
        self.heap, self.vars, self.rets = {}, {}, {}
        self.site_of = {}      # literal object -> (rel, line)
        self.sites = {}        # (obj, where, line) -> (what, Func)
        self.uses = {}         # obj -> [(Func, node, method or None)]
        self.live_i = set()    # functions called during import
        self.lex, self.funcs = {}, []
        self.clsof, self.fnof = {}, {}
        for m in prj.mods.values():
            for f in m.all_funcs():
                self.funcs.append(f)
                self.lex[id(f.node)] = f
            for d in m.defs.values():
                if isinstance(d, Cls):
                    self._cls(d)
        self.loc = {id(f.node): self._locals(f.node) for f in self.funcs}
        self.glob_attr = {}    # class.where -> attributes some method sets on instances
        self.lam = {}
        self.final = False
        self.reads = {}        # (where, line, attr) -> (Func, node, objects)
        self.mcalls = {}       # id(call) -> (Func, node, [Func called])
        self._seed()
        self.changed, self.rounds = True, 0
        while self.changed and self.rounds < 30:
            self.changed = False
            self.rounds += 1
            self.phase = 'I'
            for m in prj.mods.values():
                self.module(m)
            for f in self.funcs:
                if id(f.node) in self.live_i:
                    self.function(f)
            self.phase = 'R'
            for f in self.funcs:
                self.function(f)
        self.final = True
        for f in self.funcs:
            self.function(f)
        self._names()

    # -- set-up
    def _cls(self, c):
        self.clsof[c.where] = c
        for k in c.inner.values():
            self._cls(k)

    def _locals(self, node):
        s, glob = set(), set()
        a = node.args
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            s.add(x.arg)
        for x in (a.vararg, a.kwarg):
            if x:
                s.add(x.arg)

        def walk(n):
            for c in ast.iter_child_nodes(n):
                if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                    s.add(c.name)
                    continue
                if isinstance(c, ast.Lambda):
                    continue
                if isinstance(c, ast.Global):
                    glob.update(c.names)
                elif isinstance(c, (ast.Import, ast.ImportFrom)):
                    for x in c.names:
                        s.add((x.asname or x.name).split('.')[0])
                elif isinstance(c, ast.ExceptHandler) and c.name:
                    s.add(c.name)
                elif isinstance(c, ast.Name) and isinstance(c.ctx, (ast.Store, ast.Del)):
                    s.add(c.id)
                walk(c)
        for c in node.body if isinstance(node.body, list) else [node.body]:
            walk(ast.Module(body=[c], type_ignores=[]))
        return s - glob, glob

    def _seed(self):
        self.compressors, self.inits = [], []
        for m in self.prj.mods.values():
            if not m.rel.startswith('compressor/'):
                continue
            for d in m.defs.values():
                if isinstance(d, Cls) and d.name != 'BaseProcessor' and (d.name == 'Processor' or any(k.name == 'BaseProcessor' for k in d.mro())):
                    f = d.find('compress')
                    if f is not None and len(f.params()) >= 2:
                        self.compressors.append(f)
                        self.add(self.vars, ('R', id(f.node), f.params()[1]), {('in', f.where, 'headers')})
                    f = d.find('__init__')
                    if f is not None:
                        self.inits.append(f)
                        for p in f.params()[1:]:
                            self.add(self.vars, ('R', id(f.node), p), {('in', f.where, p)})

    def add(self, table, key, v):
        if not v:
            return
        o = table.get(key, E)
        if not v <= o:
            table[key] = o | frozenset(v)
            self.changed = True

    # -- objects
    def new(self, node, kind):
        o = ('L', self.phase, id(node), kind)
        if o not in self.site_of:
            self.site_of[o] = (self.mod.rel, getattr(node, 'lineno', 0))
        return o

    def cont(self, v):
        """What containers in v hold."""
        out = E
        for o in v:
            out |= self.heap.get((o, '*'), E)
        return out

    def fresh(self, node, kind, content):
        o = self.new(node, kind)
        self.add(self.heap, (o, '*'), frozenset(content))
        return frozenset([o])

    # -- units
    def module(self, m):
        self.mod, self.fn, self.cls = m, None, None
        self.env = None
        for st in m.tree.body:
            self.stmt(st)

    def classbody(self, st):
        """Class-level assignments and parameter defaults of methods."""
        c = None
        for k in self.clsof.values():
            if k.node is st:
                c = k
        save = self.cls
        self.cls = c
        for s in st.body:
            if isinstance(s, ast.Assign) and c is not None:
                v = self.expr(s.value)
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        self.add(self.heap, (('C', c.where), t.id), v)
            elif isinstance(s, ast.AnnAssign) and s.value is not None and c is not None and isinstance(s.target, ast.Name):
                self.add(self.heap, (('C', c.where), s.target.id), self.expr(s.value))
            elif isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.defaults(s)
            elif isinstance(s, ast.ClassDef):
                self.classbody(s)
        self.cls = save

    def defaults(self, node):
        a = node.args
        ps = a.posonlyargs + a.args
        pairs = list(zip(ps[len(ps) - len(a.defaults):], a.defaults)) + [(p, d) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
        for p, d in pairs:
            v = self.expr(d)
            for ph in 'IR':
                self.add(self.vars, (ph, id(node), p.arg), v)

    def function(self, f):
        self.mod, self.fn = f.mod, f
        self.cls = f.cls
        self.env = {}
        ps = f.params()
        for x in self.loc[id(f.node)][0]:
            self.env[x] = E
        a = f.node.args
        for x in [y.arg for y in a.posonlyargs + a.args + a.kwonlyargs] + [y.arg for y in (a.vararg, a.kwarg) if y]:
            self.env[x] = self.vars.get((self.phase, id(f.node), x), E)
        if f.cls is not None and ps and not f.static:
            if f.classm:
                self.env[ps[0]] |= {('C', f.cls.where)}
            elif self.phase == 'R':
                self.env[ps[0]] |= {('I', 'R', f.cls.where)}
            self.add(self.vars, (self.phase, id(f.node), ps[0]), self.env[ps[0]])
        self.stmts(f.node.body)

    # -- statements
    def stmts(self, body):
        """False when the end of the body is not reached."""
        for st in body:
            if self.stmt(st) is False:
                return False
        return True

    def merge(self, a, b):
        return {k: a.get(k, E) | b.get(k, E) for k in set(a) | set(b)}

    def branch(self, *bodies):
        if self.env is None:
            for b in bodies:
                self.stmts(b)
            return True
        start, out, alive = self.env, None, False
        for b in bodies:
            self.env = dict(start)
            if self.stmts(b) is not False:
                alive = True
                out = self.env if out is None else self.merge(out, self.env)
        self.env = out if out is not None else start
        return alive

    def stmt(self, st):
        if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
            self.defaults(st)
            if self.env is not None:
                self.bind(ast.copy_location(ast.Name(st.name, ast.Store()), st), frozenset([('F', id(st), None)]))
            return True
        if isinstance(st, ast.ClassDef):
            if self.env is None:
                self.classbody(st)
            return True
        if isinstance(st, ast.Assign):
            if len(st.targets) == 1 and isinstance(st.targets[0], (ast.Tuple, ast.List)) and isinstance(st.value, (ast.Tuple, ast.List)) \
                    and len(st.targets[0].elts) == len(st.value.elts) and not any(isinstance(x, ast.Starred) for x in st.targets[0].elts):
                vs = [self.expr(x) for x in st.value.elts]
                for t, v in zip(st.targets[0].elts, vs):
                    self.bind(t, v)
                return True
            v = self.expr(st.value)
            for t in st.targets:
                self.bind(t, v)
        elif isinstance(st, ast.AnnAssign):
            if st.value is not None:
                self.bind(st.target, self.expr(st.value))
        elif isinstance(st, ast.AugAssign):
            v = self.expr(st.value)
            b = self.expr(load(st.target))
            for o in b:
                if o[0] in ('L', 'in'):
                    self.site(o, st, 'extends in place')
                    self.add(self.heap, (o, '*'), self.cont(v))
            if isinstance(st.target, ast.Name):
                self.bind(st.target, b)
            elif isinstance(st.target, ast.Attribute):
                self.bind(st.target, b)
            elif isinstance(st.target, ast.Subscript):
                self.bind(st.target, b)
        elif isinstance(st, (ast.For, ast.AsyncFor, ast.While)):
            if isinstance(st, ast.While):
                self.expr(st.test)
            else:
                it = self.cont(self.expr(st.iter))
            for _ in (0, 1):
                pre = dict(self.env) if self.env is not None else None
                if not isinstance(st, ast.While):
                    self.bind(st.target, it)
                self.stmts(st.body)
                if isinstance(st, ast.While):
                    self.expr(st.test)
                if pre is not None:
                    self.env = self.merge(pre, self.env)
            self.stmts(st.orelse)
        elif isinstance(st, ast.If):
            self.expr(st.test)
            return self.branch(st.body, st.orelse)
        elif isinstance(st, (ast.With, ast.AsyncWith)):
            for i in st.items:
                v = self.expr(i.context_expr)
                if i.optional_vars is not None:
                    self.bind(i.optional_vars, v)
            return self.stmts(st.body)
        elif isinstance(st, ast.Try) or type(st).__name__ == 'TryStar':
            pre = dict(self.env) if self.env is not None else None
            self.stmts(st.body)
            self.stmts(st.orelse)
            if pre is not None:
                self.env = self.merge(pre, self.env)
            self.branch([], *[h.body for h in st.handlers])
            self.stmts(st.finalbody)
        elif isinstance(st, ast.Return):
            if st.value is not None and self.fn is not None:
                self.add(self.rets, (self.phase, id(self.fn.node)), self.expr(st.value))
            return False
        elif isinstance(st, ast.Raise):
            for x in (st.exc, st.cause):
                if x is not None:
                    self.expr(x)
            return False
        elif isinstance(st, ast.Delete):
            for t in st.targets:
                if isinstance(t, ast.Subscript):
                    self.expr(t.slice)
                    for o in self.expr(t.value):
                        self.site(o, t, 'deletes an item of')
                elif isinstance(t, ast.Attribute):
                    for o in self.expr(t.value):
                        self.site(o, t, 'deletes an attribute of')
        else:
            for c in ast.iter_child_nodes(st):
                if isinstance(c, ast.expr):
                    self.expr(c)
        return True

    def bind(self, t, v):
        if isinstance(t, ast.Name):
            if self.fn is not None:
                loc, glob = self.loc[id(self.fn.node)]
                if t.id in loc:
                    self.env[t.id] = v
                    self.add(self.vars, (self.phase, id(self.fn.node), t.id), v)
                    return
                if t.id in glob:
                    self.rebind(t, self.mod, t.id)
                    self.add(self.heap, (('M', self.mod.rel), t.id), v)
                    return
                o = self.outer(t.id)
                if o is not None:
                    self.add(self.vars, (self.phase, o, t.id), v)
                return
            self.add(self.heap, (('M', self.mod.rel), t.id), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            c = self.cont(v)
            for x in t.elts:
                if isinstance(x, ast.Starred):
                    self.bind(x.value, self.fresh(x, 'list', c))
                else:
                    self.bind(x, c)
        elif isinstance(t, ast.Starred):
            self.bind(t.value, v)
        elif isinstance(t, ast.Subscript):
            self.expr(t.slice)
            for o in self.expr(t.value):
                self.site(o, t, 'stores an item of')
                self.add(self.heap, (o, '*'), v)
        elif isinstance(t, ast.Attribute):
            st = self.static(t.value)
            if isinstance(st, Mod):
                self.rebind(t, st, t.attr)
                self.add(self.heap, (('M', st.rel), t.attr), v)
                return
            for o in self.expr(t.value):
                self.site(o, t, 'sets .%s of' % t.attr)
                self.add(self.heap, (o, t.attr), v)
                if o[0] == 'I':
                    self.glob_attr.setdefault(o[2], set()).add(t.attr)

    def rebind(self, node, mod, name):
        if self.phase == 'R':
            self.sites.setdefault((('M', mod.rel, name), self.fn.where, node.lineno), ('rebinds', self.fn))

    def site(self, o, node, what):
        if self.phase == 'R' and self.fn is not None and (o[0] in ('in', 'C') or o[0] == 'F' and o[2] is None or o[0] in ('L', 'I') and o[1] == 'I'):
            self.sites.setdefault((o, self.fn.where, getattr(node, 'lineno', 0)), (what, self.fn))

    # -- expressions
    def outer(self, name):
        p = self.lex[id(self.fn.node)].parent if self.fn is not None and id(self.fn.node) in self.lex else None
        while p is not None:
            if name in self.loc[id(p.node)][0]:
                return id(p.node)
            p = self.lex[id(p.node)].parent if id(p.node) in self.lex else None
        return None

    def is_local(self, name):
        return self.fn is not None and (name in self.loc[id(self.fn.node)][0] or self.outer(name) is not None) or name in self.lam

    def name(self, n):
        if n in self.lam:
            return self.lam[n]
        if self.fn is not None:
            if n in self.loc[id(self.fn.node)][0]:
                return self.env.get(n, E)
            o = self.outer(n)
            if o is not None:
                return self.vars.get((self.phase, o, n), E) | (self.vars.get(('I', o, n), E) if self.phase == 'I' else E)
        return self.resolved(self.mod.lookup(n))

    def resolved(self, r):
        if isinstance(r, GlobalVar):
            return self.heap.get((('M', r.mod.rel), r.name), E)
        if isinstance(r, Func):
            return frozenset([('F', id(r.node), None)])
        if isinstance(r, Cls):
            return frozenset([('C', r.where)])
        return E

    def static(self, e):
        """Module an expression names, or None."""
        root = e
        while isinstance(root, ast.Attribute):
            root = root.value
        if isinstance(root, ast.Name) and not self.is_local(root.id):
            r = self.mod.resolve_expr(e)
            if isinstance(r, (Mod, Ext)):
                return r
        return None

    def expr(self, e):
        if e is None or isinstance(e, ast.Constant):
            return E
        if isinstance(e, ast.Name):
            return self.name(e.id)
        if isinstance(e, ast.Attribute):
            return self.attribute(e)
        if isinstance(e, ast.Subscript):
            b = self.expr(e.value)
            self.expr(e.slice)
            if isinstance(e.slice, ast.Slice):
                return self.fresh(e, 'list', self.cont(b)) if b else E
            out = self.cont(b)
            for o in b:
                if o[0] == 'I':
                    out |= self.dunder(o, '__getitem__', e)
            return out
        if isinstance(e, ast.Call):
            return self.call(e)
        if isinstance(e, ast.Tuple):
            c = E
            for x in e.elts:
                c |= self.expr(x)
            return self.fresh(e, 'tuple', c) if c else E
        if isinstance(e, (ast.List, ast.Set)):
            c = E
            for x in e.elts:
                c |= self.expr(x) if not isinstance(x, ast.Starred) else self.cont(self.expr(x.value))
            return self.fresh(e, 'list', c)
        if isinstance(e, ast.Dict):
            c = E
            for k, v in zip(e.keys, e.values):
                x = self.expr(v)
                c |= self.cont(x) if k is None else x
                if k is not None:
                    self.expr(k)
            return self.fresh(e, 'dict', c)
        if isinstance(e, ast.IfExp):
            self.expr(e.test)
            return self.expr(e.body) | self.expr(e.orelse)
        if isinstance(e, ast.BoolOp):
            out = E
            for x in e.values:
                out |= self.expr(x)
            return out
        if isinstance(e, ast.BinOp):
            a, b = self.expr(e.left), self.expr(e.right)
            out = E
            for o in a | b:
                if o[0] == 'I':
                    n = {ast.Add: '__add__', ast.Sub: '__sub__', ast.Mult: '__mul__', ast.Mod: '__mod__'}.get(type(e.op))
                    out |= self.dunder(o, n, e, [b]) if n else E
            if any(o[0] in ('L', 'in') for o in a | b) and isinstance(e.op, (ast.Add, ast.Mult, ast.BitOr, ast.BitAnd, ast.Sub, ast.BitXor)):
                out |= self.fresh(e, 'list', self.cont(a) | self.cont(b))
            return out
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            keep = dict(self.lam)
            for g in e.generators:
                self.target_lam(g.target, self.cont(self.expr(g.iter)))
                for i in g.ifs:
                    self.expr(i)
            if isinstance(e, ast.DictComp):
                self.expr(e.key)
                v = self.expr(e.value)
            else:
                v = self.expr(e.elt)
            self.lam = keep
            return self.fresh(e, 'list', v)
        if isinstance(e, ast.NamedExpr):
            v = self.expr(e.value)
            self.bind(e.target, v)
            return v
        if isinstance(e, ast.Starred):
            return self.expr(e.value)
        if isinstance(e, (ast.Yield, ast.YieldFrom)):
            v = self.expr(e.value)
            if self.fn is not None:
                if isinstance(e, ast.YieldFrom):
                    v = self.cont(v)
                self.add(self.rets, (self.phase, id(self.fn.node)), self.fresh(self.fn.node, 'gen', v))
            return E
        if isinstance(e, ast.Lambda):
            keep = dict(self.lam)
            for a in e.args.posonlyargs + e.args.args + e.args.kwonlyargs:
                self.lam[a.arg] = E
            v = self.expr(e.body)
            self.lam = keep
            o = ('F', id(e), None)
            self.add(self.rets, (self.phase, id(e)), v)
            return frozenset([o])
        if isinstance(e, ast.Slice):
            for x in (e.lower, e.upper, e.step):
                self.expr(x)
            return E
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                self.expr(c)
        return E

    def target_lam(self, t, v):
        if isinstance(t, ast.Name):
            self.lam[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.target_lam(x, self.cont(v))

    def attribute(self, e):
        root = e
        while isinstance(root, ast.Attribute):
            root = root.value
        if isinstance(root, ast.Name) and not self.is_local(root.id):
            r = self.mod.resolve_expr(e)
            if isinstance(r, (GlobalVar, Func, Cls)):
                if isinstance(r, Func) and r.cls is not None and not r.static:
                    return frozenset([('F', id(r.node), None)])
                return self.resolved(r)
            if isinstance(r, Mod):
                return E
            b = self.mod.resolve_expr(e.value)
            if isinstance(b, Mod):
                return self.heap.get((('M', b.rel), e.attr), E)
            if isinstance(b, Ext):
                return E
        out, b = E, self.expr(e.value)
        self.note(b, e)
        for o in b:
            out |= self.read(o, e.attr, e)
        return out

    def note(self, b, e):
        if self.final and b and self.fn is not None:
            self.reads[(self.fn.where, e.lineno, e.attr)] = (self.fn, e, b)

    def read(self, o, attr, node):
        out = self.heap.get((o, attr), E)
        if o[0] == 'I':
            c = self.clsof.get(o[2])
            if c is None:
                return out
            if attr == '__class__':
                return frozenset([('C', o[2])])
            m = c.find(attr)
            if m is not None:
                if m.prop:
                    return out | self.apply(m, [], {}, frozenset([o]))
                return out | {('F', id(m.node), o)}
            init = any(attr in self.init_attrs(k) for k in c.mro())
            if not init:
                for k in c.mro():
                    out |= self.heap.get((('C', k.where), attr), E)
        elif o[0] == 'C':
            c = self.clsof.get(o[1])
            for k in c.mro() if c is not None else ():
                out |= self.heap.get((('C', k.where), attr), E)
            m = c.find(attr) if c is not None else None
            if m is not None:
                out |= {('F', id(m.node), o if m.classm else None)}
        return out

    def init_attrs(self, c):
        if not hasattr(c, '_init_attrs'):
            s = set()
            f = c.methods.get('__init__')
            if f is not None and f.params():
                for n in ast.walk(f.node):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == f.params()[0]:
                        s.add(n.attr)
            c._init_attrs = s
        return c._init_attrs

    def dunder(self, o, name, node, args=()):
        c = self.clsof.get(o[2])
        m = c.find(name) if c is not None else None
        return self.apply(m, [E] if not args else list(args), {}, frozenset([o])) if m is not None else E

    def use(self, objs, node, method):
        if self.phase == 'R' and self.fn is not None:
            for o in objs:
                if o[0] in ('L', 'I') and o[1] == 'I':
                    self.uses.setdefault(o, {})[(self.fn.where, id(node))] = (self.fn, node, method)

    def call(self, e):
        fn = e.func
        args = []
        for a in e.args:
            args.append(self.cont(self.expr(a.value)) if isinstance(a, ast.Starred) else self.expr(a))
        star = any(isinstance(a, ast.Starred) for a in e.args)
        kws = {}
        for k in e.keywords:
            kws[k.arg] = self.expr(k.value)
        if isinstance(fn, ast.Attribute):
            root = fn
            while isinstance(root, ast.Attribute):
                root = root.value
            if isinstance(root, ast.Name) and not self.is_local(root.id):
                r = self.mod.resolve_expr(fn)
                if isinstance(r, Ext):
                    return self.external(r.name, e, args, kws)
                if isinstance(r, Func) and r.cls is not None and not r.static and not r.classm:
                    # Class.method(self, ...)
                    return self.apply(r, args[1:], kws, args[0] if args else E, star)
                if isinstance(r, Func):
                    return self.apply(r, args, kws, frozenset([('C', r.cls.where)]) if r.classm else None, star)
                if isinstance(r, Cls):
                    return self.instance(r, e, args, kws, star)
            if isinstance(fn.value, ast.Call) and isinstance(fn.value.func, ast.Name) and fn.value.func.id == 'super' and self.fn is not None and self.fn.cls is not None:
                me = self.name(self.fn.params()[0]) if self.fn.params() else E
                for k in self.fn.cls.mro()[1:]:
                    if fn.attr in k.methods:
                        return self.apply(k.methods[fn.attr], args, kws, me, star)
                return E
            b = self.expr(fn.value)
            self.use(b, e, fn.attr)
            self.note(b, fn)
            return self.method(b, e, args, kws, star)
        if isinstance(fn, ast.Name) and not self.is_local(fn.id):
            r = self.mod.lookup(fn.id)
            if r is None or isinstance(r, Ext):
                return self.external(r.name if r is not None else fn.id, e, args, kws)
            if isinstance(r, Cls):
                return self.instance(r, e, args, kws, star)
            if isinstance(r, Func):
                return self.apply(r, args, kws, None, star)
        return self.values(self.expr(fn), e, args, kws, star)

    def values(self, v, e, args, kws, star=False):
        out = E
        for o in v:
            if o[0] == 'F':
                f = self.lex.get(o[1])
                if f is None:
                    out |= self.rets.get((self.phase, o[1]), E)
                elif f.cls is not None and not f.static and o[2] is None:
                    out |= self.apply(f, args[1:], kws, args[0] if args else E, star)
                else:
                    out |= self.apply(f, args, kws, frozenset([o[2]]) if o[2] is not None else None, star)
            elif o[0] == 'C' and o[1] in self.clsof:
                out |= self.instance(self.clsof[o[1]], e, args, kws, star)
            elif o[0] == 'I':
                out |= self.dunder(o, '__call__', e, args)
        return out

    def instance(self, c, e, args, kws, star=False):
        o = ('I', self.phase, c.where)
        m = c.find('__init__')
        if m is not None:
            self.apply(m, args, kws, frozenset([o]), star)
        elif c.unknown_base():
            v = E
            for a in args:
                v |= self.cont(a)
            self.add(self.heap, (o, '*'), v)
        return frozenset([o])

    def external(self, name, e, args, kws):
        last = name.split('.')[-1]
        vals = list(args) + list(kws.values())
        if last in ARGMUT and args:
            for o in args[0]:
                self.site(o, e, 'passes to %s' % last)
                for v in args[1:]:
                    self.add(self.heap, (o, '*'), v)
            return self.cont(args[0])
        if last == 'type' and len(args) == 1:
            return frozenset(('C', o[2]) for o in args[0] if o[0] == 'I')
        if last in VALUES or last == 'deepcopy':
            return E if last != 'deepcopy' else self.fresh(e, 'copy', E)
        if last in ('next', 'min', 'max', 'reduce'):
            out = E
            for v in vals:
                out |= v | self.cont(v)
            return out
        if last in COPY:
            c = E
            for v in vals:
                c |= self.cont(v)
            if last in ('zip', 'izip', 'enumerate', 'groupby') and c:
                c = self.fresh(e.func, 'tuple', c)
            if last == 'iter' or last == 'map' or last == 'filter':
                for v in vals:
                    c |= self.values(v, e, [c], {}) if last == 'map' else E
            return self.fresh(e, last, c)
        if last == 'getattr' and len(e.args) >= 2 and isinstance(e.args[1], ast.Constant):
            out = E
            for o in args[0]:
                out |= self.read(o, str(e.args[1].value), e)
            return out
        if '.' in name or last in ('open', 'bytearray', 'memoryview', 'file', 'StringIO', 'BytesIO'):
            c = E
            for v in vals:
                c |= v
            return self.fresh(e, 'ext', c)
        return E

    def method(self, b, e, args, kws, star):
        name = e.func.attr
        out = E
        for o in b:
            if o[0] == 'I':
                c = self.clsof.get(o[2])
                m = c.find(name) if c is not None else None
                if m is not None:
                    if self.final:
                        self.mcalls.setdefault(id(e), (self.fn, e, []))[2].append(m)
                    out |= self.apply(m, args, kws, frozenset([o]) if not m.classm else frozenset([('C', o[2])]), star)
                    continue
                h = self.read(o, name, e)
                if h:
                    out |= self.values(h, e, args, kws, star)
                    continue
                if c is None or not c.unknown_base():
                    continue
            elif o[0] == 'C':
                h = self.read(o, name, e)
                out |= self.values(h, e, args, kws, star)
                continue
            elif o[0] == 'F':
                continue
            # a container or something from outside
            if name not in PURE:
                self.site(o, e, 'calls .%s() of' % name)
            if name in PUT and len(args) > PUT[name]:
                self.add(self.heap, (o, '*'), args[PUT[name]])
            elif name in PUTALL:
                for a in args:
                    self.add(self.heap, (o, '*'), self.cont(a))
                for a in kws.values():
                    self.add(self.heap, (o, '*'), a)
            if name in GETS:
                out |= self.heap.get((o, '*'), E)
                for a in args[1:]:
                    out |= a
            elif name in VIEWS:
                c = self.heap.get((o, '*'), E)
                if name in ('items', 'iteritems') and c:
                    c = self.fresh(e.func, 'tuple', c)
                out |= self.fresh(e, 'list', c)
            elif o[0] == 'L' and o[3] == 'ext':
                out |= self.fresh(e, 'ext', E) if name not in PURE else E
        return out

    def apply(self, f, args, kws, recv, star=False):
        g = self.lex.get(id(f.node))
        if g is None:
            return E
        if self.phase == 'I':
            if id(g.node) not in self.live_i:
                self.live_i.add(id(g.node))
                self.changed = True
        ps = g.params()
        k = (self.phase, id(g.node))
        if recv is not None and g.cls is not None and not g.static:
            if ps:
                c = g.cls
                ok = frozenset(o for o in recv if o[0] != 'I' or o[2] not in self.clsof or c in self.clsof[o[2]].mro() or any(c.where == x.where for x in self.clsof[o[2]].mro()))
                self.add(self.vars, k + (ps[0],), ok)
                ps = ps[1:]
        if star:
            j = E
            for a in args:
                j |= a
            for p in ps:
                self.add(self.vars, k + (p,), j)
        else:
            for p, v in zip(ps, args):
                self.add(self.vars, k + (p,), v)
            if g.node.args.vararg is not None and len(args) > len(ps):
                j = E
                for v in args[len(ps):]:
                    j |= v
                self.add(self.vars, k + (g.node.args.vararg.arg,), self.fresh_in(g, j))
        names = set(x.arg for x in g.node.args.posonlyargs + g.node.args.args + g.node.args.kwonlyargs)
        for n, v in kws.items():
            if n is None:
                for p in ps:
                    self.add(self.vars, k + (p,), self.cont(v))
            elif n in names:
                self.add(self.vars, k + (n,), v)
            elif g.node.args.kwarg is not None:
                self.add(self.vars, k + (g.node.args.kwarg.arg,), self.fresh_in(g, v))
        return self.rets.get(k, E)

    def fresh_in(self, g, v):
        return self.fresh(g.node.args, 'args', v)

    # -- naming
    def _names(self):
        self.names = {}
        todo = []
        for (b, n), v in self.heap.items():
            if b[0] == 'M':
                todo += [(o, '%s:%s' % (b[1], n)) for o in v]
            elif b[0] == 'C':
                todo += [(o, '%s.%s' % (b[1], n)) for o in v]
        for (ph, fid, n), v in self.vars.items():
            f = self.lex.get(fid)
            if f is not None and f.node.args.defaults and n in f.params():
                todo += [(o, 'default of %s in %s' % (n, f.where)) for o in v if o[0] == 'L' and o[1] == 'I']
        seen = set()
        todo.sort(key=lambda x: (len(x[1]), x[1]))
        while todo:
            nxt = []
            for o, n in todo:
                if o in seen or not (o[0] in ('L', 'I') and o[1] == 'I'):
                    continue
                seen.add(o)
                self.names[o] = n
                for (b, fld), v in self.heap.items():
                    if b == o:
                        nxt += [(x, n + ('[...]' if fld == '*' else '.' + fld)) for x in v]
            todo = nxt

    def title(self, o):
        if o[0] == 'M':
            return 'the module variable %s:%s' % (o[1], o[2])
        if o[0] == 'C':
            return 'the class %s' % o[1]
        if o[0] == 'F':
            return 'the function %s' % (self.lex[o[1]].where if o[1] in self.lex else '<lambda>')
        if o[0] == 'in':
            return 'the argument %s of %s' % (o[2], o[1])
        n = self.names.get(o)
        if n is None:
            n = 'an object made at import in %s' % (self.site_of.get(o, ('?',))[0] if o[0] == 'L' else o[2])
        return n

    # -- exemptions
    def root_name(self, o):
        n = self.names.get(o)
        return n

    def write_only(self, o):
        """The object is bound to a module variable and every use of that in
        functions is a method call whose result is dropped, or it is printed."""
        n = self.names.get(o)
        if n is None or n.startswith('default') or ':' not in n:
            return False
        rel, name = n.split(':', 1)
        name = name.split('.')[0].split('[')[0]
        m0 = self.prj.mods.get(rel)
        if m0 is None:
            return False
        cnt = 0
        for f in self.funcs:
            for st in ast.walk(f.node):
                if isinstance(st, ast.Expr) and isinstance(st.value, ast.Call) and isinstance(st.value.func, ast.Attribute) and self._is(f, st.value.func.value, m0, name):
                    cnt += 1
                if isinstance(st, (ast.Name, ast.Attribute)) and self._is(f, st, m0, name):
                    cnt -= 1
        return cnt == 0

    def _is(self, f, x, m0, name):
        root = x
        while isinstance(root, ast.Attribute):
            root = root.value
        if not isinstance(root, ast.Name) or isinstance(x, ast.Name) and x.id != name or isinstance(x, ast.Attribute) and x.attr != name:
            return False
        if root.id in self.loc[id(f.node)][0]:
            return False
        r = f.mod.resolve_expr(x)
        return isinstance(r, GlobalVar) and r.mod is m0 and r.name == name

    def all_attrs(self, c):
        s = set()
        for k in c.mro():
            for f in k.methods.values():
                if f.params():
                    for n in ast.walk(f.node):
                        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == f.params()[0]:
                            s.add(n.attr)
        return s

    def resets(self, c, name):
        """Does method name, on every path, set every attribute any method of c
        sets, to something that does not depend on the old state?"""
        f = c.find(name)
        if f is None or not f.params():
            return False
        me, got = f.params()[0], set()
        for st in f.node.body:
            if not isinstance(st, ast.Assign):
                if isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant):
                    continue
                break
            if any(isinstance(n, ast.Name) and n.id == me for n in ast.walk(st.value)):
                break
            for t in st.targets:
                for x in t.elts if isinstance(t, ast.Tuple) else [t]:
                    if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == me:
                        got.add(x.attr)
        return self.all_attrs(c) <= got

    def scratch(self, o):
        """Is a shared instance re-initialised, in every function outside its
        class that uses it, before anything else is done with it?"""
        if o[0] != 'I' or o[2] not in self.clsof:
            return False
        c = self.clsof[o[2]]
        per = {}
        for (w, _), (f, node, meth) in self.uses.get(o, {}).items():
            if f.cls is not None and f.cls.where == c.where:
                continue
            per.setdefault(w, (f, []))[1].append((node, meth))
        if not per:
            return False
        for f, us in per.values():
            top = None
            for st in f.node.body:
                if any(n is u for u, _ in us for n in ast.walk(st)):
                    top = st
                    break
            if not (isinstance(top, ast.Expr) and isinstance(top.value, ast.Call)):
                return False
            first = [m for u, m in us if u is top.value]
            if not first or not self.resets(c, first[0]):
                return False
        return True


def load(t):
    import copy
    t = copy.copy(t)
    t.ctx = ast.Load()
    return t
