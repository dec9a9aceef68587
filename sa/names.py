"""C01: names, attributes, imports and calls all resolve.

For every module a codec package, a streamifier or the command line can load:
names read are bound somewhere they can be seen from, attributes of modules
and of the object itself exist, methods called on known objects exist, calls
of project functions and classes fit their parameters, and a local name is
bound before it is read.  Nothing is run; the standard library is known from a
table of names (spec/pynames.json)."""
import ast
import json
import os

import load
from project import Cls, Ext, Func, GlobalVar, Mod, member

MODVARS = {'__name__', '__file__', '__doc__', '__package__', '__path__', '__loader__', '__spec__', '__builtins__', '__debug__', '__dict__'}
INST = {'__class__', '__dict__', '__doc__', '__module__', '__init__', '__repr__', '__str__', '__eq__', '__hash__', '__ne__', '__lt__', '__new__'}


class Finding:
    def __init__(self, rule, mod, func, line, text, key):
        self.rule, self.mod, self.func, self.line, self.text, self.key = rule, mod, func, line, text, key


class Names:
    def __init__(self, prj, alias=None):
        self.prj, self.alias = prj, alias
        self.tab = json.load(open(os.path.join(load.SPEC, 'pynames.json')))
        self.out = []
        self.n = {}
        self.mods = self.reachable()
        self.known_attrs = self.project_attrs()
        self.stored = self.self_stores()
        for m in self.mods:
            self.module(m)
        if alias is not None:
            self.objects()

    def objects(self):
        """Attributes and methods of objects whose class is known."""
        mods = set(m.rel for m in self.mods)
        for (w, line, attr), (f, node, objs) in sorted(self.alias.reads.items(), key=lambda x: x[0]):
            if f.mod.rel not in mods or not all(o[0] == 'I' for o in objs):
                continue
            cs = [self.alias.clsof.get(o[2]) for o in objs]
            if any(c is None or c.unknown_base() for c in cs):
                continue
            self.count('attributes of known objects')
            self.m, self.f = f.mod, f
            if not any(self.has(c, attr) for c in cs):
                self.report('attribute', node, '%s has no attribute or method %s' % (' or '.join(sorted(c.name for c in cs)), attr), '%s.%s' % (cs[0].name, attr))
        for f, node, ms in self.alias.mcalls.values():
            if f is None or f.mod.rel not in mods:
                continue
            self.m, self.f = f.mod, f
            self.count('calls')
            why = [fit(node, m, 0 if m.static else 1) for m in ms]
            if all(why):
                self.report('call', node, 'the call of %s %s' % (ms[0].where, why[0]), 'call %s' % ms[0].qual)

    def count(self, k, n=1):
        self.n[k] = self.n.get(k, 0) + n

    def report(self, rule, node, text, key):
        f = self.f
        w = f.where if f is not None else '%s:<body>' % self.m.rel
        self.out.append(Finding(rule, self.m, w, '%s:%s' % (self.m.rel, getattr(node, 'lineno', 0)), text, (rule, self.m.rel, key)))

    # -- what is loaded
    def entries(self):
        out = []
        for m in self.prj.mods.values():
            p = m.rel.split('/')
            if p[0] == 'compressor' and m.is_pkg or p[0] == 'lib' or len(p) == 1 and m.rel.endswith('.py'):
                if not m.rel.endswith('_test.py'):
                    out.append(m)
        return sorted(out, key=lambda m: m.rel)

    def reachable(self):
        todo, seen = self.entries(), []
        while todo:
            m = todo.pop(0)
            if m in seen:
                continue
            seen.append(m)
            for st in ast.walk(m.tree):
                if isinstance(st, ast.Import):
                    for a in st.names:
                        parts = a.name.split('.')
                        for i in range(len(parts)):
                            x = m.find_module('.'.join(parts[:i + 1]))
                            if x is not None:
                                todo.append(x)
                elif isinstance(st, ast.ImportFrom):
                    b = m.find_module('.' * st.level + (st.module or ''))
                    if b is not None:
                        todo.append(b)
                        for a in st.names:
                            x = self.prj.by_name.get((b.name + '.' if b.name else '') + a.name)
                            if x is not None:
                                todo.append(x)
        return seen

    def project_attrs(self):
        s = set()
        for m in self.prj.mods.values():
            s.update(m.defs)
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    s.add(n.attr)
                elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                    s.add(n.name)
                elif isinstance(n, ast.ClassDef):
                    for st in n.body:
                        for x in ast.walk(st):
                            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                                s.add(x.id)
                elif isinstance(n, ast.keyword) and n.arg:
                    pass
                elif isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value.isidentifier() is False:
                    pass
            for c in ast.walk(m.tree):
                if isinstance(c, ast.ClassDef):
                    for st in c.body:
                        if isinstance(st, ast.Assign):
                            for t in st.targets:
                                for x in ast.walk(t):
                                    if isinstance(x, ast.Name):
                                        s.add(x.id)
                # options: add_option(..., dest="x") and setattr(o, "x", v)
                if isinstance(c, ast.Call):
                    for k in c.keywords:
                        if k.arg == 'dest' and isinstance(k.value, ast.Constant):
                            s.add(k.value.value)
                    for a in c.args:
                        if isinstance(a, ast.Constant) and isinstance(a.value, str):
                            if a.value.startswith('--'):
                                s.add(a.value[2:].replace('-', '_'))
                            elif isinstance(c.func, ast.Name) and c.func.id == 'setattr':
                                s.add(a.value)
        return s

    def self_stores(self):
        """class.where -> attributes stored through self in its methods."""
        out = {}
        for m in self.prj.mods.values():
            for f in m.all_funcs():
                g = f
                while g is not None and g.cls is None:
                    g = g.parent
                if g is None or not g.params():
                    continue
                me = g.params()[0]
                for n in ast.walk(f.node):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == me:
                        out.setdefault(g.cls.where, set()).add(n.attr)
        return out

    def builtin(self, name):
        t = self.tab['py3' if self.m.py3 else 'py2']['mods']
        return name in t.get('builtins' if self.m.py3 else '__builtin__', ()) or name in MODVARS or not self.m.py3 and name in ('unicode', 'long', 'xrange', 'None', 'True', 'False', 'print')

    def stdlib(self, name):
        """Names of a standard module, or None when not known."""
        return self.tab['py3' if self.m.py3 else 'py2']['mods'].get(name)

    def ext(self, e, node):
        """Does the external thing exist?  True when not known."""
        parts = e.name.split('.')
        if parts[0] in THIRD and len(parts) > 1 and THIRD[parts[0]] is not None:
            return parts[-1] in THIRD[parts[0]]
        for i in range(len(parts) - 1, 0, -1):
            names = self.stdlib('.'.join(parts[:i]))
            if names is not None:
                return parts[i] in names or self.stdlib('.'.join(parts[:i + 1])) is not None
        return True

    # -- one module
    def module(self, m):
        self.m, self.f = m, None
        self.funcs = {id(f.node): f for f in m.all_funcs()}
        self.imports(m)
        self.scope(m.tree.body, None)
        for f in self.funcs.values():
            self.f = f
            a = f.node.args
            for d in a.defaults + [x for x in a.kw_defaults if x is not None] + f.node.decorator_list:
                self.visit(d)
            self.scope(f.node.body, f)
            self.unbound(f)
        self.f = None

    def imports(self, m):
        for st in ast.walk(m.tree):
            if isinstance(st, ast.Import):
                for a in st.names:
                    self.count('imports')
                    root = a.name.split('.')[0]
                    x = m.find_module(root)
                    if x is not None and m.find_module(a.name) is None:
                        self.report('import', st, 'there is no module %s' % a.name, a.name)
                    elif x is None:
                        self.third(st, root)
            elif isinstance(st, ast.ImportFrom):
                base = '.' * st.level + (st.module or '')
                b = m.find_module(base)
                for a in st.names:
                    self.count('imports')
                    if a.name == '*':
                        if b is None:
                            self.third(st, base)
                        continue
                    if b is None:
                        if st.level:
                            self.report('import', st, 'there is no module %s in this package' % base, base)
                        else:
                            names = self.stdlib(base)
                            if names is None:
                                self.third(st, base)
                            elif a.name not in names and self.stdlib(base + '.' + a.name) is None:
                                self.report('import', st, '%s has no %s' % (base, a.name), base + '.' + a.name)
                        continue
                    if b.lookup(a.name) is None and self.prj.by_name.get((b.name + '.' if b.name else '') + a.name) is None:
                        self.report('import', st, '%s has no %s' % (b.rel, a.name), base + '.' + a.name)

    def third(self, st, name):
        if self.stdlib(name) is None and self.stdlib(name.split('.')[0]) is None and name.split('.')[0] not in THIRD:
            self.report('import', st, 'module %s is neither in the repository nor in the standard library' % name, name)

    def scope(self, body, f):
        for st in body:
            self.visit(st)

    def bound(self, name, f):
        g = f
        while g is not None:
            if name in self.locals(g.node):
                return True
            g = self.funcs.get(id(g.parent.node)) if g.parent is not None else None
        return False

    def locals(self, node):
        if not hasattr(node, '_sa_locals'):
            s, glob = set(), set()
            a = node.args
            for x in a.posonlyargs + a.args + a.kwonlyargs:
                s.add(x.arg)
            for x in (a.vararg, a.kwarg):
                if x:
                    s.add(x.arg)
            todo = list(node.body) if isinstance(node.body, list) else [node.body]
            while todo:
                c = todo.pop()
                if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                    s.add(c.name)
                    continue
                if isinstance(c, ast.Lambda):
                    continue
                if isinstance(c, ast.Global):
                    glob.update(c.names)
                elif isinstance(c, (ast.Import, ast.ImportFrom)):
                    for x in c.names:
                        s.add((x.asname or x.name).split('.')[0])
                elif isinstance(c, ast.ExceptHandler) and c.name:
                    s.add(c.name)
                elif isinstance(c, ast.Name) and isinstance(c.ctx, (ast.Store, ast.Del)):
                    s.add(c.id)
                elif self.m.py3 and isinstance(c, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
                    # their targets are their own; walrus targets are not
                    for x in ast.walk(c):
                        if isinstance(x, ast.NamedExpr):
                            s.add(x.target.id)
                    continue
                todo.extend(ast.iter_child_nodes(c))
            node._sa_locals = s - glob
        return node._sa_locals

    def visit(self, n, extra=()):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            return
        if isinstance(n, ast.ClassDef):
            for b in n.bases:
                self.visit(b, extra)
            names = set(extra)
            for st in n.body:
                if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                    names.add(st.name)
                else:
                    for x in ast.walk(st):
                        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                            names.add(x.id)
            for st in n.body:
                self.visit(st, names)
            return
        if isinstance(n, ast.Lambda):
            a = n.args
            mine = set(extra) | set(x.arg for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y])
            for d in a.defaults + [x for x in a.kw_defaults if x is not None]:
                self.visit(d, extra)
            self.visit(n.body, mine)
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            mine = set(extra)
            for g in n.generators:
                for x in ast.walk(g.target):
                    if isinstance(x, ast.Name):
                        mine.add(x.id)
            for c in ast.iter_child_nodes(n):
                self.visit(c, mine)
            return
        if isinstance(n, ast.comprehension):
            self.visit(n.iter, extra)
            for i in n.ifs:
                self.visit(i, extra)
            return
        if isinstance(n, ast.Name):
            if isinstance(n.ctx, ast.Load):
                self.name(n, extra)
            return
        if isinstance(n, ast.Attribute):
            self.attribute(n, extra)
            return
        if isinstance(n, ast.Call):
            self.call(n, extra)
        for c in ast.iter_child_nodes(n):
            self.visit(c, extra)

    def name(self, n, extra):
        self.count('names')
        if n.id in extra or self.bound(n.id, self.f) or self.m.lookup(n.id) is not None or n.id in self.m.imports or self.builtin(n.id):
            return
        for b in self.m.stars:
            if self.m.find_module(b) is None:
                return
        self.report('name', n, 'the name %s is not bound anywhere it could be seen from here' % n.id, n.id)

    def is_local(self, name, extra):
        return name in extra or self.bound(name, self.f)

    def attribute(self, n, extra):
        root = n
        while isinstance(root, ast.Attribute):
            root = root.value
        if isinstance(n.ctx, ast.Load):
            self.count('attributes')
            if isinstance(root, ast.Name) and not self.is_local(root.id, extra):
                b = self.m.resolve_expr(n.value)
                if isinstance(b, Mod):
                    if member(b, n.attr) is None and n.attr not in MODVARS and n.attr not in b.imports:
                        self.report('attribute', n, 'module %s has no %s' % (b.rel, n.attr), '%s.%s' % (b.name, n.attr))
                    self.name(root, extra)
                    return
                if isinstance(b, Ext):
                    if not self.ext(Ext(b.name + '.' + n.attr), n):
                        self.report('attribute', n, '%s has no %s' % (b.name, n.attr), '%s.%s' % (b.name, n.attr))
                    self.name(root, extra)
                    return
                if isinstance(b, Cls):
                    if not self.has(b, n.attr) and not b.unknown_base():
                        self.report('attribute', n, 'class %s has no %s' % (b.name, n.attr), '%s.%s' % (b.name, n.attr))
                    self.name(root, extra)
                    return
            me = self.me()
            if me is not None and isinstance(n.value, ast.Name) and n.value.id == me[0]:
                if not self.has(me[1], n.attr) and not me[1].unknown_base():
                    self.report('attribute', n, '%s has no attribute or method %s' % (me[1].name, n.attr), '%s.%s' % (me[1].name, n.attr))
                return
            if n.attr not in TRUSTED and n.attr not in self.known_attrs and n.attr not in self.tab['py3' if self.m.py3 else 'py2']['attrs']:
                self.report('attribute', n, 'nothing in the repository or the standard types has an attribute %s' % n.attr, n.attr)
        self.visit(n.value, extra)

    def me(self):
        g = self.f
        while g is not None and g.cls is None:
            g = self.funcs.get(id(g.parent.node)) if g.parent is not None else None
        if g is None or g.static or g.classm or not g.params():
            return None
        if self.f is not g and g.params()[0] in self.locals(self.f.node):
            return None
        return g.params()[0], g.cls

    def has(self, c, attr):
        if attr in INST:
            return True
        fam = [k for k in self.classes() if c in k.mro() or k in c.mro()] + [c]
        for k in fam:
            if attr in k.methods or attr in k.attrs or attr in k.inner or attr in self.stored.get(k.where, ()):
                return True
        return attr in self.outside(c)

    def classes(self):
        if not hasattr(self, '_classes'):
            self._classes = []
            todo = [d for m in self.prj.mods.values() for d in m.defs.values() if isinstance(d, Cls)]
            while todo:
                c = todo.pop()
                self._classes.append(c)
                todo.extend(c.inner.values())
        return self._classes

    def outside(self, c):
        """Attributes set on instances from outside the class."""
        if not hasattr(self, '_outside'):
            s = set()
            for m in self.prj.mods.values():
                for f in m.all_funcs():
                    me = f.params()[0] if f.cls is not None and f.params() else None
                    for n in ast.walk(f.node):
                        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and not (isinstance(n.value, ast.Name) and n.value.id == me):
                            s.add(n.attr)
                for st in m.tree.body:
                    if not isinstance(st, (ast.FunctionDef, ast.ClassDef)):
                        for n in ast.walk(st):
                            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                                s.add(n.attr)
            self._outside = s
        return self._outside

    # -- calls
    def call(self, n, extra):
        fn = n.func
        target, skip = None, 0
        root = fn
        while isinstance(root, ast.Attribute):
            root = root.value
        if isinstance(fn, (ast.Name, ast.Attribute)) and isinstance(root, ast.Name) and not self.is_local(root.id, extra):
            r = self.m.resolve_expr(fn)
            if isinstance(r, Cls):
                i = r.find('__init__')
                if i is not None:
                    target, skip = i, 1
                elif not r.unknown_base():
                    self.count('calls')
                    if n.args or n.keywords:
                        self.report('call', n, '%s takes no arguments' % r.name, 'call %s' % r.name)
                    return
            elif isinstance(r, Func):
                target, skip = r, 1 if r.classm else 0
        elif isinstance(fn, ast.Name) and self.f is not None:
            g = self.f
            while g is not None:
                d = self.defs_in(g.node).get(fn.id)
                if d is not None:
                    target = Func(self.m, d, d.name)
                    break
                if fn.id in self.locals(g.node):
                    break
                g = self.funcs.get(id(g.parent.node)) if g.parent is not None else None
        me = self.me()
        if target is None and me is not None and isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Name) and fn.value.id == me[0]:
            r = me[1].find(fn.attr)
            if r is not None and not r.prop:
                target, skip = r, 0 if r.static else 1
        if target is None and isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Call) and isinstance(fn.value.func, ast.Name) and fn.value.func.id == 'super' and me is not None:
            for k in me[1].mro()[1:]:
                if fn.attr in k.methods:
                    target, skip = k.methods[fn.attr], 1
                    break
        if target is not None:
            self.fits(n, target, skip)

    def defs_in(self, node):
        """name -> def, for local functions bound once and never assigned."""
        if not hasattr(node, '_sa_defs'):
            out, bad = {}, set()
            todo = list(node.body) if isinstance(node.body, list) else []
            while todo:
                c = todo.pop()
                if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    if c.name in out:
                        bad.add(c.name)
                    out[c.name] = c
                    continue
                if isinstance(c, (ast.ClassDef, ast.Lambda)):
                    continue
                if isinstance(c, ast.Name) and isinstance(c.ctx, ast.Store):
                    bad.add(c.id)
                todo.extend(ast.iter_child_nodes(c))
            node._sa_defs = {k: v for k, v in out.items() if k not in bad and not v.decorator_list}
        return node._sa_defs

    def fits(self, n, f, skip):
        self.count('calls')
        why = fit(n, f, skip)
        if why:
            self.report('call', n, 'the call of %s %s' % (f.where, why), 'call %s' % f.qual)

    # -- definite assignment
    def unbound(self, f):
        self.count('functions')
        for node, name in Definite(self, f).run():
            self.report('bound', node, 'the local name %s may be read before it is bound' % name, name)


# External packages the codecs are documented to need; their members are taken on trust.
THIRD = {'publicsuffix': None, 'hpack': None, 'werkzeug': None, 'bitarray': None}
TRUSTED = {'get_public_suffix', 'frombytes', 'digest', 'hexdigest', 'encode', 'decode', 'tobytes', 'fill', 'tostring', 'fromstring', 'bytereverse'}


def fit(n, f, skip):
    """Why a call does not fit a function's parameters, or None."""
    if any(isinstance(a, ast.Starred) for a in n.args) or any(k.arg is None for k in n.keywords):
        return None
    a = f.node.args
    ps = [x.arg for x in a.posonlyargs + a.args]
    pos = ps[skip:]
    need = len(ps) - len(a.defaults)
    if len(n.args) > len(pos) and a.vararg is None:
        return 'passes %d arguments where %d fit' % (len(n.args), len(pos))
    got = set(pos[:len(n.args)])
    kwonly = set(x.arg for x in a.kwonlyargs)
    for k in n.keywords:
        if k.arg in got:
            return 'passes %s twice' % k.arg
        if k.arg not in pos and k.arg not in kwonly and a.kwarg is None:
            return 'passes %s, which it does not take' % k.arg
        got.add(k.arg)
    for p in ps[skip:need]:
        if p not in got:
            return 'does not pass %s' % p
    for x, d in zip(a.kwonlyargs, a.kw_defaults):
        if d is None and x.arg not in got:
            return 'does not pass %s' % x.arg
    return None


class Definite:
    """Locals that may be read before they are bound."""
    def __init__(self, N, f):
        self.N, self.f = N, f
        self.loc = N.locals(f.node)
        self.out = []
        a = f.node.args
        self.env = set(x.arg for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y])
        self.breaks = None

    def run(self):
        self.block(self.f.node.body)
        seen, res = set(), []
        for n, name in self.out:
            if name not in seen:
                seen.add(name)
                res.append((n, name))
        return res

    def block(self, body):
        for st in body:
            if not self.stmt(st):
                return False
        return True

    def use(self, e):
        if e is None:
            return
        if isinstance(e, ast.Name):
            if isinstance(e.ctx, ast.Load) and e.id in self.loc and e.id not in self.env:
                self.out.append((e, e.id))
            return
        if isinstance(e, (ast.Lambda, ast.FunctionDef)):
            return
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            keep = set(self.env)
            for g in e.generators:
                self.use(g.iter)
                self.bindall(g.target)
                for i in g.ifs:
                    self.use(i)
            for x in ('elt', 'key', 'value'):
                self.use(getattr(e, x, None))
            self.env = keep
            return
        if isinstance(e, ast.BoolOp):
            self.use(e.values[0])
            keep = set(self.env)
            for v in e.values[1:]:
                self.use(v)
            self.env = keep
            return
        if isinstance(e, ast.NamedExpr):
            self.use(e.value)
            self.env.add(e.target.id)
            return
        for c in ast.iter_child_nodes(e):
            self.use(c)

    def bindall(self, t):
        for x in ast.walk(t):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                self.env.add(x.id)
        # parts of the target that are read
        for x in ast.walk(t):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load):
                self.use(x)

    def truth(self, e):
        if isinstance(e, ast.Constant):
            return bool(e.value)
        if isinstance(e, ast.Name) and e.id in ('True', 'False'):
            return e.id == 'True'
        return None

    def stmt(self, st):
        """False when the next statement cannot be reached."""
        if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            self.env.add(st.name)
            return True
        if isinstance(st, (ast.Import, ast.ImportFrom)):
            for a in st.names:
                self.env.add((a.asname or a.name).split('.')[0])
            return True
        if isinstance(st, ast.Assign):
            self.use(st.value)
            for t in st.targets:
                self.bindall(t)
            return True
        if isinstance(st, ast.AugAssign):
            if isinstance(st.target, ast.Name):
                if st.target.id in self.loc and st.target.id not in self.env:
                    self.out.append((st.target, st.target.id))
            else:
                self.use(st.target)
            self.use(st.value)
            self.bindall(st.target)
            return True
        if isinstance(st, ast.AnnAssign):
            if st.value is not None:
                self.use(st.value)
                self.bindall(st.target)
            return True
        if isinstance(st, (ast.Return, ast.Raise)):
            for c in ast.iter_child_nodes(st):
                self.use(c)
            return False
        if isinstance(st, (ast.Break, ast.Continue)):
            if isinstance(st, ast.Break) and self.breaks is not None:
                self.breaks.append(set(self.env))
            return False
        if isinstance(st, ast.If):
            self.use(st.test)
            t = self.truth(st.test)
            start = set(self.env)
            outs = []
            for body, val in ((st.body, True), (st.orelse, False)):
                if t is not None and t != val:
                    continue
                self.env = set(start)
                if self.block(body):
                    outs.append(self.env)
            if not outs:
                self.env = start
                return False
            self.env = set.intersection(*outs)
            return True
        if isinstance(st, (ast.For, ast.AsyncFor, ast.While)):
            forever = False
            if isinstance(st, ast.While):
                self.use(st.test)
                forever = self.truth(st.test) is True
            else:
                self.use(st.iter)
            start = set(self.env)
            keep, self.breaks = self.breaks, []
            if not isinstance(st, ast.While):
                self.bindall(st.target)
            self.block(st.body)
            br, self.breaks = self.breaks, keep
            self.env = set(start)
            done = self.block(st.orelse)
            outs = br + ([self.env] if done and not forever else [])
            if not outs:
                self.env = start
                return False
            self.env = set.intersection(*outs)
            return True
        if isinstance(st, (ast.With, ast.AsyncWith)):
            for i in st.items:
                self.use(i.context_expr)
                if i.optional_vars is not None:
                    self.bindall(i.optional_vars)
            return self.block(st.body)
        if isinstance(st, ast.Try):
            start = set(self.env)
            outs = []
            ok = self.block(st.body) and self.block(st.orelse)
            if ok:
                outs.append(set(self.env))
            for h in st.handlers:
                self.env = set(start)
                self.use(h.type)
                if h.name:
                    self.env.add(h.name)
                if self.block(h.body):
                    outs.append(set(self.env))
            self.env = set.intersection(*outs) if outs else start
            fin = self.block(st.finalbody)
            return bool(outs) and fin
        if isinstance(st, ast.Delete):
            for t in st.targets:
                if isinstance(t, ast.Name):
                    self.env.discard(t.id)
                else:
                    self.use(t)
            return True
        for c in ast.iter_child_nodes(st):
            self.use(c)
        # a call that never returns
        if isinstance(st, ast.Expr) and isinstance(st.value, ast.Call) and ast.unparse(st.value.func) in ('sys.exit', 'exit', 'os._exit', 'os.abort', 'quit'):
            return False
        if isinstance(st, ast.Assert) and self.truth(st.test) is False:
            return False
        return True
