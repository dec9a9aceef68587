"""Resolved view of the repository: modules, classes, functions, imports."""
import ast
import collections
import io
import os

import load
import shape
from load import AnalysisBroken


class Func:
    def __init__(self, mod, node, qual, cls=None, parent=None):
        self.mod, self.node, self.qual, self.cls, self.parent = mod, node, qual, cls, parent
        self.name = getattr(node, 'name', '<lambda>')
        self.static = self.classm = self.prop = self.contextm = False
        for d in getattr(node, 'decorator_list', []):
            n = d.id if isinstance(d, ast.Name) else getattr(d, 'attr', '')
            if n == 'staticmethod':
                self.static = True
            elif n == 'classmethod':
                self.classm = True
            elif n == 'property':
                self.prop = True

    @property
    def where(self):
        return '%s:%s' % (self.mod.rel, self.qual)

    def params(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args]

    def __repr__(self):
        return '<Func %s>' % self.where


class Cls:
    def __init__(self, mod, node, qual):
        self.mod, self.node, self.qual = mod, node, qual
        self.name = node.name
        self.methods = {}
        self.attrs = {}        # class-level assignments name -> value node
        self.inner = {}
        for st in node.body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.methods[st.name] = Func(mod, st, qual + '.' + st.name, self)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.attrs[t.id] = st.value
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value is not None:
                self.attrs[st.target.id] = st.value
            elif isinstance(st, ast.ClassDef):
                self.inner[st.name] = Cls(mod, st, qual + '.' + st.name)

    @property
    def where(self):
        return '%s:%s' % (self.mod.rel, self.qual)

    def bases(self):
        out = []
        for b in self.node.bases:
            r = self.mod.resolve_expr(b)
            if isinstance(r, Cls):
                out.append(r)
        return out

    def mro(self):
        out, todo = [], [self]
        while todo:
            c = todo.pop(0)
            if c in out:
                continue
            out.append(c)
            todo = c.bases() + todo
        return out

    def unknown_base(self):
        """True when some ancestor other than object is outside the project."""
        for c in self.mro():
            for b in c.node.bases:
                r = c.mod.resolve_expr(b)
                if not isinstance(r, Cls) and not (isinstance(b, ast.Name) and b.id == 'object'):
                    return True
        return False

    def find(self, name):
        for c in self.mro():
            if name in c.methods:
                return c.methods[name]
        return None

    def find_attr(self, name):
        for c in self.mro():
            if name in c.attrs:
                return c, c.attrs[name]
        return None

    def __repr__(self):
        return '<Cls %s>' % self.where


class Ext:
    """Something outside the repository: module or attribute of one."""
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return '<Ext %s>' % self.name


class GlobalVar:
    def __init__(self, mod, name):
        self.mod, self.name = mod, name

    def __repr__(self):
        return '<Var %s.%s>' % (self.mod.name, self.name)

    def __eq__(self, o):
        return isinstance(o, GlobalVar) and (self.mod, self.name) == (o.mod, o.name)

    def __hash__(self):
        return hash((self.mod.rel, self.name))


PY3_ROOTS = ('lib/', 'compare_compressors.py', 'compressor/__init__.py',
             'compressor/http1/', 'compressor/http1_gzip/', 'compressor/http1_huffman/',
             'compressor/spdy3/', 'compressor/hyper_hpack/', 'compressor/fork/',
             'compressor/spdy_dictionary.py', 'sample_exec_codec.py')


BUILTIN_TYPES = (str, bytes, bytearray, list, dict, set, tuple, int, float, collections.deque, io.StringIO, io.BytesIO, io.TextIOWrapper)


def trivial(f):
    """The expression of a method that only returns an attribute of its object (possibly as text or number)."""
    body = [s for s in f.node.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
    if len(body) != 1 or not isinstance(body[0], ast.Return) or body[0].value is None or f.node.decorator_list:
        return None
    ps = f.node.args
    if len(ps.args) != 1 or ps.vararg or ps.kwarg or ps.kwonlyargs or ps.args[0].arg != 'self':
        return None
    e = body[0].value
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ('str', 'int', 'len', 'bool') and len(e.args) == 1 and not e.keywords:
        e = e.args[0]
    n = 0
    while isinstance(e, ast.Attribute):
        e, n = e.value, n + 1
    return body[0].value if n and isinstance(e, ast.Name) and e.id == 'self' else None


class Mod:
    def __init__(self, prj, rel, tree, kind, src):
        self.prj, self.rel, self.tree, self.kind, self.src = prj, rel, tree, kind, src
        parts = (rel[:-3] if rel.endswith('.py') else rel.replace('.', '_')).split('/')
        self.is_pkg = parts[-1] == '__init__'
        if self.is_pkg:
            parts = parts[:-1]
        self.name = '.'.join(parts)
        self.pkg = self.name if self.is_pkg else '.'.join(parts[:-1])
        self.py3 = rel.startswith(PY3_ROOTS)
        self.defs = {}        # name -> Func | Cls | ('var', [value nodes])
        self.imports = {}     # name -> (modname, attr|None)
        self.stars = []
        self._scan(tree.body)

    def _scan(self, body):
        for st in body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.defs[st.name] = Func(self, st, st.name)
            elif isinstance(st, ast.ClassDef):
                self.defs[st.name] = Cls(self, st, st.name)
            elif isinstance(st, ast.Import):
                for a in st.names:
                    if a.asname:
                        self.imports[a.asname] = (a.name, None)
                    else:
                        self.imports[a.name.split('.')[0]] = (a.name.split('.')[0], None)
            elif isinstance(st, ast.ImportFrom):
                base = '.' * st.level + (st.module or '')
                for a in st.names:
                    if a.name == '*':
                        self.stars.append(base)
                    else:
                        self.imports[a.asname or a.name] = (base, a.name)
            else:
                for n in ast.walk(st):
                    if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                        self.defs.setdefault(n.id, ('var', []))
                if isinstance(st, ast.Assign):
                    for t in st.targets:
                        if isinstance(t, ast.Name) and isinstance(self.defs.get(t.id), tuple):
                            self.defs[t.id][1].append(st.value)
                elif isinstance(st, (ast.If, ast.Try, ast.For, ast.While, ast.With)):
                    for f in ('body', 'orelse', 'finalbody'):
                        self._scan(getattr(st, f, []) or [])
                    for h in getattr(st, 'handlers', []) or []:
                        self._scan(h.body)

    def closure(self):
        """This module and every project module it imports, directly or not."""
        out, todo = [], [self]
        while todo:
            m = todo.pop()
            if m in out:
                continue
            out.append(m)
            for base, attr in m.imports.values():
                for n in (base, (base if base.endswith('.') else base + '.') + attr if attr else None):
                    x = m.find_module(n) if n else None
                    if x is not None:
                        todo.append(x)
            todo += [x for x in map(m.find_module, m.stars) if x is not None]
        return out

    def accessor(self, name):
        """The method `name` when it is one and the same trivial read of the
        object in every class this module can see, else None."""
        c = self.__dict__.setdefault('_acc', {})
        if name not in c:
            c[name] = None
            if not any(hasattr(t, name) for t in BUILTIN_TYPES):
                found = [f for m in self.closure() for f in m.all_funcs() if f.cls is not None and f.node.name == name]
                if found and all(trivial(f) for f in found) and len({ast.dump(trivial(f)) for f in found}) == 1:
                    c[name] = found[0]
        return c[name]

    # -- import resolution
    def find_module(self, spec):
        """spec: 'a.b', '.x', '..' -> Mod | None"""
        if spec.startswith('.'):
            level = len(spec) - len(spec.lstrip('.'))
            rest = spec[level:]
            base = self.pkg.split('.') if self.pkg else []
            if level > 1:
                base = base[:len(base) - (level - 1)]
            return self.prj.by_name.get('.'.join(base + ([rest] if rest else [])))
        if not self.py3 and self.pkg:
            m = self.prj.by_name.get(self.pkg + '.' + spec)
            if m is not None:
                return m
        m = self.prj.by_name.get(spec)
        return m

    def lookup(self, name, seen=None):
        """Resolve a module-level name -> Func|Cls|GlobalVar|Mod|Ext|None."""
        seen = seen or set()
        if (self.rel, name) in seen:
            return None
        seen.add((self.rel, name))
        d = self.defs.get(name)
        if isinstance(d, (Func, Cls)):
            return d
        if isinstance(d, tuple):
            return GlobalVar(self, name)
        if name in self.imports:
            base, attr = self.imports[name]
            m = self.find_module(base)
            if attr is None:
                return m if m is not None else Ext(base)
            if m is None:
                return Ext((base + '.' + attr).lstrip('.'))
            r = m.lookup(attr, seen)
            if r is not None:
                return r
            sub = self.prj.by_name.get((m.name + '.' if m.name else '') + attr)
            return sub
        for b in self.stars:
            m = self.find_module(b)
            if m is not None:
                r = m.lookup(name, seen)
                if r is not None:
                    return r
        if self.is_pkg:
            # a submodule imported by any module of the package is bound here
            sub = self.prj.by_name.get(self.name + '.' + name)
            if sub is not None and self.prj.imported_submodule(self, name):
                return sub
        return None

    def resolve_expr(self, e):
        """Resolve a Name / dotted expression at module level."""
        if isinstance(e, ast.Name):
            return self.lookup(e.id)
        if isinstance(e, ast.Attribute):
            b = self.resolve_expr(e.value)
            return member(b, e.attr)
        return None

    def func(self, qual):
        """'Cls.meth' or 'func' -> Func"""
        parts = qual.split('.')
        d = self.defs.get(parts[0])
        for p in parts[1:]:
            if isinstance(d, Cls):
                d = d.inner.get(p) or d.find(p)
            else:
                d = None
        if not isinstance(d, Func):
            raise AnalysisBroken('anchor vanished: %s:%s' % (self.rel, qual))
        return d

    def cls(self, qual):
        parts = qual.split('.')
        d = self.defs.get(parts[0])
        for p in parts[1:]:
            d = d.inner.get(p) if isinstance(d, Cls) else None
        if not isinstance(d, Cls):
            raise AnalysisBroken('anchor vanished: %s:%s' % (self.rel, qual))
        return d

    def var(self, name):
        """Value nodes assigned to a module-level variable."""
        d = self.defs.get(name)
        if not isinstance(d, tuple):
            raise AnalysisBroken('anchor vanished: %s:%s' % (self.rel, name))
        return d[1]

    def all_funcs(self):
        """Every def in the module, nested and methods included."""
        out = []

        def walk(body, qual, cls, parent):
            for st in body:
                if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    f = Func(self, st, qual + st.name, cls, parent)
                    out.append(f)
                    walk(st.body, qual + st.name + '.', None, f)
                elif isinstance(st, ast.ClassDef):
                    c = None
                    top = self.defs.get(st.name)
                    if isinstance(top, Cls) and top.node is st:
                        c = top
                    else:
                        c = Cls(self, st, qual + st.name)
                    walk(st.body, qual + st.name + '.', c, parent)
                else:
                    for f in ('body', 'orelse', 'finalbody'):
                        v = getattr(st, f, None)
                        if isinstance(v, list):
                            walk(v, qual, cls, parent)
                    for h in getattr(st, 'handlers', []) or []:
                        walk(h.body, qual, cls, parent)
        walk(self.tree.body, '', None, None)
        return out


def member(b, name):
    if isinstance(b, Mod):
        r = b.lookup(name)
        if r is None:
            r = b.prj.by_name.get((b.name + '.' if b.name else '') + name)
        return r
    if isinstance(b, Ext):
        return Ext(b.name + '.' + name)
    if isinstance(b, Cls):
        return b.inner.get(name) or b.find(name)
    return None


class Project:
    def __init__(self, base=None, parsed=None, facts=None):
        parsed = parsed or load.parse_all(base)
        self.parsed = parsed
        self.base = base or load.REPO
        self.mods = {}
        self.by_name = {}
        dirs = {}
        for rel, (tree, kind, src) in parsed.items():
            dirs.setdefault(rel.rpartition('/')[0], []).append(tree)
        self.facts = facts = {d: facts[d] if facts and d in facts else shape.Facts(ts) for d, ts in dirs.items()}
        for rel, (tree, kind, src) in parsed.items():
            m = Mod(self, rel, shape.normal(tree, facts[rel.rpartition('/')[0]]), kind, src)
            m.raw = tree
            self.mods[rel] = m
            self.by_name[m.name] = m

    def imported_submodule(self, pkg, name):
        """Is pkg.name imported by code that runs when pkg is imported?"""
        want = self.by_name.get(pkg.name + '.' + name)
        seen, todo = set(), [pkg]
        while todo:
            m = todo.pop()
            if m.rel in seen:
                continue
            seen.add(m.rel)
            for st in ast.walk(m.tree):
                targets = []
                if isinstance(st, ast.Import):
                    targets = [m.find_module(a.name) for a in st.names]
                elif isinstance(st, ast.ImportFrom):
                    base = '.' * st.level + (st.module or '')
                    bm = m.find_module(base)
                    targets = [bm]
                    if bm is not None:
                        targets += [self.by_name.get((bm.name + '.' if bm.name else '') + a.name) for a in st.names]
                for t in targets:
                    if t is want:
                        return True
                    if t is not None:
                        todo.append(t)
        return False

    def mod(self, rel):
        if rel not in self.mods:
            raise AnalysisBroken('anchor vanished: file %s' % rel)
        return self.mods[rel]

    def under(self, prefix):
        return [m for r, m in sorted(self.mods.items())
                if r.startswith(prefix) and not r.endswith('_test.py')]
