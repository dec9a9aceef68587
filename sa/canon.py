"""Canonical effect summaries of functions.

The summary of a function is the set of things it does that anybody else can
see -- calls with effects, stores, deletions, returns, raises -- each under the
exact condition that leads to it and with every value written in terms of the
function's inputs.  Local names, statement order between unrelated statements,
the way a branch, loop, string or container is spelled and the split into
helper functions disappear.  Two functions with equal summaries do the same.
"""
import ast

import ir
from guards import F, TR, Guards
from ir import MUTATORS, PURE_METHODS, T, is_const
from project import Cls, Ext, Func, GlobalVar, Mod

G = Guards()
CAP = 8


# -------------------------------------------------------------------- keys
class Keys:
    """Interned structural keys; equal structure is the same number."""
    def __init__(self):
        self.tab, self.idx = [], {}

    def __call__(self, op, kids=(), *attrs):
        n = (op, tuple(kids), attrs)
        i = self.idx.get(n)
        if i is None:
            i = self.idx[n] = len(self.tab)
            self.tab.append(n)
        return i

    def op(self, k):
        return self.tab[k][0]

    def kids(self, k):
        return self.tab[k][1]

    def attrs(self, k):
        return self.tab[k][2]


K = Keys()


def kconst(v):
    if isinstance(v, (list, set, dict)):
        v = repr(v)
    return K('const', (), type(v).__name__, v)


KNONE, KTRUE, KFALSE = kconst(None), kconst(True), kconst(False)
KEMPTY = kconst('')


def cval(k):
    """(True, value) when k is a constant."""
    n = K.tab[k]
    return (True, n[2][1]) if n[0] == 'const' else (False, None)


def isint(k):
    n = K.tab[k]
    return n[0] == 'const' and n[2][0] in ('int', 'long') or (n[0] == 'const' and n[2][0] == 'bool')


# numeric linear forms: ('lin', kids, coefs..., const)
def lin(k):
    n = K.tab[k]
    if n[0] == 'lin':
        return dict(zip(n[1], n[2][:-1])), n[2][-1]
    if n[0] == 'plus':
        d = {}
        for x in n[1]:
            d[x] = d.get(x, 0) + 1
        return d, 0
    if isint(k):
        return {}, int(n[2][1])
    return {k: 1}, 0


def mklin(d, c):
    d = {k: v for k, v in d.items() if v}
    for k in [k for k in d if len(d) > 1 and K.op(k) == 'arith' and K.attrs(k) == ('//',)]:
        # x - (x // n) * n
        x, n = K.kids(k)
        cn, n = cval(n)
        if cn and type(n) is int and n > 0 and x in d and d.get(k) == -n * d[x]:
            r = K('arith', list(K.kids(k)), '%')
            d[r] = d.get(r, 0) + d.pop(x)
            del d[k]
    if not d:
        return kconst(c)
    if c == 0 and len(d) == 1 and list(d.values()) == [1]:
        return next(iter(d))
    ks = sorted(d)
    return K('lin', ks, *([d[k] for k in ks] + [c]))


def ladd(a, b, s=1):
    da, ca = lin(a)
    db, cb = lin(b)
    d = dict(da)
    for k, v in db.items():
        d[k] = d.get(k, 0) + s * v
    return mklin(d, ca + s * cb)


NUMOPS = {'len', 'lin', 'mul', 'idx', 'ridx', 'ord', 'int', 'arith', 'fold+', 'sum', 'count', 'min', 'max', 'abs'}
NUM_ATTRS = set()          # attribute names only ever given numbers
POSITIONS = {}             # per directory, functions that only return -1 or more
STR_TYPES = ('str', 'bytes')


def numeric(k):
    op, kids, at = K.tab[k]
    if op in NUMOPS:
        return True
    if op == 'const':
        return at[0] in ('int', 'float', 'long', 'bool')
    if op == 'attr':
        return at[0] in NUM_ATTRS
    if op == 'havoc':
        return at[0] in NUM_ATTRS
    if op == 'ite':
        return any(numeric(x) for x in kids)
    if op == 'mu':
        return bool(kids) and numeric(kids[1])
    return False


def stringy(k):
    op, kids, at = K.tab[k]
    if op == 'const':
        return at[0] in STR_TYPES
    if op in ('cat', 'str', 'fmt', 'hexs'):
        return True
    if op == 'pm':
        return at[0] in ('join', 'strip', 'lower', 'upper', 'replace', 'format', 'encode', 'decode', 'rstrip', 'lstrip')
    if op == 'pf':
        return at[0] in ('str', 'chr', 'repr', 'bytes', 'hex', 'unichr', 'struct.pack')
    if op == 'ite':
        return any(stringy(x) for x in kids)
    if op == 'res':
        d = K.tab[kids[0]]
        return d[0] == 'call' and d[2][0] in STR_CALLS
    if op in ('slice', 'each', 'plus'):
        return any(stringy(x) for x in (kids[-1:] if op == 'each' else kids[:1] if op == 'slice' else kids))
    return False


# calls of objects outside the project that return text or bytes
STR_CALLS = ('.compress', '.flush', '.decompress', '.read', '.readline', '.getvalue', '.hexdigest', '.digest')


def pieces(k):
    n = K.tab[k]
    if n[0] == 'cat':
        return list(n[1])
    if n[0] == 'str' and len(n[1]) == 1:
        return [n[1][0]]
    if k == KEMPTY or n[0] == 'const' and n[2] == K.attrs(kconst(b'')):
        return []
    if n[0] == 'plus':
        return [y for x in n[1] for y in pieces(x)]
    return [k]


def mkcat(ps):
    """Concatenation of pieces; adjacent constants merge."""
    out = []
    for p in ps:
        for q in pieces(p):
            c, v = cval(q)
            if out and c and isinstance(v, (str, bytes)):
                c2, v2 = cval(out[-1])
                if c2 and type(v2) is type(v):
                    out[-1] = kconst(v2 + v)
                    continue
            if c and v in ('', b''):
                continue
            out.append(q)
    if not out:
        return ps[0] if ps and cval(ps[0])[0] else KEMPTY
    if len(out) == 1:
        n = K.tab[out[0]]
        if n[0] not in ('each',):
            return out[0]
    return K('cat', out)


# ---------------------------------------------------------------- printing
def kshow(k, d=5):
    op, kids, at = K.tab[k]
    if d <= 0:
        return '..'
    s = lambda x: kshow(x, d - 1)
    if op == 'const':
        return repr(at[1])
    if op == 'param':
        return str(at[0])
    if op == 'attr':
        return '%s.%s' % (s(kids[0]), at[0])
    if op == 'sub':
        return '%s[%s]' % (s(kids[0]), s(kids[1]))
    if op == 'lin':
        parts = ['%s%s' % ('' if c == 1 else '%s*' % c, s(x)) for x, c in zip(kids, at)]
        if at[-1]:
            parts.append(str(at[-1]))
        return '(' + ' + '.join(parts) + ')'
    if op == 'cat':
        return ' ++ '.join(s(x) for x in kids)
    if op == 'ite':
        return 'one of(%s)' % ', '.join('%s if %s' % (s(x), gshow(g, 2) if d > 3 else '..') for x, g in zip(kids, at))
    if op in ('call',):
        return '%s(%s)' % (at[0], ', '.join(s(x) for x in kids))
    if op in ('pf', 'pp', 'new', 'ext', 'builtin', 'func', 'cls', 'global', 'mod'):
        return '%s%s' % (at[0] if at else op, '(%s)' % ', '.join(s(x) for x in kids) if kids else '')
    if op == 'pm':
        return '%s.%s(%s)' % (s(kids[0]), at[0], ', '.join(s(x) for x in kids[1:]))
    if op == 'res':
        return 'result of %s' % s(kids[0])
    if op in ('elem', 'idx'):
        return '%s of %s' % ('each' if op == 'elem' else 'index', s(kids[0]))
    if op == 'for':
        return s(kids[0])
    if op in ('list', 'set', 'dict'):
        return '%s{%s}' % (op, ', '.join(s(x) for x in kids))
    if op == 'entry':
        return '%s%s' % (at[0], ' '.join(s(x) for x in kids))
    return '%s%s(%s)' % (op, list(at) if at else '', ', '.join(s(x) for x in kids))


def ashow(a, d=4):
    if a[0] == 'ge':
        return '%s >= %s' % (kshow(a[1], d), a[2])
    if a[0] == 'eq':
        return '%s == %s' % (kshow(a[1], d), a[2])
    if a[0] == 'is':
        return '%s == %r' % (kshow(a[1], d), a[2][1])
    if a[0] == 't':
        return kshow(a[1], d)
    if a[0] == 'ex':
        return 'some round of %s leaves early' % kshow(a[1], d)
    return '%s %s' % (a[0], ', '.join(kshow(x, d) if isinstance(x, int) else str(x) for x in a[1:]))


def gshow(g, d=4):
    return G.show(g, lambda a: ashow(a, d))


# ----------------------------------------------------------- pure functions
PURE_BUILTINS = {'len', 'str', 'int', 'float', 'ord', 'chr', 'unichr', 'range', 'xrange', 'zip', 'enumerate', 'sorted',
                 'reversed', 'min', 'max', 'sum', 'abs', 'isinstance', 'issubclass', 'type', 'repr', 'tuple', 'list',
                 'dict', 'set', 'frozenset', 'bool', 'bytes', 'bytearray', 'any', 'all', 'hasattr', 'getattr', 'unicode',
                 'hex', 'bin', 'oct', 'long', 'round', 'divmod', 'pow', 'iter', 'map', 'filter', 'object', 'cmp', 'slice',
                 'callable', 'id', 'hash', 'basestring', 'format', 'vars', 'dir', 'super', 'memoryview'}
FRESH_BUILTINS = {'list', 'dict', 'set', 'bytearray'}
PURE_EXT = ('struct.', 'os.getpid', 'os.getcwd', 'os.environ', 'string.', 're.', 'operator.', 'math.', 'os.path.', 'copy.', 'collections.', 'itertools.',
            'urllib.parse.', 'urlparse.', 'json.loads', 'json.dumps', 'functools.', 'locale.format', 'array.', 'bitarray.', 'cxxpure.')
FRESH_EXT = ('collections.defaultdict', 'collections.OrderedDict', 'collections.deque', 'collections.Counter', 'copy.copy',
             'copy.deepcopy', 'array.array')
_PURE = {}


def pure_func(f, stack=()):
    """No visible effect but the returned value (conservative, by syntax)."""
    if f in _PURE:
        return _PURE[f]
    if f in stack:
        return True
    r = _pure(f, stack + (f,))
    if not stack:
        _PURE[f] = r
    return r


def _fresh_locals(f):
    fresh, other = set(), set(f.params())
    for n in ast.walk(f.node):
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            v = n.value
            ok = isinstance(v, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.SetComp, ast.DictComp))
            if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in FRESH_BUILTINS | {'sorted', 'defaultdict'}:
                ok = True
            (fresh if ok else other).add(n.targets[0].id)
        elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            pass
        if isinstance(n, (ast.For,)):
            for x in ast.walk(n.target):
                if isinstance(x, ast.Name):
                    other.add(x.id)
    return fresh - other


def _pure(f, stack):
    if isinstance(f.node, ast.Lambda):
        return False
    fresh = _fresh_locals(f)
    ps = f.params()

    def root(n):
        while isinstance(n, (ast.Subscript, ast.Attribute)):
            n = n.value
        return n.id if isinstance(n, ast.Name) else None
    for n in ast.walk(f.node):
        if isinstance(n, (ast.Global, ast.Nonlocal, ast.Import, ast.ImportFrom, ast.With, ast.Yield)):
            return False
        if isinstance(n, (ast.Attribute, ast.Subscript)) and isinstance(n.ctx, (ast.Store, ast.Del)):
            if not (isinstance(n, ast.Subscript) and isinstance(n.value, ast.Name) and n.value.id in fresh):
                return False
        if isinstance(n, ast.AugAssign) and isinstance(n.target, (ast.Attribute, ast.Subscript)):
            if not (isinstance(n.target, ast.Subscript) and isinstance(n.target.value, ast.Name) and n.target.value.id in fresh):
                return False
        if isinstance(n, ast.Call):
            fn = n.func
            if isinstance(fn, ast.Name):
                r = f.mod.lookup(fn.id)
                if isinstance(r, Func):
                    if not pure_func(r, stack):
                        return False
                elif r is None and (fn.id in PURE_BUILTINS or fn.id.endswith('Error') or fn.id == 'Exception'):
                    pass
                elif isinstance(r, Ext) and r.name.startswith(PURE_EXT):
                    pass
                else:
                    return False
            elif isinstance(fn, ast.Attribute):
                r = f.mod.resolve_expr(fn)
                if isinstance(r, Func) and root(fn) not in ps:
                    if not pure_func(r, stack):
                        return False
                    continue
                if isinstance(r, Ext) and r.name.startswith(PURE_EXT):
                    continue
                if isinstance(fn.value, ast.Name) and ps and fn.value.id == ps[0] and f.cls is not None and not f.static:
                    g = f.cls.find(fn.attr)
                    if g is not None:
                        if not pure_func(g, stack):
                            return False
                        continue
                if fn.attr in PURE_METHODS:
                    continue
                if fn.attr in MUTATORS and isinstance(fn.value, ast.Name) and fn.value.id in fresh:
                    continue
                return False
            else:
                return False
    return True


# ------------------------------------------------------------------ effects
class Eff:
    __slots__ = ('key', 'path', 'guard', 'evs')

    def __init__(self, key, path, guard, evs):
        self.key, self.path, self.guard, self.evs = key, path, guard, evs


_FMT = None


def fmt_split(s):
    """'%s: %d' -> [('c', text) | ('f', spec)] or None"""
    import re
    out, pos = [], 0
    for m in re.finditer(r'%(\([^)]*\))?([-#0 +]*\d*(?:\.\d+)?)([sdrixXcfeg%])', s):
        if m.start() > pos:
            out.append(('c', s[pos:m.start()]))
        if m.group(3) == '%':
            out.append(('c', '%'))
        elif m.group(1):
            return None
        else:
            out.append(('f', m.group(2) + m.group(3)))
        pos = m.end()
    if pos < len(s):
        out.append(('c', s[pos:]))
    return out


class Canon:
    def __init__(self, graph, renames=None, pure=True, level=3):
        self.exs = {}
        self.g = graph
        self.ren = renames or {}
        self.mv, self.mr, self.mg, self.mk, self.ml = {}, {}, {}, {}, {}
        self.level = level
        self.unknown = set()
        self._used = self._sigs = None
        self.cut, self.seen = {}, {}      # loop values and containers: cut off, looked into
        self._structure()

    # -- block order
    def _structure(self):
        g = self.g
        live = set(b.id for b in g.live)
        self.live = live
        # discovery order, then a topological order that finishes a loop
        # before anything after it
        disc, todo = {}, [g.entry]
        while todo:
            b = todo.pop()
            if b.id in disc or b.id not in live:
                continue
            disc[b.id] = len(disc)
            todo.extend(reversed(b.succs))
        back = lambda p, h: bool(h.loops) and h.loops[-1] is h and h in p.loops
        need = {}
        for b in g.live:
            need[b.id] = sum(1 for p in set(x.id for x in b.preds if x.id in live and not back(x, b)))
        ready, order, done = [g.entry], [], set()
        cur = ()
        while ready:
            def rank(b):
                n = 0
                for x, y in zip(b.loops, cur):
                    if x is not y:
                        break
                    n += 1
                return (-n, disc.get(b.id, 0))
            b = min(ready, key=rank)
            ready.remove(b)
            done.add(b.id)
            order.append(b)
            cur = b.loops
            for s in {x.id: x for x in b.succs if x.id in live}.values():
                if back(b, s) or s.id in done:
                    continue
                need[s.id] -= 1
                if need[s.id] == 0:
                    ready.append(s)
        if len(order) != len(live):
            rest = [b for b in g.live if b.id not in done]
            order.extend(sorted(rest, key=lambda b: disc.get(b.id, 0)))
        self.rpo = {b.id: i for i, b in enumerate(order)}
        self.blocks = order
        self.evs = []
        for b in order:
            for i, e in enumerate(b.events):
                self.evs.append(e)
        self.evpos = {id(e): i for i, e in enumerate(self.evs)}
        self.muts = {}
        for e in self.evs:
            if e.kind in ('setsub', 'delsub') or (e.kind == 'call' and e.base is not None and e.name in MUTATORS):
                if self.is_fresh(e.base):
                    self.muts.setdefault(e.base.id, []).append(e)
            elif e.kind == 'call' and not self.pure(e):
                for i, a in enumerate(e.args):
                    if self.is_fresh(a):
                        self.muts.setdefault(a.id, []).append(e)
        # exits of loops
        self.exits, self.parent = {}, {}
        for b in order:
            for s in b.succs:
                if s.id not in live:
                    continue
                for L in b.loops:
                    if L not in s.loops:
                        self.exits.setdefault(L.id, {}).setdefault(s.id, []).append(b)
        self.byid = {b.id: b for b in g.blocks}
        # forward reachability over the DAG
        self.fwd = {}
        for b in reversed(order):
            m = 1 << self.rpo[b.id]
            for s in b.succs:
                if s.id in live and self.rpo[s.id] > self.rpo[b.id]:
                    m |= self.fwd[s.id]
            self.fwd[b.id] = m

    def is_fresh(self, t):
        if t.op in ('list', 'set', 'dict'):
            return True
        if t.op == 'call' and t.meta is not None:
            e = t.meta
            if e.fn is not None and e.fn.op == 'builtin' and e.fn.args[0] in FRESH_BUILTINS:
                return True
            if e.fn is not None and e.fn.op == 'ext' and e.fn.args[0] in FRESH_EXT:
                return True
            if e.fn is None and e.base is not None and e.name == 'copy' and not e.args:
                return True
        return False

    def pure(self, e):
        if e.target is not None:
            return pure_func(e.target)
        if e.fn is not None:
            if e.fn.op == 'builtin':
                n = e.fn.args[0]
                return n in PURE_BUILTINS or n.endswith('Error') or n in ('Exception', 'StopIteration', 'KeyError')
            if e.fn.op == 'ext':
                return e.fn.args[0].startswith(PURE_EXT)
            return False
        if e.base is not None:
            return e.name in PURE_METHODS
        return False

    # -- loops
    def hdr_term(self, L):
        """(phi, init, step, bound, index-of term or None) of a counting while."""
        if L.id in self.ml:
            return self.ml[L.id]
        self.ml[L.id] = None
        if L.kind != 'while':
            return None
        conds = [s for s in L.succs if s.cond is not None and s.cond[0] == 'if']
        if len(conds) != 2:
            return None
        c = conds[0].cond[1]
        pol = {}
        for s in conds:
            pol[s.cond[2]] = s
        while c.op == 'not':
            c = c.args[0]
            pol = {not k: v for k, v in pol.items()}
        if c.op == 'phi' and not isinstance(c.args, T) and c.meta[0] is L:
            c = ir.mk('cmp', '!=', c, ir.mk('const', 0))
        if c.op == 'cmp' and c.args[0] in ('>=', '<=') and len(c.args) == 3 and False in pol and L.exit_e in pol[False].succs:
            # strictly: the bound is one further
            o, a, b = c.args
            one = ir.mk('const', 1)
            if b.op == 'phi':
                c = ir.mk('cmp', o[0], ir.mk('bin', '+' if o == '>=' else '-', a, one), b)
            else:
                c = ir.mk('cmp', o[0], a, ir.mk('bin', '-' if o == '>=' else '+', b, one))
        if c.op == 'cmp' and c.args[0] in ('>=', '<=', '==') and len(c.args) == 3:
            c = ir.mk('cmp', {'>=': '<', '<=': '>', '==': '!='}[c.args[0]], *c.args[1:])
            pol = {not k: v for k, v in pol.items()}
        if c.op != 'cmp' or True not in pol or False not in pol:
            return None
        # the loop is left by this test only through its false branch
        if L.exit_e not in pol[False].succs:
            return None
        if c.args[0] not in ('<', '!=', '>'):
            return None
        o, a, b = c.args[:3]
        up = o == '<'
        if not (a.op == 'phi' and not isinstance(a.args, T) and a.meta[0] is L):
            a, b = b, a
            up = o == '>'
        if not (a.op == 'phi' and not isinstance(a.args, T) and a.meta[0] is L):
            return None
        init, step = None, None
        for p, v in zip(a.loc, a.args):
            if L in p.loops:
                if v.op == 'bin' and v.args[0] == '+' and ((v.args[1] is a and v.args[2].op == 'const') or (v.args[2] is a and v.args[1].op == 'const')):
                    s = v.args[2].args[0] if v.args[1] is a else v.args[1].args[0]
                elif v.op == 'bin' and v.args[0] == '-' and v.args[1] is a and v.args[2].op == 'const':
                    s = v.args[2].args[0]
                    s = -s if type(s) is int else None
                else:
                    return None
                if type(s) is not int or s == 0 or step is not None and step != s or o != '!=' and up != (s > 0):
                    return None
                step = s
            else:
                if init is not None and init is not v:
                    return None
                init = v
        if init is None or step is None or (o == '!=' and step not in (1, -1)):
            return None
        if self.uses_header(b, L):
            return None
        self.ml[L.id] = (a, init, step, b)
        return self.ml[L.id]

    def uses_header(self, t, L, seen=None):
        seen = seen if seen is not None else set()
        if not isinstance(t, T) or t.id in seen:
            return False
        seen.add(t.id)
        if t.op == 'phi':
            if t.meta[0] is L or L in t.meta[0].loops:
                return True
            return any(self.uses_header(x, L, seen) for x in (t.args if not isinstance(t.args, T) else (t.args,)))
        if t.op == 'call' and t.meta is not None:
            e = t.meta
            if e.block is not None and L in e.block.loops and not (e.fn is not None and e.fn.op == 'builtin' and e.fn.args[0] == 'len'):
                return True
            return any(self.uses_header(x, L, seen) for x in e.args + ([e.base] if e.base is not None else []))
        return any(self.uses_header(x, L, seen) for x in t.args if isinstance(x, T))

    def loopkey(self, L, lvl):
        k = ('lk', L.id, lvl)
        if k in self.mk:
            return self.mk[k]
        r = self._loopkey(L, lvl)
        self.mk[k] = r
        return r

    def range_key(self, a, b, s):
        """Loop over a..b by s: how many rounds there are."""
        c, v = cval(s)
        if not c or type(v) is not int or v == 0:
            return K('range', [a, b, s])
        n = ladd(b, a, -1) if v > 0 else ladd(a, b, -1)
        if v in (1, -1) and K.op(n) == 'len' and len(K.kids(n)) == 1:
            return K('for', [K.kids(n)[0]])
        return K('range', [kconst(0), n, kconst(abs(v))])

    def range_val(self, i, a, s):
        """Value of the variable of such a loop in round i."""
        c, v = cval(s)
        if not c or type(v) is not int or v == 0:
            return i
        return mklin(*self.scaled(a, i, v))

    def scaled(self, a, i, v):
        d, c = lin(a)
        d = dict(d)
        d[i] = d.get(i, 0) + v
        return d, c

    def range_args(self, e, lvl):
        a = [self.key(x, lvl) for x in e.args]
        if len(a) == 1:
            return kconst(0), a[0], kconst(1)
        return a[0], a[1], a[2] if len(a) > 2 else kconst(1)

    def _loopkey(self, L, lvl):
        if L.kind == 'while':
            h = self.hdr_term(L)
            if h is None:
                return K('while')
            x = self.len_arg(h[3])
            if x is not None and is_const(h[1], 0) and h[2] == 1:
                return self.iter_key(x[0], lvl, x[1])
            return self.range_key(self.key(h[1], lvl), self.key(h[3], lvl), kconst(h[2]))
        it, v = L.iter
        return self.iter_key(it, lvl, v)

    def counted(self, a, lvl):
        """X[i] for the counter i of a loop over 0..len(X)."""
        b, i = self.g.res(a[0]), self.g.res(a[1])
        L = x = None
        if i.op == 'elem':
            L = i.meta
            it = self.g.res(L.iter[0])
            e = it.meta if it.op == 'call' else None
            if e is not None and e.fn is not None and e.fn.op == 'builtin' and e.fn.args[0] in ('range', 'xrange') and e.args:
                if len(e.args) == 1 or is_const(e.args[0], 0) and (len(e.args) < 3 or is_const(e.args[2], 1)):
                    x = self.len_arg(e.args[0] if len(e.args) == 1 else e.args[1])
        elif i.op == 'phi' and not isinstance(i.args, T) and i.meta[0].kind == 'while':
            L = i.meta[0]
            h = self.hdr_term(L)
            if h is not None and h[0] is i and h[2] == 1 and is_const(h[1], 0):
                x = self.len_arg(h[3])
        if x is None or self.g.res(x[0]) is not b:
            return None
        va = a[2] if len(a) == 3 else None
        if (va is None) != (x[1] is None) or va is not None and va is not x[1]:
            return None
        return self.elem_of(b, self.loopkey(L, lvl), self.nest(L, lvl), lvl)

    def len_arg(self, t):
        """(X, version) when t is len(X)."""
        t = self.g.res(t)
        if t.op == 'call' and t.meta is not None and t.meta.fn is not None and t.meta.fn.op == 'builtin' and t.meta.fn.args[0] == 'len' and len(t.meta.args) == 1:
            return t.meta.args[0], t.meta.vers.get(0)
        return None

    def ranged(self, t):
        """The call when t is range(..) by ones."""
        t = self.g.res(t)
        e = t.meta if t.op == 'call' else None
        if e is not None and e.fn is not None and e.fn.op == 'builtin' and e.fn.args[0] in ('range', 'xrange') and e.args and \
                (len(e.args) < 3 or is_const(e.args[2], 1)):
            return e
        return None

    def iter_key(self, it, lvl, v=None):
        it = self.g.res(it)
        if it.op == 'call' and it.meta is not None:
            e = it.meta
            n = e.fn.args[0] if e.fn is not None and e.fn.op == 'builtin' else None
            if n in ('range', 'xrange') and e.args:
                x = self.len_arg(e.args[0] if len(e.args) == 1 else e.args[1])
                if x is not None and (len(e.args) == 1 or is_const(e.args[0], 0)) and (len(e.args) < 3 or is_const(e.args[2], 1)):
                    return self.iter_key(x[0], lvl, x[1])
                return self.range_key(*self.range_args(e, lvl))
            if n == 'reversed' and len(e.args) == 1 and self.ranged(e.args[0]) is not None:
                return self.iter_key(e.args[0], lvl)
            if n in ('enumerate', 'list', 'tuple', 'iter') and e.args and it.id not in self.muts:
                return self.iter_key(e.args[0], lvl, e.vers.get(0))
            if n == 'zip':
                return K('zip', [self.iter_key(x, lvl) for x in e.args])
            if e.base is not None and e.fn is None and e.target is None and e.name in (
                    'items', 'iteritems', 'keys', 'iterkeys', 'values', 'itervalues', 'copy') and not e.args:
                b = self.iter_key(e.base, lvl, e.vers.get('base'))
                return b
        k = self.key(it, lvl)
        if v is not None and not is_const(v, 0):
            return K('for', [k, self.key(v, lvl)])
        return K('for', [k])

    def elem_of(self, it, lk, n, lvl):
        """Key of the element a loop over `it` binds."""
        it = self.g.res(it)
        if it.op == 'call' and it.meta is not None:
            e = it.meta
            b = e.fn.args[0] if e.fn is not None and e.fn.op == 'builtin' else None
            if b in ('range', 'xrange'):
                x, _, st = self.range_args(e, lvl)
                return self.range_val(K('idx', [lk], n), x, st)
            if b == 'reversed' and len(e.args) == 1 and self.ranged(e.args[0]) is not None:
                x, y, _ = self.range_args(self.ranged(e.args[0]), lvl)
                return self.range_val(K('idx', [lk], n), ladd(y, kconst(-1)), kconst(-1))
            if b == 'enumerate' and it.id not in self.muts:
                el = self.elem_of(e.args[0], lk, n, lvl)
                i = K('idx', [lk], n)
                st = e.args[1] if len(e.args) > 1 else e.kw.get('start')
                if st is not None:
                    i = ladd(i, self.key(st, lvl))
                return K('tuple', [i, el])
            if b in ('list', 'tuple', 'iter') and e.args and it.id not in self.muts:
                return self.elem_of(e.args[0], lk, n, lvl)
            if b == 'zip':
                return K('tuple', [self.elem_of(x, lk, n, lvl) for x in e.args])
            if e.base is not None and e.fn is None and e.target is None and not e.args:
                if e.name in ('items', 'iteritems'):
                    el = K('elem', [lk], n)
                    return K('tuple', [el, K('sub', [self.key(e.base, lvl), el])])
                if e.name in ('values', 'itervalues'):
                    return K('sub', [self.key(e.base, lvl), K('elem', [lk], n)])
                if e.name in ('keys', 'iterkeys', 'copy'):
                    return self.elem_of(e.base, lk, n, lvl)
        return K('elem', [lk], n)

    def nest(self, L, lvl):
        lk = self.loopkey(L, lvl)
        return sum(1 for M in L.loops[:-1] if self.loopkey(M, lvl) == lk)

    # -- guards of blocks
    def reach(self, b, lvl):
        """Guard of b relative to one round of its innermost loop."""
        k = (b.id, lvl)
        r = self.mr.get(k)
        if r is None:
            self.mr[k] = F
            r = self.mr[k] = self._reach(b, lvl)
        return r

    def _reach(self, b, lvl):
        if b is self.g.entry or (b.loops and b.loops[-1] is b):
            return TR
        r = F
        groups = {}
        for p in b.preds:
            if p.id not in self.live:
                continue
            if len(p.loops) > len(b.loops):
                groups.setdefault(p.loops[len(b.loops)].id, []).append(p)
            else:
                r = G.or_(r, self.eg(p, b, lvl))
        for lid in groups:
            L = self.byid[lid]
            r = G.or_(r, G.and_(self.entry(L, lvl), self.exguard(L, b, lvl)))
        if b.cond is not None:
            r = G.and_(r, self.condguard(b, lvl))
        return G.norm(r)

    def eg(self, p, b, lvl):
        """Guard of taking the edge p -> b (same loop level)."""
        r = self.reach(p, lvl)
        if p.events and b.cond is None:
            exc = [s for s in p.succs if s.cond is not None and s.cond[0] == 'exc']
            if exc:
                r = G.and_(r, G.not_(self.condguard(exc[0], lvl)))
        return r

    def entry(self, L, lvl):
        """Guard (one level up) of reaching the loop."""
        r = F
        for p in L.preds:
            if p.id not in self.live or L in p.loops:
                continue
            if len(p.loops) > len(L.loops) - 1:
                M = p.loops[len(L.loops) - 1]
                r = G.or_(r, G.and_(self.entry(M, lvl), self.exguard(M, L, lvl)))
            else:
                r = G.or_(r, self.eg(p, L, lvl))
        return r

    def local_exit(self, L, preds, target, lvl):
        """Guard within one round of L of leaving it by preds -> target."""
        r = F
        deeper = {}
        for p in preds:
            if p.loops[-1] is L:
                r = G.or_(r, self.eg(p, target, lvl))
            else:
                deeper.setdefault(p.loops[p.loops.index(L) + 1].id, []).append(p)
        for mid, ps in deeper.items():
            M = self.byid[mid]
            a = self.exatom(M, ps, target, lvl)
            r = G.or_(r, G.and_(self.entry(M, lvl), a))
        return G.norm(r)

    def exatom(self, L, preds, target, lvl):
        c = self.local_exit(L, preds, target, lvl)
        if c == F:
            return F
        if set(self.exits.get(L.id, {})) == {target.id} and set(id(p) for p in preds) == set(
                id(p) for p in self.exits[L.id][target.id]):
            return TR
        r = self._exatom(L, target, lvl, preds, c)
        self.exs.setdefault(r if G.node[r][1] == TR else G.not_(r), set()).add(L.id)
        return r

    def needs(self, L, lvl):
        """What holds when the body of L runs at all."""
        k = ('needs', L.id, lvl)
        if k in self.mg:
            return self.mg[k]
        self.mg[k] = TR
        lk = self.loopkey(L, lvl)
        r = TR
        op, kids, at = K.tab[lk]
        if op == 'for' and len(kids) == 1:
            r = self.truthy(kids[0])
        elif op == 'range':
            if cval(kids[2])[0] and isinstance(cval(kids[2])[1], int) and cval(kids[2])[1] > 0:
                r = self.numcmp('>=', ladd(kids[1], kids[0], -1), kconst(1))
        elif op == 'while':
            for b in L.succs:
                if b.id in self.live and b.cond is not None and b.cond[0] == 'if' and L.exit_e in [z for c in L.succs if c is not b for z in c.succs]:
                    r = self.at_first(self.condguard(b, lvl), lk)
        self.mg[k] = r
        return r

    def at_first(self, g, lk):
        """The condition g as the first round of the loop finds it."""
        def mine(k):
            return K.op(k) in ('mu', 'fold+', 'idx') and K.kids(k)[0] == lk

        def deep(k):
            if mine(k):
                return True
            return any(deep(x) for x in K.kids(k))

        def atom(a):
            # only what the first round knows and the others do not
            if a[0] in ('ge', 'eq'):
                d, c = lin(a[1])
                if not any(mine(x) for x in d):
                    return None
                n = mklin({x: v for x, v in d.items() if not mine(x)}, c)
                for x, v in d.items():
                    if K.op(x) == 'mu' and mine(x):
                        n = ladd(n, K.kids(x)[1], v)
                return None if deep(n) else self.numcmp('>=' if a[0] == 'ge' else '==', n, kconst(a[2]))
            if a[0] == 't' and mine(a[1]) and K.op(a[1]) == 'mu':
                k = K.kids(a[1])[1]
                return None if deep(k) else self.truthy(k)
            return None

        def walk(f):
            if f <= 1:
                return f
            v, hi, lo = G.node[f]
            x = atom(G.atoms[v])
            hi, lo = walk(hi), walk(lo)
            return G.or_(hi, lo) if x is None else G.ite(x, hi, lo)
        return walk(g)

    def _exatom(self, L, target, lvl, preds, c):
        ex = self.exits.get(L.id, {})
        if L.exit_e.id not in ex and L.exit_e.id != target.id:
            # the loop only ends by one of its exits: of two, name one
            mine = set(id(p) for p in preds)
            rest = F
            for tid, ps in ex.items():
                ps = [p for p in ps if tid != target.id or id(p) not in mine]
                if ps:
                    rest = G.or_(rest, self.local_exit(L, ps, self.byid[tid], lvl))
            rest = G.norm(rest)
            if rest not in (F, TR) and repr(rest) < repr(c):
                return G.not_(G.atom(('ex', self.loopkey(L, lvl), rest)))
        return G.atom(('ex', self.loopkey(L, lvl), c))

    def exguard(self, L, target, lvl, preds=None):
        ex = self.exits.get(L.id, {})
        if set(ex) == {target.id} and preds is None:
            return TR
        N = L.exit_e.id if L.exit_e.id in ex else None
        X = L.exit_x.id if L.exit_x.id in ex else None
        if target.id not in (N, X):
            return self.exatom(L, preds or ex[target.id], target, lvl)
        r = TR
        for t, ps in ex.items():
            if t not in (N, X):
                r = G.and_(r, G.not_(self.exatom(L, ps, self.byid[t], lvl)))
        if target.id == N:
            if X is not None:
                r = G.and_(r, G.not_(self.exatom(L, ex[X], L.exit_x, lvl)))
        else:
            if N is not None or preds is not None:
                ps = preds or ex[X]
                if N is not None or len(ps) != len(ex[X]):
                    r = G.and_(r, self.exatom(L, ps, target, lvl))
        return r

    def condguard(self, b, lvl):
        k = (b.id, lvl)
        if k in self.mg:
            return self.mg[k]
        kind, t, pol = b.cond
        if kind == 'iter':
            r = TR
        elif kind == 'if':
            p = b.preds[0] if b.preds else None
            if p is not None and p.kind == 'while' and p.loops and p.loops[-1] is p and self.hdr_term(p) is not None:
                r = TR
            else:
                r = self.cond(t, lvl)
                r = r if pol else G.not_(r)
        elif kind == 'exc':
            r = F
            for g0, k0 in self.evvals(t, lvl):
                r = G.or_(r, G.and_(g0, G.atom(('exc', k0))))
        elif kind == 'handler':
            r = G.atom(('handler', str(t)))
            r = r if pol else G.not_(r)
        else:
            r = TR
        self.mg[k] = r
        return r

    def total(self, b, lvl):
        r = self.reach(b, lvl)
        for L in b.loops:
            r = G.and_(r, self.entry(L, lvl))
        return r

    def lifted(self, b, lvl):
        """Guard of ever reaching b, seen from outside every loop."""
        r = self.reach(b, lvl)
        for L in reversed(b.loops):
            ex = self.exits.get(L.id, {})
            n = sum(len(v) for v in ex.values())
            if not (n == 1 and L.kind == 'while'):
                r = F if r == F else G.atom(('ex', self.loopkey(L, lvl), r))
            else:
                r = TR
            r = G.and_(r, self.entry(L, lvl))
        return r

    def path(self, b, lvl, base=()):
        return tuple(self.loopkey(L, lvl) for L in b.loops if L not in base)

    # -- conditions
    def cond(self, t, lvl):
        k = ('c', t.id, lvl)
        r = self.mg.get(k)
        if r is None:
            r = self.mg[k] = G.norm(self._cond(t, lvl))
        return r

    def _cond(self, t, lvl):
        t = self.g.res(t)
        if t.op == 'const':
            return TR if t.args[0] else F
        if t.op == 'not':
            return G.not_(self.cond(t.args[0], lvl))
        if t.op == 'and':
            return G.all([self.cond(x, lvl) for x in t.args])
        if t.op == 'or':
            return G.any([self.cond(x, lvl) for x in t.args])
        if t.op == 'cmp':
            op, l, r = t.args[:3]
            extra = [self.key(x, lvl) for x in t.args[3:]]
            out = F
            for g1, a in self.val(l, lvl):
                for g2, b in self.val(r, lvl):
                    g = G.and_(g1, g2)
                    if g != F:
                        out = G.or_(out, G.and_(g, self.compare(op, a, b, extra)))
            return out
        out = F
        for g, k in self.val(t, lvl):
            out = G.or_(out, G.and_(g, self.truthy(k)))
        return out

    def truthy(self, k):
        op, kids, at = K.tab[k]
        if op == 'const':
            return TR if at[1] else F
        if op == 'len':
            return self.truthy(kids[0])
        if op == 'pf' and at[0] == 'bool' and len(kids) == 1:
            return self.truthy(kids[0])
        if op == 'ite':
            return G.any([G.and_(g, self.truthy(x)) for g, x in zip(at, kids)])
        if op == 'tuple':
            return TR if kids else F
        if op == 'lin' or (op in NUMOPS and op != 'len'):
            return G.not_(self.numcmp('==', k, kconst(0)))
        if op in ('list', 'dict', 'set') and not at and kids and all(K.op(x) == 'entry' and K.attrs(x)[1] == TR and len(K.attrs(x)) == 3 for x in kids):
            return TR
        return G.atom(('t', k))

    def numcmp(self, op, a, b):
        """op in '==' '>=' on numeric keys."""
        d, c = lin(ladd(a, b, -1))
        if not d:
            return TR if (c == 0 if op == '==' else c >= 0) else F
        ks = sorted(d)
        neg = d[ks[0]] < 0
        if neg:
            d = {k: -v for k, v in d.items()}
            c = -c
        base = mklin(d, 0)
        # base + c == 0;   base + c >= 0;   or (negated) -(base + c) >= 0
        if op == '==':
            if c == 0 and K.op(base) == 'len':
                return G.not_(self.truthy(K.kids(base)[0]))
            if K.op(base) == 'arith' and K.attrs(base) == ('&',) and c:
                m = cval(K.kids(base)[-1])
                if m[0] and type(m[1]) is int and m[1] >= 0 and type(c) is int:
                    if -c & ~m[1]:
                        return F
                    if m[1] & (m[1] - 1) == 0:
                        return G.not_(G.atom(('eq', base, 0)))
            return G.atom(('eq', base, -c))
        if not neg:
            r = ('ge', base, -c)
        else:
            r = ('ge', base, -c + 1)          # base <= -c  is  not base >= -c + 1
        if K.op(base) == 'len':
            if r[2] <= 0:
                x = TR
            elif r[2] == 1:
                x = self.truthy(K.kids(base)[0])
            else:
                x = G.atom(r)
        elif r[2] <= 0 and self.position(base):
            x = TR if r[2] < 0 else G.not_(G.atom(('eq', base, -1)))
        else:
            x = G.atom(r)
        return G.not_(x) if neg else x

    def position(self, k):
        """The result of a function that returns -1 or a whole number from 0 up."""
        d = K.tab[k]
        if d[0] == 'res':
            d = K.tab[K.kids(k)[0]]
        if d[0] not in ('call', 'pp') or ':' not in d[2][0]:
            return False
        rel, name = d[2][0].split(':', 1)
        return name.rpartition('.')[2] in POSITIONS.get(rel.rpartition('/')[0], ())

    def compare(self, op, a, b, extra=()):
        if op == '!=' or op == 'is not' or op == 'not in':
            return G.not_(self.compare({'!=': '==', 'is not': 'is', 'not in': 'in'}[op], a, b, extra))
        ca, va = cval(a)
        cb, vb = cval(b)
        if op in ('is', '=='):
            if a == b and not extra:
                return TR
            if ca and cb:
                return TR if va == vb and (type(va) is type(vb) or (isinstance(va, int) and isinstance(vb, int))) else F
            if op == 'is' or (ca and not isinstance(va, (int, float))) or (cb and not isinstance(vb, (int, float))):
                if ca:
                    a, b, ca, cb, va, vb = b, a, cb, ca, vb, va
                if cb and (vb is None or isinstance(vb, (str, bytes, bool))):
                    if isinstance(vb, (str, bytes)) and not vb and not extra:
                        return G.not_(self.truthy(a))
                    if isinstance(vb, bool):
                        t = self.truthy(a)
                        return t if vb else G.not_(t)
                    if K.op(a) in ('tuple', 'lin', 'len', 'cat', 'new', 'list', 'dict', 'set') and vb is None:
                        return F
                    return G.atom(('is', a, (type(vb).__name__, vb)))
                x, y = sorted((a, b))
                return G.atom(('same', x, y))
            if numeric(a) or numeric(b):
                if (cb and isinstance(vb, float)) or (ca and isinstance(va, float)):
                    x, y = sorted((a, b))
                    return G.atom(('same', x, y))
                return self.numcmp('==', a, b)
            x, y = sorted((a, b))
            # comparing with an empty container
            for p, q in ((a, b), (b, a)):
                if K.op(p) in ('list', 'dict', 'set') and not K.kids(p):
                    return G.not_(self.truthy(q))
            if K.op(a) == 'tuple' and K.op(b) == 'tuple' and len(K.kids(a)) == len(K.kids(b)):
                return G.all([self.compare('==', p, q) for p, q in zip(K.kids(a), K.kids(b))])
            return G.atom(('same', x, y))
        if op in ('<', '>', '<=', '>='):
            if op in ('<', '<='):
                return G.not_(self.compare('>=' if op == '<' else '>', a, b))
            if op == '>':
                return G.not_(self.compare('>=', b, a))
            if (ca and isinstance(va, (str, float))) or (cb and isinstance(vb, (str, float))):
                return G.atom(('gef', a, b))
            return self.numcmp('>=', a, b)
        if op == 'in':
            op2, kids, at = K.tab[b]
            if op2 in ('tuple', 'list', 'set') and all(K.op(x) == 'entry' and len(K.kids(x)) == 1 and K.attrs(x)[1] == TR for x in kids) if op2 != 'tuple' else op2 == 'tuple':
                items = kids if op2 == 'tuple' else [K.kids(x)[0] for x in kids]
                return G.any([self.compare('==', a, x) for x in items])
            if op2 == 'global' and len(at) > 2 and at[2] is not None:
                return G.any([self.compare('==', a, x) for x in at[2]])
            while K.op(b) == 'seq' or (K.op(b) == 'pm' and K.attrs(b)[0] == 'keys'):
                if K.op(b) == 'pm':
                    extra = list(extra) + list(K.kids(b)[1:])
                b = K.kids(b)[0]
            return G.atom(('in', a, b) + tuple(extra))
        return G.atom(('cmp' + op, a, b))

    # -- values
    def key(self, t, lvl):
        v = self.val(t, lvl)
        return self.collapse(v)

    def collapse(self, v):
        if len(v) == 1:
            return v[0][1]
        m = {}
        for g, k in v:
            m[k] = G.or_(m.get(k, F), g)
        if len(m) == 1:
            return next(iter(m))
        if set(m) == {KTRUE, KFALSE}:
            g = G.norm(m[KTRUE])
            return K('ite', [KTRUE, KFALSE], g, G.not_(g))
        ks = sorted(m)
        return K('ite', ks, *[G.norm(m[k]) for k in ks])

    def expand(self, k):
        if K.op(k) == 'ite':
            return list(zip(K.attrs(k), K.kids(k)))
        return [(TR, k)]

    def lift(self, fn, vals):
        """Apply fn to every combination of the guarded operands."""
        combos = [(TR, ())]
        for v in vals:
            nxt = []
            for g, ks in combos:
                for g2, k in v:
                    gg = G.and_(g, g2)
                    if gg != F and not (len(v) > 1 and G.norm(gg) == F):
                        nxt.append((gg, ks + (k,)))
            combos = nxt
            if len(combos) > CAP:
                return [(TR, fn(*[self.collapse(v) for v in vals]))]
        m = {}
        for g, ks in combos:
            for g2, r in self.expand(fn(*ks)):
                m[r] = G.or_(m.get(r, F), G.and_(g, g2))
        m = {r: g for r, g in m.items() if g != F}
        if len(m) > CAP:
            return [(TR, self.collapse([(g, r) for r, g in m.items()]))]
        if len(m) == 1:
            return [(TR, next(iter(m)))]
        return [(g, r) for r, g in sorted(m.items())]

    def val(self, t, lvl):
        k = (t.id, lvl)
        v = self.mv.get(k)
        if v is None:
            v = self._val(t, lvl)
            if len(v) > 1:
                v = self.tidy(v)
            self.mv[k] = v
        return v

    def tidy(self, v):
        m = {}
        for g, k in v:
            g = G.norm(g)
            if g != F:
                m[k] = G.or_(m.get(k, F), g)
        if len(m) == 1:
            return [(TR, next(iter(m)))]
        if not m:
            return [(TR, v[0][1])]
        return [(g, k) for k, g in sorted(m.items())]

    def one(self, k):
        return [(TR, k)]

    def boolval(self, g):
        if g == TR:
            return [(TR, KTRUE)]
        if g == F:
            return [(TR, KFALSE)]
        return [(g, KTRUE), (G.not_(g), KFALSE)]

    def attrname(self, n):
        return self.ren.get(n, n)

    def _val(self, t, lvl):
        t = self.g.res(t)
        op, a = t.op, t.args
        if op == 'const':
            return self.one(kconst(a[0]))
        if op == 'param':
            return self.one(K('param', (), a[0]))
        if op == 'builtin':
            n = {'xrange': 'range', 'unicode': 'str', 'raw_input': 'input', 'long': 'int'}.get(a[0], a[0])
            return self.one(K('builtin', (), n))
        if op == 'ext':
            return self.one(K('ext', (), a[0]))
        if op == 'func':
            return self.one(self.funckey(a[0]))
        if op == 'cls':
            return self.one(K('cls', (), a[0].where))
        if op == 'mod':
            return self.one(K('mod', (), a[0].rel))
        if op == 'global':
            return self.one(self.globalkey(a[0]))
        if op == 'attr':
            c = self.class_const(t)
            if c is not None:
                return self.one(c)
            return self.lift(lambda b: K('attr', [b], self.attrname(a[1])), [self.val(a[0], lvl)])
        if op == 'sub':
            r = self.counted(a, lvl) if len(a) in (2, 3) else None
            if r is not None:
                return [(TR, r)]
            return self.lift(self.mksub, [self.val(x, lvl) for x in a])
        if op == 'slice':
            return self.lift(self.mkslice, [self.val(x, lvl) for x in a])
        if op == 'bin':
            return self.lift(lambda x, y: self.mkbin(a[0], x, y), [self.val(a[1], lvl), self.val(a[2], lvl)])
        if op in ('cmp', 'not'):
            return self.boolval(self.cond(t, lvl))
        if op in ('and', 'or'):
            out = self.val(a[-1], lvl)
            for x in reversed(a[:-1]):
                v = []
                for g, k in self.val(x, lvl):
                    tr = self.truthy(k)
                    stop = tr if op == 'or' else G.not_(tr)
                    v.append((G.and_(g, stop), k))
                    for g2, k2 in out:
                        v.append((G.all([g, G.not_(stop), g2]), k2))
                out = self.tidy(v)
                if len(out) > CAP:
                    out = self.one(self.collapse(out))
            return out
        if op == 'neg':
            return self.lift(lambda x: mklin({k: -v for k, v in lin(x)[0].items()}, -lin(x)[1]), [self.val(a[0], lvl)])
        if op == 'inv':
            return self.lift(lambda x: K('arith', [x], '~'), [self.val(a[0], lvl)])
        if op == 'star':
            return self.lift(lambda x: K('star', [x]), [self.val(a[0], lvl)])
        if op == 'tuple':
            return self.lift(lambda *xs: K('tuple', xs), [self.val(x, lvl) for x in a])
        if op == 'fmt':
            return self.lift(lambda *xs: mkcat([self.strof(x) for x in xs]), [self.val(x, lvl) for x in a])
        if op in ('list', 'set', 'dict'):
            return self.container(t, lvl)
        if op == 'elem':
            L = t.meta
            lk = self.loopkey(L, lvl)
            return [(TR, self.elem_of(L.iter[0], lk, self.nest(L, lvl), lvl))]
        if op == 'call':
            return self.callval(t, lvl)
        if op == 'new':
            e = t.meta if isinstance(t.meta, ir.Ev) else None
            sig = self.newsig(t)
            if e is not None and (e.args or e.kw):
                v = self.lift(lambda *xs: K('new', xs, a[1].where, tuple(sorted(e.kw)), sig),
                              [self.val(x, lvl) for x in e.args] + [self.val(e.kw[n], lvl) for n in sorted(e.kw)])
                return v
            return self.one(K('new', (), a[1].where, (), sig))
        if op == 'phi':
            return self.phi(t, lvl)
        if op == 'havoc':
            if t.meta is None:
                return self.one(K('havoc', [], self.attrname(a[1])))
            return self.lift(lambda x: K('havoc', [x], self.attrname(a[1])), [self.evvals(t.meta, lvl)])
        if op == 'ver':
            return self.lift(lambda x: K('ver', [x]), [self.evvals(t.meta, lvl)])
        if op == 'exc':
            return self.one(K('exc', (), str(a[0])))
        if op == 'bound':
            return self.lift(lambda x: K('bound', [x], self.wherename(a[0])), [self.val(a[1], lvl)])
        if op == 'default':
            return self.one(K('default', (), ast.dump(a[2])))
        if op == 'undef':
            return self.one(K('undef'))
        if op == 'reraise':
            return self.one(K('reraise'))
        self.unknown.add(op)
        return self.one(K('unknown', (), op))

    # -- leaves
    def funckey(self, f):
        if isinstance(f.node, ast.Lambda):
            names = {p: '$%d' % i for i, p in enumerate(f.params())}

            class R(ast.NodeTransformer):
                def visit_Name(self, n):
                    if n.id not in names:
                        d = f.mod.defs.get(n.id)
                        if isinstance(d, tuple) and len(d[1]) == 1 and isinstance(d[1][0], ast.Constant):
                            return ast.Constant(value=d[1][0].value)
                    return ast.Name(id=names.get(n.id, n.id), ctx=ast.Load())
            import copy
            return K('lambda', (), ast.dump(R().visit(copy.deepcopy(f.node.body))), len(names))
        return K('func', (), self.wherename(f))

    def globalkey(self, gv):
        k = ('gl', gv.mod.rel, gv.name)
        if k in self.mk:
            return self.mk[k]
        d = gv.mod.defs.get(gv.name)
        r = None
        items = None
        if isinstance(d, tuple) and len(d[1]) == 1:
            n = d[1][0]
            c = fold(n, gv.mod)
            if c is not None:
                r = c
            elif isinstance(n, (ast.Tuple, ast.List, ast.Set)):
                xs = [fold(x, gv.mod) for x in n.elts]
                if all(x is not None for x in xs):
                    items = tuple(xs)
        if r is None:
            r = K('global', (), gv.mod.rel, gv.name, items)
        self.mk[k] = r
        return r

    def class_const(self, t):
        """self.X where X is a class-level constant nobody stores to."""
        b, n = t.args
        c = self.g.klass(b)
        if c is None:
            return None
        k = ('cc', c.where, n)
        if k in self.mk:
            return self.mk[k]
        r = None
        fa = c.find_attr(n)
        if fa is not None:
            stored = any(isinstance(x, ast.Attribute) and x.attr == n and isinstance(x.ctx, (ast.Store, ast.Del))
                         for x in ast.walk(c.mod.tree))
            if not stored:
                r = fold(fa[1], c.mod)
        self.mk[k] = r
        return r

    # -- operators
    def mksub(self, b, i, v=None):
        bo, bk, ba = K.tab[b]
        c, iv = cval(i)
        if bo == 'tuple' and c and isinstance(iv, int) and -len(bk) <= iv < len(bk) and not any(K.op(x) == 'star' for x in bk):
            return bk[iv]
        if bo == 'const' and c and isinstance(ba[1], (str, tuple)) and isinstance(iv, int) and -len(ba[1]) <= iv < len(ba[1]):
            return kconst(ba[1][iv])
        if bo == 'list' and c and isinstance(iv, int) and 0 <= iv < len(bk) and all(
                K.op(x) == 'entry' and K.attrs(x) == ('append', TR, 0) for x in bk):
            return K.kids(bk[iv])[0]
        if bo == 'slice' and v is None and c and isinstance(iv, int) and not isinstance(iv, bool) and iv >= 0 and bk[3] == KNONE:
            lo, hi = cval(bk[1]), cval(bk[2])
            lo = 0 if lo == (True, None) else lo[1] if lo[0] and isinstance(lo[1], int) and lo[1] >= 0 else None
            if lo is not None and hi[0] and (hi[1] is None or isinstance(hi[1], int) and hi[1] > lo + iv):
                return self.mksub(bk[0], kconst(lo + iv), bk[4] if len(bk) > 4 else None)
        if K.op(i) == 'idx' and K.kids(i)[0] == K('for', [b]):
            return K('elem', [K.kids(i)[0]], *K.attrs(i))
        if K.op(i) == 'lin' and v is None:
            d, cc = lin(i)
            if d == {K('len', [b]): 1} and cc < 0:
                i = kconst(cc)
        return K('sub', [b, i] + ([v] if v is not None else []))

    def mkslice(self, b, lo, hi, st, v=None):
        if cval(lo) == (True, 0):
            lo = KNONE
        if hi == K('len', [b]):
            hi = KNONE
        if cval(st) == (True, 1):
            st = KNONE
        if lo == hi == st == KNONE and K.op(b) in ('const', 'cat', 'str', 'tuple'):
            return b
        if K.op(hi) == 'lin':
            d, cc = lin(hi)
            if d == {K('len', [b]): 1} and cc < 0:
                hi = kconst(cc)
        return K('slice', [b, lo, hi, st] + ([v] if v is not None else []))

    def strof(self, k):
        c, v = cval(k)
        if c and isinstance(v, str):
            return k
        if c and isinstance(v, int) and not isinstance(v, bool):
            return kconst(str(v))
        if K.op(k) in ('cat', 'str'):
            return k
        if K.op(k) == 'pf' and K.attrs(k)[0] == 'str' and len(K.kids(k)) == 1:
            return K.kids(k)[0]
        return k

    def mkbin(self, op, x, y):
        cx, vx = cval(x)
        cy, vy = cval(y)
        if op == '%' and cx and isinstance(vx, str):
            return self.percent(vx, y)
        if op in ('+', '-'):
            fl = (cx and isinstance(vx, float)) or (cy and isinstance(vy, float))
            if op == '-' and not fl and K.op(x) not in ('set',) and K.op(y) not in ('set',):
                if numeric(x) or numeric(y) or not (K.op(x) == 'pf' and K.attrs(x)[0] == 'set'):
                    return ladd(x, y, -1)
            if op == '+' and not fl and (numeric(x) or numeric(y)):
                return ladd(x, y)
            if op == '+':
                if stringy(x) or stringy(y):
                    return mkcat([x, y])
                r = self.joined(x, y)
                if r is not None:
                    return r
                if K.op(x) == 'tuple' and K.op(y) == 'tuple':
                    return K('tuple', K.kids(x) + K.kids(y))
                xs = list(K.kids(x)) if K.op(x) == 'plus' else [x]
                ys = list(K.kids(y)) if K.op(y) == 'plus' else [y]
                return K('plus', xs + ys)
        if op == '*':
            for p, q in ((x, y), (y, x)):
                c, v = cval(p)
                if c and isinstance(v, int) and not isinstance(v, bool) and not stringy(q) and K.op(q) not in ('list', 'tuple'):
                    d, cc = lin(q)
                    return mklin({k: v * w for k, w in d.items()}, v * cc)
            if not stringy(x) and not stringy(y):
                x, y = sorted((x, y))
                return K('mul', [x, y])
        if op in ('<<', '>>') and cy and vy == 0 and type(vy) is int:
            return x
        if op == '<<' and cx and vx == 0 and type(vx) is int:
            return x
        if op == '<<' and cy and isinstance(vy, int) and 0 <= vy < 64 and cx is False:
            return K('arith', [x, y], '<<')
        if op in ('&', '|', '^') and (self.setlike(x) or self.setlike(y)):
            x, y = [z if self.setlike(z) else self.pfun('set', [z], (), []) for z in (x, y)]
        if op in ('&', '|', '^'):
            xs = []
            for z in (x, y):
                if K.op(z) == 'arith' and K.attrs(z) == (op,):
                    xs += K.kids(z)
                else:
                    xs.append(z)
            ints = [cval(z)[1] for z in xs if cval(z)[0] and isinstance(cval(z)[1], int)]
            rest = sorted(z for z in xs if not (cval(z)[0] and isinstance(cval(z)[1], int)))
            if len(ints) > 1:
                v = ints[0]
                for w in ints[1:]:
                    v = v & w if op == '&' else v | w if op == '|' else v ^ w
                ints = [v]
            if op in '|^' and ints == [0] and rest:
                ints = []
            if not rest:
                return kconst(ints[0])
            if len(rest) == 1 and not ints:
                return rest[0]
            return K('arith', rest + [kconst(v) for v in ints], op)
        if cx and cy and type(vx) is int and type(vy) is int and 0 <= vy < 128:
            if op == '**':
                return kconst(vx ** vy)
            if op == '<<':
                return kconst(vx << vy)
            if op == '>>':
                return kconst(vx >> vy)
            if op == '//' and vy:
                return kconst(vx // vy)
            if op == '%' and vy:
                return kconst(vx % vy)
        if op == '/':
            a, b = self.unfloat(x), self.unfloat(y)
            if self.g.func.mod.py3 or (a, b) != (x, y):
                return K('fdiv', [a, b])
        if op == '-' and (self.setlike(x) or self.setlike(y)):
            return K('arith', [x, y if self.setlike(y) else self.pfun('set', [y], (), [])], '-')
        return K('arith', [x, y], op)

    def unfloat(self, k):
        """The number whose float k is."""
        op, kids, at = K.tab[k]
        if op == 'mul' and len(kids) == 2:
            for a, b in (kids, kids[::-1]):
                if cval(a) == (True, 1.0) and isinstance(cval(a)[1], float):
                    return b
        if op == 'pf' and at[0] == 'float' and len(kids) == 1 and not stringy(kids[0]):
            return kids[0]
        return k

    def entries(self, k):
        """Entries of a list value, None when k is not known to be one."""
        op, kids, at = K.tab[k]
        if op == 'list' and all(K.op(x) == 'entry' and K.attrs(x)[0] in ('append', 'all of') for x in kids):
            return list(kids)
        if op == 'seq' and len(kids) == 1:
            return [K('entry', kids, 'all of', TR, 0)]
        if op == 'slice' and len(kids) == 4 and kids[1:] == (KNONE,) * 3:
            return [K('entry', kids[:1], 'all of', TR, 0)]
        return None

    def joined(self, x, y):
        """x + y when one of them is a list written out here."""
        def last(k, i):
            return K.kids(k)[i] if K.op(k) == 'plus' else k
        if K.op(last(x, -1)) != 'list' and K.op(last(y, 0)) != 'list':
            return None
        out = []
        for p in (list(K.kids(x)) if K.op(x) == 'plus' else [x]) + (list(K.kids(y)) if K.op(y) == 'plus' else [y]):
            es = self.entries(p)
            if es is None:
                if K.op(p) in ('list', 'ite', 'mu', 'mu0', 'box0'):
                    return None
                es = [K('entry', [p], 'all of', TR, 0)]
            out += es
        return K('list', self.arrange(out))

    def setlike(self, k):
        op, kids, at = K.tab[k]
        return op in ('set', 'frozenset') or op == 'pf' and at[0] in ('set', 'frozenset') or op == 'arith' and at[0] in '&|-^' and any(self.setlike(x) for x in kids)

    def percent(self, s, y):
        ps = fmt_split(s)
        if ps is None:
            return K('cat', [K('fmt', [y], s)])
        n = sum(1 for p in ps if p[0] == 'f')
        args = list(K.kids(y)) if K.op(y) == 'tuple' else [y]
        if n != len(args):
            return K('cat', [K('fmt', args, s)])
        out, i = [], 0
        for kind, x in ps:
            if kind == 'c':
                out.append(kconst(x))
            else:
                out.append(self.strof(args[i]) if x in ('s', 'd', 'i') else args[i] if x == 'c' and stringy(args[i]) else
                           self.pfun('chr', [args[i]], (), []) if x == 'c' else K('fmt', [args[i]], x))
                i += 1
        r = mkcat(out)
        if K.op(r) not in ('cat', 'const'):
            r = K('str', [r])
        return r

    # -- phi
    def phi(self, t, lvl):
        if isinstance(t.args, T):
            return self.val(t.args, lvl)
        b = t.meta[0]
        if b.kind is not None and b.loops and b.loops[-1] is b:
            return self.mu(t, b, lvl)
        k = ('busy', t.id, lvl)
        if k in self.mk:
            return self.one(K('rec'))
        self.mk[k] = True
        out, groups = [], {}
        preds = t.loc or b.preds
        for p, v in zip(preds, t.args):
            if p.id not in self.live:
                continue
            groups.setdefault((v.id, p.loops[len(b.loops)].id if len(p.loops) > len(b.loops) else None), [v, []])[1].append(p)
        for (vid, lid), (v, ps) in groups.items():
            if lid is None:
                g = G.any([self.eg(p, b, lvl) for p in ps])
            else:
                L = self.byid[lid]
                allp = self.exits[L.id].get(b.id, [])
                sub = ps if len(ps) != len(allp) else None
                g = G.and_(self.entry(L, lvl), self.exguard(L, b, lvl, sub))
            if g == F:
                continue
            for g2, k2 in self.val(v, lvl):
                out.append((G.and_(g, g2), k2))
        if len(out) > 1:
            care = self.reach(b, lvl)
            if care != TR and care != F:
                out = [(G.constrain(g, care), k2) for g, k2 in out]
        del self.mk[k]
        if not out:
            return self.one(K('undef', (), 'unreachable'))
        out = self.tidy(out)
        out = self.same_stem(out)
        if len(out) > CAP:
            out = self.one(self.collapse(out))
        return out

    def same_stem(self, v):
        """x + (piece if c) for a string extended on one branch."""
        if len(v) != 2:
            return v
        for (g1, k1), (g2, k2) in (v, v[::-1]):
            if K.op(k1) == 'cat' and (stringy(k2) or K.op(k2) in ('mu', 'mu0')):
                p1, p2 = pieces(k1), pieces(k2)
                if len(p1) > len(p2) and p1[:len(p2)] == p2:
                    return self.one(K('cat', p2 + [self.each((), g1, x) for x in p1[len(p2):]]))
        return v

    def each(self, path, g, piece):
        if K.op(piece) == 'each':
            kids, at = K.kids(piece), K.attrs(piece)
            return K('each', tuple(path) + kids, G.norm(G.and_(g, at[0])))
        return K('each', tuple(path) + (piece,), g)

    def mu(self, t, L, lvl):
        h = self.hdr_term(L)
        if h is not None and h[0] is t:
            i = K('idx', [self.loopkey(L, lvl)], self.nest(L, lvl))
            return self.one(self.range_val(i, self.key(h[1], lvl), kconst(h[2])))
        if lvl <= 0:
            self.cut[t.id] = t
            return self.one(K('mu0'))
        lk = self.loopkey(L, lvl - 1)
        kb = ('mub', t.id, lvl)
        if kb in self.mk:
            return self.one(K('mu0'))
        self.mk[kb] = True
        self.seen[t.id] = t
        init, step = [], []
        for p, v in zip(t.loc or L.preds, t.args):
            if p.id not in self.live:
                continue
            if L in p.loops:
                g = self.local_back(p, L, lvl - 1)
                step += [(G.and_(g, g2), k2) for g2, k2 in self.val(v, lvl - 1)]
            else:
                init += self.val(v, lvl)
        del self.mk[kb]
        init = self.collapse(self.tidy(init)) if init else KNONE
        bk = self.back(L, lvl - 1)
        if bk not in (TR, F):
            step = [(G.norm(G.constrain(g, bk)), k) for g, k in step]
        step = self.tidy(step) if step else self.one(KNONE)
        self.mk[('busy2', t.id)] = True
        me = self.mv.get((t.id, lvl - 1))
        me = self.collapse(me) if me else K('mu0')
        # folds
        if all(k == me or (K.op(k) == 'lin' and lin(k)[0].get(me) == 1) for g, k in step) and any(k != me for g, k in step) and numeric(init):
            ds = []
            for g, k in step:
                d, c = lin(k)
                d = dict(d)
                d.pop(me, None)
                x = mklin(d, c)
                if x != kconst(0):
                    ds.append((g, x))
            if len(ds) == 1 and ds[0][0] == TR and cval(ds[0][1])[0]:
                d, c = lin(K('idx', [lk], self.nest(L, lvl)))
                m = cval(ds[0][1])[1]
                return self.one(ladd(init, mklin({k: m * v for k, v in d.items()}, 0)))
            return self.one(ladd(init, K('fold+', [lk] + [x for g, x in ds], *[g for g, x in ds])))
        mp = pieces(me)
        if (stringy(init) or init == KEMPTY) and mp and all(k == me or (K.op(k) == 'cat' and pieces(k)[:len(mp)] == mp) for g, k in step):
            es = []
            for g, k in step:
                for x in pieces(k)[len(mp):] if k != me else ():
                    es.append(self.each((lk,), g, x))
            return self.one(K('cat', pieces(init) + es))
        return self.one(K('mu', [lk, init] + [k for g, k in step], *[g for g, k in step]))

    def local_back(self, p, L, lvl):
        if p.loops[-1] is L:
            return self.eg(p, L, lvl)
        M = p.loops[p.loops.index(L) + 1]
        return G.and_(self.entry(M, lvl), self.exguard(M, L, lvl))

    def back(self, L, lvl):
        """Guard of a round of L being followed by another."""
        r = F
        for p in L.preds:
            if p.id in self.live and L in p.loops:
                r = G.or_(r, self.local_back(p, L, lvl))
        return G.norm(r)

    def rounds(self, g, L, lvl):
        """Guard within the rounds of L that are followed by another."""
        b = self.back(L, lvl)
        if b in (TR, F):
            return g
        if G.norm(G.and_(g, G.not_(b))) == F:
            return G.norm(G.constrain(g, b))
        if g == TR:
            return G.atom(('last', self.loopkey(L, lvl)))
        return g

    # -- containers
    def container(self, t, lvl):
        if lvl < -2:
            self.cut[t.id] = t
            return self.one(K('box0'))
        if lvl <= 0 and any(set(e.block.loops) - set(self.home(t)) for e in self.muts.get(t.id, ())):
            self.cut[t.id] = t
            return self.one(K('box0'))
        k = ('box', t.id, lvl)
        if k in self.mk:
            return self.one(K('box0'))
        self.mk[k] = True
        self.seen[t.id] = t
        op = t.op
        entries = []
        cb = t.meta if isinstance(t.meta, ir.Block) else None
        if op == 'call':
            e = t.meta
            cb = e.block
            name = e.fn.args[0] if e.fn is not None else 'copy'
            op = {'collections.deque': 'list', 'collections.OrderedDict': 'dict'}.get(name, name)
            src = e.args[0] if e.args else (e.base if name == 'copy' else None)
            if name in ('collections.defaultdict',):
                op = 'dict'
                src = None
                entries.append(K('entry', [self.key(x, lvl) for x in e.args], 'factory', TR, 0))
            if src is not None:
                entries += self.absorb(src, lvl, (), TR, op)
            if op == 'dict' and name != 'collections.defaultdict':
                entries += self.keywords(e, lvl, (), TR)
            if op == 'copy':
                op = 'box'
        elif op == 'dict':
            for kk, vv in t.args[1]:
                if kk is ir.STAR:
                    entries += self.absorb(vv, lvl, (), TR, 'dict')
                    continue
                entries.append(K('entry', [self.key(kk, lvl), self.key(vv, lvl)], 'put', TR, 0))
        else:
            for x in t.args[1]:
                x = self.g.res(x)
                if x.op == 'star':
                    entries += self.absorb(x.args[0], lvl, (), TR)
                else:
                    entries.append(K('entry', [self.key(x, lvl)], 'append' if op == 'list' else 'add', TR, 0))
        base = cb.loops if cb is not None else ()
        care = self.total(cb, lvl - 1) if cb is not None else TR
        for e in self.muts.get(t.id, ()):
            g = self.total(e.block, lvl - 1)
            if care not in (TR, F):
                g = G.constrain(g, care)
            g = G.norm(g)
            if g == F:
                continue
            p = self.path(e.block, lvl - 1, base)
            if p and e.block.loops:
                g = self.rounds(g, e.block.loops[-1], lvl - 1)
            lv = lvl - 1 if p else lvl
            if e.kind == 'setsub':
                for g2, ks in self.cases(g, [e.idx, e.value], lv):
                    entries.append(K('entry', list(ks) + list(p), 'put', g2, len(p)))
                continue
            elif e.kind == 'delsub':
                ks, nm = [self.key(e.idx, lv)], 'del'
            elif e.base is t:
                nm = e.name
                if nm == 'extend' or nm == '__iadd__' or (nm == 'update' and len(e.args) == 1):
                    entries += self.absorb(e.args[0], lv, p, g, op)
                    if nm == 'update':
                        entries += self.keywords(e, lv, p, g)
                    continue
                if nm == 'update' and not e.args:
                    entries += self.keywords(e, lv, p, g)
                    continue
                if nm in ('append', 'add') and len(e.args) == 1 and not e.kw:
                    for g2, ks in self.cases(g, e.args, lv):
                        if p and g2 == TR and K.op(p[-1]) == 'for' and len(K.kids(p[-1])) == 1 and K.op(ks[0]) == 'elem' and ks[0] == K('elem', [p[-1]], self.nest(e.block.loops[-1], lv)):
                            # every element as it comes
                            entries += self.absorbed(K.kids(p[-1])[0], p[:-1], g2, op)
                            continue
                        entries.append(K('entry', list(ks) + list(p), nm, g2, len(p)))
                    continue
                ks = [self.key(x, lv) for x in e.args] + [self.key(e.kw[n], lv) for n in sorted(e.kw)]
                if nm == 'setdefault' and len(ks) == 2:
                    nm = 'put'
                    g = G.and_(g, G.not_(G.atom(('in', ks[0], K('box0')))))
            else:
                nm = 'via %s/%s' % (self.callname(e), [i for i, x in enumerate(e.args) if x is t])
                ks = [self.key(x, lv) if x is not t else K('box0') for x in e.args]
                if e.base is not None:
                    ks.append(self.key(e.base, lv))
            for i in range(len(ks)):
                pass
            entries.append(K('entry', ks + list(p), nm, g, len(p)))
        entries = self.arrange(entries)
        del self.mk[k]
        return self.one(K(op, entries))

    def cases(self, g, ts, lvl):
        """The operands of something done, by case."""
        out = [(g, ())]
        for t in ts:
            v = self.val(t, lvl)
            nxt = [(G.norm(G.and_(a, b)), ks + (k,)) for a, ks in out for b, k in v] if len(v) > 1 else [(a, ks + (v[0][1],)) for a, ks in out]
            out = [(a, ks) for a, ks in nxt if a != F]
            if len(out) > 6:
                return [(g, tuple(self.key(t, lvl) for t in ts))]
        m = {}
        for a, ks in out:
            m[ks] = G.or_(m.get(ks, F), a)
        return sorted(((G.norm(a), ks) for ks, a in m.items()), key=lambda x: (x[1], x[0]))

    def keywords(self, e, lvl, p, g):
        out = []
        for n in e.kw:
            if n.startswith('**'):
                out += self.absorb(e.kw[n], lvl, p, g, 'dict')
            else:
                out.append(K('entry', [kconst(n), self.key(e.kw[n], lvl)] + list(p), 'put', g, len(p)))
        return out

    def home(self, t):
        """Loops around the creation of a container."""
        cb = t.meta.block if t.op == 'call' else t.meta
        return cb.loops if isinstance(cb, ir.Block) else ()

    def absorb(self, src, lvl, p, g, into='list'):
        src = self.g.res(src)
        up = self.is_fresh(src) and any(set(e.block.loops) - set(self.home(src)) for e in self.muts.get(src.id, ()))
        return self.absorbed(self.key(src, lvl + 1 if up and p and lvl < self.level else lvl), p, g, into)

    def absorbed(self, k, p, g, into):
        out = self._absorb(k, p, g)
        if into == 'dict':
            # pairs given to a dictionary
            res = []
            for x in out:
                nm, g2, n = K.attrs(x)
                ks = K.kids(x)
                if nm in ('append', 'add') and K.op(ks[0]) == 'tuple' and len(K.kids(ks[0])) == 2:
                    x = K('entry', K.kids(ks[0]) + ks[1:], 'put', g2, n)
                elif nm in ('append', 'add'):
                    x = K('entry', (self.mksub(ks[0], kconst(0)), self.mksub(ks[0], kconst(1))) + ks[1:], 'put', g2, n)
                res.append(x)
            return res
        if into == 'set':
            return [K('entry', K.kids(x), 'add', *K.attrs(x)[1:]) if K.attrs(x)[0] == 'append' else x for x in out]
        return out

    def _absorb(self, k, p, g):
        """Entries for adding every element of k."""
        if K.op(k) == 'global' and len(K.attrs(k)) > 2 and K.attrs(k)[2] is not None:
            k = K('tuple', K.attrs(k)[2])
        if K.op(k) == 'seq' and len(K.kids(k)) == 1:
            k = K.kids(k)[0]
        if K.op(k) in ('list', 'set', 'tuple') and (K.op(k) == 'tuple' or all(K.op(x) == 'entry' and K.attrs(x)[0] in ('append', 'add') for x in K.kids(k))):
            out = []
            for x in K.kids(k):
                if K.op(k) == 'tuple':
                    out.append(K('entry', (x,) + tuple(p), 'append', g, len(p)))
                    continue
                nm, g2, n = K.attrs(x)
                ks = K.kids(x)
                out.append(K('entry', ks[:1] + tuple(p) + ks[1:], 'append', G.norm(G.and_(g, g2)), n + len(p)))
            return out
        if K.op(k) == 'dict' and all(K.op(x) == 'entry' and K.attrs(x)[0] == 'put' for x in K.kids(k)):
            out = []
            for x in K.kids(k):
                nm, g2, n = K.attrs(x)
                ks = K.kids(x)
                out.append(K('entry', ks[:2] + tuple(p) + ks[2:], nm, G.norm(G.and_(g, g2)), n + len(p)))
            return out
        return [K('entry', [k] + list(p), 'all of', g, len(p))]

    def arrange(self, es):
        """Put exclusive neighbours, and stores under distinct constant keys,
        in a fixed order."""
        def indep(a, b):
            aa, ab = K.attrs(a), K.attrs(b)
            if G.disjoint(aa[1], ab[1]) and aa[2] == ab[2] and (aa[2] == 0 or K.kids(a)[-aa[2]:] == K.kids(b)[-ab[2]:]):
                return True
            if aa[0] == ab[0] == 'add':
                return True
            if aa[0] in ('put', 'del') and ab[0] in ('put', 'del'):
                ka, kb = K.kids(a)[0], K.kids(b)[0]
                ca, va = cval(ka)
                cb, vb = cval(kb)
                return ca and cb and va != vb
            return False
        es = list(es)
        # same thing done under different exclusive guards in a row
        changed = True
        n = 0
        while changed and n < 50:
            changed = False
            n += 1
            for i in range(len(es) - 1):
                a, b = es[i], es[i + 1]
                aa, ab = K.attrs(a), K.attrs(b)
                if K.kids(a) == K.kids(b) and aa[0] == ab[0] and aa[2] == ab[2] and G.disjoint(aa[1], ab[1]):
                    es[i:i + 2] = [K('entry', K.kids(a), aa[0], G.norm(G.or_(aa[1], ab[1])), aa[2])]
                    changed = True
                    break
                if a > b and indep(a, b):
                    es[i], es[i + 1] = b, a
                    changed = True
        return es

    # -- calls
    def callname(self, e):
        if e.target is not None:
            return self.wherename(e.target)
        if e.fn is not None and e.fn.op in ('builtin', 'ext'):
            return e.fn.args[0]
        return '.' + self.attrname(str(e.name))

    def wherename(self, f):
        w = f.where
        if f.name in self.ren:
            w = w[:len(w) - len(f.name)] + self.ren[f.name]
        return w

    def callargs(self, e, lvl):
        """Positional operands of a call (receiver first)."""
        vals = []
        if e.base is not None:
            if e.target is None or not e.target.static:
                vals.append(self.val(e.base, lvl))
        elif e.fn is not None and e.fn.op not in ('builtin', 'ext', 'func', 'cls', 'bound'):
            vals.append(self.val(e.fn, lvl))
        elif e.fn is not None and e.fn.op == 'bound':
            vals.append(self.val(e.fn.args[1], lvl))
        args = [self.val(x, lvl) for x in e.args]
        kw = dict(e.kw)
        names = ()
        if e.target is not None and isinstance(e.target.node, (ast.FunctionDef, ast.Lambda)):
            ps = e.target.params()
            if e.base is not None and not e.target.static and e.target.cls is not None:
                ps = ps[1:]
            elif e.base is None and e.target.classm:
                ps = ps[1:]
            dfl = e.target.node.args.defaults
            nd = len(e.target.params()) - len(dfl)
            off = len(e.target.params()) - len(ps)
            i = len(args)
            while i < len(ps) and not any(x.op == 'star' for x in e.args):
                if ps[i] in kw:
                    args.append(self.val(kw.pop(ps[i]), lvl))
                elif i + off >= nd and isinstance(dfl[i + off - nd], ast.Constant):
                    args.append(self.one(kconst(dfl[i + off - nd].value)))
                else:
                    break
                i += 1
        names = tuple(sorted(kw))
        vals += args + [self.val(kw[n], lvl) for n in names]
        return vals, names

    def callval(self, t, lvl):
        e = t.meta
        if e is None:
            return self.one(K('unknown', (), 'call'))
        if self.is_fresh(t) and (t.id in self.muts or e.fn is not None and e.fn.op == 'builtin' and e.fn.args[0] == 'dict' and (
                e.kw or e.args and self.g.res(e.args[0]).op in ('list', 'gen', 'set'))):
            return self.container(t, lvl)
        if not self.pure(e):
            if e.name in ('__iadd__',):
                return self.val(e.base, lvl)
            if e.name == 'setdefault' and e.base is not None and e.target is None and len(e.args) == 2 and not self.is_fresh(e.base):
                return self.lift(lambda b, i: K('sub', [b, i]), [self.val(e.base, lvl), self.val(e.args[0], lvl)])
            return self.evvals(e, lvl)
        if e.name == 'join' and e.base is not None and e.target is None and len(e.args) == 1:
            x = self.g.res(e.args[0])
            if x.op == 'list' and x.id not in self.muts and not any(self.g.res(y).op == 'star' for y in x.args[1]):
                def glue(s, *ys):
                    out = []
                    for i, y in enumerate(ys):
                        if i:
                            out.append(s)
                        out.append(y)
                    if s in (KEMPTY, kconst(b'')) and len(out) > 1 and not any(stringy(y) for y in ys):
                        out = list(ys)
                        return K('plus', [z for y in out for z in (K.kids(y) if K.op(y) == 'plus' else [y])])
                    return mkcat(out)
                return self.lift(glue, [self.val(e.base, lvl)] + [self.val(y, lvl) for y in x.args[1]])
        vals, names = self.callargs(e, lvl)
        vers = [self.key(e.vers[i], lvl) for i in sorted(e.vers, key=str)]
        mem = self.memkeys(e, lvl)
        fn = self.callname(e)
        if e.target is not None:
            return self.lift(lambda *xs: K('pp', xs, fn, names, tuple(mem)), vals)
        if e.fn is not None:
            name = fn
            return self.lift(lambda *xs: self.pfun(name, xs, names, vers), vals)
        return self.lift(lambda *xs: self.pmeth(e, xs, names, vers, lvl), vals)

    def bytevals(self, k):
        """Values of the bytes of a concatenation of chr() and constants."""
        out = []
        for p in pieces(k) or [k]:
            c, v = cval(p)
            if c and isinstance(v, str) and all(ord(x) < 256 for x in v):
                out += [kconst(ord(x)) for x in v]
            elif K.op(p) == 'pf' and K.attrs(p)[0] == 'chr' and len(K.kids(p)) == 1:
                out.append(K.kids(p)[0])
            else:
                return None
        return out

    def memkeys(self, e, lvl):
        out = []
        for a, v in sorted(e.mem.items()):
            if a.startswith('#'):
                if not is_const(v, 0):
                    out.append(('#' + self.attrname(a[1:]), self.key(v, lvl)))
                continue
            k = self.key(v, lvl)
            b = e.base if e.base is not None else (e.fn.args[1] if e.fn is not None and e.fn.op == 'bound' else None)
            if b is not None and k == K('attr', [self.key(b, lvl)], self.attrname(a)):
                continue
            if K.op(k) == 'const' and self.g.klass(b) is not None and self.g.klass(b).find_attr(a) is not None and v.op == 'attr':
                continue
            out.append((self.attrname(a), k))
        return out

    def pfun(self, n, xs, names, vers):
        if n == 'divmod' and len(xs) == 2 and not names:
            return K('tuple', [self.mkbin('//', xs[0], xs[1]), self.mkbin('%', xs[0], xs[1])])
        if n == 'len' and len(xs) == 1:
            op, kids, at = K.tab[xs[0]]
            if op == 'const' and hasattr(at[1], '__len__'):
                return kconst(len(at[1]))
            if op == 'tuple':
                return kconst(len(kids))
            if op == 'list' and all(K.op(x) == 'entry' and K.attrs(x) == ('append', TR, 0) for x in kids):
                return kconst(len(kids))
            if op == 'pm' and at[0] in ('keys', 'items', 'values') and len(kids) == 1:
                return K('len', kids)
            return K('len', list(xs) + vers)
        if n in ('str', 'unicode') and len(xs) == 1:
            c, v = cval(xs[0])
            if c and isinstance(v, int) and not isinstance(v, bool):
                return kconst(str(v))
            if stringy(xs[0]):
                return xs[0]
            return K('str', xs)
        if n == 'ord' and len(xs) == 1:
            c, v = cval(xs[0])
            if c and isinstance(v, str) and len(v) == 1:
                return kconst(ord(v))
            return K('ord', xs)
        if n == 'chr' and len(xs) == 1:
            c, v = cval(xs[0])
            if c and isinstance(v, int) and 0 <= v < 256:
                return kconst(chr(v))
        if n == 'struct.unpack' and len(xs) == 2 and not vers:
            # unsigned integers from bytes spelled out one by one
            c, f = cval(xs[0])
            w = {'>B': 1, '!B': 1, 'B': 1, '>H': 2, '!H': 2, '>L': 4, '!L': 4, '>I': 4, '!I': 4}.get(f) if c else None
            ps = self.bytevals(xs[1]) if w else None
            if ps is not None and len(ps) == w:
                r = kconst(0)
                for i, p in enumerate(ps):
                    r = self.mkbin('|', r, self.mkbin('<<', p, kconst(8 * (w - 1 - i))) if i < w - 1 else p)
                return K('tuple', [r])
        if n in ('int', 'long') and len(xs) == 1:
            return K('int', xs)
        if n in ('min', 'max') and len(xs) > 1:
            return K(n, sorted(y for x in xs for y in (K.kids(x) if K.op(x) == n and len(K.kids(x)) > 1 else [x])))
        if n == 'abs':
            return K('abs', xs)
        if n == 'tuple' and len(xs) == 1 and K.op(xs[0]) == 'list' and all(
                K.op(x) == 'entry' and K.attrs(x) == ('append', TR, 0) for x in K.kids(xs[0])):
            return K('tuple', [K.kids(x)[0] for x in K.kids(xs[0])])
        if n in ('list', 'set', 'dict') and not xs:
            return K(n, [])
        if n == 'list' and len(xs) == 1 and K.op(xs[0]) == 'list':
            return xs[0]
        if n == 'list' and len(xs) == 1 and not vers:
            items = K.kids(xs[0]) if K.op(xs[0]) == 'tuple' else K.attrs(xs[0])[2] if K.op(xs[0]) == 'global' and len(K.attrs(xs[0])) > 2 else None
            if items is not None and not any(K.op(x) == 'star' for x in items):
                return K('list', [K('entry', [x], 'append', TR, 0) for x in items])
        if n in ('list', 'tuple') and len(xs) == 1:
            return K('seq', list(xs) + vers)
        if n == 'set' and len(xs) == 1 and K.op(xs[0]) in ('list', 'set') and all(
                K.op(x) == 'entry' and K.attrs(x)[0] in ('append', 'add') for x in K.kids(xs[0])):
            return K('set', self.arrange([K('entry', K.kids(x), 'add', *K.attrs(x)[1:]) for x in K.kids(xs[0])]))
        if n == 'sum' and len(xs) == 1 and K.op(xs[0]) == 'list' and all(
                K.op(x) == 'entry' and K.attrs(x)[0] == 'append' and K.attrs(x)[2] <= 1 for x in K.kids(xs[0])):
            r = kconst(0)
            for x in K.kids(xs[0]):
                nm, g, d = K.attrs(x)
                ks = K.kids(x)
                if d == 1:
                    r = ladd(r, K('fold+', [ks[1], ks[0]], g))
                elif g == TR:
                    r = ladd(r, ks[0])
                else:
                    r = ladd(r, K('ite', sorted([ks[0], kconst(0)]), *([g, G.not_(g)] if ks[0] < kconst(0) else [G.not_(g), g])))
            return r
        return K('pf', list(xs) + vers, n, names)

    def pmeth(self, e, xs, names, vers, lvl):
        n = e.name
        if n == 'join' and len(xs) == 2 and stringy(xs[0]):
            if K.op(xs[1]) == 'list' and all(K.op(x) == 'entry' and K.attrs(x)[0] == 'append' for x in K.kids(xs[1])):
                es = K.kids(xs[1])
                if xs[0] == KEMPTY or cval(xs[0])[1] == b'':
                    out = []
                    for x in es:
                        nm, g, d = K.attrs(x)
                        ks = K.kids(x)
                        for q in pieces(ks[0]):
                            out.append(q if g == TR and d == 0 else self.each(ks[1:], g, q))
                    if not out:
                        return KEMPTY
                    if all(K.op(q) != 'each' for q in out):
                        return mkcat(out)
                    return K('cat', out)
                if all(K.attrs(x)[1:] == (TR, 0) for x in es):
                    out = []
                    for i, x in enumerate(es):
                        if i:
                            out.append(xs[0])
                        out.append(K.kids(x)[0])
                    return mkcat(out)
            if K.op(xs[1]) == 'tuple':
                out = []
                for i, x in enumerate(K.kids(xs[1])):
                    if i:
                        out.append(xs[0])
                    out.append(x)
                return mkcat(out)
        if n in ('intersection', 'union', 'difference', 'symmetric_difference') and len(xs) == 2:
            o = {'intersection': '&', 'union': '|', 'difference': '-', 'symmetric_difference': '^'}[n]
            y = xs[1] if self.setlike(xs[1]) else self.pfun('set', [xs[1]], (), [])
            return self.mkbin(o, xs[0], y) if o != '-' else K('arith', [xs[0], y], '-')
        if n == 'has_key' and len(xs) == 2:
            g = self.compare('in', xs[1], xs[0], vers)
            return self.collapse(self.boolval(g))
        if n in ('keys', 'iterkeys') and len(xs) == 1:
            n = 'keys'
        if n in ('items', 'iteritems'):
            n = 'items'
        if n in ('values', 'itervalues'):
            n = 'values'
        if n == 'get' and len(xs) in (2, 3):
            d = xs[2] if len(xs) == 3 else KNONE
            g = self.compare('in', xs[1], xs[0], vers)
            return self.collapse(self.tidy([(g, K('sub', [xs[0], xs[1]] + vers)), (G.not_(g), d)]))
        if n == 'format' and stringy(xs[0]):
            c, s = cval(xs[0])
            if c and not names:
                import re
                out, pos, i, ok = [], 0, 0, True
                for m in re.finditer(r'\{(\d*)\}', s):
                    out.append(kconst(s[pos:m.start()]))
                    j = int(m.group(1)) if m.group(1) else i
                    i += 1
                    if j + 1 < len(xs):
                        out.append(self.strof(xs[j + 1]))
                    else:
                        ok = False
                    pos = m.end()
                out.append(kconst(s[pos:]))
                if ok and '{' not in re.sub(r'\{\d*\}', '', s):
                    r = mkcat(out)
                    return r if K.op(r) in ('cat', 'const') else K('str', [r])
        c, s = cval(xs[0])
        if c and isinstance(s, str) and len(xs) == 1 and n in ('lower', 'upper', 'strip'):
            return kconst(getattr(s, n)())
        return K('pm', list(xs) + vers, n, names)

    # -- events
    def descs(self, e, lvl):
        """Guarded descriptions of what an event does."""
        if e.kind == 'call':
            vals, names = self.callargs(e, lvl)
            fn = self.callname(e)
            mem = self.memkeys(e, lvl)
            vers = [self.key(e.vers[i], lvl) for i in sorted(e.vers, key=str)]
            if e.name == 'setdefault' and e.base is not None and e.target is None and len(e.args) == 2:
                b, i = self.key(e.base, lvl), self.key(e.args[0], lvl)
                g = G.not_(self.compare('in', i, b, vers))
                return [(G.and_(g, g2), k) for g2, k in self.lift(lambda b, i, v: K('setsub', [b, i, v]), vals)]
            if e.name == 'extend' and e.base is not None and e.target is None and len(e.args) == 1:
                pass
            return self.lift(lambda *xs: K('call', list(xs) + [k for _, k in mem] + vers, fn, names,
                                           tuple(n for n, _ in mem), len(vers)), vals)
        if e.kind == 'setsub':
            return self.lift(lambda *xs: K('setsub', xs), [self.val(x, lvl) for x in (e.base, e.idx, e.value)])
        if e.kind == 'delsub':
            return self.lift(lambda *xs: K('delsub', xs), [self.val(x, lvl) for x in (e.base, e.idx)])
        if e.kind == 'setattr':
            return self.lift(lambda *xs: K('setattr', xs, self.attrname(e.name)), [self.val(x, lvl) for x in (e.base, e.value)])
        if e.kind == 'delattr':
            return self.lift(lambda *xs: K('delattr', xs, self.attrname(e.name)), [self.val(e.base, lvl)])
        if e.kind == 'setglobal':
            return self.lift(lambda *xs: K('setglobal', xs, e.name), [self.val(e.value, lvl)])
        if e.kind == 'ret':
            return self.lift(lambda x: K('ret', [x]), [self.val(e.value, lvl)])
        if e.kind == 'raise':
            return self.one(K('raise', (), self.excname(e.value)))
        if e.kind == 'getsub':
            return self.lift(lambda *xs: K('getsub', xs), [self.val(x, lvl) for x in (e.base, e.idx)])
        if e.kind == 'new':
            return self.val(e.term, lvl)
        return self.one(K(e.kind))

    def excname(self, v):
        v = self.g.res(v)
        if v.op == 'call' and v.meta is not None:
            return self.callname(v.meta).split(':')[-1]
        if v.op == 'new':
            return v.args[1].name
        if v.op in ('builtin', 'ext', 'cls'):
            return str(getattr(v.args[0], 'name', v.args[0]))
        if v.op in ('reraise', 'exc'):
            return 'reraise'
        return '?'

    def evvals(self, e, lvl):
        """What an event produced: its description, one per case of its
        operands, and how many equal events precede it."""
        k = ('ek', id(e), lvl)
        if k in self.mk:
            r = self.mk[k]
            return r if r is not None else self.one(K('res0'))
        self.mk[k] = None
        ds = self.descs(e, lvl)
        if len(ds) > 1:
            ds = self.tidy(ds)
        r = self.mk[k] = [(g, K('res', [d], self.ordinal(e, d, lvl))) for g, d in ds]
        return r

    def newsig(self, t):
        """What is done with one of several new objects of a class."""
        if self._sigs is None:
            self._sigs = {}
            us = self.used()
            news = {}
            for e in self.evs:
                if e.kind == 'new' and e.term.id in us:
                    news.setdefault(e.term.args[1].where, []).append(e)
            for w, es in news.items():
                ids = set(e.term.id for e in es)
                if len(ids) < 2 or not any(a is not b and self.before(a, b) for a in es for b in es):
                    continue
                sig = {i: set() for i in ids}
                for e in self.evs:
                    if e.kind == 'call' and self.pure(e):
                        continue
                    if e.kind == 'call':
                        for j in self.origins(e.base, sig):
                            sig[j].add('.' + self.callname(e).split(':')[-1])
                        for i, x in enumerate(e.args):
                            n = self.callname(e).split(':')[-1]
                            if n not in ('.append', '.add', '.insert'):
                                for j in self.origins(x, sig):
                                    sig[j].add('%s/%d' % (n, i))
                    if e.kind == 'setattr':
                        for j in self.origins(e.value, sig):
                            sig[j].add('=' + self.attrname(e.name))
                    if e.kind == 'ret':
                        for j in self.origins(e.value, sig):
                            sig[j].add('ret')
                for i, x in sig.items():
                    self._sigs[i] = ' '.join(sorted(x))
        return self._sigs.get(t.id, '')

    def origins(self, t, among):
        """Ids of those terms a term may be."""
        out, seen, todo = [], set(), [t]
        while todo:
            t = todo.pop()
            if not isinstance(t, T):
                continue
            t = self.g.res(t)
            if t.id in seen:
                continue
            seen.add(t.id)
            if t.id in among:
                out.append(t.id)
            elif t.op == 'phi' and not isinstance(t.args, T):
                todo += t.args
        return out

    def ordinal(self, e, d, lvl):
        best = 0
        if e.kind == 'new':
            return 0
        pos = self.evpos.get(id(e))
        if pos is None:
            return 0
        nm = e.name
        for f in self.evs[:pos]:
            if f.kind != e.kind or f.name != nm or len(f.args) != len(e.args) or f is e:
                continue
            if f.kind == 'call' and self.pure(f):
                continue
            if not self.before(f, e):
                continue
            k = ('ek', id(f), lvl)
            if k in self.mk and self.mk[k] is None:
                continue
            for _, r in self.evvals(f, lvl):
                if K.op(r) == 'res' and K.kids(r)[0] == d:
                    best = max(best, K.attrs(r)[0] + 1)
        return best

    def used(self):
        """Ids of the terms some effect looks at."""
        if self._used is None:
            seen = set()
            todo = []
            for e in self.evs:
                if e.kind == 'new':
                    todo += list(e.args) + list(e.kw.values())
                    continue
                todo += [x for x in [e.base, e.value, e.idx, e.fn] + list(e.args) + list(e.kw.values()) + list(e.mem.values()) + list(e.vers.values()) if isinstance(x, T)]
            for b in self.g.blocks:
                if b.cond is not None and isinstance(b.cond[1], T):
                    todo.append(b.cond[1])
            while todo:
                t = todo.pop()
                if not isinstance(t, T) or t.id in seen:
                    continue
                seen.add(t.id)
                for x in (t.args if not isinstance(t.args, T) else (t.args,)):
                    todo += list(x) if isinstance(x, (tuple, list)) else [x]
            self._used = seen
        return self._used

    def before(self, a, b):
        """a may run before b within a round."""
        if a.block is b.block:
            return self.evpos[id(a)] < self.evpos[id(b)]
        if a.block.id not in self.fwd or b.block.id not in self.rpo:
            return False
        return bool(self.fwd[a.block.id] >> self.rpo[b.block.id] & 1)

    def opened(self, t):
        t = self.g.res(t)
        return t.op == 'call' and t.meta is not None and t.meta.fn is not None and t.meta.fn.op == 'builtin' and t.meta.fn.args[0] == 'open'

    def disturbed(self, base, name, lvl):
        """Guard of some call having changed this attribute: putting the old
        value back is then a change."""
        r = F
        for bid, a, b in self.g.havocs:
            if (bid, a) == (base.id, name) and b.id in self.live:
                r = G.or_(r, self.entry(b.loops[0], lvl) if b.loops else self.reach(b, lvl))
        return r

    def meanwhile(self, base, name, b, g, lvl):
        """An attribute that ends as it began but is something else while a
        function runs that looks at attributes of that name."""
        sets = [e for e in self.evs if e.kind == 'setattr' and e.base.id == base.id and e.name == name]
        if len(sets) < 2:
            return []
        out = []
        for c in self.evs:
            if c.kind != 'call' or c.target is None or self.pure(c) or name not in reads(self.g.func.mod.prj, c.target):
                continue
            last = [s for s in sets if self.before(s, c)]
            if not last or not any(self.before(c, s) for s in sets):
                continue
            s = last[-1]
            gg = G.and_(g, G.and_(self.total(s.block, lvl), self.total(c.block, lvl)))
            for g2, k in self.lift(lambda v, d: K('meanwhile', [b, v, d], self.attrname(name)), [self.val(s.value, lvl), self.descs(c, lvl)]):
                g2 = G.norm(G.and_(gg, g2))
                if g2 != F:
                    out.append((k, (), g2, c))
        return out

    # -- summary
    def given(self, g, c):
        """g, where c is known to hold."""
        if g <= 1 or c <= 1:
            return g
        for v in sorted(G.support(c) & G.support(g)):
            if G.atoms[v][0] != 'ex':
                for val in (True, False):
                    x = G.restrict(g, v, val)
                    if x != g and G.same(g, x, c):
                        g = x
                        break
        return G.norm(G.simplify(g, c))

    def effects(self):
        lvl = self.level
        raw = []
        loops_used = set()
        finals = set((f[0].id, f[1]) for f in self.g.final)
        for e in self.evs:
            if e.kind in ('enter', 'leave', 'loop', 'handler', 'getsub', 'new'):
                continue
            if e.kind == 'call' and self.pure(e):
                continue
            if e.kind in ('call', 'setsub', 'delsub') and e.base is not None and self.is_fresh(e.base) and (
                    e.kind != 'call' or e.name in MUTATORS):
                loops_used.update(L.id for L in e.block.loops)
                continue
            if e.kind == 'raise' and e.synth:
                continue                  # an exception nobody here handles
            if e.kind == 'call' and e.name == 'close' and e.base is not None and not e.args and self.opened(e.base):
                continue
            if e.kind == 'setattr' and (e.base.id, e.name) in finals:
                loops_used.update(L.id for L in e.block.loops)
                continue
            if e.kind in ('ret', 'raise'):
                g = self.lifted(e.block, lvl)
                path = ()
            else:
                g = self.total(e.block, lvl)
                path = self.path(e.block, lvl)
                loops_used.update(L.id for L in e.block.loops)
            if g == F:
                continue
            for g2, k in self.descs(e, lvl):
                gg = G.norm(G.and_(g, g2))
                for L in e.block.loops:
                    gg = self.given(gg, self.needs(L, lvl))
                if gg != F:
                    raw.append((k, path, gg, e))
        care = self.reach(self.g.exit, lvl) if self.g.exit.id in self.live else TR
        for base, name, v, e in self.g.final:
            b = self.key(base, lvl)
            init = K('attr', [b], self.attrname(name))
            vs = self.val(v, lvl)
            if care not in (TR, F) and len(vs) > 1:
                vs = [(G.constrain(g, care), k) for g, k in vs]
            for g, k in vs:
                if k == init:
                    raw += self.meanwhile(base, name, b, g, lvl)
                    g = G.and_(g, self.disturbed(base, name, lvl))
                g = G.norm(g)
                if g != F:
                    raw.append((K('setattr', [b, k], self.attrname(name)), (), g, e))
        for lid in loops_used:
            L = self.byid[lid]
            ex = self.exits.get(lid, {})
            c = F
            for t, ps in ex.items():
                if L.kind == 'for' and t == L.exit_e.id:
                    continue
                if self.hdr_term(L) is not None and t == L.exit_e.id:
                    continue
                c = G.or_(c, self.local_exit(L, ps, self.byid[t], lvl))
            if c != F:
                lk = self.loopkey(L, lvl)
                g = G.norm(c)
                ev = next((x for x in self.evs if x.kind == 'loop' and x.site is L), None)
                raw.append((K('leave', [lk]), self.path(L, lvl)[:-1], g, ev))
        # merge
        groups = {}
        for k, path, g, e in raw:
            groups.setdefault((k, path), []).append((g, e))
        out = []
        for (k, path), ges in groups.items():
            # threshold functions: "done at least j times"
            th = [TR]
            for g, e in ges[:6]:
                new = [TR]
                for j in range(1, len(th) + 1):
                    a = th[j] if j < len(th) else F
                    new.append(G.or_(a, G.and_(g, th[j - 1])))
                th = new
            for j, t in enumerate(th[1:]):
                t = G.norm(t)
                for x, ids in self.exs.items():
                    if t > 1 and G.node[x][0] in G.support(t):
                        t = self.given(t, G.or_(G.not_(x), G.any([self.needs(self.byid[i], lvl) for i in sorted(ids)])))
                if t != F:
                    out.append(Eff(k if j == 0 else K('again', [k], j), path, t, [e for g, e in ges]))
        return out


_READS = {}


def reads(prj, f):
    """Attribute names that f, or what it may call, mentions."""
    if f not in _READS:
        seen, todo, out = set(), [f], set()
        byname = {}
        for m in prj.mods.values():
            for h in m.all_funcs():
                byname.setdefault(h.name, []).append(h)
        while todo:
            h = todo.pop()
            if h in seen:
                continue
            seen.add(h)
            for n in ast.walk(h.node):
                if isinstance(n, ast.Attribute):
                    out.add(n.attr)
                    todo += [x for x in byname.get(n.attr, ()) if x.mod is f.mod]
                elif isinstance(n, ast.Name):
                    todo += [x for x in byname.get(n.id, ()) if x.mod is f.mod]
        _READS[f] = out
    return _READS[f]


def hidden(c):
    """What the summary mentions without ever looking inside."""
    out = set()
    while True:
        todo = [t for i, t in c.cut.items() if i not in c.seen]
        if not todo:
            return out
        for t in todo:
            c.seen[t.id] = t
            out.add(c.key(t, 1))


def shown(c):
    return set(c.key(t, 1) for t in list(c.seen.values()))


def fold(n, mod, depth=0):
    """Constant value of a module-level expression, as a key."""
    if depth > 5:
        return None
    if isinstance(n, ast.Constant):
        return kconst(n.value)
    if isinstance(n, ast.Tuple):
        xs = [fold(x, mod, depth + 1) for x in n.elts]
        return K('tuple', xs) if all(x is not None for x in xs) else None
    if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
        x = fold(n.operand, mod, depth + 1)
        if x is not None and cval(x)[0] and isinstance(cval(x)[1], (int, float)):
            return kconst(-cval(x)[1])
        return None
    if isinstance(n, ast.BinOp):
        a, b = fold(n.left, mod, depth + 1), fold(n.right, mod, depth + 1)
        if a is None or b is None or not cval(a)[0] or not cval(b)[0]:
            return None
        a, b = cval(a)[1], cval(b)[1]
        try:
            f = {ast.Add: lambda: a + b, ast.Sub: lambda: a - b, ast.Mult: lambda: a * b,
                 ast.LShift: lambda: a << b if b < 256 else None, ast.BitOr: lambda: a | b,
                 ast.Pow: lambda: a ** b if 0 <= b < 128 else None}.get(type(n.op))
            v = f() if f else None
            return kconst(v) if isinstance(v, (int, str, bytes, float)) else None
        except Exception:
            return None
    if isinstance(n, ast.Name):
        d = mod.defs.get(n.id)
        if isinstance(d, tuple) and len(d[1]) == 1:
            return fold(d[1][0], mod, depth + 1)
    return None
