"""Compare functions of the current tree with the reviewed reference."""
import ast

import canon
import extent
import ir
import shape
from canon import Canon, G, K, gshow, kshow
from guards import F, TR
from load import AnalysisBroken
from project import Cls, Func


def index(prj):
    """where -> Func for every function, plus pseudo functions for the
    statements of module and class bodies."""
    out = {}
    for rel, m in prj.mods.items():
        for f in m.all_funcs():
            out.setdefault(f.where, f)
        for f in bodies(m):
            out[f.where] = f
    return out


def bodies(m):
    out = []

    def stmts(body):
        r = []
        for st in body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom)):
                continue
            if isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant):
                continue
            if isinstance(st, ast.If) and 'name' in ast.dump(st.test) and '__main__' in ast.dump(st.test):
                continue
            r.append(st)
        return r

    def make(body, qual, names):
        st = stmts(body)
        if not st:
            return
        st = [ast.Global(names=sorted(names))] + st if names else st
        fn = ast.FunctionDef(name='<body>', args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[],
                                                                vararg=None, kwarg=None), body=st, decorator_list=[])
        fn.lineno = getattr(st[-1], 'lineno', 1)
        fn.col_offset = 0
        f = Func(m, fn, qual + '<body>', None, None)
        out.append(f)

    def names(st):
        r = set()
        for n in ast.walk(st):
            if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)):
                continue
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                r.add(n.id)
        return r

    def targets(body):
        """Names bound by plain assignments (loop variables stay local)."""
        r, loopvars = set(), set()
        for st in stmts(body):
            for n in ast.walk(st):
                if isinstance(n, (ast.Assign, ast.AugAssign, ast.AnnAssign)):
                    for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                        for x in ast.walk(t):
                            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                                r.add(x.id)
        return r

    def walk(body, qual):
        make(body, qual, targets(body))
        for st in body:
            if isinstance(st, ast.ClassDef):
                walk(st.body, qual + st.name + '.')
    walk(m.tree.body, '')
    return out


def strip_doc(node):
    body = node.body
    if isinstance(body, list) and body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant):
        return body[1:]
    return body


def dump(f):
    b = strip_doc(f.node)
    if isinstance(b, list):
        return ast.dump(f.node.args) + '|' + '|'.join(ast.dump(x) for x in b) + '|' + '|'.join(
            ast.dump(d) for d in f.node.decorator_list)
    return ast.dump(f.node)


def names_in(f):
    out = set()
    for n in ast.walk(f.node):
        if isinstance(n, ast.Name):
            out.add(n.id)
        elif isinstance(n, ast.Attribute):
            out.add(n.attr)
    return out


def self_attrs(prj):
    """class -> attribute names stored through the receiver."""
    out = {}
    for m in prj.mods.values():
        for f in m.all_funcs():
            if f.cls is None or not f.params():
                continue
            me = f.params()[0]
            for n in ast.walk(f.node):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == me:
                    out.setdefault(f.cls.where, []).append(n.attr)
    return out


def num_attrs(prj):
    good, bad = set(), set()
    for m in prj.mods.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Attribute):
                        v = n.value
                        if isinstance(v, ast.Constant) and isinstance(v.value, (int, float)) and not isinstance(v.value, bool):
                            good.add(t.attr)
                        elif isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in ('len', 'int'):
                            good.add(t.attr)
                        elif isinstance(v, (ast.List, ast.Dict, ast.ListComp, ast.JoinedStr, ast.Tuple)) or (
                                isinstance(v, ast.Constant) and not isinstance(v.value, (int, float)) and v.value is not None):
                            bad.add(t.attr)
    return good - bad


# modules whose functions are promises of their own, whoever calls them
CONTRACT = {'bit_bucket.py', 'common_utils.py', 'huffman.py', 'Huffman.py', 'lrustorage.py'}
ENTRY = {'compress', 'decompress', 'streamify', 'done', 'main', 'process_session', 'run'}


def is_print(k):
    op, kids, attrs = K.tab[k]
    return op == 'call' and kshow(k, 1).startswith('print(')


class Diff:
    def __init__(self, where, kind, text, line=None, key=None, conf=True):
        self.where, self.kind, self.text, self.line, self.key, self.conf = where, kind, text, line, key, conf
        self.why = None

    @property
    def trace(self):
        """Only a message for developers."""
        return self.key is not None and is_print(self.key)


class Pair:
    def __init__(self, ref, cur):
        self.ref, self.cur = ref, cur = shape.agreed(ref, cur)
        self.ri, self.ci = index(ref), index(cur)
        canon.NUM_ATTRS.clear()
        canon.NUM_ATTRS.update(num_attrs(ref) & num_attrs(cur) | (num_attrs(ref) - self._stored(cur)) | (num_attrs(cur) - self._stored(ref)))
        canon.POSITIONS.clear()
        canon.POSITIONS.update((d, ref.facts[d].position & cur.facts[d].position) for d in set(ref.facts) & set(cur.facts))
        ir.SIZES.clear()
        for rel, m in ref.mods.items():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.For):
                    ir.SIZES.setdefault((rel, ast.dump(n.iter)), []).append(ir.body_size(n))
        self.common = set()
        self.changed = set()
        self.moved = self._moved()
        for w, f in self.ri.items():
            g = self.ci.get(w)
            if g is not None and len(f.params()) == len(g.params()) and f.static == g.static and f.classm == g.classm and (
                    f.params() == g.params() or w in self.moved):
                self.common.add(w)
                self.common.add(g.where)
        bare = lambda w: w.split(':')[1].split('.')[-1]
        self.touchy = set(bare(w) for w in self.ri if w not in self.common) | set(bare(w) for w in self.ci if w not in self.common)
        self.renames = self._renames()
        for w, n in self.moved.items():
            self.renames[bare(n)] = bare(w)
        self.touchy |= set(self.renames)
        # names whose module-level meaning changed
        for rel, m in ref.mods.items():
            n = cur.mods.get(rel)
            if n is None:
                continue
            for k in set(m.defs) | set(n.defs) | set(m.imports) | set(n.imports):
                a, b = m.defs.get(k), n.defs.get(k)
                if isinstance(a, tuple) and isinstance(b, tuple):
                    if [ast.dump(x) for x in a[1]] != [ast.dump(x) for x in b[1]]:
                        self.touchy.add(k)
                elif type(a) is not type(b) or m.imports.get(k) != n.imports.get(k):
                    self.touchy.add(k)
        self.graphs = {}
        self.results = {}
        self.extent = extent.Extent(self)
        self.verdicts, self.ment, self.nm, self.counts = {}, {}, {}, {}

    def _moved(self):
        """Functions given another name: old where -> new where."""
        import difflib
        out = {}
        gone, new = {}, {}
        rnames = set(f.name for f in self.ri.values())
        cnames = set(f.name for f in self.ci.values())
        for w, f in self.ri.items():
            if w not in self.ci and f.mod.rel in self.cur.mods and '<' not in f.qual and f.name not in ENTRY and f.name not in cnames:
                gone.setdefault(w.rpartition('.')[0] if '.' in w.split(':')[1] else f.mod.rel, []).append(f)
        for w, f in self.ci.items():
            if w not in self.ri and '<' not in f.qual and f.name not in rnames:
                new.setdefault(w.rpartition('.')[0] if '.' in w.split(':')[1] else f.mod.rel, []).append(f)
        for s, fs in gone.items():
            for f in fs:
                best = None
                for g in new.get(s, ()):
                    if g.where in out.values() or len(f.params()) != len(g.params()):
                        continue
                    a, b = dump(f).replace(repr(f.name), "'?'"), dump(g).replace(repr(g.name), "'?'")
                    r = 1.0 if a == b else difflib.SequenceMatcher(None, a, b).ratio()
                    if r > 0.7 and (best is None or r > best[0]):
                        best = (r, g)
                if best is not None:
                    out[f.where] = best[1].where
                    self.ci[f.where] = best[1]
        return out

    def _stored(self, prj):
        if not hasattr(self, '_st'):
            self._st = {}
        if id(prj) not in self._st:
            s = set()
            for m in prj.mods.values():
                for n in ast.walk(m.tree):
                    if isinstance(n, ast.Attribute):
                        s.add(n.attr)
            self._st[id(prj)] = s
        return self._st[id(prj)]

    def _renames(self):
        """Attributes of one class that were given another name."""
        out = {}
        ra, ca = self_attrs(self.ref), self_attrs(self.cur)
        allr, allc = self._stored(self.ref), self._stored(self.cur)
        for c, xs in ra.items():
            ys = ca.get(c)
            if ys is None:
                continue
            gone = list(dict.fromkeys(x for x in xs if x not in allc))
            new = list(dict.fromkeys(y for y in ys if y not in allr))
            if gone and len(gone) == len(new):
                for x, y in zip(gone, new):
                    out[y] = x
        return out

    def graph(self, side, f, opaque, params=None):
        k = (side, f.where, opaque)
        if k not in self.graphs:
            names = {'common': self.common, 'none': frozenset()}.get(opaque)
            if names is None:
                names = frozenset(w for w in self.common if w.split(':')[0] != f.mod.rel)
            self.graphs[k] = ir.Graph(f, opaque=names, params=params)
        return self.graphs[k]

    def summary(self, side, f, opaque, params=None, extra_inline=None):
        names = self.common
        if opaque == 'none':
            names = frozenset()
        elif opaque == 'module':
            names = frozenset(w for w in self.common if w.split(':')[0] != f.mod.rel)
        elif extra_inline:
            names = frozenset(self.common - extra_inline)
        g = ir.Graph(f, opaque=names, params=params)
        c = Canon(g, self.renames if side == 'cur' else None)
        return c, c.effects()

    def functions(self, rels):
        return [w for w in self.ri if w.split(':')[0] in rels]

    # -- comparison
    def compare(self, where):
        """[] when equal, else list of Diff."""
        if where in self.results:
            return self.results[where]
        r = self.results[where] = self._compare(where)
        return r

    def params(self, f, g):
        """Substitution making the reference and current parameters agree."""
        a, b = f.params(), g.params()
        if a == b:
            return None, None
        pr, pc = {}, {}
        if len(a) == len(b):
            for x, y in zip(a, b):
                pc[y] = ir.mk('param', x)
            return None, pc
        if len(b) > len(a) and b[:len(a)] == a:
            d = g.node.args.defaults
            for i, y in enumerate(b[len(a):]):
                j = len(d) - (len(b) - len(a)) + i
                if j < 0 or not isinstance(d[j], ast.Constant):
                    return None, None
                pc[y] = ir.const(d[j].value)
            return None, pc
        return None, None

    def count(self, where):
        """Effects of the current function."""
        if where not in self.counts:
            f = self.locate(where)
            try:
                self.counts[where] = len(self.summary('cur', f, 'common')[1]) if f is not None else 0
            except RecursionError:
                self.counts[where] = 0
        return self.counts[where]

    def untouched(self, where):
        f, g = self.ri[where], self.ci.get(where)
        return g is not None and where not in self.moved and dump(f) == dump(g) and not (names_in(f) & self.touchy)

    def _compare(self, where):
        f = self.ri[where]
        g = self.locate(where)
        if g is None:
            return None
        if self.untouched(where):
            return []
        best = None
        for mode in ('common', 'module', 'none'):
            try:
                d = self.diff(where, f, g, mode)
            except RecursionError:
                d = [Diff(where, 'unknown', 'recursion', conf=False)]
            if not d:
                return []
            if best is None:
                best = d
                if any(x.key is not None and K.op(x.key) == 'meanwhile' for x in d):
                    break                 # looking into the callee would lose sight of it
        return best

    def locate(self, where):
        """The current function standing for a reference one."""
        g = self.ci.get(where)
        if g is not None:
            return g
        rel, qual = where.split(':', 1)
        m = self.cur.mods.get(rel)
        if m is None or '<' in qual:
            return None
        parts = qual.split('.')
        d = m.lookup(parts[0])
        for p in parts[1:]:
            d = (d.inner.get(p) or d.find(p)) if isinstance(d, Cls) else None
        return d if isinstance(d, Func) else None

    # -- verdict
    def verdict(self, where):
        """Differences that count against the current tree."""
        if where not in self.verdicts:
            d = self.compare(where)
            if d is None:
                d = [Diff(where, 'vanished', 'no function stands for %s any more' % where)]
            if d and self.excused(where, frozenset([where])):
                d = []
            if d:
                why = self.extent.undecided(where)
                if why is None and d[0].kind == 'vanished' and self.users('ref', where):
                    why = 'its users are compared without it'
                if why is not None:
                    for x in d:
                        x.conf, x.why = False, why
            self.verdicts[where] = d
        return self.verdicts[where]

    def users(self, side, where):
        return self.mentions(side, (self.ri if side == 'ref' else self.ci)[where])

    def unit(self, rel):
        d = rel.rsplit('/', 1)[0] if '/' in rel else ''
        if d in ('', 'lib', 'compressor', 'lib/streamifiers'):
            return None
        return d + '/'

    def mentions(self, side, f):
        """Functions of one side whose text names f."""
        k = (side, f.where)
        if k not in self.ment:
            u = self.unit(f.mod.rel)
            idx = self.ri if side == 'ref' else self.ci
            self.ment[k] = [w for w, c in idx.items() if c.node is not f.node and (u is None or w.startswith(u)) and f.name in self.names(c)]
        return self.ment[k]

    def names(self, f):
        if f not in self.nm:
            self.nm[f] = names_in(f)
        return self.nm[f]

    def excused(self, where, extra, depth=0):
        """A helper whose own contract changed while every function that uses
        it, taken together with it, still does what it did."""
        if depth > 3:
            return False
        f, g = self.ri.get(where), self.locate(where)
        if f is not None and f.mod.rel.rsplit('/', 1)[-1] in CONTRACT and not f.name.startswith('_'):
            return False
        if f is None or '<' in f.qual or f.name in ENTRY or f.name.startswith('__'):
            return False
        users = {}
        for side, h in (('ref', f), ('cur', g)):
            if h is None:
                continue
            for w in self.mentions(side, h):
                users.setdefault(w, set()).add(side)
        if not any('ref' in s for s in users.values()):
            return False
        for w, sides in users.items():
            if w in extra:
                continue
            for side in sides:
                c = (self.ri if side == 'ref' else self.ci)[w]
                h = f if side == 'ref' else g
                if not self.inlines(side, c, h, extra):
                    return False
            a, b = self.ri.get(w), self.ci.get(w)
            if a is None or b is None:
                # a new or removed helper is looked through from its own users
                n = a or b
                if not self.new_excused(n, 'ref' if a else 'cur', extra, depth):
                    return False
                continue
            try:
                d = self.diff(w, a, b, 'common', extra)
                if d:
                    d = self.diff(w, a, b, 'none')
            except RecursionError:
                return False
            if d and not self.excused(w, extra | {w}, depth + 1):
                return False
        return True

    def new_excused(self, n, side, extra, depth):
        if depth > 3 or n.name in ENTRY:
            return False
        idx = self.ri if side == 'ref' else self.ci
        for w in self.mentions(side, n):
            if not self.inlines(side, idx[w], n, extra):
                return False
            a, b = self.ri.get(w), self.ci.get(w)
            if a is None or b is None:
                if not self.new_excused(a or b, side, extra, depth + 1):
                    return False
                continue
            d = self.diff(w, a, b, 'common', extra)
            if d and not self.excused(w, extra | {w}, depth + 1):
                return False
        return True

    def inlines(self, side, c, h, extra):
        """Is every mention of h in c a call that is looked through?"""
        g = ir.Graph(c, opaque=frozenset(self.common - extra - {h.where}))
        seen = set()
        for ev in g.events:
            if ev.kind == 'enter' or ev.kind == 'call' and ev.target is not None and ev.target.node is not h.node:
                seen.add(id(ev.node))
        calls = {}
        for n in ast.walk(c.node):
            if isinstance(n, ast.Call):
                calls[id(n.func)] = n
        for n in ast.walk(c.node):
            if isinstance(n, ast.Name) and n.id == h.name or isinstance(n, ast.Attribute) and n.attr == h.name:
                k = calls.get(id(n))
                if k is None or id(k) not in seen:
                    return False
        return True

    def diff(self, where, f, g, mode, extra=None):
        pr, pc = self.params(f, g)
        rc, re = self.summary('ref', f, mode, pr, extra)
        cc, ce = self.summary('cur', g, mode, pc, extra)
        return compare_effects(where, f, g, rc, re, cc, ce)


def scope(f):
    """Names of the module or class whose statements f stands for."""
    d = f.mod
    for p in f.qual.split('.')[:-1] if f.qual.endswith('.<body>') else ():
        d = d.defs.get(p) if d is f.mod else d.inner.get(p)
        if not isinstance(d, Cls):
            return f.mod.defs
    return d.defs if d is f.mod else d.attrs


def compare_effects(where, f, g, rc, re, cc, ce):
    out = []
    rd, cd = {}, {}
    for e in re:
        rd.setdefault((e.key, e.path), []).append(e)
    for e in ce:
        cd.setdefault((e.key, e.path), []).append(e)
    for k in list(rd):
        for a in list(rd[k]):
            for b in list(cd.get(k, ())):
                if G.same(a.guard, b.guard):
                    rd[k].remove(a)
                    cd[k].remove(b)
                    break
    gone = []
    R = [e for v in rd.values() for e in v]
    C = [e for v in cd.values() for e in v]
    # a name of its own for a value is nothing by itself: its users show it
    R = [e for e in R if not (K.op(e.key) == 'setglobal' and K.attrs(e.key)[0] not in scope(g))]
    C = [e for e in C if not (K.op(e.key) == 'setglobal' and K.attrs(e.key)[0] not in scope(f))]
    for e in R:
        for x in C:
            if x.key == e.key and x.path == e.path:
                out.append(Diff(where, 'guard', '%s happens when %s; the reference has %s' % (
                    kshow(e.key), gshow(x.guard), gshow(e.guard)), line(x), x.key))
                C.remove(x)
                break
        else:
            gone.append((None, e))
            out.append(Diff(where, 'missing', '%s%s when %s is gone' % (kshow(e.key, 6), inpath(e), gshow(e.guard)), None, e.key))
            gone[-1] = (out[-1], e)
    rest = list(C)
    for d, e in gone:
        for x in rest:
            if K.tab[x.key][0] == K.tab[e.key][0]:
                t = kdiff(e.key, x.key)
                if t is not None:
                    d.text += ' [differs in: %s]' % t
                    break
    for e in C:
        out.append(Diff(where, 'extra', '%s%s when %s is new' % (kshow(e.key, 6), inpath(e), gshow(e.guard)), line(e), e.key))
    if not out:
        out = order_diff(where, rc, cc)
    if not out:
        hr, hc = canon.hidden(rc), canon.hidden(cc)
        if hr - hc:
            for k in hr - hc - canon.shown(cc):
                out.append(Diff(where, 'missing', 'intermediate value %s is gone' % kshow(k, 6), None, k))
        if hc - hr:
            for k in hc - hr - canon.shown(rc):
                out.append(Diff(where, 'extra', 'intermediate value %s is new' % kshow(k, 6), None, k))
    return out


def kdiff(a, b, depth=0):
    """First place where two keys differ."""
    if a == b:
        return None
    oa, ka, aa = K.tab[a]
    ob, kb, ab = K.tab[b]
    if oa != ob or len(ka) != len(kb):
        return '%s -> %s' % (kshow(a, 4), kshow(b, 4))
    for x, y in zip(ka, kb):
        if x != y:
            return kdiff(x, y, depth + 1)
    for x, y in zip(aa, ab):
        if x != y:
            if oa in ('each', 'mu', 'entry', 'fold+', 'ite') and isinstance(x, int) and isinstance(y, int):
                return '%s when %s -> when %s' % (kshow(a, 3), gshow(x), gshow(y))
            return '%s: %s -> %s' % (kshow(a, 3), x, y)
    return '%s -> %s' % (kshow(a, 4), kshow(b, 4))


def inpath(e):
    return ''.join(' for %s' % kshow(x, 3) for x in e.path)


def line(e):
    for ev in e.evs:
        if ev is not None:
            return '%s:%s' % (ev.func.mod.rel, getattr(ev.node, 'lineno', 0))
    return None


# ------------------------------------------------------------------- order
def order_facts(c):
    """{(desc1, desc2): relations} for events that act on the same thing."""
    evs = []
    lvl = c.level
    for e in c.evs:
        if e.kind == 'call' and not c.pure(e) or e.kind in ('setsub', 'delsub'):
            if e.base is not None and c.is_fresh(e.base):
                continue
            if c.total(e.block, lvl) == F:
                continue
            evs.append((e, K('ev', [c.collapse(c.descs(e, lvl))] + list(c.path(e.block, lvl)))))
    facts = {}
    for i, (a, ka) in enumerate(evs):
        for b, kb in evs[i + 1:]:
            if ka == kb or not conflict(c, a, b):
                continue
            ga, gb = c.total(a.block, lvl), c.total(b.block, lvl)
            if G.disjoint(ga, gb) and a.block.loops == b.block.loops:
                continue
            if c.before(a, b):
                facts.setdefault((ka, kb), set()).add('<')
                facts.setdefault((kb, ka), set()).add('>')
            elif c.before(b, a):
                facts.setdefault((ka, kb), set()).add('>')
                facts.setdefault((kb, ka), set()).add('<')
    return facts, {k: e for e, k in evs}


def conflict(c, a, b):
    def objs(e):
        """(objects changed, objects read) by an event, as term ids."""
        ch, rd = set(), set()
        if e.kind in ('setsub', 'delsub'):
            ch.add(e.base.id)
            return ch, rd
        base = e.base
        if base is None and e.fn is not None and e.fn.op == 'bound':
            base = e.fn.args[1]
        if base is not None:
            if e.target is not None:
                r, w, m = ir.attr_touch(e.target)
                for x in w | m:
                    ch.add((base.id, x))
                    t = ir._INTERN.get(('attr', (base.id, 'T'), ('str', x)))
                    if t is not None:
                        ch.add(t.id)
                for x in r:
                    rd.add((base.id, x))
                    t = ir._INTERN.get(('attr', (base.id, 'T'), ('str', x)))
                    if t is not None:
                        rd.add(t.id)
            else:
                ch.add(base.id)
        if e.fn is not None and e.fn.op in ('builtin', 'ext') and base is None:
            if e.fn.args[0] in ('print',):
                ch.add('stdout')
            elif e.fn.args[0].startswith('sys.'):
                ch.add(e.fn.args[0].rsplit('.', 1)[0])
        for x in e.args:
            x = c.g.res(x)
            if x.op in ('param', 'attr', 'new', 'list', 'dict', 'set', 'call', 'phi', 'elem', 'sub'):
                if e.target is not None:
                    (ch if mutates_arg(e, x) else rd).add(x.id)
                else:
                    rd.add(x.id)
        return ch, rd
    ca, ra = objs(a)
    cb, rb = objs(b)
    if a.kind == b.kind == 'setsub' and a.base is b.base:
        if a.idx.op == b.idx.op == 'const' and a.idx is not b.idx:
            return False
    return bool(ca & cb or ca & rb or ra & cb)


def mutates_arg(e, x):
    ps = e.target.params()
    off = 1 if (e.base is not None or (e.fn is not None and e.fn.op == 'bound')) and not e.target.static and e.target.cls is not None else 0
    for i, a in enumerate(e.args):
        if a is x and i + off < len(ps):
            if mutates_param(e.target, ps[i + off]):
                return True
    return False


_MP = {}


def mutates_param(f, p, stack=()):
    k = (f, p)
    if k in _MP:
        return _MP[k]
    if k in stack:
        return False
    r = False

    def root(n):
        while isinstance(n, (ast.Subscript, ast.Attribute)):
            n = n.value
        return n.id if isinstance(n, ast.Name) else None
    for n in ast.walk(f.node):
        if isinstance(n, (ast.Subscript, ast.Attribute)) and isinstance(n.ctx, (ast.Store, ast.Del)) and root(n) == p:
            r = True
        elif isinstance(n, ast.Call):
            if isinstance(n.func, ast.Attribute) and root(n.func) == p and n.func.attr not in ir.PURE_METHODS:
                r = True
            for i, a in enumerate(n.args):
                if isinstance(a, ast.Name) and a.id == p:
                    t = None
                    if isinstance(n.func, ast.Name):
                        t = f.mod.lookup(n.func.id)
                        off = 0
                    elif isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and f.cls is not None:
                        t = f.cls.find(n.func.attr)
                        off = 0 if t is not None and t.static else 1
                    if isinstance(t, Func):
                        ps = t.params()
                        if i + off < len(ps) and mutates_param(t, ps[i + off], stack + (k,)):
                            r = True
    if not stack:
        _MP[k] = r
    return r


def order_diff(where, rc, cc):
    fr, er = order_facts(rc)
    fc, ec = order_facts(cc)
    out = []
    for (a, b), rel in fr.items():
        if a > b:
            continue
        now = fc.get((a, b))
        if now is not None and len(rel) == 1 and len(now) == 1 and rel != now:
            x, y = (a, b) if now == {'<'} else (b, a)
            ev = ec.get(x)
            out.append(Diff(where, 'order', '%s now happens before %s' % (kshow(x, 5), kshow(y, 5)),
                            '%s:%s' % (ev.func.mod.rel, getattr(ev.node, 'lineno', 0)) if ev is not None else None))
    return out
