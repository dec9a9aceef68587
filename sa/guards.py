"""Guards: boolean combinations of canonical atoms, kept as reduced ordered
decision diagrams so that equal guards are the same object.

Atoms are (kind, key...) tuples:  ('ge', lin, c): lin >= c;   ('eq', lin, c):
lin == c;   ('is', term, const): term equals that constant;   ('t', term):
truth of a term;   everything else is unrelated to any other atom.
"""

F, TR = 0, 1


class Guards:
    def __init__(self):
        self.node = [None, None]          # (var, hi, lo)
        self.uniq = {}
        self.atoms = []                   # var -> atom
        self.var = {}
        self.group = {}                   # group -> [var]
        self.m_ite, self.m_res, self.m_con, self.m_sup = {}, {}, {}, {}

    # -- atoms
    def atom(self, a):
        v = self.var.get(a)
        if v is None:
            v = len(self.atoms)
            self.var[a] = v
            self.atoms.append(a)
            g = self._grp(a)
            if g is not None:
                self.group.setdefault(g, []).append(v)
        return self.mk(v, TR, F)

    def _grp(self, a):
        if a[0] in ('ge', 'eq'):
            return ('n', a[1])
        if a[0] in ('is', 't'):
            return ('v', a[1])
        return None

    def forced(self, v, val):
        """Other atoms decided by atom v being val."""
        a = self.atoms[v]
        g = self._grp(a)
        if g is None:
            return ()
        out = []
        for w in self.group[g]:
            if w == v:
                continue
            b = self.atoms[w]
            r = self._imp(a, val, b)
            if r is not None:
                out.append((w, r))
        return tuple(out)

    def _imp(self, a, val, b):
        if a[0] == 'ge':
            if val:
                if b[0] == 'ge':
                    return True if b[2] <= a[2] else None
                return False if b[2] < a[2] else None
            if b[0] == 'ge':
                return False if b[2] >= a[2] else None
            return False if b[2] >= a[2] else None
        if a[0] == 'eq':
            if not val:
                return None
            if b[0] == 'ge':
                return a[2] >= b[2]
            return False
        if a[0] == 'is':
            if not val:
                return None
            c = a[2]
            if b[0] == 'is':
                return False
            return bool(c[1]) if c[0] != 'NoneType' else False
        if a[0] == 't':
            if b[0] == 'is':
                falsy = b[2][0] == 'NoneType' or not b[2][1]
                if val and falsy:
                    return False
                if not val and not falsy:
                    return False
        return None

    # -- construction
    def mk(self, v, hi, lo):
        if hi == lo:
            return hi
        k = (v, hi, lo)
        n = self.uniq.get(k)
        if n is None:
            n = len(self.node)
            self.node.append(k)
            self.uniq[k] = n
        return n

    def _top(self, f):
        return self.node[f][0] if f > 1 else 1 << 60

    def _cof(self, f, v):
        if f > 1 and self.node[f][0] == v:
            return self.node[f][1], self.node[f][2]
        return f, f

    def ite(self, c, a, b):
        if c == TR:
            return a
        if c == F:
            return b
        if a == b:
            return a
        if a == TR and b == F:
            return c
        k = (c, a, b)
        r = self.m_ite.get(k)
        if r is None:
            v = min(self._top(c), self._top(a), self._top(b))
            c1, c0 = self._cof(c, v)
            a1, a0 = self._cof(a, v)
            b1, b0 = self._cof(b, v)
            r = self.mk(v, self.ite(c1, a1, b1), self.ite(c0, a0, b0))
            self.m_ite[k] = r
        return r

    def and_(self, a, b):
        return self.ite(a, b, F)

    def or_(self, a, b):
        return self.ite(a, TR, b)

    def not_(self, a):
        return self.ite(a, F, TR)

    def all(self, xs):
        r = TR
        for x in xs:
            r = self.and_(r, x)
        return r

    def any(self, xs):
        r = F
        for x in xs:
            r = self.or_(r, x)
        return r

    def restrict(self, f, v, val):
        if f <= 1 or self.node[f][0] > v:
            return f
        k = (f, v, val)
        r = self.m_res.get(k)
        if r is None:
            w, hi, lo = self.node[f]
            if w == v:
                r = hi if val else lo
            else:
                r = self.mk(w, self.restrict(hi, v, val), self.restrict(lo, v, val))
            self.m_res[k] = r
        return r

    def support(self, f):
        if f <= 1:
            return frozenset()
        r = self.m_sup.get(f)
        if r is None:
            v, hi, lo = self.node[f]
            r = self.m_sup[f] = frozenset([v]) | self.support(hi) | self.support(lo)
        return r

    # -- theory: relations between atoms over the same term
    def theory(self, vs):
        """Conjunction of the implications between the atoms vs."""
        r = TR
        vs = sorted(vs)
        for v in vs:
            for val in (True, False):
                for w, x in self.forced(v, val):
                    if w in vs:
                        a = self.mk(v, TR, F)
                        b = self.mk(w, TR, F)
                        pre = a if val else self.not_(a)
                        post = b if x else self.not_(b)
                        r = self.and_(r, self.or_(self.not_(pre), post))
        return r

    def norm(self, f):
        """Canonical modulo theory: constrain by the relations of the support."""
        for _ in range(4):
            if f <= 1:
                return f
            t = self.theory(self.support(f))
            if t == TR:
                return f
            if self.and_(f, t) == F:
                return F
            if self.and_(self.not_(f), t) == F:
                return TR
            g = self.simplify(f, t)
            if g == f:
                return f
            f = g
        return f

    def constrain(self, f, c):
        """Generalised cofactor f|c: agrees with f wherever c holds."""
        if c == TR or f <= 1:
            return f
        if c == F:
            return F
        if f == c:
            return TR
        k = (f, c)
        r = self.m_con.get(k)
        if r is None:
            v = min(self._top(f), self._top(c))
            c1, c0 = self._cof(c, v)
            f1, f0 = self._cof(f, v)
            if c1 == F:
                r = self.constrain(f0, c0)
            elif c0 == F:
                r = self.constrain(f1, c1)
            else:
                r = self.mk(v, self.constrain(f1, c1), self.constrain(f0, c0))
            self.m_con[k] = r
        return r

    def simplify(self, f, c):
        """Like constrain, never introducing atoms f does not have."""
        sup = self.support(f)
        for v in sorted(self.support(c) - sup):
            c = self.or_(self.restrict(c, v, True), self.restrict(c, v, False))
        return self.constrain(f, c)

    def same(self, f, g, care=TR):
        if f == g:
            return True
        d = self.ite(f, self.not_(g), g)
        d = self.and_(d, care)
        if d == F:
            return True
        return self.and_(d, self.theory(self.support(f) | self.support(g) | self.support(care))) == F

    def disjoint(self, f, g):
        d = self.and_(f, g)
        if d == F:
            return True
        return self.and_(d, self.theory(self.support(d))) == F

    def implies(self, f, g):
        return self.disjoint(f, self.not_(g))

    def show(self, f, namer, depth=6):
        """Readable disjunction of paths."""
        if f == TR:
            return 'always'
        if f == F:
            return 'never'
        out = []

        def walk(n, path):
            if len(out) > 4:
                return
            if n == TR:
                out.append(' and '.join(path) or 'always')
                return
            if n == F:
                return
            v, hi, lo = self.node[n]
            s = namer(self.atoms[v])
            walk(hi, path + [s])
            walk(lo, path + ['not (%s)' % s])
        walk(f, [])
        if len(out) > 4:
            out = out[:4] + ['...']
        return ' or '.join(out)
