"""How much of a function was rewritten.

A difference between two canonical summaries can mean two things: the code does
something else, or the code was restructured beyond what the canonical form can
follow.  The second needs a rewrite: many statements of the reviewed text gone
at once, while the vocabulary -- constants, attribute names, operators, called
functions -- stays what it was.  Such a difference is not decided either way.
"""
import ast
import copy
import re
from collections import Counter

# how a value is collected, counted, looked up or spelled
NEUTRAL = {
    'list', 'dict', 'set', 'frozenset', 'len', 'range', 'xrange', 'enumerate', 'zip', 'append', 'extend', 'get', 'setdefault', 'join',
    'format', 'update', 'add', 'items', 'keys', 'values', 'iteritems', 'itervalues', 'iterkeys', 'has_key', 'tuple', 'sum', 'any', 'all',
    'bool', 'str', 'int', 'iter', 'map', 'filter', 'copy', 'insert', 'reduce', 'defaultdict', 'next', 'isinstance', 'getattr', 'setattr',
    'write', 'close', 'min', 'max', 'difference', 'intersection', 'union', 'intersection_update', 'symmetric_difference', 'startswith',
    'endswith', 'operator', 'functools', 'partition', 'split', 'collections', 'itertools', 'chain', 'bytes', 'bytearray', 'read', 'loads',
    'load', 'exit', 'pop', 'index', 'count', 'find', 'rpartition', 'rsplit', 'remove', 'fromkeys', 'starmap', 'partial', 'print',
}
OPS = (ast.Add, ast.Mod, ast.BitAnd, ast.BitOr, ast.Sub)


def locals_of(fn):
    a = fn.args
    s = set(x.arg for x in a.args + a.kwonlyargs + a.posonlyargs)
    for n in ast.walk(fn):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            s.add(n.id)
    return s


def statements(fn):
    """Multiset of the statements of fn, local names and bodies left out."""
    out = Counter()
    loc = locals_of(fn) if not isinstance(fn, ast.Lambda) else set()

    def rec(node):
        for ch in ast.iter_child_nodes(node):
            if isinstance(ch, (ast.FunctionDef, ast.ClassDef)):
                continue
            if isinstance(ch, ast.stmt) and not isinstance(ch, ast.Pass) and not (
                    isinstance(ch, ast.Expr) and isinstance(ch.value, ast.Constant)):
                c = copy.copy(ch)
                for f in ('body', 'orelse', 'finalbody', 'handlers'):
                    if isinstance(getattr(c, f, None), list):
                        setattr(c, f, [])
                c = copy.deepcopy(c)
                for n in ast.walk(c):
                    if isinstance(n, ast.Name) and n.id in loc:
                        n.id = '_'
                out[ast.dump(c)] += 1
            rec(ch)
    rec(fn)
    return out


def vocabulary(fn):
    out = set()
    docs = set()
    for n in ast.walk(fn):
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            docs.add(id(n.value))
    for n in ast.walk(fn):
        if isinstance(n, ast.Constant) and id(n) not in docs:
            v = n.value
            if v is None or isinstance(v, bool) or v in (0, 1, ''):
                continue
            if isinstance(v, str):
                for w in re.findall(r'[A-Za-z0-9_.:-]*[A-Za-z0-9_][A-Za-z0-9_.:-]*', re.sub(r'%[-#0 +]*\d*(?:\.\d+)?[sdrixXcfeg]|\{\d*\}', ' ', v)):
                    w = w.strip('.:-')
                    if w:
                        out.add(('string', w))
            else:
                out.add(('constant', repr(v)))
        elif isinstance(n, ast.Attribute):
            if n.attr not in NEUTRAL:
                out.add(('name', n.attr))
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name):
            if n.func.id not in NEUTRAL:
                out.add(('name', n.func.id))
        elif isinstance(n, (ast.BinOp, ast.AugAssign)) and not isinstance(n.op, OPS):
            out.add(('operator', type(n.op).__name__))
    return out


class Extent:
    LIMIT = 4

    def __init__(self, pair):
        self.p = pair
        self.memo = {}

    def region(self, where):
        """Functions taking part in the rewrite of one: it, the helpers that
        came or went with it, and the changed functions around those."""
        if where in self.memo:
            return self.memo[where]
        p = self.p
        rel = where.split(':')[0]
        mods = set([rel])
        fs, gs = {}, {}
        for w, f in p.ri.items():
            if w.split(':')[0] in mods and not p.untouched(w):
                fs[w] = f
        for w, g in p.ci.items():
            if w.split(':')[0] in mods and (w not in p.ri or not p.untouched(w)):
                gs[w] = g
        come = set(w for w in gs if w not in p.ri)
        went = set(w for w in fs if w not in p.ci)
        # connected through mentions of helpers that came or went
        near, todo = set(), [where]
        names = {}
        for side, d in (('r', fs), ('c', gs)):
            for w, f in d.items():
                names[side, w] = p.names(f)
        while todo:
            w = todo.pop()
            if w in near:
                continue
            near.add(w)
            for side, d in (('r', fs), ('c', gs)):
                if w in d:
                    for v, h in d.items():
                        if v not in near and (v in come or v in went or w in come or w in went) and (
                                h.name in names[side, w] or d[w].name in names[side, v]):
                            todo.append(v)
        r = self.memo[where] = ([fs[w] for w in near if w in fs], [gs[w] for w in near if w in gs], come & near, went & near)
        return r

    def rewritten(self, where):
        """(number of reviewed statements gone, new ones, vocabulary changed)"""
        fs, gs, come, went = self.region(where)
        a, b = Counter(), Counter()
        va, vb = set(), set()
        for f in fs:
            a += statements(f.node)
            va |= vocabulary(f.node)
        for g in gs:
            b += statements(g.node)
            vb |= vocabulary(g.node)
        skip = set(w.split(':')[1].split('.')[-1] for w in come | went)
        voc = set(x for x in va ^ vb if not (x[0] == 'name' and x[1] in skip))
        # words of strings may be put together differently
        sa = ''.join(sorted(x[1] for x in va if x[0] == 'string'))
        gone, new = sum((a - b).values()), sum((b - a).values())
        return gone, new, voc

    def undecided(self, where):
        gone, new, voc = self.rewritten(where)
        if gone >= self.LIMIT and not voc:
            return 'rewritten: %d of the reviewed statements are gone and %d new ones say the same with the same vocabulary' % (gone, new)
        return None
