"""C++ classes read as Python syntax trees.

clang parses and type-checks the file and prints its syntax tree; the methods
of the classes asked for are written as Python functions with the same
effects, so that the analysis of the Python sources applies to them: fields
become attributes, ``*p`` becomes ``p[0]``, vector methods become list
methods, and conversions to narrower integers become masks.  Nothing is
compiled to code or run."""
import ast
import concurrent.futures
import json
import os
import re
import subprocess

import load
from load import AnalysisBroken

UNITS = {'bit_bucket.h': ['BitBucket'], 'huffman.h': ['Huffman'],
         'spdy4_headers_codec.cc': ['IDStore', 'Storage', 'SPDY4HeadersCodecImpl', 'InlineSerialization', 'SPDY4HeadersCodec']}
DIRS = ('compressor/delta', 'compressor/delta_bohe')
PRE = ['-std=c++0x', '-DNDEBUG', '-x', 'c++', '-include', 'cstdint', '-include', 'cmath', '-include', 'array', '-fsyntax-only', '-w']


class Unhandled(Exception):
    pass


def dump(base, d, header, cls):
    where = os.path.join(base, d)
    pre = list(PRE)
    if header == 'huffman.h':
        pre += ['-include', os.path.join(where, 'header_freq_tables.h')]
    p = subprocess.run(['clang++'] + pre + ['-Xclang', '-ast-dump=json', '-Xclang', '-ast-dump-filter=' + cls, os.path.join(where, header)],
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=300, cwd=where)
    if p.returncode != 0:
        raise AnalysisBroken('clang cannot parse %s/%s: %s' % (d, header, p.stderr.decode('utf-8', 'replace')[:300]))
    txt = p.stdout.decode('utf-8', 'replace')
    dec = json.JSONDecoder()
    out, i = [], 0
    while True:
        i = txt.find('{', i)
        if i < 0:
            return out
        o, i = dec.raw_decode(txt, i)
        out.append(o)


_CACHE = {}


def parse_all(base=None, files=('bit_bucket.h', 'huffman.h')):
    """{relpath: (ast.Module, 'cpp', source)}"""
    base = base or load.REPO
    if (base, files) in _CACHE:
        return _CACHE[base, files]
    out = _CACHE[base, files] = {}
    jobs = {}
    pool = concurrent.futures.ThreadPoolExecutor(8)
    for d in DIRS:
        for f in files:
            if os.path.exists(os.path.join(base, d, f)):
                jobs[d, f] = [pool.submit(dump, base, d, f, c) for c in UNITS[f]]
    for d in DIRS:
        for f in files:
            classes = UNITS[f]
            path = os.path.join(base, d, f)
            if not os.path.exists(path):
                continue
            with open(path, 'rb') as fh:
                raw = fh.read()
            src = raw.decode('latin-1')
            body = []
            for c, job in zip(classes, jobs[d, f]):
                docs = job.result()
                n = next((x for x in map(template, docs) if x.get('kind') == 'CXXRecordDecl' and x.get('name') == c and x.get('inner')), None)
                if n is None:
                    continue
                for x in docs:
                    lines(x)
                join(n, docs)
                t = Trans(f, raw)
                body.append(t.record(n))
                FAILED.setdefault('%s/%s' % (d, f), []).extend(t.failed)
            body = data(base, d, f, raw, body, pool) + body
            m = ast.Module(body=free(body) + body, type_ignores=[])
            ast.fix_missing_locations(m)
            out['%s/%s' % (d, f)] = (m, 'cpp', src)
    return out


def data(base, d, f, raw, body, pool):
    """Constants of the file that the classes mention."""
    out, seen = [], set()
    for again in range(4):
        used = sorted(set(n.id for b in body + out for n in ast.walk(b) if isinstance(n, ast.Name)) - seen)
        called = set(n.func.id for b in body + out for n in ast.walk(b) if isinstance(n, ast.Call) and isinstance(n.func, ast.Name))
        src = raw.decode('latin-1')
        used = [x for x in used if re.match(r'k[A-Z]|spdy4_', x) and re.search(r'\b%s\b' % x, src) or
                x in called and x not in KNOWN and not plain(x) and re.search(r'(?m)^[A-Za-z_][\w:<>,&* \t]*[\s&*]%s\s*\([^;{}]*\)\s*(const\s*)?\{' % x, src)]
        if not used:
            break
        seen.update(used)
        out = constants(base, d, f, raw, used, pool) + out
    return out


def constants(base, d, f, raw, used, pool):
    out = []
    for x, job in [(x, pool.submit(dump, base, d, f, x)) for x in used]:
        for n in job.result():
            if n.get('kind') == 'FunctionTemplateDecl':
                n = next((y for y in n.get('inner', []) if y['kind'] == 'FunctionDecl'), n)
            if n.get('kind') == 'FunctionDecl' and n.get('name') == x and any(y.get('kind') == 'CompoundStmt' for y in n.get('inner', [])):
                lines(n)
                t = Trans(f, raw)
                t.overloads = {x: [n]}
                out.append(t.method(dict(n, storageClass='static'), ''))
                out[-1].decorator_list = []
                break
            if n.get('kind') == 'VarDecl' and n.get('name') == x and n.get('inner'):
                lines(n)
                try:
                    e = Trans(f, raw).expr([y for y in n['inner'] if 'kind' in y][0])
                except Unhandled:
                    continue
                s = ast.Assign(targets=[ast.Name(id=x, ctx=ast.Store())], value=e)
                s.lineno, s.col_offset = n.get('_line', 1), 0
                out.append(s)
                break
    return out


def freq_tables(base=None):
    """(file, table, line, symbols) of the frequency tables."""
    base = base or load.REPO
    pool = concurrent.futures.ThreadPoolExecutor(2)
    f = 'header_freq_tables.cc'
    jobs = [(d, pool.submit(dump, base, d, f, 'FreqTables')) for d in DIRS if os.path.exists(os.path.join(base, d, f))]
    for d, job in jobs:
        for n in job.result():
            if n.get('kind') != 'VarDecl' or not n.get('inner'):
                continue
            lines(n)
            syms = []
            for x in nodes(n):
                if x.get('kind') in ('CXXTemporaryObjectExpr', 'CXXConstructExpr') and len(x.get('inner', [])) == 2:
                    y = x['inner'][0]
                    while y.get('kind') in SKIP or y.get('kind') == 'ImplicitCastExpr':
                        y = y['inner'][0]
                    if y.get('kind') in ('IntegerLiteral', 'CharacterLiteral'):
                        syms.append(((x.get('range', {}).get('begin', {}).get('offset', 0)), int(y['value']) & 0xffff))
            yield '%s/%s' % (d, f), n.get('name'), n.get('_line', 1), [v & 255 if v > 257 else v for _, v in sorted(syms)] or None


def template(n):
    if n.get('kind') == 'ClassTemplateDecl':
        return next((x for x in n.get('inner', []) if x.get('kind') == 'CXXRecordDecl'), n)
    return n


def join(n, docs):
    """Methods defined outside the class put in place of their declaration."""
    body = {x.get('previousDecl'): x for x in docs if x.get('kind') in ('CXXMethodDecl', 'CXXConstructorDecl') and
            any(y.get('kind') == 'CompoundStmt' for y in x.get('inner', []))}
    n['inner'] = [body.get(m.get('id'), m) if m.get('kind') in ('CXXMethodDecl', 'CXXConstructorDecl') else m for m in n['inner']]


FAILED = {}
KNOWN = {'staticmethod', 'len', 'bool', 'min', 'max', 'print', 'float', 'int', 'self'}


def free(body):
    """What the classes use of the rest of the program."""
    bound = set(KNOWN)
    for b in body:
        for n in ast.walk(b):
            if isinstance(n, ast.Name) and not isinstance(n.ctx, ast.Load):
                bound.add(n.id)
            elif isinstance(n, ast.arg):
                bound.add(n.arg)
        if isinstance(b, (ast.ClassDef, ast.FunctionDef)):
            bound.add(b.name)
    names = sorted(set(n.id for b in body for n in ast.walk(b) if isinstance(n, ast.Name)) - bound)
    out = []
    for mod, xs in (('cxxpure', [x for x in names if plain(x)]), ('cxx', [x for x in names if not plain(x)])):
        if xs:
            out.append(ast.ImportFrom(module=mod, names=[ast.alias(name=x, asname=None) for x in xs], level=0))
    return out


def plain(x):
    """Makes a value and does nothing else."""
    return x in ('make_pair', 'addr', 'bits_as', 'ceil', 'floor', 'sizeof', 'copied', 'npos') or x.startswith('new_') or x.isupper()


def lines(doc):
    """clang prints a line only where it differs from the one before."""
    cur = [0]

    def loc(x):
        for k in list(x):
            v = x[k]
            if k in ('spellingLoc', 'expansionLoc', 'begin', 'end') and isinstance(v, dict):
                loc(v)
        if 'line' in x:
            cur[0] = x['line']
        elif x and ('offset' in x):
            x['line'] = cur[0]

    def walk(n):
        if isinstance(n, list):
            for x in n:
                walk(x)
            return
        for k, v in list(n.items()):
            if k == 'loc' and isinstance(v, dict):
                loc(v)
            elif k == 'range' and isinstance(v, dict):
                loc(v)
                b = v.get('begin', {})
                b = b.get('expansionLoc', b)
                n['_line'] = b.get('line', cur[0])
            elif k == 'inner':
                walk(v)
    walk(doc)


BITS = {'bool': 1, 'char': 8, 'signed char': 8, 'unsigned char': 8, 'short': 16, 'unsigned short': 16, 'int': 32, 'unsigned int': 32,
        'long': 64, 'unsigned long': 64, 'long long': 64, 'unsigned long long': 64}
RENAME = {'push_back': 'append', 'pop_back': 'pop'}
TAKEN = {'insert', 'find', 'erase', 'reserve', 'resize', 'swap', 'count', 'begin', 'end', 'get', 'update', 'add', 'remove', 'index', 'at', 'read', 'write'}
PYWORDS = {'None', 'True', 'False', 'and', 'as', 'assert', 'async', 'await', 'class', 'def', 'del', 'elif', 'except', 'finally', 'from', 'global',
           'import', 'in', 'is', 'lambda', 'nonlocal', 'not', 'or', 'pass', 'raise', 'try', 'with', 'yield', 'print', 'self', 'len', 'bool', 'min', 'max', 'range'}
BIN = {'+': ast.Add, '-': ast.Sub, '*': ast.Mult, '/': ast.FloorDiv, '%': ast.Mod, '<<': ast.LShift, '>>': ast.RShift, '|': ast.BitOr, '&': ast.BitAnd, '^': ast.BitXor}
CMP = {'==': ast.Eq, '!=': ast.NotEq, '<': ast.Lt, '<=': ast.LtE, '>': ast.Gt, '>=': ast.GtE}
SKIP = {'ParenExpr', 'ExprWithCleanups', 'MaterializeTemporaryExpr', 'CXXBindTemporaryExpr', 'ConstantExpr', 'SubstNonTypeTemplateParmExpr', 'FullExpr'}


def ty(n):
    t = n.get('type', {})
    return t.get('desugaredQualType', t.get('qualType', ''))


def bare(t):
    return t.replace('const ', '').replace('&', '').strip()


def is_stream(n):
    t = ty(n) + n.get('type', {}).get('qualType', '')
    return 'ostream' in t or 'stringstream' in t


def name(s):
    return 'v_' + s if s in PYWORDS else s


class Trans:
    def __init__(self, fname, src):
        self.fname, self.src = fname, src
        self.pre = None
        self.failed = []
        self.boxed, self.iters = set(), set()
        self.enums, self.refs, self.subst = {}, {}, {}
        for m in re.finditer(rb'enum\s*\w*\s*\{([^{}=]*)\}', src):
            for i, x in enumerate(y for y in re.sub(rb'//[^\n]*', b'', m.group(1)).split(b',') if y.strip()):
                self.enums[x.strip().decode('latin-1')] = i

    def last(self, n):
        """The member named last in an expression clang leaves unresolved."""
        e = n.get('range', {}).get('end', {})
        e = e.get('expansionLoc', e)
        t = self.src[e.get('offset', 0):e.get('offset', 0) + e.get('tokLen', 0)].decode('latin-1')
        if not t.isidentifier():
            raise Unhandled('member')
        return t

    # -- declarations
    def record(self, n):
        body = []
        count, clash = {}, {}
        inner = n.get('inner', [])
        ms = []
        for m in inner:
            if m['kind'] == 'FunctionTemplateDecl':
                m = next((x for x in m.get('inner', []) if x['kind'] in ('CXXMethodDecl', 'FunctionDecl')), m)
            if m['kind'] in ('CXXMethodDecl', 'CXXConstructorDecl', 'CXXDestructorDecl') and not m.get('isImplicit'):
                ms.append(m)
        self.overloads = {}
        for m in ms:
            self.overloads.setdefault(m['name'], []).append(m)
        for m in inner:
            if m['kind'] == 'CXXRecordDecl' and m.get('inner') and not m.get('isImplicit'):
                t = Trans(self.fname, self.src)
                body.append(t.record(m))
                self.failed += t.failed
        for m in inner:
            if m['kind'] == 'FieldDecl' and m.get('hasInClassInitializer') and m.get('inner'):
                try:
                    body.append(self.at(ast.Assign(targets=[ast.Name(id=name(m['name']), ctx=ast.Store())], value=self.expr(m['inner'][0])), m))
                except Unhandled:
                    pass
        for m in ms:
            if m['kind'] == 'CXXDestructorDecl' or not any(x['kind'] == 'CompoundStmt' for x in m.get('inner', [])):
                continue
            body.append(self.method(m, n['name']))
        c = ast.ClassDef(name=n['name'], bases=[], keywords=[], body=body or [ast.Pass()], decorator_list=[], type_params=[])
        c.lineno, c.col_offset = n.get('_line', 1), 0
        return c

    def pyname(self, m):
        if m['kind'] == 'CXXConstructorDecl':
            base = '__init__'
        elif m['name'].startswith('operator'):
            base = 'operator_' + ''.join(str(ord(c)) for c in m['name'][8:])
        else:
            base = m['name']
        all_ = [x for x in self.overloads[m['name']] if any(y['kind'] == 'CompoundStmt' for y in x.get('inner', []))]
        if len(all_) > 1:
            k = nparams(m)
            base += '_%d' % k
            same = [x for x in all_ if nparams(x) == k]
            if len(same) > 1:
                base += 'abcdef'[[id(x) for x in same].index(id(m))] if id(m) in [id(x) for x in same] else ''
        return name(base) if base != '__init__' else base

    def method(self, m, cls):
        line = m.get('_line', 1)
        ps = [x for x in m.get('inner', []) if x['kind'] == 'ParmVarDecl']
        self.self_ok = m.get('storageClass') != 'static'
        args = [ast.arg(arg='self', annotation=None)] if self.self_ok else []
        defaults = []
        for i, p in enumerate(ps):
            args.append(ast.arg(arg=name(p.get('name', 'unused%d' % i)), annotation=None))
            if p.get('init') or (p.get('inner') and any(True for _ in p['inner'])):
                try:
                    defaults.append(self.expr(p['inner'][0]))
                except Unhandled:
                    defaults.append(ast.Constant(value=None))
        body = []
        self.boxed = addressed(m)
        for p in ps:
            if p.get('id') in self.boxed:
                body.append(self.at(ast.Assign(targets=[ast.Name(id=name(p['name']), ctx=ast.Store())],
                                               value=ast.List(elts=[ast.Name(id=name(p['name']), ctx=ast.Load())], ctx=ast.Load())), m))
        try:
            for x in m.get('inner', []):
                if x['kind'] == 'CXXCtorInitializer':
                    f = x.get('anyInit', {}).get('name')
                    if f and x.get('inner') and x['inner'][0]['kind'] not in ('CXXDefaultInitExpr', 'CXXConstructExpr'):
                        body.append(self.at(ast.Assign(targets=[ast.Attribute(value=ast.Name(id='self', ctx=ast.Load()), attr=f, ctx=ast.Store())],
                                                       value=self.expr(x['inner'][0])), x))
            body += self.block(next(x for x in m['inner'] if x['kind'] == 'CompoundStmt'))
        except Unhandled as e:
            s = ast.Expr(value=ast.Call(func=ast.Name(id='not_analysed', ctx=ast.Load()), args=[ast.Constant(value=m['name'])], keywords=[]))
            s.lineno, s.col_offset = line, 0
            body = [s]
            self.failed.append('%s.%s: %s' % (cls, m['name'], e))
        nm = '__init__' if m['kind'] == 'CXXConstructorDecl' and len([x for x in self.overloads[m['name']] if any(y['kind'] == 'CompoundStmt' for y in x.get('inner', []))]) == 1 else self.pyname(m)
        f = ast.FunctionDef(name=nm, args=ast.arguments(posonlyargs=[], args=args, vararg=None, kwonlyargs=[], kw_defaults=[], kwarg=None, defaults=defaults),
                            body=body or [ast.Pass()], decorator_list=[] if self.self_ok else [ast.Name(id='staticmethod', ctx=ast.Load())], returns=None, type_params=[])
        f.lineno, f.col_offset = line, 0
        return f

    # -- statements
    def at(self, s, n):
        s.lineno, s.col_offset = n.get('_line', 1), 0
        return s

    def block(self, n):
        if n is None or not n.get('kind'):
            return []
        if n['kind'] == 'CompoundStmt':
            out = []
            for x in n.get('inner', []):
                out += self.stmt(x)
            return out
        return self.stmt(n)

    def with_pre(self, f, n):
        """Statements of an expression and those its increments need first."""
        old, self.pre, self.post = (self.pre, getattr(self, 'post', None)), [], []
        e = f()
        pre, post = self.pre, self.post
        self.pre, self.post = old
        return pre, e, post

    def stmt(self, n):
        k = n['kind']
        if k in SKIP:
            return self.stmt(n['inner'][0])
        if k == 'NullStmt':
            return []
        if k == 'CompoundStmt':
            return self.block(n)
        if k == 'DeclStmt':
            out = []
            for d in n.get('inner', []):
                if d['kind'] == 'VarDecl':
                    out += self.var(d)
                elif d['kind'] not in ('TypedefDecl', 'TypeAliasDecl', 'UsingDecl', 'StaticAssertDecl'):
                    raise Unhandled(d['kind'])
            return out
        if k == 'ReturnStmt':
            if not n.get('inner'):
                return [self.at(ast.Return(value=ast.Constant(value=None)), n)]
            pre, e, post = self.with_pre(lambda: self.expr(n['inner'][0]), n)
            if post:
                raise Unhandled('return x++')
            return pre + [self.at(ast.Return(value=e), n)]
        if k == 'IfStmt':
            if n.get('hasVar') or n.get('hasInit'):
                raise Unhandled('if declaration')
            inner = n['inner']
            pre, e, post = self.with_pre(lambda: self.cond(inner[0]), n)
            if post:
                raise Unhandled('if x++')
            return pre + [self.at(ast.If(test=e, body=self.block(inner[1]) or [self.at(ast.Pass(), n)], orelse=self.block(inner[2]) if len(inner) > 2 else []), n)]
        if k == 'WhileStmt':
            pre, e, post = self.with_pre(lambda: self.cond(n['inner'][0]), n)
            body = self.block(n['inner'][-1])
            if pre or post:
                brk = self.at(ast.If(test=e, body=post + [self.at(ast.Pass(), n)], orelse=[s for s in post] + [self.at(ast.Break(), n)]), n)
                return [self.at(ast.While(test=ast.Constant(value=True), body=pre + [brk] + body, orelse=[]), n)]
            return [self.at(ast.While(test=e, body=body or [self.at(ast.Pass(), n)], orelse=[]), n)]
        if k == 'DoStmt':
            pre, e, post = self.with_pre(lambda: self.cond(n['inner'][1]), n)
            body = self.block(n['inner'][0])
            if post or goes_on(body):
                raise Unhandled('do')
            return [self.at(ast.While(test=ast.Constant(value=True), body=body + pre + [self.at(ast.If(test=ast.UnaryOp(op=ast.Not(), operand=e), body=[self.at(ast.Break(), n)], orelse=[]), n)], orelse=[]), n)]
        if k == 'ForStmt':
            init, var, cond, inc, body = n['inner']
            f = self.over(n)
            if f is not None:
                return f
            out = self.block(init) if init.get('kind') else []
            pre, e, post = self.with_pre(lambda: self.cond(cond), n) if cond.get('kind') else ([], ast.Constant(value=True), [])
            if pre or post:
                raise Unhandled('for condition')
            step = self.stmt(inc) if inc.get('kind') else []
            b = self.block(body)
            b = before_continue(b, step)
            return out + [self.at(ast.While(test=e, body=(b + step) or [self.at(ast.Pass(), n)], orelse=[]), n)]
        if k == 'CXXForRangeStmt':
            inner = n['inner']
            rng = next(x for x in inner if x.get('kind') == 'DeclStmt' and x['inner'][0].get('name', '').startswith('__range'))
            var = [x for x in inner if x.get('kind') == 'DeclStmt' and not x['inner'][0].get('name', '').startswith('__')][0]['inner'][0]
            return [self.at(ast.For(target=ast.Name(id=name(var['name']), ctx=ast.Store()), iter=self.expr(rng['inner'][0]['inner'][0]), body=self.block(inner[-1]) or [self.at(ast.Pass(), n)], orelse=[]), n)]
        if k == 'BreakStmt':
            return [self.at(ast.Break(), n)]
        if k == 'ContinueStmt':
            return [self.at(ast.Continue(), n)]
        if k == 'CXXThrowExpr':
            return [self.at(ast.Raise(exc=self.expr(n['inner'][0]) if n.get('inner') else None, cause=None), n)]
        pre, ss, post = self.with_pre(lambda: self.effect(n), n)
        return pre + ss + post

    def over(self, n):
        """for (it = X.begin(); it != X.end(); ++it) whose body looks only at
        *it, as a loop over the elements of X."""
        init, _, cond, inc, body = n['inner']
        if not (init.get('kind') == cond.get('kind') is not None) and not (init.get('kind') and cond.get('kind') and inc.get('kind')):
            return None
        if init.get('kind') == 'DeclStmt' and len(init['inner']) == 1 and init['inner'][0]['kind'] == 'VarDecl':
            d = init['inner'][0]
            v, start = d['id'], [x for x in d.get('inner', []) if 'kind' in x]
        else:
            return None
        if not start:
            return None
        X = called(start[0], ('begin', 'cbegin'))
        c = strip(cond)
        if X is None or c['kind'] != 'CXXOperatorCallExpr' or opname(c) != '!=':
            return None
        a, b = c['inner'][1:3]
        if refers(b) == v:
            a, b = b, a
        Y = called(b, ('end', 'cend'))
        if refers(a) != v or Y is None or ast.dump(self.expr(X)) != ast.dump(self.expr(Y)):
            return None
        steps = []

        def parts(x):
            x = strip(x)
            if x['kind'] in ('BinaryOperator', 'CXXOperatorCallExpr') and (x.get('opcode') or opname(x)) == ',':
                for y in x['inner'][-2:]:
                    parts(y)
            else:
                steps.append(x)
        parts(inc)
        mine = [x for x in steps if x['kind'] == 'CXXOperatorCallExpr' and opname(x) == '++' and refers(x['inner'][1]) == v]
        if len(mine) != 1:
            return None
        if uses(body, v) != derefs(body, v) or any(uses(x, v) for x in steps if x is not mine[0]):
            return None
        self.iters.add(v)
        step = [s for x in steps if x is not mine[0] for s in self.stmt(x)]
        body = before_continue(self.block(body), step) + step
        return [self.at(ast.For(target=ast.Name(id=name(d['name']), ctx=ast.Store()), iter=self.expr(X), body=body or [self.at(ast.Pass(), n)], orelse=[]), n)]

    def var(self, d):
        nm = name(d['name'])
        t = bare(ty(d))
        tgt = ast.Name(id=nm, ctx=ast.Store())
        ini = [x for x in d.get('inner', []) if 'kind' in x and not x['kind'].endswith('Attr')]
        raw = d.get('type', {})
        raw = raw.get('desugaredQualType', raw.get('qualType', ''))
        if raw.endswith('&') and bare(raw) in BITS and not raw.startswith('const '):
            if not ini or strip(ini[0])['kind'] not in ('MemberExpr', 'ArraySubscriptExpr', 'CXXOperatorCallExpr', 'CXXMemberCallExpr'):
                raise Unhandled('reference to a number')
            self.subst[d['id']] = ini[0]
            return []
        if raw.endswith('&') and not raw.startswith('const ') and ini:
            self.refs[d['id']] = ini[0]
        box = d.get('id') in self.boxed
        if not ini:
            return [self.at(ast.Assign(targets=[tgt], value=ast.List(elts=[ast.Constant(value=0)], ctx=ast.Load())), d)] if box else []
        x = strip(ini[0])
        if x['kind'] == 'CXXConstructExpr' and not [y for y in x.get('inner', []) if y['kind'] != 'CXXDefaultArgExpr']:
            return [self.at(ast.Assign(targets=[tgt], value=empty(d)), d)]
        pre, e, post = self.with_pre(lambda: self.expr(ini[0]), d)
        if box:
            e = ast.List(elts=[e], ctx=ast.Load())
        elif own(bare(raw)) and not raw.endswith('&') and x['kind'] == 'CXXConstructExpr' and not isinstance(e, ast.Call):
            e = self.call('copied', e)
        return pre + [self.at(ast.Assign(targets=[tgt], value=e), d)] + post

    def effect(self, n):
        """Statements of an expression whose value is dropped."""
        n = strip(n)
        k = n['kind']
        if k in ('ImplicitCastExpr', 'CStyleCastExpr', 'CXXStaticCastExpr', 'CXXFunctionalCastExpr') and ty(n) == 'void' or k == 'ImplicitCastExpr':
            x = strip(n['inner'][0])
            if x['kind'] in ('IntegerLiteral', 'DeclRefExpr', 'CXXNullPtrLiteralExpr'):
                return []
            return self.effect(x)
        if k in ('IntegerLiteral',):
            return []
        if k == 'UnaryOperator' and n['opcode'] in ('++', '--'):
            return [self.bump(n)]
        if k in ('BinaryOperator', 'CompoundAssignOperator') and n['opcode'].endswith('=') and n['opcode'] not in CMP:
            return self.assign(n)
        if k == 'BinaryOperator' and n['opcode'] == ',':
            return self.effect(n['inner'][0]) + self.effect(n['inner'][1])
        if k == 'BinaryOperator' and n['opcode'] in ('&&', '||'):
            c = self.cond(n['inner'][0])
            if n['opcode'] == '||':
                c = ast.UnaryOp(op=ast.Not(), operand=c)
            return [self.at(ast.If(test=c, body=self.effect(n['inner'][1]) or [self.at(ast.Pass(), n)], orelse=[]), n)]
        if k == 'ConditionalOperator':
            return [self.at(ast.If(test=self.cond(n['inner'][0]), body=self.effect(n['inner'][1]) or [self.at(ast.Pass(), n)], orelse=self.effect(n['inner'][2])), n)]
        if k == 'CXXOperatorCallExpr':
            op = opname(n)
            if op == '=':
                return self.store(n['inner'][1], self.expr(n['inner'][2]), n)
            if op in ('++', '--'):
                t = n['inner'][1]
                return self.store(t, ast.BinOp(left=self.expr(t), op=(ast.Add if op == '++' else ast.Sub)(), right=ast.Constant(value=1)), n)
            if op in ('+=', '-='):
                t = n['inner'][1]
                return self.store(t, ast.BinOp(left=self.expr(t), op=(ast.Add if op == '+=' else ast.Sub)(), right=self.expr(n['inner'][2])), n)
            if op == '<<':
                root, parts = stream(n)
                if root is not None:
                    args = [self.expr(p) for p in parts if not manip(p)]
                    call = ast.Call(func=ast.Name(id='print', ctx=ast.Load()), args=args, keywords=[])
                    t = root
                    if t['kind'] == 'DeclRefExpr' and t.get('referencedDecl', {}).get('name') in ('cerr', 'cout'):
                        return [self.at(ast.Expr(value=call), n)]
                    return [self.at(ast.Expr(value=ast.Call(func=ast.Attribute(value=self.expr(root), attr='put', ctx=ast.Load()), args=args, keywords=[])), n)]
        if k in ('CXXMemberCallExpr', 'CallExpr'):
            callee = strip(n['inner'][0])
            nm = callee.get('name') or (self.last(callee) if 'Member' in callee['kind'] else callee.get('referencedDecl', {}).get('name'))
            if k == 'CallExpr' and nm in ('abort', '__assert_fail', '__assert_rtn', 'exit', '_Exit', 'terminate'):
                return [self.at(ast.Raise(exc=ast.Call(func=ast.Name(id='Abort', ctx=ast.Load()), args=[], keywords=[]), cause=None), n)]
            if nm == 'reserve' and k == 'CXXMemberCallExpr':
                return []
            if nm == 'pop_front':
                return [self.at(ast.Delete(targets=[ast.Subscript(value=self.expr(callee['inner'][0]), slice=ast.Constant(value=0), ctx=ast.Del())]), n)]
            if nm == 'pop_back':
                return [self.at(ast.Delete(targets=[ast.Subscript(value=self.expr(callee['inner'][0]), slice=ast.UnaryOp(op=ast.USub(), operand=ast.Constant(value=1)), ctx=ast.Del())]), n)]
        if k == 'CXXDeleteExpr':
            return []
        return [self.at(ast.Expr(value=self.expr(n)), n)]

    def bump(self, n):
        op = ast.Add() if n['opcode'] == '++' else ast.Sub()
        t = n['inner'][0]
        return self.store(t, ast.BinOp(left=self.expr(t), op=op, right=ast.Constant(value=1)), n)[0]

    def assign(self, n):
        a, b = n['inner']
        op = n['opcode']
        if op == '=':
            return self.store(a, self.expr(b), n)
        return self.store(a, ast.BinOp(left=self.expr(a), op=BIN[op[:-1]](), right=self.expr(b)), n)

    def store(self, target, value, n):
        x = strip(target)
        if x['kind'] == 'DeclRefExpr' and x['referencedDecl'].get('id') in self.refs:
            i = self.refs[x['referencedDecl']['id']]
            return self.store(i, value, n) + [self.at(ast.Assign(targets=[ast.Name(id=name(x['referencedDecl']['name']), ctx=ast.Store())], value=self.expr(i)), n)]
        t = self.expr(target)
        if isinstance(t, (ast.Name, ast.Attribute, ast.Subscript)):
            t.ctx = ast.Store()
            return [self.at(ast.Assign(targets=[t], value=value), n)]
        if isinstance(t, ast.Call):
            return [self.at(ast.Expr(value=self.call('assigned', t, value)), n)]
        raise Unhandled('store to %s' % type(t).__name__)

    # -- expressions
    def cond(self, n):
        n = strip(n)
        if n['kind'] == 'ImplicitCastExpr' and n.get('castKind') in ('UserDefinedConversion', 'LValueToRValue', 'NoOp'):
            return self.cond(n['inner'][0])
        if n['kind'] == 'BinaryOperator' and n['opcode'] in ('&&', '||'):
            return ast.BoolOp(op=ast.And() if n['opcode'] == '&&' else ast.Or(), values=[self.cond(x) for x in n['inner']])
        if n['kind'] == 'UnaryOperator' and n['opcode'] == '!':
            return ast.UnaryOp(op=ast.Not(), operand=self.cond(n['inner'][0]))
        return self.expr(n)

    def call(self, fn, *args):
        return ast.Call(func=ast.Name(id=fn, ctx=ast.Load()), args=list(args), keywords=[])

    def expr(self, n):
        e = self.expr_(n)
        if not hasattr(e, 'lineno'):
            e.lineno, e.col_offset = n.get('_line', 1), 0
        return e

    def expr_(self, n):
        k = n['kind']
        I = n.get('inner', [])
        if k in SKIP:
            return self.expr(I[0])
        if k in ('ImplicitCastExpr', 'CXXStaticCastExpr', 'CStyleCastExpr', 'CXXFunctionalCastExpr', 'CXXReinterpretCastExpr', 'CXXConstCastExpr'):
            x = [y for y in I if y.get('kind')][0]
            ck = n.get('castKind')
            if ck == 'IntegralCast':
                a, b = BITS.get(bare(ty(x))), BITS.get(bare(ty(n)))
                e = self.expr(x)
                signed = bare(ty(x)) in ('char', 'signed char', 'short', 'int', 'long', 'long long')
                if a and b in (8, 16) and (b < a or signed and 'unsigned' in bare(ty(n))):
                    if isinstance(e, ast.Constant) and isinstance(e.value, int):
                        return ast.Constant(value=e.value & ((1 << b) - 1))
                    return masked(e, b)
                return e
            if ck in ('IntegralToBoolean', 'PointerToBoolean', 'FloatingToBoolean'):
                if strip(x)['kind'] == 'IntegerLiteral':
                    return ast.Constant(value=strip(x)['value'] != '0')
                return ast.Compare(left=self.expr(x), ops=[ast.NotEq()], comparators=[ast.Constant(value=0)])
            if ck == 'BitCast' or k == 'CXXReinterpretCastExpr' and ck != 'NoOp':
                return self.call('bits_as', self.expr(x), ast.Constant(value=n['type']['qualType'].replace('const ', '')))
            if ck in ('IntegralToFloating',):
                return self.call('float', self.expr(x))
            if ck == 'FloatingToIntegral':
                return self.call('int', self.expr(x))
            return self.expr(x)
        if k == 'IntegerLiteral':
            return ast.Constant(value=int(n['value']))
        if k == 'FloatingLiteral':
            return ast.Constant(value=float(n['value']))
        if k == 'CharacterLiteral':
            return ast.Constant(value=int(n['value']))
        if k == 'CXXBoolLiteralExpr':
            return ast.Constant(value=bool(n['value']))
        if k == 'StringLiteral':
            return ast.Constant(value=n['value'])
        if k in ('CXXNullPtrLiteralExpr', 'GNUNullExpr'):
            return ast.Constant(value=0)
        if k == 'DeclRefExpr':
            if n['referencedDecl'].get('kind') == 'EnumConstantDecl' and n['referencedDecl'].get('name') in self.enums:
                return ast.Constant(value=self.enums[n['referencedDecl']['name']])
            if n['referencedDecl'].get('id') in self.subst:
                return self.expr(self.subst[n['referencedDecl']['id']])
            if n['referencedDecl'].get('id') in self.boxed:
                return ast.Subscript(value=ast.Name(id=name(n['referencedDecl']['name']), ctx=ast.Load()), slice=ast.Constant(value=0), ctx=ast.Load())
            return ast.Name(id=name(n['referencedDecl'].get('name', '?')), ctx=ast.Load())
        if k == 'UnresolvedLookupExpr':
            return ast.Name(id=name(n['name']), ctx=ast.Load())
        if k == 'CXXThisExpr':
            return ast.Name(id='self', ctx=ast.Load())
        if k == 'MemberExpr':
            return ast.Attribute(value=self.expr(I[0]), attr=name(n['name']), ctx=ast.Load())
        if k in ('CXXDependentScopeMemberExpr', 'UnresolvedMemberExpr'):
            b = self.expr(I[0]) if I else ast.Name(id='self', ctx=ast.Load())
            return ast.Attribute(value=b, attr=name(self.last(n)), ctx=ast.Load())
        if k == 'CXXDefaultArgExpr':
            raise Unhandled('default argument')
        if k == 'UnaryOperator':
            op = n['opcode']
            if op == '*':
                x = strip(I[0])
                if x['kind'] == 'UnaryOperator' and x['opcode'] == '&':
                    return self.expr(x['inner'][0])
                if x['kind'] == 'CXXThisExpr':
                    return self.expr(x)
                e = self.expr(I[0])
                if not scalar(ty(n)):
                    return e            # a pointer to an object is the object
                if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'addr':
                    return e.args[0]
                return ast.Subscript(value=e, slice=ast.Constant(value=0), ctx=ast.Load())
            if op == '&':
                x = strip(I[0])
                if not scalar(ty(x)):
                    return self.expr(I[0])
                if x['kind'] == 'DeclRefExpr' and x['referencedDecl'].get('id') in self.boxed:
                    return ast.Name(id=name(x['referencedDecl']['name']), ctx=ast.Load())
                return self.call('addr', self.expr(I[0]))
            if op == '!':
                return ast.UnaryOp(op=ast.Not(), operand=self.cond(I[0]))
            if op == '-':
                return ast.UnaryOp(op=ast.USub(), operand=self.expr(I[0]))
            if op == '~':
                return ast.UnaryOp(op=ast.Invert(), operand=self.expr(I[0]))
            if op in ('++', '--'):
                if self.pre is None:
                    raise Unhandled(op)
                (self.post if n.get('isPostfix') else self.pre).append(self.bump(n))
                return self.expr(I[0])
            if op == '+':
                return self.expr(I[0])
            raise Unhandled(op)
        if k == 'BinaryOperator':
            op = n['opcode']
            if op in ('==', '!='):
                for i in (0, 1):
                    v, o = bool_of(I[i]), bool_of(I[1 - i])
                    if v is not None and o is not None and v['kind'] == 'CXXBoolLiteralExpr':
                        e = self.cond(o)      # b == false
                        return e if bool(v['value']) == (op == '==') else ast.UnaryOp(op=ast.Not(), operand=e)
            if op in CMP:
                return ast.Compare(left=self.expr(I[0]), ops=[CMP[op]()], comparators=[self.expr(I[1])])
            if op in ('&&', '||'):
                return ast.BoolOp(op=ast.And() if op == '&&' else ast.Or(), values=[self.cond(x) for x in I])
            if op == '=':
                if self.pre is None:
                    raise Unhandled('assignment')
                self.pre += self.assign(n)
                return self.expr(I[0])
            if op == '/' and all(strip(x)['kind'] == 'UnaryExprOrTypeTraitExpr' for x in I):
                k2 = count_of(*[strip(x) for x in I])
                if k2 is not None:
                    return ast.Constant(value=k2)
            if op in BIN:
                o = BIN[op]
                if op == '/' and any(bare(ty(x)) in ('double', 'float') for x in I):
                    o = ast.Div
                return ast.BinOp(left=self.expr(I[0]), op=o(), right=self.expr(I[1]))
            raise Unhandled(op)
        if k == 'CompoundAssignOperator':
            if self.pre is None:
                raise Unhandled('assignment')
            self.pre += self.assign(n)
            return self.expr(I[0])
        if k == 'ConditionalOperator':
            return ast.IfExp(test=self.cond(I[0]), body=self.expr(I[1]), orelse=self.expr(I[2]))
        if k == 'ArraySubscriptExpr':
            return ast.Subscript(value=self.expr(I[0]), slice=self.expr(I[1]), ctx=ast.Load())
        if k == 'CXXOperatorCallExpr':
            op = opname(n)
            a = I[1:]
            if op == '[]':
                return ast.Subscript(value=self.expr(a[0]), slice=self.expr(a[1]), ctx=ast.Load())
            if op in CMP:
                return ast.Compare(left=self.expr(a[0]), ops=[CMP[op]()], comparators=[self.expr(a[1])])
            if op in ('*', '->') and len(a) >= 1 and refers(a[0]) in self.iters:
                return self.expr(a[0])
            if op == '*' and len(a) == 1:
                return ast.Subscript(value=self.expr(a[0]), slice=ast.Constant(value=0), ctx=ast.Load())
            if op == '->':
                return ast.Subscript(value=self.expr(a[0]), slice=ast.Constant(value=0), ctx=ast.Load())
            if op in ('<<', '>>') and is_stream(n):
                root, parts = stream(n)
                return self.call('streamed', *([self.expr(root)] + [self.expr(p) for p in parts if not manip(p)]))
            if op in BIN and len(a) == 2:
                return ast.BinOp(left=self.expr(a[0]), op=BIN[op](), right=self.expr(a[1]))
            if op in ('++', '--'):
                if called(a[0], ('end', 'begin', 'rbegin', 'rend')) is not None:
                    return ast.BinOp(left=self.expr(a[0]), op=(ast.Add if op == '++' else ast.Sub)(), right=ast.Constant(value=1))
                if self.pre is None:
                    raise Unhandled(op)
                (self.post if len(a) == 2 else self.pre).extend(self.effect(n))
                return self.expr(a[0])
            if op == '()':
                return ast.Call(func=self.expr(a[0]), args=[self.expr(x) for x in a[1:]], keywords=[])
            raise Unhandled('operator' + op)
        if k == 'CXXMemberCallExpr':
            return self.member_call(n)
        if k == 'CallExpr':
            f = strip(I[0])
            args = [x for x in I[1:] if x['kind'] != 'CXXDefaultArgExpr']
            if f['kind'] in ('UnresolvedMemberExpr', 'CXXDependentScopeMemberExpr', 'MemberExpr'):
                return self.member_call(n)
            nm = f.get('name') or f.get('referencedDecl', {}).get('name')
            if nm is None:
                raise Unhandled('call of ' + f['kind'])
            if nm in self.overloads:
                return ast.Call(func=ast.Attribute(value=ast.Name(id='self', ctx=ast.Load()), attr=self.target(nm, args, f), ctx=ast.Load()), args=[self.expr(x) for x in args], keywords=[])
            if nm in ('min', 'max'):
                return self.call(nm, *[self.expr(x) for x in args])
            return self.call(name(nm), *[self.expr(x) for x in args])
        if k == 'InitListExpr' and '[' in n.get('type', {}).get('qualType', ''):
            return ast.List(elts=[self.expr(x) for x in n.get('array_filler', I) if x.get('kind') != 'ImplicitValueInitExpr'], ctx=ast.Load())
        if k == 'CXXConstructExpr' and n.get('ctorType', {}).get('qualType', '').startswith('void (const char *') or k == 'CXXConstructExpr' and len(I) == 2 and strip(I[0])['kind'] == 'StringLiteral':
            return self.expr(I[0])
        if k in ('CXXConstructExpr', 'CXXTemporaryObjectExpr', 'CXXUnresolvedConstructExpr', 'InitListExpr', 'CXXScalarValueInitExpr', 'ImplicitValueInitExpr'):
            args = [x for x in I if x['kind'] != 'CXXDefaultArgExpr']
            t = bare(n.get('type', {}).get('qualType', '?'))
            if t.split('::')[-1] in ('const_iterator', 'iterator') and len(args) == 1:
                return self.expr(args[0])
            if k in ('CXXScalarValueInitExpr', 'ImplicitValueInitExpr'):
                return ast.Constant(value=0)
            if k == 'CXXConstructExpr' and len(args) == 1 and bare(ty(args[0])).split('<')[0].split('::')[-1] == bare(ty(n)).split('<')[0].split('::')[-1]:
                return self.expr(args[0])       # a copy
            if k == 'CXXConstructExpr' and not args:
                return empty(n)
            return self.call('new_' + ''.join(c if c.isalnum() else '_' for c in t), *[self.expr(x) for x in args])
        if k == 'ParenListExpr' and len(I) == 1:
            return self.expr(I[0])
        if k == 'CXXNewExpr':
            x = I[0] if I else None
            return self.call('new', *( [self.expr(x)] if x is not None else []))
        if k in ('UnaryExprOrTypeTraitExpr',):
            t = n.get('argType') or (I and I[0].get('type')) or {}
            b = BITS.get(bare(t.get('desugaredQualType', t.get('qualType', ''))))
            if n.get('name') == 'sizeof' and b:
                return ast.Constant(value=max(b // 8, 1))
            return self.call('sizeof', ast.Constant(value=str(t.get('qualType'))))
        raise Unhandled(k)

    def target(self, nm, args, f):
        ms = [x for x in self.overloads[nm] if any(y['kind'] == 'CompoundStmt' for y in x.get('inner', []))]
        if len(ms) < 2:
            return name(nm)
        fit = [x for x in ms if nparams(x) == len(args)]
        ref = f.get('referencedMemberDecl')
        for x in ms:
            if ref and x.get('id') == ref:
                return self.pyname(x)
        if len(fit) == 1:
            return self.pyname(fit[0])
        return '%s_%d' % (nm, len(args))

    def member_call(self, n):
        f = strip(n['inner'][0])
        args = [x for x in n['inner'][1:] if x['kind'] != 'CXXDefaultArgExpr']
        nm = f.get('name') or self.last(f)
        I = f.get('inner', [])
        base = strip(I[0]) if I else None
        if base is None or base['kind'] == 'CXXThisExpr':
            return ast.Call(func=ast.Attribute(value=ast.Name(id='self', ctx=ast.Load()), attr=self.target(nm, args, f) if nm in self.overloads else name(nm), ctx=ast.Load()),
                            args=[self.expr(x) for x in args], keywords=[])
        b = self.expr(base)
        if nm in ('size', 'length') and not args:
            return self.call('len', b)
        if nm == 'empty' and not args:
            return ast.Compare(left=self.call('len', b), ops=[ast.Eq()], comparators=[ast.Constant(value=0)])
        if nm == 'back' and not args:
            return ast.Subscript(value=b, slice=ast.UnaryOp(op=ast.USub(), operand=ast.Constant(value=1)), ctx=ast.Load())
        if nm == 'front' and not args:
            return ast.Subscript(value=b, slice=ast.Constant(value=0), ctx=ast.Load())
        if nm == 'at' and len(args) == 1:
            return ast.Subscript(value=b, slice=self.expr(args[0]), ctx=ast.Load())
        if nm in RENAME:
            nm = RENAME[nm]
        elif nm in TAKEN:
            nm = 'cpp_' + nm
        return ast.Call(func=ast.Attribute(value=b, attr=name(nm), ctx=ast.Load()), args=[self.expr(x) for x in args], keywords=[])


def scalar(t):
    t = bare(t)
    return t in BITS or t in ('double', 'float', '<dependent type>', 'auto') or t.endswith('*') or t.startswith('enum') or 'type-parameter' in t or len(t) <= 2


def masked(e, b):
    m = (1 << b) - 1
    if isinstance(e, ast.BinOp) and isinstance(e.op, ast.BitAnd):
        for x in (e.left, e.right):
            if isinstance(x, ast.Constant) and isinstance(x.value, int) and 0 <= x.value <= m:
                return e
    return ast.BinOp(left=e, op=ast.BitAnd(), right=ast.Constant(value=m))


def strip(n):
    while n['kind'] in SKIP or (n['kind'] == 'ImplicitCastExpr' and n.get('castKind') in ('FunctionToPointerDecay', 'LValueToRValue', 'NoOp', 'ArrayToPointerDecay')):
        n = n['inner'][0]
    return n


def bool_of(n):
    """The bool expression behind its promotion to int."""
    while n['kind'] in SKIP or n['kind'] == 'ImplicitCastExpr' and bare(ty(n)) != 'bool' and n.get('castKind') in ('IntegralCast', 'LValueToRValue', 'NoOp'):
        n = n['inner'][0]
    return n if bare(ty(n)) == 'bool' else None


def nparams(m):
    return sum(1 for x in m.get('inner', []) if x['kind'] == 'ParmVarDecl')


def opname(n):
    f = strip(n['inner'][0])
    return (f.get('referencedDecl', {}).get('name') or f.get('name', ''))[len('operator'):]


def stream(n):
    """(root, parts) of root << a << b."""
    parts = []
    while n['kind'] == 'CXXOperatorCallExpr' and opname(n) == '<<':
        parts.append(n['inner'][2])
        n = strip(n['inner'][1])
    return (n, parts[::-1]) if is_stream(n) else (None, [])


def manip(n):
    n = strip(n)
    return n['kind'] == 'DeclRefExpr' and n.get('referencedDecl', {}).get('name') in ('endl', 'flush', 'hex', 'dec')


def empty(d):
    t = bare(d.get('type', {}).get('qualType', '')) + ' ' + bare(ty(d))
    h = bare(ty(d)).split('<')[0].split('::')[-1]
    if h in ('vector', 'deque', 'list'):
        return ast.List(elts=[], ctx=ast.Load())
    if h in ('map', 'unordered_map'):
        return ast.Dict(keys=[], values=[])
    if h in ('basic_string', 'string'):
        return ast.Constant(value='')
    return ast.Call(func=ast.Name(id=bare(d['type']['qualType']).split('::')[-1].split('<')[0], ctx=ast.Load()), args=[], keywords=[])


def count_of(a, b):
    """sizeof array / sizeof element"""
    ts = []
    for n in (a, b):
        t = n.get('argType') or (n.get('inner') and strip(n['inner'][0]).get('type')) or {}
        ts.append(t.get('qualType', ''))
    m, n = re.match(r'(.*?)\s*\[(\d+)\](.*)$', ts[0]), ts[1]
    if m and (m.group(1) + m.group(3)).replace(' ', '') == n.replace(' ', ''):
        return int(m.group(2))
    return None


def own(t):
    """A class of these sources, not of the library."""
    return t.split('<')[0].split('::')[-1] in ('LookupCache', 'CloneOp', 'ToggleOp', 'KVStoOp', 'ERefOp', 'KeyEntry', 'ValEntry', 'VecAndLen', 'DecodeEntry', 'BranchEntry')


def refers(n):
    n = strip(n)
    while n['kind'] in ('ImplicitCastExpr', 'CXXConstructExpr') and len(n.get('inner', [])) == 1:
        n = strip(n['inner'][0])
    return n['referencedDecl'].get('id') if n['kind'] == 'DeclRefExpr' else None


def called(n, names):
    """X where the expression is X.name()."""
    n = strip(n)
    while n['kind'] in ('ImplicitCastExpr', 'CXXConstructExpr') and len([x for x in n.get('inner', []) if x['kind'] != 'CXXDefaultArgExpr']) == 1:
        n = strip(n['inner'][0])
    if n['kind'] == 'CXXMemberCallExpr' and len(n['inner']) == 1:
        f = strip(n['inner'][0])
        if f['kind'] == 'MemberExpr' and f.get('name') in names:
            return f['inner'][0]
    return None


def nodes(n):
    todo = [n]
    while todo:
        x = todo.pop()
        if isinstance(x, dict):
            yield x
            todo += x.get('inner', [])


def uses(n, v):
    return sum(1 for x in nodes(n) if x.get('kind') == 'DeclRefExpr' and x.get('referencedDecl', {}).get('id') == v)


def derefs(n, v):
    return sum(1 for x in nodes(n) if x.get('kind') == 'CXXOperatorCallExpr' and opname(x) in ('*', '->') and len(x['inner']) == 2 and refers(x['inner'][1]) == v)


def addressed(m):
    """Local numbers some pointer is made to."""
    out = set()
    for x in nodes(m):
        if x.get('kind') == 'UnaryOperator' and x.get('opcode') == '&':
            y = strip(x['inner'][0])
            if y['kind'] == 'DeclRefExpr' and y['referencedDecl'].get('kind') in ('VarDecl', 'ParmVarDecl') and bare(ty(y)) in BITS:
                out.add(y['referencedDecl']['id'])
    return out


def goes_on(body):
    import shape
    return shape.goes_on(body)


def before_continue(body, step):
    """The loop's step in front of every continue of its own."""
    import copy
    out = []
    for s in body:
        if isinstance(s, ast.Continue):
            out += copy.deepcopy(step)
        elif not isinstance(s, (ast.For, ast.While)):
            for f in ('body', 'orelse', 'finalbody'):
                if getattr(s, f, None):
                    setattr(s, f, before_continue(getattr(s, f), step))
        out.append(s)
    return out


if __name__ == '__main__':
    import sys
    for rel, (m, k, s) in parse_all(sys.argv[1] if len(sys.argv) > 1 else '/repo').items():
        print('#' * 8, rel)
        print(ast.unparse(m))
