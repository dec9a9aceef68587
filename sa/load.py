"""Parse every Python module of the repository into Python 3 ``ast`` trees.

Python 3 sources are parsed by ``ast``; sources only a Python 2 parser accepts
are parsed by Jython's ``ast`` (the interpreter the repository's own tests use)
and their trees translated node by node.  Nothing of the repository is
imported or executed.
"""
import ast
import hashlib
import json
import os
import subprocess
import sys

REPO = os.environ.get('VERIF_REPO', '/repo')
HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(os.path.dirname(HERE), 'spec')      # reviewed reference sources


class AnalysisBroken(Exception):
    """The analysis cannot give an answer (missing anchor, unparsable file)."""


def py_files(base=None):
    base = base or REPO
    out = []
    for root, dirs, files in os.walk(base):
        dirs[:] = sorted(d for d in dirs if d not in ('.git', '__pycache__', 'test', 'tests'))
        for f in sorted(files):
            if f.endswith('.py') and not f.endswith('_test.py'):
                out.append(os.path.relpath(os.path.join(root, f), base))
    return sorted(out)


# ---------------------------------------------------------------- py2 -> py3
def _s(codes):
    return ''.join(chr(c) for c in codes)


def _val(d):
    k = d['_c']
    if k in 'us':
        return _s(d['v'])
    if k == 'i':
        return int(d['v'])
    return float(d['v'])


def _conv(d):
    if d is None or isinstance(d, (bool, int, float, str)):
        return d
    if isinstance(d, list):
        return [_conv(x) for x in d]
    if '_c' in d:
        return _val(d)
    t = d['_']
    loc = {k: d[k] for k in ('lineno', 'col_offset') if k in d}

    def N(cls, **kw):
        n = cls(**kw)
        for k, v in loc.items():
            setattr(n, k, v)
        return n

    def C(x):
        return _conv(d.get(x))

    def call(name, args, kws=()):
        return N(ast.Call, func=N(ast.Name, id=name, ctx=ast.Load()),
                 args=args, keywords=list(kws))
    if t == 'Str':
        return N(ast.Constant, value=C('s'), kind=None)
    if t == 'Num':
        return N(ast.Constant, value=C('n'), kind=None)
    if t == 'Name':
        i = C('id')
        if i in ('None', 'True', 'False'):
            return N(ast.Constant, value={'None': None, 'True': True,
                                          'False': False}[i], kind=None)
        ctx = C('ctx')
        return N(ast.Name, id=i, ctx=ctx if isinstance(ctx, (ast.Load, ast.Store, ast.Del)) else ast.Load())
    if t == 'Param':
        return ast.Store()
    if t in ('Load', 'Store', 'Del', 'AugLoad', 'AugStore'):
        return {'Load': ast.Load, 'AugLoad': ast.Load, 'Del': ast.Del}.get(t, ast.Store)()
    if t == 'Print':
        kws = []
        if d.get('dest') is not None:
            kws.append(ast.keyword(arg='file', value=C('dest')))
        return N(ast.Expr, value=call('print', C('values') or [], kws))
    if t == 'Exec':
        return N(ast.Expr, value=call('exec', [C('body')]))
    if t == 'Repr':
        return call('repr', [C('value')])
    if t == 'Raise':
        exc = C('type')
        if d.get('inst') is not None:
            exc = N(ast.Call, func=exc, args=[C('inst')], keywords=[])
        return N(ast.Raise, exc=exc, cause=None)
    if t == 'TryExcept':
        return N(ast.Try, body=C('body'), handlers=C('handlers'),
                 orelse=C('orelse') or [], finalbody=[])
    if t == 'TryFinally':
        return N(ast.Try, body=C('body'), handlers=[], orelse=[],
                 finalbody=C('finalbody'))
    if t == 'ExceptHandler':
        nm = C('name')
        return N(ast.ExceptHandler, type=C('type'),
                 name=nm.id if isinstance(nm, ast.Name) else None, body=C('body'))
    if t == 'With':
        if 'items' in d:
            return N(ast.With, items=C('items'), body=C('body'))
        return N(ast.With, items=[ast.withitem(context_expr=C('context_expr'),
                                               optional_vars=C('optional_vars'))],
                 body=C('body'))
    if t == 'arguments':
        args, pre = [], []
        for a in C('args') or []:
            if isinstance(a, ast.Name):
                args.append(N2(ast.arg, a, arg=a.id, annotation=None))
            else:
                args.append(ast.arg(arg='_tuple%d' % len(args), annotation=None))
        va, kw = C('vararg'), C('kwarg')
        return ast.arguments(posonlyargs=[], args=args,
                             vararg=ast.arg(arg=va, annotation=None) if va else None,
                             kwonlyargs=[], kw_defaults=[],
                             kwarg=ast.arg(arg=kw, annotation=None) if kw else None,
                             defaults=C('defaults') or [])
    if t == 'Call':
        args = C('args') or []
        if d.get('starargs') is not None:
            args.append(N(ast.Starred, value=C('starargs'), ctx=ast.Load()))
        kws = C('keywords') or []
        if d.get('kwargs') is not None:
            kws.append(ast.keyword(arg=None, value=C('kwargs')))
        return N(ast.Call, func=C('func'), args=args, keywords=kws)
    if t == 'FunctionDef':
        return N(ast.FunctionDef, name=C('name'), args=C('args'), body=C('body'),
                 decorator_list=C('decorator_list') or [], returns=None, type_params=[])
    if t == 'ClassDef':
        return N(ast.ClassDef, name=C('name'), bases=C('bases') or [], keywords=[],
                 body=C('body'), decorator_list=C('decorator_list') or [], type_params=[])
    if t == 'Index':
        return C('value')
    if t == 'comprehension':
        return ast.comprehension(target=C('target'), iter=C('iter'),
                                 ifs=C('ifs') or [], is_async=0)
    if t == 'Module':
        return ast.Module(body=C('body'), type_ignores=[])
    if t == 'ImportFrom':
        return N(ast.ImportFrom, module=C('module') or None, names=C('names'),
                 level=C('level') or 0)
    if t == 'ExtSlice':
        return N(ast.Tuple, elts=C('dims'), ctx=ast.Load())
    if t == 'Ellipsis':
        return N(ast.Constant, value=Ellipsis, kind=None)
    cls = getattr(ast, t)
    kw = {f: C(f) for f in cls._fields if f in d}
    return N(cls, **kw)


def N2(cls, like, **kw):
    n = cls(**kw)
    n.lineno = getattr(like, 'lineno', 0)
    n.col_offset = getattr(like, 'col_offset', 0)
    return n


_CACHE = {}
_DUMPS = None


def _dumps():
    """Syntax trees of Python 2 sources by digest of their text: those of the
    reference sources are kept, so only a file that differs is parsed again."""
    global _DUMPS
    if _DUMPS is None:
        path = os.path.join(SPEC, 'py2ast.json')
        _DUMPS = {}
        if os.path.exists(path):
            with open(path) as fh:
                _DUMPS = json.load(fh)
    return _DUMPS


def digest(raw):
    return hashlib.sha256(raw).hexdigest()


def jython_dump(paths):
    env = dict(os.environ)
    env.pop('JYTHONPATH', None)
    p = subprocess.run(['/usr/bin/jython', '-B', '-Dpython.cachedir.skip=true',
                        os.path.join(HERE, 'py2dump.py')] + paths,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env,
                       timeout=300)
    if p.returncode != 0:
        raise AnalysisBroken('jython failed: %s' % p.stderr.decode('utf-8', 'replace')[-400:])
    return json.loads(p.stdout.decode('ascii'))


def read_all(base):
    """{relpath: (digest, tree or None for Python 2, source)}"""
    import warnings
    out = {}
    for rel in py_files(base):
        with open(os.path.join(base, rel), 'rb') as fh:
            raw = fh.read()
        try:
            src = raw.decode('utf-8')
        except UnicodeDecodeError:
            src = raw.decode('latin-1')
        tree = None
        try:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                tree = ast.parse(src, rel)
        except SyntaxError:
            pass
        out[rel] = (digest(raw), tree, src)
    return out


def parse_all(base=None):
    """{relpath: (ast.Module, 'py3'|'py2', source)}"""
    base = base or REPO
    if base in _CACHE:
        return _CACHE[base]
    out, files = {}, read_all(base)
    dumps = dict(_dumps())
    todo = [r for r, (dg, t, s) in files.items() if t is None and dg not in dumps]
    if todo:
        data = jython_dump([os.path.join(base, r) for r in todo])
        for r in todo:
            dumps[files[r][0]] = data[os.path.join(base, r)]
    for rel, (dg, tree, src) in files.items():
        if tree is not None:
            out[rel] = (tree, 'py3', src)
            continue
        d = dumps[dg]
        if 'error' in d:
            raise AnalysisBroken('cannot parse %s: %s' % (rel, d['error']))
        m = _conv(d)
        ast.fix_missing_locations(m)
        out[rel] = (m, 'py2', src)
    _CACHE[base] = out
    return out


if __name__ == '__main__':
    for rel, (m, k, s) in sorted(parse_all().items()):
        ast.unparse(m)
        print(rel, k, len(list(ast.walk(m))))
