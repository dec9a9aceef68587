# Runs under Jython 2.7: parse Python 2 files and dump their syntax trees.
# Reads nothing but the files named on the command line, executes none of them.
import ast
import sys
import json


def dump(node):
    if isinstance(node, ast.AST):
        d = {'_': node.__class__.__name__}
        for a in ('lineno', 'col_offset'):
            if hasattr(node, a):
                d[a] = getattr(node, a)
        for f in node._fields or ():
            d[f] = dump(getattr(node, f, None))
        return d
    if isinstance(node, (list, tuple)):
        return [dump(x) for x in node]
    if node is None:
        return None
    if isinstance(node, bool):
        return node
    if isinstance(node, unicode):
        return {'_c': 'u', 'v': [ord(c) for c in node]}
    if isinstance(node, str):
        return {'_c': 's', 'v': [ord(c) for c in node]}
    if isinstance(node, (int, long)):
        return {'_c': 'i', 'v': str(node)}
    if isinstance(node, float):
        return {'_c': 'f', 'v': repr(node)}
    if isinstance(node, complex):
        return {'_c': 'f', 'v': '0.0'}
    raise TypeError(repr(type(node)))


out = {}
for path in sys.argv[1:]:
    fh = open(path)
    src = fh.read()
    fh.close()
    try:
        out[path] = dump(ast.parse(src, path))
    except SyntaxError:
        out[path] = {'error': str(sys.exc_info()[1])}
json.dump(out, sys.stdout)
