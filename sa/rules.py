"""Rules that do not need the reference to be equal text for text."""
import ast

import alias
import names
from project import Cls, Func


def violation(*a):
    from decide import Violation
    return Violation(*a)


def shared(P):
    if not hasattr(P, '_alias'):
        P._alias = alias.Alias(P.cur)
    return P._alias


# -- C02
def no_shared_state(P, r):
    a = shared(P)
    text = 'no code that runs after import changes an object made at import, a class, a function or a module variable, or what a codec was constructed from; ' \
           'exempt: module objects whose every use is a call with a dropped result (statistics), shared objects re-initialised before each use'
    r.rules['shared-state'] = [0, text]
    n = sum(1 for o in set(o for (o, _) in a.heap) | set(x for v in a.heap.values() for x in v) if o[0] in ('L', 'I') and o[1] == 'I')
    r.rules['shared-state'][0] = n
    ok = {}
    for (o, where, line), (what, f) in sorted(a.sites.items(), key=lambda x: (x[0][1], x[0][2], str(x[0][0]))):
        if not f.mod.rel.startswith('compressor/'):
            continue
        if o[0] == 'in' and o[2] == 'headers':
            continue
        if o[0] in ('L', 'I'):
            if o not in ok:
                ok[o] = 'statistics nobody reads' if a.write_only(o) else 're-initialised before each use' if a.scratch(o) else None
                if ok[o]:
                    r.notes.append('shared-state: %s is changed, exempt: %s' % (a.title(o), ok[o]))
            if ok[o]:
                continue
        r.violations.append(violation('shared-state', where, '%s:%s' % (f.mod.rel, line), '%s %s, which other codec instances see as well' % (what, a.title(o))))


# -- C03
def headers_untouched(P, r):
    a = shared(P)
    r.rules['headers-unchanged'] = [len(a.compressors), 'nothing reachable from a codec\'s compress stores into, deletes from, or calls a changing method of the header dictionary '
                                    'it was handed, directly or through any alias']
    for (o, where, line), (what, f) in sorted(a.sites.items(), key=lambda x: (x[0][1], x[0][2], str(x[0][0]))):
        if o[0] == 'in' and o[2] == 'headers':
            r.violations.append(violation('headers-unchanged', where, '%s:%s' % (f.mod.rel, line), '%s %s' % (what, a.title(o))))
    have = set(f.where for f in a.compressors)
    for m in P.ref.mods.values():
        d = m.defs.get('Processor')
        if isinstance(d, Cls) and m.is_pkg and m.rel.startswith('compressor/') and m.rel not in P.cur.mods:
            r.notes.append('codec package %s is gone' % m.rel)
    if not have:
        r.violations.append(violation('headers-unchanged', 'compressor', None, 'no codec class found'))


# -- C01
def resolvable(P, r):
    cur = names.Names(P.cur, shared(P))
    ref = names.Names(P.ref, alias.Alias(P.ref))
    old = set(x.key for x in ref.out if x.rule == 'bound')
    T = {'import': 'every import names a module and members that exist', 'name': 'every name read is bound somewhere visible',
         'attribute': 'every attribute of a module, class, the object itself or an object of known class exists',
         'call': 'every call of a project function or class fits its parameters',
         'bound': 'every local name is bound on every path to its use (paths excluded by correlated conditions were reviewed by hand)'}
    N = {'import': 'imports', 'name': 'names', 'attribute': 'attributes', 'call': 'calls', 'bound': 'functions'}
    for k, t in T.items():
        r.rules['resolves-' + k] = [cur.n.get(N[k], 0) + (cur.n.get('attributes of known objects', 0) if k == 'attribute' else 0), t]
    for x in cur.out:
        if x.rule == 'bound' and x.key in old:
            continue
        r.violations.append(violation('resolves-' + x.rule, x.func, x.line, x.text))
    contract(P, r)


def accepts(f, n):
    """Can a bound method be called with n positional arguments?"""
    a = f.node.args
    k = len(f.params()) - (0 if f.static else 1)
    return (k >= n or a.vararg is not None) and k - len(a.defaults) <= n


def contract(P, r):
    r.rules['codec-contract'] = [0, 'every codec package defines Processor(options, is_request, params) whose construction sets up the base class, with compress(headers, host) and '
                                 'decompress(data); every streamifier package defines Streamifier(codec names) with streamify(messages)']
    rule = r.rules['codec-contract']
    base = P.cur.mods['compressor/__init__.py'].defs.get('BaseProcessor') if 'compressor/__init__.py' in P.cur.mods else None

    def bad(where, text, node=None):
        r.violations.append(violation('codec-contract', where, '%s:%s' % (where.split(':')[0], getattr(node, 'lineno', 1)), text))
    for m in sorted(P.cur.mods.values(), key=lambda m: m.rel):
        p = m.rel.split('/')
        if len(p) == 3 and p[0] == 'compressor' and m.is_pkg:
            d = m.lookup('Processor')
            if not isinstance(d, Cls):
                bad(m.rel + ':<body>', 'the codec package does not define Processor')
                continue
            for meth, n in (('__init__', 3), ('compress', 2), ('decompress', 1)):
                f = d.find(meth)
                rule[0] += 1
                if f is None:
                    if meth == 'compress' or meth == '__init__':
                        bad(d.where, 'Processor has no %s' % meth, d.node)
                elif not accepts(f, n):
                    bad(f.where, '%s does not accept %d arguments' % (meth, n), f.node)
            init = d.methods.get('__init__')
            if init is not None and base is not None and base in d.mro():
                rule[0] += 1
                if not calls_base(init, d) and not covers(P, init, base, d):
                    bad(init.where, 'the constructor does not call the base class constructor and does not set what that sets', init.node)
        if len(p) >= 3 and p[:2] == ['lib', 'streamifiers'] and p[-1] != '__init__.py' or len(p) == 4 and p[:2] == ['lib', 'streamifiers']:
            d = m.lookup('Streamifier')
            if not isinstance(d, Cls):
                bad(m.rel + ':<body>', 'the streamifier module does not define Streamifier')
                continue
            for meth, n in (('__init__', 1), ('streamify', 1)):
                f = d.find(meth)
                rule[0] += 1
                if f is None:
                    bad(d.where, 'Streamifier has no %s' % meth, d.node)
                elif not accepts(f, n):
                    bad(f.where, '%s does not accept %d arguments' % (meth, n), f.node)


def calls_base(init, d):
    for n in ast.walk(init.node):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == '__init__':
            return True
    return False


def covers(P, init, base, d):
    """Does the constructor set what the base class sets and the rest of the program or the class reads?"""
    b = base.methods.get('__init__')
    if b is None:
        return True
    read = set()
    for m in P.cur.mods.values():
        if not m.rel.startswith('compressor/') or m is d.mod or m.rel == 'compressor/__init__.py':
            read |= set(n.attr for n in ast.walk(m.tree) if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load))

    def stores(f):
        return set(n.attr for n in ast.walk(f.node) if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store))
    return not (stores(b) & read) - stores(init)


# -- C23
def cpp_tables(P, r):
    """The initialiser of every FreqTable lists the symbols 0 to 256 in order."""
    import cpp
    r.rules['table-coverage'] = [0, 'the i-th entry of every frequency table is for symbol i, 257 entries in all']
    for rel, name, line, syms in cpp.freq_tables():
        r.rules['table-coverage'][0] += 1
        if syms is None:
            r.notes.append('%s: table %s is not an initialiser list' % (rel, name))
        elif syms != list(range(257)):
            i = next((i for i, x in enumerate(syms) if x != i), len(syms))
            r.violations.append(violation('table-coverage', '%s:%s' % (rel, name), '%s:%s' % (rel, line), 'entry %d of %d is for symbol %s' % (i, len(syms), syms[i] if i < len(syms) else 'none')))


# -- C13, C17, C18, C21: tables that must be unambiguous
def literal(m, *names):
    """(name, node) of a module-level variable, or class attribute, written out as a display."""
    for st in list(m.tree.body) + [x for c in m.tree.body if isinstance(c, ast.ClassDef) for x in c.body]:
        if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name) and st.targets[0].id in names:
            return st.targets[0].id, st.value
    return None, None


def const_of(n):
    try:
        return ast.literal_eval(n)
    except (ValueError, TypeError, SyntaxError):
        return None


def frequency_tables(P, r):
    r.rules['table-coverage'] = [0, 'every frequency table written out has each of the symbols 0 to 256 exactly once, with a non-negative number']
    for rel, m in sorted(P.cur.mods.items()):
        if not rel.endswith('/header_freq_tables.py'):
            continue
        for want in ('request_freq_table', 'response_freq_table'):
            nm, v = literal(m, want)
            t = const_of(v) if v is not None else None
            where = '%s:%s' % (rel, want)
            if not isinstance(t, list):
                r.notes.append('table-coverage: %s is not a list written out' % where)
                continue
            r.rules['table-coverage'][0] += 1
            seen = {}
            bad = None
            for i, x in enumerate(t):
                if not (isinstance(x, (tuple, list)) and len(x) == 2):
                    bad = 'entry %d is not a pair' % i
                    break
                s = ord(x[0]) if isinstance(x[0], (str, bytes)) and len(x[0]) == 1 else x[0]
                if s in seen:
                    bad = 'symbol %r occurs as entries %d and %d' % (s, seen[s], i)
                    break
                seen[s] = i
                if not isinstance(x[1], (int, float)) or x[1] < 0:
                    bad = 'symbol %r has frequency %r' % (s, x[1])
                    break
            if bad is None and set(seen) != set(range(257)):
                d = sorted(set(range(257)) - set(seen), key=str)
                bad = 'symbol %r has no entry' % d[0] if d else 'entry for %r, which is no symbol' % sorted(set(seen) - set(range(257)), key=str)[0]
            if bad:
                r.violations.append(violation('table-coverage', where, '%s:%d' % (rel, v.lineno), bad))


def opcodes(P, r):
    r.rules['opcode-table'] = [0, 'no two operation kinds have the same code, codes fit the 8 bits they are written in, every field of an operation is packed, '
                                  'and every packed field has packing instructions']
    for rel, m in sorted(P.cur.mods.items()):
        if not rel.endswith('/spdy4_codec_impl.py'):
            continue
        nm, v = literal(m, 'opcodes', 'g_opcodes')
        t = const_of(v) if v is not None else None
        onm, ov = literal(m, 'packing_order', 'g_packing_order')
        order = const_of(ov) if ov is not None else None
        inm, iv = literal(m, 'packing_instructions', 'g_default_packing_instructions')
        keys = [const_of(k) for k in iv.keys] if isinstance(iv, ast.Dict) else None
        if not isinstance(t, dict) or not isinstance(order, list) or keys is None:
            r.notes.append('opcode-table: %s: the tables are not written out' % rel)
            continue

        def bad(text):
            r.violations.append(violation('opcode-table', '%s:%s' % (rel, nm), '%s:%d' % (rel, v.lineno), text))
        codes = {}
        for k, x in t.items():
            r.rules['opcode-table'][0] += 1
            if not isinstance(x, tuple) or not x or not isinstance(x[0], int) or not 0 <= x[0] < 256:
                bad('%s has no code of 8 bits' % k)
            elif x[0] in codes:
                bad('%s and %s have the same code %d' % (codes[x[0]], k, x[0]))
            else:
                codes[x[0]] = k
                for f in x[1:]:
                    if f not in order:
                        bad('field %s of %s is never packed' % (f, k))
        for f in order:
            if order.count(f) > 1:
                bad('field %s is packed twice' % f)
            if f not in keys:
                bad('field %s has no packing instructions' % f)


def abbreviations(P, r):
    r.rules['abbreviations'] = [0, 'no two names share an abbreviation, and none contains what separates references, or starts like an escaped or special name, or is the reference field']
    for rel, m in sorted(P.cur.mods.items()):
        if not rel.startswith('compressor/simple/'):
            continue
        nm, v = literal(m, 'lookups')
        if not isinstance(v, ast.Dict):
            continue
        seen = {}
        for k, x in zip(v.keys, v.values):
            k, a = const_of(k), const_of(x)
            r.rules['abbreviations'][0] += 1
            if not isinstance(a, str) or not isinstance(k, str):
                continue
            bad = None
            if a in seen and seen[a] != k:
                bad = '%r and %r are both abbreviated %r' % (seen[a], k, a)
            elif a == 'ref' or a == '' or a[0] in '!:' or ',' in a or ':' in a or a != a.lower():
                bad = '%r is abbreviated %r, which reads as something else' % (k, a)
            seen[a] = k
            if bad:
                r.violations.append(violation('abbreviations', '%s:%s' % (rel, nm), '%s:%d' % (rel, x.lineno), bad))


def registered(P, r):
    r.rules['registered-names'] = [0, 'each registered header name is listed once and its place fits the 7 bits it is written in']
    for rel in ('compressor/bohe/bohe.py', 'compressor/delta_bohe/bohe.py', 'compressor/delta2_bohe/bohe.py'):
        m = P.cur.mods.get(rel)
        if m is None:
            continue
        nm, v = literal(m, 'ID_TABLE')
        t = const_of(v) if v is not None else None
        if not isinstance(t, (list, tuple)):
            continue
        r.rules['registered-names'][0] += len(t)
        bad = 'registered name %r is listed twice' % next(x for x in t if t.count(x) > 1) if len(set(t)) != len(t) else None
        if len(t) > 126:
            bad = '%d names do not fit 7 bits' % len(t)
        if bad:
            r.violations.append(violation('registered-names', '%s:%s' % (rel, nm), '%s:%d' % (rel, v.lineno), bad))


RULES = {'C13': [opcodes], 'C17': [frequency_tables], 'C18': [abbreviations], 'C21': [registered], 'C23': [cpp_tables], 'C01': [resolvable], 'C02': [no_shared_state], 'C03': [headers_untouched]}


def run(pid, P, r, tier):
    for f in RULES.get(pid, ()):
        f(P, r)


def describe(pid):
    """technique, level, level_note for the manifest."""
    from table import CPP, TABLE
    extra = EXTRA.get(pid, '')
    if pid not in TABLE:
        return extra, 'other', NOTES.get(pid, '')
    t = 'dataflow normal forms of every anchored function (syntax tree to SSA with helpers inlined, canonical effects and guards) compared with a reviewed reference'
    if pid in CPP:
        t = 'C++ methods translated from clang\'s type-checked syntax tree to the same intermediate form; ' + t
    if extra:
        t += '; ' + extra
    return t, 'translation_validation', NOTE


EXTRA = {
    'C13': 'consistency of the operation tables',
    'C17': 'symbol coverage of the frequency tables',
    'C18': 'uniqueness of the abbreviations',
    'C21': 'uniqueness of the registered names',
    'C23': 'symbol coverage of the C++ frequency tables',
    'C01': 'name, import, attribute and call-arity resolution over the whole program, attribute resolution on points-to sets, definite assignment',
    'C02': 'two-phase (import time, run time) points-to analysis and mutation analysis of everything allocated at import',
    'C03': 'points-to analysis of the header dictionary handed to compress, with every mutation site of its aliases',
}
NOTES = {
    'C01': 'Types are inferred by points-to sets of project classes; attributes of values of unknown type are checked only against the names that exist anywhere. '
           'External packages (publicsuffix, hpack, werkzeug, bitarray) are taken on trust.',
    'C02': 'Inclusion-based points-to analysis, context-insensitive within each phase; setattr/exec/ctypes tricks and objects reached only through values of unknown external type are outside.',
    'C03': 'Inclusion-based points-to analysis, flow-sensitive in locals; the values of the dictionary are strings and cannot be changed in place.',
}
NOTE = ('A function passes when its canonical effects - calls, stores, returns, raises, with arguments, conditions, loops and relevant order - '
        'equal those of the reviewed reference in /verif/spec/ref, so the verdict covers every input, history and configuration, relative to that review. '
        'Assumes the language semantics of the normal form (no monkey patching, project classes resolved statically, library calls opaque).')
