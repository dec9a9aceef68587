"""Decides one property: reference conformance plus the property's rules."""
import conform
import load
import project
import table
from load import AnalysisBroken


class Violation:
    def __init__(self, rule, where, line, text):
        self.rule, self.where, self.line, self.text = rule, where, line, text

    @property
    def key(self):
        return '%s@%s' % (self.rule, self.where)

    def brief(self):
        return '%s %s %s: %s' % (self.rule, self.where, self.line or '', self.text[:400])

    def full(self):
        return '%s: [%s] %s\n    %s' % (self.line or self.where, self.rule, self.where, self.text[:3000])


class Result:
    level = 'translation_validation'

    def __init__(self, pid):
        self.pid = pid
        if pid not in table.TABLE:
            self.level = 'other'
        self.violations, self.notes = [], []
        self.functions = self.changed = self.effects = self.checked = 0
        self.samples = []
        self.rules = {}          # rule -> [obligations, text]

    def coverage(self):
        rules = {k: {'obligations': n, 'rule': t} for k, (n, t) in sorted(self.rules.items())}
        if self.pid not in table.TABLE:
            return {
                'explanation': 'every obligation of every rule below was checked on the current source: '
                               + '; '.join('%s: %d' % (k, v['obligations']) for k, v in rules.items()),
                'obligations': sum(v['obligations'] for v in rules.values()), 'rules': rules, 'notes': self.notes[:20],
            }
        return {
            'programs': self.functions, 'disagreements_checked': self.checked,
            'functions_whose_text_changed': self.changed,
            'effects_compared': self.effects,
            'samples': self.samples[:12],
            'rules': {k: {'obligations': n, 'rule': t} for k, (n, t) in sorted(self.rules.items())},
            'rule': 'every anchored function of the current tree has the same canonical effects (calls, stores, returns, raises, their '
                    'arguments, conditions, loops and relevant order) as the reviewed reference, and every rule below holds',
        }

    def summary(self):
        if self.pid not in table.TABLE:
            return '%d rule obligations (%s), %d violations' % (
                sum(n for n, t in self.rules.values()), ', '.join('%s %d' % (k, v[0]) for k, v in sorted(self.rules.items())), len(self.violations))
        return '%d functions compared with the reviewed reference (%d changed in text, %d effects), %d rule obligations, %d violations' % (
            self.functions, self.changed, self.effects, sum(n for n, t in self.rules.values()), len(self.violations))


def pair(pid=None):
    if pid in table.CPP:
        import cpp
        fs = table.CPP[pid]
        return conform.Pair(project.Project(load.SPEC + '/ref', cpp.parse_all(load.SPEC + '/ref', fs)), project.Project(None, cpp.parse_all(None, fs)))
    return conform.Pair(project.Project(load.SPEC + '/ref'), project.Project())


def decide(pid, tier, P=None):
    import rules
    r = Result(pid)
    P = P or pair(pid)
    P.tier = tier
    sel = table.select(pid, P.ri)
    if pid in table.TABLE and not sel:
        raise AnalysisBroken('no anchored function found')
    for w in sel:
        conformance(r, P, w, tier)
    rules.run(pid, P, r, tier)
    return r


def conformance(r, P, w, tier):
    rel = w.split(':')[0]
    if rel not in P.cur.mods:
        raise AnalysisBroken('anchor vanished: file %s' % rel)
    r.functions += 1
    same = P.locate(w) is not None and P.untouched(w)
    if not same:
        r.changed += 1
    if same and tier == 'thorough':
        P.untouched_off = True
    d = P.verdict(w)
    n = P.count(w)
    r.effects += n
    if len(r.samples) < 6 or not same:
        r.samples.append('%s: %s, %d effects, %s' % (w, 'text unchanged' if same else 'text changed', n,
                                                     'equivalent' if not d else '%d differences' % len(d)))
    if not d:
        return
    r.checked += len(d)
    keep = [x for x in d if relevant(rel, x)]
    unsure = [x for x in keep if not x.conf]
    sure = [x for x in keep if x.conf]
    if not sure:
        for x in unsure:
            r.notes.append('%s: not decided (%s): %s' % (w, x.why or 'out of reach', x.text[:200]))
        return
    for x in sure:
        r.violations.append(Violation('behaves-as-reviewed', w, x.line or line_of(P, w), '%s: %s' % (x.kind, x.text)))


def line_of(P, w):
    f = P.locate(w)
    return '%s:%s' % (f.mod.rel, f.node.lineno) if f is not None else None


def relevant(rel, d):
    if table.loud(rel):
        return True
    return not d.trace
