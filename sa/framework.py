"""Obligations, known findings, evidence."""
import json, os, sys, time, traceback
from .evalform import compare, Undecided
from .values import *

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, 'known_findings.txt')


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop = prop
        self.tier = tier
        self.seed = seed
        self.obs = []          # dict(name, status, detail, where, rule)
        self.notes = []
        self.analysed = set()
        self.callsites = set()
        self.t0 = time.time()
        self.runs = []

    @property
    def thorough(self):
        return self.tier == 'thorough'

    # ---- recording
    def ob(self, name, status, detail='', where='', rule=''):
        """status: 'ok' | 'violated' | 'undecided'"""
        self.obs.append(dict(name=name, status=status, detail=str(detail)[:600], where=where, rule=rule))
        return status

    def eq(self, name, value, spec, where='', rule='', tol=1e-6, **kw):
        """the extracted value equals the specification in every random model"""
        if value is None or not (isinstance(value, Arr) or callable(value)):
            return self.ob(name, 'undecided', 'value not resolved: %s' % (str(value)[:120],), where, rule)
        seeds = tuple(range(1, 13)) if self.thorough else (1, 2, 3, 4, 5)
        try:
            r, d = compare(value, spec, tol=tol, seeds=seeds, **kw)
        except RecursionError:
            r, d = 'undecided', 'recursion'
        if r == 'differs':
            f = getattr(value, 'form', None)
            d += ' ; form: ' + (str(f)[:250] if f is not None else '')
        return self.ob(name, {'ok': 'ok', 'differs': 'violated'}.get(r, 'undecided'), d, where, rule)

    def true(self, name, cond, detail='', where='', rule=''):
        return self.ob(name, 'undecided' if cond is None else 'ok' if cond else 'violated', detail, where, rule)

    def run(self, run):
        self.runs.append(run)
        for e in run.I.events:
            if e.func not in ('?', '') and e.file:
                self.analysed.add('%s:%s' % (e.file, e.func))
        self.analysed |= {"%s:%s" % x for x in run.I.analysed}
        self.callsites |= run.I.callsites
        return run

    # ---- end
    def finish(self, level='other', explanation='', assumptions=()):
        known = load_known().get(self.prop, [])
        viol, findings = [], []
        seen = set()
        for o in self.obs:
            if o['status'] != 'violated':
                continue
            k = [x for x in known if x[0] == o['name']]
            if k:
                if o['name'] not in seen:
                    findings.append((o, k[0][1]))
                    seen.add(o['name'])
            else:
                viol.append(o)
        os.makedirs(os.path.join(VERIF, 'evidence', 'replay'), exist_ok=True)
        n = dict(ok=0, violated=0, undecided=0)
        for o in self.obs:
            n[o['status']] += 1
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=level,
                  coverage=dict(
                      explanation=explanation,
                      obligations=len(self.obs), discharged=n['ok'],
                      undecided=n['undecided'], violated=n['violated'],
                      known_findings=[o['name'] for o, _ in findings],
                      functions_analysed=sorted(x for x in self.analysed if x),
                      call_sites=len(self.callsites),
                      abstract_runs=[r.name for r in self.runs],
                      samples=[{k: o[k] for k in ('name', 'status', 'detail', 'where', 'rule') if o[k]} for o in self.obs][:400]),
                  assumptions=list(assumptions), wall_s=round(time.time() - self.t0, 2), violations=len(viol))
        if level == 'proof':
            ev['coverage'].update(checker_cmd='python3 check.py %s' % self.prop, trusted_base=['sa/'])
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        for o, what in findings:
            print('KNOWN-FINDING: property=%s %s' % (self.prop, what))
        print('%s: %d obligations, %d hold, %d undecided, %d known findings, %d violations (%.1f s)' % (
            self.prop, len(self.obs), n['ok'], n['undecided'], len(findings), len(viol), time.time() - self.t0))
        names = set()
        for i, o in enumerate(viol):
            if o['name'] in names or len(names) > 40:
                continue
            names.add(o['name'])
            p = os.path.join('evidence', 'replay', '%s-%d.json' % (self.prop, i))
            with open(os.path.join(VERIF, p), 'w') as f:
                json.dump(dict(property=self.prop, **o), f, indent=1)
            if len(names) <= 12:
                print('  %s  [%s] %s' % (o['name'], o['where'], o['detail'][:300]))
                print('VIOLATION property=%s replay=%s' % (self.prop, p))
        sys.stdout.flush()
        return 1 if viol else 0


def load_known():
    out = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.rstrip('\n')
            if l.startswith('finding: '):
                head, _, what = l[len('finding: '):].partition(' :: ')
                kv = dict(x.split('=', 1) for x in head.split(' ', 1))
                out.setdefault(kv['property'], []).append((kv['key'], what))
    return out
