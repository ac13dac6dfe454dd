"""What all checks share: the decision procedure around the conformance driver,
known findings, replay files, evidence, exit status."""
import json
import os
import random
import sys
import time
import traceback
import algol
import conform
import parse
import tlc
import x1

EVID = os.path.join(x1.VERIF, 'evidence')
FINDINGS = os.path.join(x1.VERIF, 'known_findings.txt')


class Check:
    def __init__(self, prop, level='model_checking'):
        self.prop = prop
        self.tier = 'thorough' if os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
        self.quick = self.tier == 'quick'
        try:
            self.seed = int(os.environ.get('VERIF_SEED', '1'))
        except ValueError:
            self.seed = 1
        self.rng = random.Random('%s/%d' % (prop, self.seed))
        self.level = level
        self.t0 = time.time()
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[])
        self.viol = []
        self.notes = []
        self.known = self.load_known()
        self.seen_known = {}
        self._X = None

    # ------------------------------------------------------------- utilities
    @property
    def X(self):
        if self._X is None:
            self._X = x1.build(tools=True)
        return self._X

    def left(self, budget):
        return budget - (time.time() - self.t0)

    def n(self, q, t):
        return q if self.quick else t

    def count(self, key, k=1):
        self.cov[key] = self.cov.get(key, 0) + k

    def log(self, *a):
        print('[%s %5.1fs]' % (self.prop, time.time() - self.t0), *a, flush=True)

    def load_known(self):
        res = {}
        if os.path.exists(FINDINGS):
            for line in open(FINDINGS):
                line = line.strip()
                if line.startswith('known: property=%s ' % self.prop):
                    rest = line.split(' ', 2)[2]
                    key, _, what = rest.partition(' ')
                    res[key] = what
        return res

    def sample(self, x):
        if len(self.cov['samples']) < 4:
            self.cov['samples'].append(x)

    # ------------------------------------------------------------- violations
    def violation(self, key, what, data=None):
        """key: identifies the failing input among the known findings"""
        if key in self.known:
            self.seen_known[key] = self.known[key]
            return False
        os.makedirs(EVID, exist_ok=True)
        path = os.path.join(EVID, 'replay-%s-%d.txt' % (self.prop, len(self.viol) + 1))
        with open(path, 'w') as f:
            f.write('property %s: %s\n' % (self.prop, what))
            f.write('case: %s   (VERIF_SEED=%d VERIF_TIER=%s)\n' % (key, self.seed, self.tier))
            if data:
                f.write('\n' + data + '\n')
        self.viol.append(path)
        self.log('violation', key, what[:300])
        return True

    # ------------------------------------------------------------- conformance
    def conformance(self, cases, budget=None, timeout=6, runner=None, maxviol=3, reduce=True):
        """run the programs on the implementation, let TLC judge them"""
        X = self.X
        tmo = [timeout]
        slow = [0]

        def one(c):
            c.res = runner(X, c, tmo[0]) if runner else X.run(c.src, c.inp, tmo[0], tz=c.tz)
            if c.res.timeout:
                slow[0] += 1
                if slow[0] > 16:
                    tmo[0] = 2
        x1.pmap(one, cases)
        tot = self.judge(cases)
        bads = [c for c in cases if conform.bad(c)]
        again = 0
        for c in bads:
            if len(self.viol) >= maxviol or again >= 12:
                break
            again += 1
            # once more, with more time, before it counts
            v0 = c.verdict
            c.res = runner(X, c, 30) if runner else X.run(c.src, c.inp, 30, tz=c.tz)
            conform.judge([c], show=True)
            if not conform.bad(c):
                self.notes.append('a first result of %s was not confirmed: %s' % (c.name, v0))
                continue
            if c.name in self.known:
                self.seen_known[c.name] = self.known[c.name]
                continue
            full = self.describe(c)
            small = ''
            if reduce and not self.viol and c.tree is not None and runner is None and self.left(500) > 0:
                try:
                    d = conform.reduce(X, c, rounds=12, limit=100, deadline=time.time() + 60)
                    if d is not c:
                        conform.judge([d], show=True)
                        small = '--- a smaller program with the same disagreement\n' + self.describe(d) + '\n'
                except (tlc.TlcError, x1.BuildError, ValueError):
                    pass
            self.violation(c.name, 'the program does not behave as the specification says (%s)' % c.verdict[0],
                           small + '--- as found\n' + full)
        good = sum(1 for c in cases if c.verdict[0] == 'ok')
        self.cov['traces_validated_against_impl'] += good
        self.count('programs', len(cases))
        self.count('undecided_fuel', sum(1 for c in cases if c.verdict[0] in ('fuel', 'skip')))
        if cases:
            for c in (cases[0], cases[len(cases) // 2]):
                self.sample({'case': c.name, 'source': c.src[:1500], 'input': c.inp.decode('latin-1')[:200],
                             'output': c.res.out.decode('utf-8', 'replace')[:300], 'exit': c.res.rc,
                             'verdict': c.verdict[:4]})
        return bads

    def judge(self, cases, show=False):
        for attempt in (1, 2):
            try:
                tot = conform.judge(cases, show=show)
                break
            except tlc.TlcError:
                if attempt == 2:
                    raise
        self.cov['states'] += tot['distinct']
        self.cov['transitions'] += tot['transitions']
        return tot

    def describe(self, c):
        v = c.verdict
        out = b''.join(bytes(i[1]) if i[0] == 't' else ('<%s>' % (i,)).encode() for i in (v[4] or []))
        return ('%s\ninput: %r\nspecified: %s %s, output %r\nobserved: exit %d, output %r\nmessage %r\nverdict: %s\n'
                % (c.src, c.inp, v[1], v[2], out.decode('utf-8', 'replace'), c.res.rc,
                   c.res.out.decode('utf-8', 'replace')[:3000], c.res.err.decode('utf-8', 'replace')[:500], v[0]))

    # ------------------------------------------------------------- corpus
    def corpus(self, *names):
        """cases of /verif/corpus/<name>.alg: programs separated by lines of =====,
        optional lines '#in: text' giving the input"""
        res = []
        for nm in names:
            txt = open(os.path.join(x1.VERIF, 'corpus', nm + '.alg'), encoding='utf-8').read()
            for k, part in enumerate(txt.split('\n=====')):
                part = part.lstrip('=').strip()
                inp = b''
                body = []
                for line in part.split('\n'):
                    if line.startswith('#in:'):
                        inp += line[4:].strip().encode('utf-8').decode('unicode_escape').encode('utf-8')
                    elif not line.startswith('#'):
                        body.append(line)
                text = '\n'.join(body).strip()
                if text:
                    res.append(conform.Case(parse.program(text), inp=inp, name='%s-%d' % (nm, k + 1)))
        return res

    # ------------------------------------------------------------- end
    def finish(self):
        for k, w in self.seen_known.items():
            print('KNOWN-FINDING: property=%s %s %s' % (self.prop, k, w))
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=self.level, coverage=self.cov,
                  wall_s=round(time.time() - self.t0, 2), violations=len(self.viol))
        if self.notes:
            ev['assumptions'] = [str(x)[:300] for x in self.notes[:20]]
        os.makedirs(EVID, exist_ok=True)
        tmp = os.path.join(EVID, '.%s.json' % self.prop)
        with open(tmp, 'w') as f:
            json.dump(ev, f, indent=1, ensure_ascii=False)
        os.replace(tmp, os.path.join(EVID, self.prop + '.json'))
        self.log('done: %s' % {k: v for k, v in self.cov.items() if k != 'samples'})
        for p in self.viol:
            print('VIOLATION property=%s replay=%s' % (self.prop, p))
        return 1 if self.viol else 0
