"""Deciding programs: run them on the implementation and let the specification
Conform.tla judge what happened."""
import json
import os
import algol
import tlc
import x1


class Case:
    """one program: tree, source text, input"""
    def __init__(self, tree, src=None, inp=b'', name='', fuel=30000):
        self.tree, self.inp, self.name, self.fuel = tree, inp, name, fuel
        self.src = src if src is not None else algol.source(tree)
        self.res = None
        self.rnd = []
        self.may = False
        self.tz = None
        self.verdict = None


def observe(X, cases, timeout=20, runner=None):
    def one(c):
        c.res = runner(X, c) if runner else X.run(c.src, c.inp, timeout, tz=c.tz)
    x1.pmap(one, cases)


def judge(cases, show=False, batch=2000, heap='10g'):
    """let TLC judge; sets c.verdict = (verdict, st, why, steps, out)"""
    total = dict(states=0, distinct=0, runs=0)
    for k in range(0, len(cases), batch):
        part = cases[k:k + batch]
        P = []
        for c in part:
            P.append({"x": 0, "nodes": algol.flatten(c.tree), "input": list(c.inp), "out": list(c.res.out[:300000]),
                      "rc": 137 if c.res.timeout else c.res.rc if c.res.rc >= 0 else 255, "msg": bool(c.res.err.strip()),
                      "fuel": c.fuel, "show": show, "clk": list(c.res.clk), "rnd": c.rnd, "may": c.may})
        fn = os.path.join(x1.scratch(), 'progs-%d-%d.json' % (id(cases), k))
        with open(fn, 'w') as f:
            json.dump(P, f)
        R = tlc.run('Conform', env={'PROGS': fn}, heap=heap, timeout=800)
        if not R.ok:
            keep = os.environ.get('X1_KEEP')
            if keep:
                import shutil
                shutil.copy(fn, keep)
            raise tlc.TlcError(R.text[-6000:])
        os.unlink(fn)
        total['states'] += R.distinct
        total['distinct'] += R.distinct
        total['transitions'] = total.get('transitions', 0) + R.generated - len(part)
        total['runs'] += 1
        for v in R.lines('@V'):
            part[v[0] - 1].verdict = v[1:]
    for c in cases:
        if c.verdict is None:
            raise tlc.TlcError('no verdict for a program')
    return total


GOOD = ('ok', 'fuel', 'skip', 'refused')


def bad(c):
    return c.verdict[0] not in GOOD


# ------------------------------------------------------------------- reduction
def variants(t):
    """smaller trees derived from t by one change"""
    if not isinstance(t, tuple):
        return
    k = t[0]
    # replace by a part
    if k in ('ifs',):
        yield t[2]
        if t[3] is not None:
            yield t[3]
            yield (k, t[1], t[2], None)
    if k == 'for':
        yield t[3]
        if len(t[2]) > 1:
            for i in range(len(t[2])):
                yield (k, t[1], t[2][:i] + t[2][i + 1:], t[3])
    if k == 'lb':
        yield t[2]
    if k in ('as', 'ca', 'go', 'ifs', 'for', 'bl', 'co'):
        yield ('nop',)
    if k == 'co' and len(t[1]) == 1:
        yield t[1][0]
    if k == 'bl':
        yield ('co', t[2])
        for i in range(len(t[1])):
            yield (k, t[1][:i] + t[1][i + 1:], t[2])
        n = len(t[2])
        for w in (n // 2, n // 4):
            if w > 1:
                for i in range(0, n, w):
                    yield (k, t[1], t[2][:i] + t[2][i + w:])
        for i in range(n):
            yield (k, t[1], t[2][:i] + t[2][i + 1:])
    if k == 'co':
        for i in range(len(t[1])):
            yield (k, t[1][:i] + t[1][i + 1:])
    if k == 'dv' and len(t[3]) > 1:
        for i in range(len(t[3])):
            yield (k, t[1], t[2], t[3][:i] + t[3][i + 1:])
    if k == 'ca' and t[1] == 'print' and len(t[2]) > 1:
        for i in range(len(t[2])):
            yield (k, t[1], t[2][:i] + t[2][i + 1:])
    if k == 'as' and len(t[1]) > 1:
        for i in range(len(t[1])):
            yield (k, t[1][:i] + t[1][i + 1:], t[2])
    if k == 'bi':
        if t[1] in ('+', '-', '*', '//', '/', '^', 'and', 'or', 'imp', 'eqv'):
            yield t[2]
            yield t[3]
    if k == 'un':
        yield t[2]
    if k == 'if':
        yield t[2]
        yield t[3]
    if k == 'fc' and len(t[2]) > 0:
        yield t[2][-1]
    if k in ('fc', 'ix', 'v'):
        yield ('i', 1)
    # change a part
    for i, x in enumerate(t):
        if isinstance(x, tuple):
            for y in variants(x):
                yield t[:i] + (y,) + t[i + 1:]
        elif isinstance(x, list):
            for j, z in enumerate(x):
                if isinstance(z, tuple) and z and isinstance(z[0], str):
                    for y in variants(z):
                        yield t[:i] + (x[:j] + [y] + x[j + 1:],) + t[i + 1:]


def reduce(X, case, rounds=40, limit=160, log=None, same=None, deadline=None):
    import random
    r = random.Random(1)
    cur = case
    cur.fuel = max(500, 3 * case.verdict[3])
    same = same or (lambda c, v: v[0] == c[0])
    kind = case.verdict
    ek = case.res.err[:20]
    import time
    for _ in range(rounds):
        if deadline and time.time() > deadline:
            break
        vs = []
        for t in variants(cur.tree):
            if t[0] not in ('bl',):
                continue
            try:
                v = Case(t, inp=cur.inp, fuel=cur.fuel)
                v.rnd, v.tz = cur.rnd, cur.tz
                vs.append(v)
            except ValueError:
                pass
        vs.sort(key=lambda c: len(c.src))
        if len(vs) > limit:
            vs = vs[:limit // 2] + r.sample(vs[limit // 2:], limit // 2)
        observe(X, vs, timeout=2)
        vs = [v for v in vs if b'compiler' not in v.res.err and len(v.src) < len(cur.src)
              and v.res.err[:20] == ek]
        if not vs:
            break
        try:
            judge(vs)
        except tlc.TlcError as e:
            if log:
                log('spec error while reducing ' + str(e)[-300:])
            break
        good = [v for v in vs if v.verdict[0] == kind[0] and v.verdict[1] == kind[1] and v.verdict[2] == kind[2]]
        if not good:
            break
        good.sort(key=lambda c: len(c.src))
        cur = good[0]
        if log:
            log('%d' % len(cur.src))
    return cur
