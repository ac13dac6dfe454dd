"""C18: histories of compiling and running (Session.tla)."""
import hashlib
import json
import os
import random
import re
import shutil
import gen
import p_input
import p_lang
import tlc
import x1

LINE = re.compile(rb'^([0-7]{5}): ([0-7]{2}) ([0-7]{2}) ([0-7]{5}) ', re.M)
OTHER = re.compile(rb'^(       (Memory (Read|Write)|Stack|Display|A =|B =|C =|S =|SP =|FP =|Change)[^\n]*|[0-7]{5}: [^\n]*|--- [^\n]*|X1 Algol Simulator Version[^\n]*)$', re.M)
JUMPS = (0o5220,)


def follow(addr, w):
    """address of the order that must come next, -1 where the spec of this
    module does not say"""
    op = w >> 15
    if op in (0o0220, 0o0020, 0o4220, 0o1220, 0o0040, 0o4200, 0o1200):    # loads and the like
        return addr + 1
    if op == 0o5220:
        return w & 0o77777
    return -1


def trace(text):
    t = [(int(a, 8), int(b, 8) << 21 | int(c, 8) << 15 | int(d, 8)) for a, b, c, d in LINE.findall(text)]
    h = hashlib.sha256(repr(t).encode()).hexdigest() if t else ''
    s = [[a, w, follow(a, w)] for a, w in t]
    if len(s) > 260:
        s = s[:200] + [[s[200][0], s[200][1], -1]] + s[-40:]
    return s, h


def act(X, d, a, inp, timeout=20):
    obj = d + '/p.x1'
    tf = d + '/t.txt'
    if os.path.exists(tf):
        os.unlink(tf)
    if a == 'comp':
        r = X.exec([X.comp, 'p.a60', X.lib], d, b'', timeout)
        with open(obj, 'wb') as f:
            f.write(r.out)
        out = b''
    else:
        k = a.split('-')
        args = []
        o = k[1] if len(k) > 1 else ''
        if 'd' in o:
            args.append('-d')
        if 't' in o:
            args.append('--trace=t.txt')
        r = X.exec([X.sim] + args + [('p.a60' if k[0] == 'src' else 'p.x1')], d, inp, timeout, maxout=16 << 20)
        out = r.out
    tr = b''
    if a.endswith('-d'):
        tr = out
        out = OTHER.sub(b'', out)
        out = out.replace(b'\n\n', b'\n') if len(out) > 20000 else out
    elif os.path.exists(tf):
        tr = open(tf, 'rb').read()
    t, h = trace(tr)
    if a.endswith('-d'):
        # an order that follows output without a new line is not at the
        # beginning of a line
        t = [[x[0], x[1], -1] for x in t]
    return dict(act=a, out=list(out), err=r.err.decode('latin-1'), rc=r.rc if not r.timeout else 137,
                obj=hashlib.sha256(open(obj, 'rb').read()).hexdigest() if os.path.exists(obj) else '', tr=t, trh=h)


def history(X, src, inp, acts, timeout=20):
    d = X.newdir()
    with open(d + '/p.a60', 'wb') as f:
        f.write(src)
    rec = [act(X, d, a, inp, timeout) for a in acts]
    shutil.rmtree(d, ignore_errors=True)
    return rec


def verdicts(ck, recs):
    fn = os.path.join(x1.scratch(), 'hist.json')
    with open(fn, 'w') as f:
        json.dump(recs, f)
    R = tlc.run('Session', env={'HISTS': fn}, timeout=400)
    if not R.ok:
        raise tlc.TlcError(R.text[-3000:])
    ck.cov['states'] += R.distinct
    ck.cov['transitions'] += R.generated
    return {v[0]: v for v in R.lines('@W')}


def c18(ck):
    X = ck.X
    R = tlc.run('Session')
    if not R.ok:
        raise tlc.TlcError(R.text[-3000:])
    hists = R.lines('@H')
    ck.rng.shuffle(hists)
    if not ck.quick:
        hists = hists * 5
    hists = hists * 2
    ck.count('histories_enumerated', len(hists))
    srcs = []
    base = ck.seed * 1000003
    fuel = 4000
    pool = []
    n = len(hists)
    pool += p_lang.generated(ck, 'ALL', n // 2, base=500000)
    pool += p_lang.faults(ck, n // 4)
    pool += [p_input_case(ck, k) for k in range(n - len(pool) - len(ck.corpus('C20')))]
    pool += ck.corpus('C20')[:-1]
    work = [(c, h) for c, h in zip(pool, hists)]
    ck.log('%d histories' % len(work))

    def one(w):
        c, h = w
        return history(X, c.src.encode('utf-8') if isinstance(c.src, str) else c.src, c.inp, h)
    # programs that run long have long traces: not here
    short = x1.pmap(lambda w: X.run(w[0].src, w[0].inp, 3).timeout, work)
    work = [w for w, s in zip(work, short) if not s]
    recs = x1.pmap(one, work)
    ck.log('recorded')
    keep = [k for k, r in enumerate(recs) if max(len(x['out']) for x in r) < (2000 if any(x['act'][3:] == '-d' for x in r) else 30000) and not any(x['rc'] == 137 for x in r)]
    work = [work[k] for k in keep]
    recs = [recs[k] for k in keep]
    for k in range(0, len(recs), 1500):
        bad = verdicts(ck, recs[k:k + 1500])
        for i in sorted(bad):
            if len(ck.viol) >= 3:
                return
            c, h = work[k + i - 1]
            rec = history(X, c.src.encode('utf-8'), c.inp, h, 60)
            b2 = verdicts(ck, [rec])
            if not b2:
                # a difference between runs is itself the violation: try again
                for _ in range(3):
                    rec = history(X, c.src.encode('utf-8'), c.inp, h, 60)
                    b2 = verdicts(ck, [rec])
                    if b2:
                        break
            v = b2[1] if b2 else bad[i]
            rec = rec if b2 else recs[k + i - 1]
            ck.violation('session:%s:%s' % (c.name, '+'.join(h)), 'step %d: %s' % (v[1], v[2]),
                         '%s\ninput %r\nhistory %s\n%s' % (c.src, c.inp, h, '\n'.join(
                             '%s: exit %d message %r output %r object %s trace %d orders %s'
                             % (x['act'], x['rc'], x['err'][:200], bytes(x['out'])[:400], x['obj'][:12], len(x['tr']), x['trh'][:12]) for x in rec)))
        ck.cov['traces_validated_against_impl'] += len(recs[k:k + 1500]) - len(bad)
    ck.count('programs', len(recs))
    for c, h in work[:2]:
        ck.sample({'history': h, 'source': c.src[:800]})


def p_input_case(ck, k):
    from conform import Case
    import parse
    r = p_input.program('%d' % (ck.seed * 1000003 + 700000 + k))
    return r if isinstance(r, Case) else Case(r[0], inp=r[1], name='inp-%d' % k)
