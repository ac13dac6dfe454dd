"""The language properties: generated and hand-written programs, judged by
Conform.tla."""
import algol
import conform
import gen
import p_matrix
from conform import Case

# what the generated programs of a property consist of
PROFILES = dict(
    C01=dict(depth=2, edepth=5, prnt=12, assign=8, loop=1.5, block=0.5, call=1.5, goto=0.3, text=0.1, side=0.45,
             fcall=1.2, power=1.0, condx=1.6, boolv=0.7, real=0.7, procs=(0, 2), stmts=(6, 11), budget=700),
    C03=dict(loop=14, prnt=5, assign=5, cond=2, goto=1.5, text=0.1, side=0.3, procs=(0, 2), depth=4, arrays=(1, 2),
             edepth=2, budget=900),
    C04=dict(procs=(2, 5), call=12, byname=0.75, parr=0.5, plab=0.35, psw=0.25, pproc=0.55, pstr=0.15, rec=0.6,
             passon=0.5, side=0.3, fcall=2.5, goto=1, text=0.2, edepth=3, depth=2, nest=3, local=0.3, budget=600),
    C05=dict(procs=(2, 4), block=8, call=8, own=0.45, shadow=0.7, rec=0.7, nest=3, local=0.45, depth=4, edepth=2,
             pproc=0.4, goto=2, text=0.1, arrays=(0, 2), budget=600),
    C06=dict(goto=12, cond=10, jswitch=2.5, comp=4, nop=1.5, plab=0.5, psw=0.4, loop=4, block=4, procs=(1, 3),
             depth=4, edepth=2, text=0.1, boolv=0.6, condx=1.5, budget=600),
    C07=dict(arrays=(2, 5), arr=5, parr=1.2, own=0.3, loop=5, call=5, edepth=3, procs=(1, 3), real=0.7, text=0.1,
             budget=700),
    C09=dict(text=12, prnt=8, pstr=0.9, call=6, procs=(1, 3), edepth=2, budget=400),
    ALL=dict(),
)


def generated(ck, prof, n, base=0, fuel=None):
    fuel = fuel or ck.n(10000, 40000)
    cs = []
    for k in range(n):
        s = ck.seed * 1000003 + base + k
        cs.append(Case(gen.program('%s-%d' % (prof, s), PROFILES[prof]), name='gen-%s-%d' % (prof, s), fuel=fuel))
    return cs


def nesting(t):
    """how many blocks, procedures, for statements and calls lie within each other"""
    if not isinstance(t, (tuple, list)) or not t:
        return 0
    own = isinstance(t, tuple) and t[0] in ('bl', 'dp', 'for', 'ca', 'fc')
    return own + max(nesting(x) for x in t)


def deeper(t, seed):
    """the same program in further blocks, some blocks having many variables"""
    import random
    r = random.Random('deep' + seed)
    count = [0]

    def pad():
        count[0] += 1
        n = r.choice([20, 60, 130, 250, 270, 480, 520])
        return ('dv', r.choice('IIB'), False, ['%s%d' % ('xyz'[count[0] - 1], i) for i in range(100, 100 + n)])

    def walk(x, p):
        if isinstance(x, list):
            return [walk(y, p) for y in x]
        if not isinstance(x, tuple) or not x:
            return x
        y = tuple(walk(z, p) for z in x)
        if y[0] == 'bl' and count[0] < 3 and r.random() < p:
            y = ('bl', [pad()] + list(y[1]), y[2])
        return y

    if r.random() < 0.5:
        t = walk(t, r.choice([0.1, 0.3, 0.6]))
    room = 27 - nesting(t)
    for k in range(r.choice([0, room, room, r.randint(0, max(0, room))])):
        w = 'w%d' % k
        t = ('bl', [('dv', 'I', False, [w])],
             [('as', [gen.V(w)], gen.I(k)), t] + ([gen.pr(gen.V(w))] if r.random() < 0.2 else []))
    return t


def deep(ck, prof, n, base=500000, fuel=None):
    cs = []
    for k in range(n):
        s = '%s-%d' % (prof, ck.seed * 1000003 + base + k)
        cs.append(Case(deeper(gen.program(s, PROFILES[prof]), s), name='deep-%s' % s, fuel=fuel or ck.n(10000, 40000)))
        cs[-1].may = True
    return cs


def run(ck, cases, batch=1200):
    for k in range(0, len(cases), batch):
        ck.conformance(cases[k:k + batch])
        if len(ck.viol) >= 3:
            return


def lang(ck, q=450, t=9000, qall=120, tall=2500, extra=()):
    p = ck.prop
    run(ck, ck.corpus(p) + list(extra) + generated(ck, p, ck.n(q, t)) + deep(ck, p, ck.n(100, 2000)) + generated(ck, 'ALL', ck.n(qall, tall)))


def c01(ck):
    lang(ck, 300, 6000, 80, 1500, extra=p_matrix.cases(ck, p_matrix.operands, ck.n(120, 3000), 'ops'))


def c03(ck):
    lang(ck, 350, 9000, 80, 2500, extra=p_matrix.cases(ck, p_matrix.loops, ck.n(500, 12000), 'loop', fuel=20000))


def c04(ck):
    lang(ck, extra=p_matrix.cases(ck, p_matrix.formals, ck.n(300, 6000), 'formal'))


def examples(ck, fuel):
    """the example programs of the repository"""
    import glob
    import os
    import parse
    import x1
    out = []
    inp = dict(lisp=b'(car (quote (a b)))\n')
    for f in sorted(glob.glob(os.path.join(x1.REPO, 'examples', '*.a60'))):
        n = os.path.basename(f)[:-4]
        if n in ('bulls_and_cows', 'time'):     # not for the parser, depends on the clock
            continue
        t = open(f, encoding='utf-8').read()
        out.append(Case(parse.parse(t, True), src=t, inp=inp.get(n, b''), name='example-' + n, fuel=fuel))
    return out


def c05(ck):
    lang(ck, extra=examples(ck, ck.n(9000, 60000)))


def c06(ck):
    lang(ck, extra=p_matrix.cases(ck, p_matrix.exits, ck.n(250, 5000), 'exit'))


def c07(ck):
    lang(ck, 250, 5000, 60, 1200, extra=p_matrix.cases(ck, p_matrix.arrays, ck.n(300, 6000), 'arr'))


def c09(ck):
    lang(ck, 150, 3000, 50, 500, extra=texts(ck, ck.n(400, 8000)))


def c17(ck):
    run(ck, ck.corpus('C17') + p_matrix.cases(ck, p_matrix.powers, ck.n(500, 9000), 'pow') + faults(ck, ck.n(700, 12000)) + generated(ck, 'ALL', ck.n(100, 1500)))


# ------------------------------------------------------------------ text output
SYMS = list('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789') + \
    list('+-×/÷↑>≥=≤<≠¬∧∨⊃≡,.⏨:;()[]"? ') + [':=', '\t', '\n', ' ', 'end', '  ', '0', '-1']


def rtext(r, n, depth=2):
    out = []
    while len(out) < n:
        if depth and r.random() < 0.05:
            out.append('`' + rtext(r, r.randint(0, 6), depth - 1) + "'")
        else:
            out.append(r.choice(SYMS))
    return ''.join(out)


def text_program(seed):
    import random
    r = random.Random(seed)
    V, I, CALL = gen.V, gen.I, gen.CALL

    def string():
        return ('str', rtext(r, r.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 20, 33, 64, 150])).encode())

    ds = [('dv', 'I', False, ['k', 'n'])]
    nl = r.randint(1, 4)
    for j in range(nl):
        # levels of passing a string down, with something in front and behind
        body = []
        if r.random() < 0.5:
            body.append(CALL('PRINTTEXT', string()))
        body.append(CALL('PRINTTEXT', V('s')) if j == nl - 1 else CALL('q%d' % (j + 1), V('s'), V('t')))
        if r.random() < 0.6:
            body.append(CALL('PRINTTEXT', V('t')))
        if r.random() < 0.3:
            body.append(CALL('PRINTTEXT', string()))
        ds.append(('dp', '', 'q%d' % j, ['s', 't'], [], [('string', 's'), ('string', 't')], ('co', body)))
    ss = []
    for _ in range(r.randint(4, 14)):
        k = r.random()
        if k < 0.3:
            s = CALL('PRINTTEXT', string())
        elif k < 0.5:
            s = CALL('q%d' % r.randint(0, nl - 1), string(), string())
        elif k < 0.68:
            s = CALL('PRSYM', I(r.randint(0, 127)))
        elif k < 0.74:
            s = CALL('NLCR')
        elif k < 0.8:
            s = CALL('TAB')
        elif k < 0.88:
            s = CALL('SPACE', I(r.choice([0, 1, 2, 7, 30])))
        elif k < 0.95:
            s = gen.pr(I(r.randint(0, 3000)))
        else:
            a = r.randint(0, 118)
            s = ('for', V('k'), [('es', I(a), I(1), I(a + r.randint(0, 9)))], CALL('PRSYM', V('k')))
        ss.append(s)
    end = r.random()
    if end < 0.2:
        ss.insert(r.randint(1, len(ss)), ('as', [V('n')], gen.B('//', I(1), V('n'))))
    elif end < 0.3:
        ss.append(('as', [V('n')], gen.B('*', I(60000000), I(2))))
    return ('bl', ds, ss)


def texts(ck, n, base=0):
    return [Case(text_program('t%d' % (ck.seed * 1000003 + base + k)), name='text-%d' % (ck.seed * 1000003 + base + k))
            for k in range(n)]


# -------------------------------------------------------------- run-time errors
def fault(r):
    """a statement with an operation without defined result (mostly)"""
    V, I, B, FC, R, CALL = gen.V, gen.I, gen.B, gen.FC, gen.R, gen.CALL
    zero = r.choice([I(0), B('-', V('gc'), V('gc')), B('*', I(0), V('k1')), FC('sign', I(0))])
    ie = [lambda: B('//', r.choice([I(7), V('gc'), I(0)]), zero),
          lambda: B('+', I(67108863), I(r.randint(1, 5))),
          lambda: B('-', ('un', '-', I(67108000)), I(r.randint(864, 5000))),
          lambda: B('^', I(r.choice([2, 3, 10, 17])), I(r.randint(27, 40))),
          lambda: B('^', I(0), zero),
          lambda: FC('entier', R('1', '', r.choice([9, 20, 100]))),
          lambda: FC('entier', ('un', '-', R('7', '5', 8))),
          lambda: B('//', R('5', '5'), I(2)),
          lambda: B('//', I(5), R('2', '0')),
          lambda: FC('read')]
    re_ = [lambda: B('/', r.choice([R('1', '5'), V('gc'), I(1)]), zero),
           lambda: B('/', R('2', '25'), B('-', R('0', '5'), R('0', '5'))),
           lambda: B('*', R('1', '', 500), R('1', '', r.choice([120, 200, 500]))),
           lambda: B('*', R('1', '', -500), R('1', '', -200)),
           lambda: B('/', R('1', '', 500), R('1', '', -300)),
           lambda: B('^', R('1', '', 300), I(3)),
           lambda: FC('sqrt', ('un', '-', R('2', '25'))),
           lambda: B('^', R('0', '0'), zero),
           lambda: FC('ln', zero),
           lambda: FC('ln', ('un', '-', R('1', '5')))]
    fine = [lambda: B('+', I(67108863), I(0)), lambda: B('-', I(-67108863), I(0)), lambda: B('^', I(2), I(25)),
            lambda: B('//', I(0), I(5)), lambda: FC('entier', R('67108862', '5')), lambda: FC('sqrt', I(0)),
            lambda: B('*', I(60000000), I(2)), lambda: B('/', I(0), R('1', '5'))]
    k = r.random()
    if k < 0.1:
        e = r.choice(fine)()
    else:
        e = r.choice(ie if r.random() < 0.55 else re_)()
    w = r.random()
    if w < 0.2:
        e = ('if', r.choice([('b', True), ('b', False), B('<', V('gc'), I(3))]), e, I(4))
    elif w < 0.3:
        e = B(r.choice('+-*'), FC('abs', I(3)), e)
    elif w < 0.4:
        e = B('+', e, I(1))
    form = r.randint(0, 9)
    tgt = V('gc')
    if form <= 1:
        return gen.pr(I(71), e, I(72))
    if form == 2:
        return ('as', [tgt], B('*', I(0), e))
    if form == 3:
        return ('ifs', B('<', e, I(3)), gen.pr(I(1)), gen.pr(I(2)))
    if form == 4:     # by name: the error comes at the use
        return ('bl', [('dp', '', 'zq', ['x', 'n'], [], [('real', 'x'), ('integer', 'n')],
                        ('co', [gen.pr(V('n')), ('ifs', B('>', V('n'), I(r.choice([0, 5]))), gen.pr(V('x')), None),
                                gen.pr(I(9))]))],
                [CALL('zq', e, I(r.choice([3, 7])))])
    if form == 5:     # a subscript
        t = r.choice('IRB')
        lo, n = r.randint(-5, 5), r.randint(1, 6)
        two = r.random() < 0.4
        bad = r.choice([lo - 1, lo + n, lo + n + 3, lo - 4, lo, lo + n - 1, lo - 1000, lo + 30000])
        bnd = [(I(lo), I(lo + n - 1))] + ([(I(1), I(3))] if two else [])
        ix = [B('+', I(bad), zero)] + ([I(r.choice([0, 1, 3, 4, 9]))] if two else [])
        if two and ix[1][1] in (0, 4):
            ix[0] = I(lo if ix[1][1] == 0 else lo + n - 1)
        el = ('ix', 'zr', ix)
        val = {'I': I(5), 'R': R('2', '5'), 'B': ('b', True)}[t]
        nb = [('da', t, False, [(['zp', 'zr', 'zs'], bnd)])]
        acc = ('as', [el], val) if r.random() < 0.5 or True else gen.pr(el)
        rd = [] if r.random() < 0.5 else [gen.pr(el)]
        return ('bl', nb, [gen.pr(I(5)), acc] + rd + [gen.pr(I(6))])
    if form == 6:     # a real variable of an inner block that has no value
        return ('bl', [('dv', 'R', False, ['zu', 'zv'])],
                [('as', [V(r.choice(['zu', 'zv']))], R('1', '5')), gen.pr(V(r.choice(['zu', 'zv'])))])
    if form == 7:     # assignment to an expression or constant
        act = r.choice([B('+', V('gc'), I(1)), I(3), V('gc'), ('if', ('b', True), V('gc'), V('k1')),
                        ('un', '-', V('gc')), FC('abs', V('gc'))])
        return ('bl', [('dp', '', 'zq', ['x'], [], [('integer', 'x')],
                        ('co', [gen.pr(V('x')), ('as', [V('x')], I(4)), gen.pr(V('x'))]))], [CALL('zq', act)])
    if form == 8:     # conversion of a value parameter, an assignment
        big = r.choice([R('1', '', 8), R('67108863', '4'), R('67108863', '6'), ('un', '-', R('9', '', 9)), R('3', '6')])
        if r.random() < 0.5:
            return ('co', [('as', [tgt], big), gen.pr(tgt)])
        return ('bl', [('dp', '', 'zq', ['x'], [('x', 'sc', 'I')], [('integer', 'x')], gen.pr(V('x')))],
                [CALL('zq', big)])
    return ('co', [gen.pr(I(8)), ('as', [tgt], e), gen.pr(I(9))])


def insertions(t, path=()):
    """paths of the statement lists of t"""
    if isinstance(t, tuple):
        if t and t[0] in ('bl', 'co'):
            yield path + (len(t) - 1,)
        for i, x in enumerate(t):
            if isinstance(x, (tuple, list)):
                yield from insertions(x, path + (i,))
    elif isinstance(t, list):
        for i, x in enumerate(t):
            if isinstance(x, (tuple, list)):
                yield from insertions(x, path + (i,))


def modify(t, path, f):
    if not path:
        return f(t)
    i = path[0]
    y = modify(t[i], path[1:], f)
    return t[:i] + ([y] if isinstance(t, list) else (y,)) + t[i + 1:]


def faulty(seed):
    import random
    r = random.Random('f' + seed)
    t = gen.program(seed, dict(budget=250, stmts=(3, 6), procs=(0, 2)))
    for _ in range(r.choice([1, 1, 2, 3])):
        places = list(insertions(t))
        p = r.choice(places)

        def ins(l):
            lo = 0
            # behind the initialisations of the outermost block most of the time
            if p == (2,):
                lo = min(len(l), 4)
            k = r.randint(lo, len(l))
            return l[:k] + [fault(r)] + l[k:]
        t = modify(t, p, ins)
    return t


def faults(ck, n):
    out = []
    for k in range(n):
        s = ck.seed * 1000003 + k
        inp = [b'', b'12', b'1.5', b'3 4 5'][k % 4]
        out.append(Case(faulty('e%d' % s), inp=inp, name='fault-%d' % s))
    return out
