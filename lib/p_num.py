"""C02: numbers at the edges of the formats, through every route of operands."""
import random
import parse
import p_lang
import p_matrix
from conform import Case

MAXI = 67108863


def mant(r):
    k = r.random()
    if k < 0.12:
        m = 1 << 39
    elif k < 0.24:
        m = (1 << 40) - 1
    elif k < 0.34:
        m = (1 << 39) + r.choice([1, 2, 3, 4, 5])
    elif k < 0.42:
        m = (1 << 40) - r.choice([1, 2, 3, 4, 5])
    elif k < 0.6:
        m = (1 << 39)
        for _ in range(r.randint(1, 4)):
            m |= 1 << r.randrange(40)
    elif k < 0.7:
        m = ((1 << 40) - 1) & ~(1 << r.randrange(39))
    elif k < 0.8:
        m = r.randint(1, 4000) << 28
        while m < 1 << 39:
            m <<= 1
        while m >= 1 << 40:
            m >>= 1
    else:
        m = r.randint(1 << 39, (1 << 40) - 1)
    return m


def real(r, e=None, hint=None):
    """text of an expression with exactly the wanted 40-bit value (m * 2^e)"""
    m = mant(r)
    if e is None:
        e = r.choice([0, -39, -40, r.randint(-60, 20), r.randint(-60, 20), r.randint(-2087, 2007),
                      r.choice([-2088, -2087, -2086, 2006, 2007])])
    s = r.choice(['', '', '-'])
    hi, lo = m >> 20, m & 0xfffff
    t = '(%s(%d * 1048576.0 + %d.0)' % (s, hi, lo)
    if e >= 0:
        while e > 1000:
            t += ' * 2.0 ^ 1000'
            e -= 1000
        if e:
            t += ' * 2.0 ^ %d' % e
    else:
        e = -e
        while e > 1000:
            t += ' / 2.0 ^ 1000'
            e -= 1000
        t += ' / 2.0 ^ %d' % e
    return t + ')'


def integer(r):
    k = r.random()
    if k < 0.3:
        v = r.choice([MAXI, MAXI - 1, 1 << 25, (1 << 25) - 1, (1 << 25) + 1, 8191, 8192, 8193, 0, 1, 2])
    elif k < 0.5:
        v = r.randint(0, 20)
    elif k < 0.7:
        v = r.randint(0, 9000)
    else:
        v = r.randint(0, MAXI)
    return v if r.random() < 0.5 else -v


def lit(v):
    return str(v) if v >= 0 else '(-%d)' % -v


def program(seed):
    r = random.Random('num' + seed)
    L = []
    show = lambda x: L.append('print(%s, %s + %s, 4 * %s, 8 * %s); NLCR' % ((x,) * 5))
    routes = ['sa sb', 'la lb', 'fa fb', 'sa lb', 'la fb', 'fa sb', 'ar[1] la', 'la ar[2]', 'sb sb', 'fa fa',
              'vx lb', '(sa) (lb)', 'rf(sa) lb']
    iroutes = ['si sj', 'li lj', 'fi fj', 'si lj', 'li fj', 'fi sj', 'ai[1] li', 'li ai[2]', '(si) (lj)', 'iff(si) lj']
    tgt = {'sa': 'sa', 'la': 'la', 'fa': 'sa', 'ar[1]': 'ar[1]', 'sb': 'sb', 'lb': 'lb', 'fb': 'sb', 'ar[2]': 'ar[2]',
           '(sa)': 'sa', '(lb)': 'lb', 'rf(sa)': 'sa', 'vx': None}
    itgt = {'si': 'si', 'sj': 'sj', 'li': 'li', 'lj': 'lj', 'fi': 'si', 'fj': 'sj', 'ai[1]': 'ai[1]', 'ai[2]': 'ai[2]',
            '(si)': 'si', '(lj)': 'lj', 'iff(si)': 'si'}
    edge = r.random() < 0.15
    for _ in range(r.randint(5, 12)):
        k = r.random()
        if k < 0.36:
            a, b = r.choice(routes).split()
            if tgt[a]:
                e = r.randint(-60, 20) if not edge else None
                L.append('%s := %s' % (tgt[a], real(r, e)))
                if tgt[a] != tgt[b]:
                    f = (e if e is not None else 0) + r.choice([0, 1, -1, 2, -2, 38, 39, 40, 41, -39, -40, -41, 80,
                                                               r.randint(-45, 45), r.randint(-45, 45)])
                    L.append('%s := %s' % (tgt[b], real(r, f if e is not None else None)))
            op = r.choice('+-*/+-')
            L.append('lr := %s %s %s' % (a, op, b))
            show('lr')
            if r.random() < 0.5:
                L.append('print(%s); NLCR' % ', '.join('%s %s %s' % (a, o, b) for o in
                                                       r.sample(['<', '<=', '=', '#', '>', '>='], 3)))
        elif k < 0.66:
            a, b = r.choice(iroutes).split()
            v, w = integer(r), integer(r)
            op = r.choice(['+', '-', '*', '//', '/', '+', '-', '^'])
            if op in ('+', '-') and r.random() < 0.6:
                # at the limit, mostly inside
                t = r.choice([MAXI, -MAXI]) + (r.choice([-1, 0, 1]) if r.random() < 0.15 else 0) * (1 if v >= 0 else 1)
                t = max(-MAXI - 1, min(MAXI + 1, t))
                w = t - v if op == '+' else v - t
                if abs(w) > MAXI:
                    w = integer(r) // 2
                    v = v // 2
            if op == '*' and r.random() < 0.6:
                v = r.choice([2, 3, 5, 7, 8191, 8192, 9, -9, 8193, 0])
                w = r.choice([MAXI, MAXI // v, MAXI // v + 1, -(MAXI // v)]) if v else -5
                if r.random() < 0.3:
                    # exactly the limit, or one less
                    v, w = r.choice([(3, 22369621), (8191, 8193), (2731, 24573), (24573, 2731), (1, MAXI), (2, MAXI // 2),
                                     (8193, 8191), (4096, 16383), (11, 6100805)])
                    v, w = v * r.choice([1, -1]), w * r.choice([1, -1])
                w = max(-MAXI, min(MAXI, w))
            if op in ('+', '-') and abs(v + w if op == '+' else v - w) > MAXI and r.random() < 0.85:
                v //= 2
                w //= 2
            if op == '^':
                v = r.choice([2, -2, 3, -3, 5, 7, 10, 1, -1, 0, 17, 8191])
                w = r.choice([0, 1, 2, 3, 5, 25, 26, 10, -1, -2, -3, -5, -25])
                if r.random() < 0.85 and (abs(v) ** max(w, 0) > MAXI or v == 0 and w <= 0):
                    w = 1
            if op in ('//', '/') and w == 0:
                w = 3
            L.append('%s := %s' % (itgt[a], lit(v)))
            L.append('%s := %s' % (itgt[b], lit(w)))
            whole = v * w if op == '*' else v ** w if op == '^' and w >= 0 else 0
            if op in '*^' and r.random() < 0.5 and (abs(whole) <= MAXI or r.random() < 0.05):
                # still an integer
                L.append('print((%s %s %s) // %s); NLCR' % (a, op, b, r.choice(['1', '1', '2', '3', '(-7)'])))
            if op in ('*', '/', '^'):
                L.append('lr := %s %s %s' % (a, op, b))
                show('lr')
                if r.random() < 0.3:
                    L.append('print(%s %s %s); NLCR' % (a, op, b))
            else:
                L.append('print(%s %s %s); NLCR' % (a, op, b))
            if r.random() < 0.3:
                L.append('print(%s); NLCR' % ', '.join('%s %s %s' % (a, o, b) for o in
                                                       r.sample(['<', '<=', '=', '#', '>', '>='], 3)))
        elif k < 0.78:
            # conversions
            base = r.choice([0, 1, 2, 5, 8191, 1 << 24, MAXI - 1, MAXI, r.randint(0, MAXI)])
            fr = r.choice(['0.5', '0.25', '0.75', '0.4999999', '0.5000001', '0.0', '0.125'])
            sg = r.choice(['', '-'])
            if base == MAXI and fr in ('0.5', '0.75', '0.5000001') and r.random() < 0.8:
                fr = '0.25'
            L.append('sa := %s(%d.0 + %s)' % (sg, base, fr))
            L.append(r.choice(['si := sa; print(si)', 'li := sa; print(li)', 'ai[2] := sa; print(ai[2])',
                               'print(vi(sa))', 'print(entier(sa))', 'fi := sa; print(si)', 'si := li := sa; print(si, li)',
                               'print(ai[sa / (abs(sa) + 1) + 1])']))
            L.append('NLCR')
        elif k < 0.86:
            i = integer(r)
            L.append('si := %s; sa := si; la := -si; %s := si; print(sa, la, sa = si, la = si, %s = sa, sa - si, abs(si), sign(si)); NLCR'
                     % ((lit(i),) + (r.choice(['lr', 'ar[2]']),) * 1 + (r.choice(['lr', 'ar[2]', 'si']),)))
        elif k < 0.93:
            L.append('sa := %s' % real(r, r.choice([0, -39, -40, -41, r.randint(-200, 200)])))
            L.append('lr := sqrt(abs(sa))')
            show('lr')
            L.append('print(sign(sa), abs(sa) = sa); NLCR')
        else:
            d = ''.join(r.choice('0123456789') for _ in range(r.choice([r.randint(1, 13), r.randint(1, 22)])))
            p = r.randint(0, len(d))
            t = d[:p] + ('.' + d[p:] if d[p:] else '')
            if r.random() < 0.5:
                t += '@%d' % r.choice([0, 1, -1, 5, -5, 10, -10, 20, -20, 100, -100, r.randint(-300, 300), r.randint(-580, 580), r.choice([-604, -617, -618, -650, r.randint(-1500, -600)])])
            if r.random() < 0.3:
                # whole numbers around the middle between two reals
                z = r.choice([1, 2, 3])
                t = '%d' % ((mant(r) << z) + (1 << z - 1) + r.choice([0, 0, 0, 1, -1]))
                if len(t) > 13:
                    t = '%d' % ((mant(r) << 1) + 1)
                t += r.choice(['', '', '.0', '@0'])
            L.append('lr := %s' % t)
            show('lr')
            L.append('print(%s); NLCR' % t)
    txt = '''real sa, sb; integer si, sj; real array ar[1:2]; integer array ai[0:2];
real procedure rf(x); value x; real x; rf := x;
integer procedure iff(x); value x; integer x; iff := x;
integer procedure vi(x); value x; integer x; vi := x;
procedure m(fa, fb, fi, fj, vx); value vx; real fa, fb, vx; integer fi, fj;
begin real la, lb, lr; integer li, lj; la := lb := lr := 1; li := lj := 1; %s end;
ar[1] := ar[2] := 1; ai[0] := ai[1] := ai[2] := 1; sa := sb := 1.5; si := sj := 1; m(sa, sb, si, sj, %s)''' % (
        ';\n'.join(L), real(r, r.randint(-60, 20)))
    return parse.program(txt)


def c02(ck):
    n = ck.n(1600, 24000)
    cs = []
    for k in range(n):
        s = ck.seed * 1000003 + k
        cs.append(Case(program('%d' % s), name='num-%d' % s))
    p_lang.run(ck, ck.corpus('C02') + cs + p_matrix.cases(ck, p_matrix.powers, ck.n(300, 5000), 'pow') + p_lang.generated(ck, 'C01', ck.n(60, 1200), base=500000))


# ------------------------------------------------------------------ C08
def value(r):
    """text of an expression: a number that is interesting to print"""
    k = r.random()
    s = r.choice(['', '', '', '-'])
    if k < 0.15:
        v = r.choice([0, 1, 9, 10, 99, 100, 999, 1000, 9999, 10000, MAXI, MAXI - 1, r.randint(0, 20), r.randint(0, MAXI)])
        return '%s%d' % (s, v) if s == '' else '(-%d)' % v
    if k < 0.3:
        # close to a power of ten, from below and above
        e = r.choice([r.randint(-5, 15), r.randint(-12, 25)] * 5 + [r.randint(-100, 100), r.randint(-600, 600)])
        t = ('%s1@%d' % (s, e)) if e else s + '1.0'
        f = r.choice(['', ' * (1 - 2.0 ^ (-40))', ' * (1 + 2.0 ^ (-39))', ' - 1', ' * 0.99999', ' * 0.9999999999', ' * 0.5', ' * 5',
                      ' * 1.00001'])
        if f == ' - 1':
            f = ' - 1.0'
        return '(' + t + f + ')'
    if k < 0.55:
        # few decimals, mostly ties of some rounding
        nd = r.randint(1, 11)
        d = r.choice(['9' * nd, '9' * (nd - 1) + '5', '1' + '0' * (nd - 1), str(r.randint(1, 10 ** nd - 1)),
                      str(r.randint(1, 10 ** nd - 1)) + '5', '9' * r.randint(1, nd) + '4' + '9' * r.randint(0, 4)])
        p = r.randint(0, len(d) - 1)
        t = d[:p] + '.' + d[p:]
        if r.random() < 0.3:
            t += '@%d' % r.choice([r.randint(-20, 20)] * 3 + [r.randint(-100, 100), r.choice([-99, -98, 97, 98, 99, 8, 9, 10, -9, -10])])
        return '(%s%s)' % (s, t)
    if k < 0.65:
        # exact binary fractions: true ties
        return '(%s%d / %d)' % (s, r.choice([1, 3, 5, 7, 15, 25, 125, 999, 1023, 9999, r.randint(1, 99999)]) * 2 + 1, 2 ** r.randint(1, 14))
    if k < 0.7:
        return r.choice(['0.0', '(-0.0)', '(-0)', '0', '(0.0 * 5)', '(5 - 5.0)'])
    if k < 0.8:
        return real(r, r.choice([0, -1, -2, 1, -39, -40, r.randint(-60, 30)]))
    return real(r, r.choice([r.randint(-200, 200), r.randint(-2087, 2000), -2087, 2007]))


def width(r):
    k = r.random()
    if k < 0.55:
        return r.randint(0, 6), r.randint(0, 6)
    if k < 0.8:
        return r.randint(0, 13), r.randint(0, 12)
    n = r.randint(0, 22)
    return r.choice([(n, 21 - n), (n, 22 - n), (n, max(0, 20 - n)), (0, 0), (21, 0), (0, 21), (22, 0), (-1, 5), (5, -1), (1, 0), (0, 1)])


def layout_program(seed):
    r = random.Random('lay' + seed)
    L = []
    out = 0
    while out < 3000:
        v = value(r)
        k = r.random()
        x = r.choice(['x', 'x', 'y', 'fx', 'ar[i]', v, 'vx'])
        if x == v:
            x = v[1:-1] if v.startswith('(') else v
        elif x != 'vx':
            L.append('%s := %s' % ({'fx': 'x', 'ar[i]': 'ar[2]'}.get(x, x), v[1:-1] if v.startswith('(') and r.random() < 0.5 else v))
        if k < 0.4:
            n, m = width(r)
            p = 'FIXT'
        elif k < 0.6:
            n, m = width(r)
            p = 'ABSFIXT'
        elif k < 0.85:
            n, m = r.choice([(r.randint(1, 13), r.randint(1, 3)), (13, 3), (1, 1), (r.randint(0, 14), r.randint(0, 4)), (0, 2), (14, 2),
                             (5, 0), (5, 4), (-3, 2), (5, -2), (r.randint(1, 13), 1), (r.randint(1, 13), 2)])
            p = 'FLOT'
        else:
            n = None
            p = 'print'
        if n is None:
            L.append('print(%s)' % r.choice([x, x, 'i, %s' % x, '%s, 3' % x]))
        else:
            if r.random() < 0.3:
                L.append('i1 := %d; j1 := %d' % (n, m))
                a, b = r.choice([('i1', 'j1'), ('fi', 'fj'), ('i1', 'fj')])
            else:
                a, b = (str(n), str(m)) if r.random() < 0.5 else (str(n), 'i - (%d)' % (2 - m))
            if p == 'FLOT' and r.random() < 0.15:
                L.append('FLOT(%s, %s)' % (a, x))
            elif p == 'FIXT' and r.random() < 0.2:
                L.append('pf(%s, %s, %s)' % (a, b, x))
            else:
                L.append('%s(%s, %s, %s)' % (p, a, b, x))
        if r.random() < 0.5:
            L.append('NLCR')
        out += 60
        if len(L) > 45:
            break
    txt = '''real x, y; integer i, i1, j1; real array ar[1:2];
procedure pf(n, m, z); value n, z; integer n, m; real z; FIXT(n, m, z);
procedure go(fx, vx, fi, fj); value vx; real fx, vx; integer fi, fj;
begin %s end;
i := 2; x := y := 1.5; i1 := j1 := 3; ar[1] := ar[2] := 0.25; go(x, %s, i1, j1)''' % (';\n'.join(L), value(r))
    return parse.program(txt)


def c08(ck):
    cs = []
    for k in range(ck.n(900, 20000)):
        s = ck.seed * 1000003 + k
        cs.append(Case(layout_program('%d' % s), name='lay-%d' % s))
    p_lang.run(ck, ck.corpus('C08') + cs)


# ------------------------------------------------------------------ C22
def exact(r, x, ulps=0):
    """text of the real nearest to the positive x (a Fraction), some ulps off"""
    from fractions import Fraction
    e = 0
    while x >= 1 << 40:
        x /= 2
        e += 1
    while x < 1 << 39:
        x *= 2
        e -= 1
    m = min(max(int(x + Fraction(1, 2)) + ulps, 1 << 39), (1 << 40) - 1)
    hi, lo = m >> 20, m & 0xfffff
    t = '(%d * 1048576.0 + %d.0)' % (hi, lo)
    while e > 0:
        t += ' * 2.0 ^ %d' % min(e, 1000)
        e -= min(e, 1000)
    while e < 0:
        t += ' / 2.0 ^ %d' % min(-e, 1000)
        e += min(-e, 1000)
    return '(' + t + ')'


def argument(r, f):
    from fractions import Fraction as F
    pi = F(314159265358979323846264338327950288419716939937510582097494459230781640628620899862803482534211706798214808651, 10 ** 110) \
        if False else F(314159265358979323846264338327950288419716939937510, 10 ** 50)
    s = r.choice(['', '-'])
    k = r.random()
    if f in ('sin', 'cos', 'both'):
        if k < 0.3:
            return '(%s%s)' % (s, exact(r, pi / 2 * r.choice([1, 2, 3, 4, r.randint(1, 50), r.randint(1, 10 ** 6)]), r.choice([0, 0, 1, -1])))
        if k < 0.5:
            return '(%s%s)' % (s, exact(r, F(r.randint(1, 10 ** 6), 10 ** 5)))
        if k < 0.6:
            return '(%s%d)' % (s, r.randint(0, 1000))
        if k < 0.7:
            return real(r, r.randint(-100, -39))
        if k < 0.8:
            return real(r, r.randint(-2087, 2007))
        return real(r, r.randint(-45, 20))
    if f == 'ln':
        if k < 0.25:
            return '(1 %s %d * 2.0 ^ (-39))' % (r.choice('+-'), r.choice([1, 2, 3, r.randint(1, 10 ** 6)]))
        if k < 0.4:
            return '%d' % r.choice([1, 2, 3, 10, 67108863, r.randint(1, 10 ** 5)])
        return 'abs(%s)' % real(r, r.choice([r.randint(-45, -35), r.randint(-60, 20), r.randint(-2087, 2007)]))
    if f == 'exp':
        if k < 0.15:
            return r.choice(['0', '1', '0.0', '(-1)', '709', '1418', '(-1419)', '1418.9', '(-1421)', '2', '100'])
        if k < 0.25:
            return real(r, r.randint(-120, -40))
        return '(%s%s)' % (s, exact(r, F(r.randint(1, 10 ** 6), r.choice([705, 10 ** 4, 10 ** 5, 10 ** 6]))))
    if f == 'arctan':
        if k < 0.2:
            return '(1 %s %d * 2.0 ^ (-39))' % (r.choice('+-'), r.choice([0, 1, 2, r.randint(1, 10 ** 6)]))
        if k < 0.3:
            return '(%s%d)' % (s, r.choice([0, 1, 2, 10, 67108863]))
        return real(r, r.choice([r.randint(-45, -35), r.randint(-60, 20), r.randint(-2087, 2007)]))
    if f == 'sqrt':
        if k < 0.2:
            n = r.randint(1, 10 ** 6)
            return '(%d.0 * %d)' % (n, n)
        if k < 0.3:
            return '%d' % r.choice([0, 1, 2, 4, 67108863, r.randint(0, 10 ** 6)])
        return 'abs(%s)' % real(r)
    if k < 0.4:
        return '(%s%d / %d)' % (s, r.randint(0, 4000), r.choice([1, 2, 4, 8, 3]))
    if k < 0.6:
        return '(%s%d)' % (s, r.choice([0, 1, 67108863, r.randint(0, MAXI)]))
    return real(r, r.randint(-45, -14))


def elem_program(seed):
    r = random.Random('elem' + seed)
    L = []
    fs = ['sqrt', 'sin', 'cos', 'ln', 'exp', 'arctan', 'abs', 'sign', 'entier']
    for _ in range(r.randint(6, 14)):
        f = r.choice(fs)
        a = argument(r, f)
        L.append('x := %s' % a)
        if '.' not in a and r.random() < 0.5 and f != 'exp':
            L.append('i := %s' % a)
            v = r.choice(['i', 'fi', 'x'])
        else:
            v = r.choice(['x', 'fx', a[1:-1] if a.startswith('(') else a, 'ar[1 + 0]'])
            if v == 'ar[1 + 0]':
                L.append('ar[1] := x')
        j = r.random()
        if f in ('sign', 'entier'):
            L.append('print(%s(%s)); NLCR' % (f, v))
        elif j < 0.7:
            L.append('y := %s(%s); print(y, y + y, 4 * y, 8 * y); NLCR' % (f, v))
        elif j < 0.8:
            L.append('y := ap(%s, %s); print(y, y + y, 4 * y, 8 * y); NLCR' % (f, v))
        elif j < 0.9:
            L.append('print(-%s(%s) * 2); NLCR' % (f, v))
        else:
            L.append('print(%s(%s) + %s(x)); NLCR' % (f, v, r.choice(['abs', 'arctan', 'sign'])))
        if r.random() < 0.2:
            b = real(r, r.randint(-60, 0))
            L.append('x := abs(%s); y := x ^ %s; print(y, y + y, 4 * y, 8 * y); NLCR'
                     % (b, r.choice(['0.5', '(-0.5)', '2.0', '1.5', 'x', '(-x)', '0.0', '(1 / 3)', '17.25', '(-33.3)'])))
    if r.random() < 0.25:
        L.append(r.choice(['print(sqrt(-1))', 'print(sqrt(-x * x))', 'print(ln(0))', 'print(ln(-x * x - 1))', 'print(exp(1420))',
                           'print(exp(67108863))', 'print(exp(1.5@4))', 'i := entier(7@7)', 'i := entier(-7@7)', 'print(entier(1@9))',
                           'print(exp(-1@6)); print(exp(-5000))', 'print(sqrt(-2.0 ^ (-2000)))', 'print(ln(0.0))',
                           'print((-2) ^ 0.5)', 'print(0.0 ^ 0.5); print(0 ^ (-0.5))', 'print(1@600 ^ 1.5)']))
        L.append('PRINTTEXT(`after\')')
    txt = '''real x, y; integer i; real array ar[1:2];
real procedure ap(f, z); real z; real procedure f; ap := f(z);
procedure go(fx, fi); real fx; integer fi;
begin %s end;
x := y := 1; i := 1; ar[1] := ar[2] := 1; go(x, i)''' % ';\n'.join(L)
    return parse.program(txt)


def c22(ck):
    cs = []
    for k in range(ck.n(700, 15000)):
        s = ck.seed * 1000003 + k
        cs.append(Case(elem_program('%d' % s), name='elem-%d' % s))
    p_lang.run(ck, ck.corpus('C22') + cs)
