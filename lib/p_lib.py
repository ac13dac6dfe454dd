"""C20: the library procedures in all kinds of places."""
import random
import re
import conform
import parse
import p_lang
from conform import Case

# seeds: text, and the value as sign, high and low part, exponent
SEEDS = [('1', (0, 0, 1, 0)), ('2', (0, 0, 2, 0)), ('7', (0, 0, 7, 0)), ('12345', (0, 0, 12345, 0)),
         ('67108863', (0, 63, 1048575, 0)), ('0.5', (0, 0, 1, -1)), ('0.75', (0, 0, 3, -2)), ('(-3)', (1, 0, 3, 0)),
         ('1000.5', (0, 0, 2001, -1)), ('(-0.125)', (1, 0, 1, -3)), ('(524288 * 1048576.0 + 1)', (0, 524288, 1, 0)),
         ('(524288 * 1048576.0 + 2)', (0, 524288, 2, 0)), ('(1.0 / 2.0 ^ 500)', (0, 0, 1, -500)), ('2.0 ^ 700', (0, 0, 1, 700))]
# the ones that differ in one part of the representation only
PAIRS = [(0, 1), (10, 11), (5, 6), (12, 13)]
K = 40


def probe(ck):
    """the sequences that follow the seeds, one per seed"""
    t = 'begin real x; integer k, e, h; '
    for s, _ in SEEDS:
        t += ('SETRANDOM(%s); for k := 1 step 1 until %d do begin x := RANDOM; e := 0; '
              'for e := e while x < 0.5 and e < 200 do begin x := x * 2; e := e + 1 end; '
              'h := entier(x * 1048576.0); print(e); SPACE(1); print(h); SPACE(1); '
              'print(entier((x * 1048576.0 - h) * 1048576.0)); NLCR end; ' % (s, K))
    t += 'stop end'
    return Case(parse.program(t), name='random-table')


def table(ck, c):
    res = []
    try:
        rows = [tuple(int(x) for x in l.split()) for l in c.res.out.decode().strip().split('\n')]
        assert len(rows) == K * len(SEEDS) and all(len(r) == 3 for r in rows)
    except (ValueError, AssertionError):
        return None
    for k in range(len(SEEDS)):
        vals = rows[k * K:(k + 1) * K]
        res.append([(0, h, l, -40 - e) for e, h, l in vals])
    return res


class G:
    def __init__(self, seed):
        self.r = random.Random('lib' + seed)
        self.cost = 0
        self.seeded = False
        self.used = set()
        self.draws = 0

    def idx(self, free):
        return self.r.choice(free)

    def int(self, d, vs):
        r = self.r
        k = r.random()
        if d <= 0 or k < 0.3:
            return r.choice(list(vs) + [str(r.randint(0, 9)), 'n', '(-%d)' % r.randint(1, 9)])
        if k < 0.55:
            return 'EVEN(%s)' % self.int(d - 1, vs)
        if k < 0.75:
            return '(%s %s %s)' % (self.int(d - 1, vs), r.choice(['+', '-']), self.int(d - 1, vs))
        if k < 0.85:
            return '(%s * %s)' % (self.int(0, vs), self.int(0, vs))
        if k < 0.93:
            return 'fev(%s)' % self.int(d - 1, vs)
        return '(if %s then %s else %s)' % (self.bool(d - 1, vs), self.int(d - 1, vs), self.int(d - 1, vs))

    def bool(self, d, vs):
        r = self.r
        k = r.random()
        if k < 0.3 and self.ran():
            return '%s < 0.%d' % (self.rnd(), r.randint(1, 9))
        return '%s %s %s' % (self.int(d - 1, vs), r.choice(['<', '<=', '=', '>=', '>', '#']), self.int(d - 1, vs))

    def ran(self):
        return self.seeded and self.draws + self.mult <= K

    mult = 1

    def rnd(self):
        self.draws += self.mult
        return 'RANDOM'

    def sum(self, d, vs, free):
        """SUM designator; free: variables usable as index"""
        r = self.r
        v = r.choice(free)
        rest = [x for x in free if x != v and not (v == 'i' and x == 'a[i]')]
        if v == 'a[i]':
            rest = [x for x in rest if x != 'i']
        lo = r.randint(-2, 4)
        n = r.choice([0, 1, 1, 2, 3, 4, 5, 6])
        if r.random() < 0.08:
            n = -r.randint(1, 5)
        hi = lo + n - 1
        los, his = str(lo) if lo >= 0 else '(-%d)' % -lo, str(hi) if hi >= 0 else '(-%d)' % -hi
        j = r.random()
        if j < 0.12:
            los = '%s + %d - n' % ('n', lo) if lo >= 0 else los
        elif j < 0.2:
            his = 'n + %d - n' % hi if hi >= 0 else his
        elif j < 0.27 and lo >= 0:
            los = '%d.%d' % (lo, r.choice([0, 25, 125, 375]))
        elif j < 0.34 and hi > 0:
            his = '%d.%d' % (hi, r.choice([0, 25, 125, 375]))
        elif j < 0.4:
            his = 'cnt(%s)' % his
        elif j < 0.44:
            his = 'EVEN(cnt(1)) + 1 + %s' % his
        m0 = self.mult
        self.mult *= max(n, 1)
        self.cost += self.mult
        inner = [v]
        t = self.real(d - 1, list(vs) + inner, rest)
        self.mult = m0
        return 'SUM(%s, %s, %s, %s)' % (v, los, his, t)

    def real(self, d, vs, free):
        r = self.r
        k = r.random()
        if k < 0.3 and self.mult < 60 and free and d > 0:
            return self.sum(d, vs, free)
        if k < 0.45 and self.ran():
            return self.rnd()
        if d <= 0 or k < 0.6:
            return r.choice(list(vs) + ['x', 'b[%d]' % r.randint(0, 3), '%d.%d' % (r.randint(0, 9), r.randint(0, 99)), str(r.randint(0, 9))]
                            + ['%s * %s' % (v, v) for v in vs[-1:]] + ['1 / %s' % v for v in vs[-1:] if False]
                            + ['a[%s + 3]' % vs[-1] if vs and vs[-1] in 'ijk' else 'x'])
        if k < 0.75:
            return self.int(d, vs)
        if k < 0.92:
            return '(%s %s %s)' % (self.real(d - 1, vs, free), r.choice(['+', '-', '*']), self.real(d - 1, vs, free))
        if k < 0.96:
            return 'nam(%s)' % self.real(d - 1, vs, free)
        return 'val(%s)' % self.real(d - 1, vs, free)

    def stmt(self):
        r = self.r
        k = r.random()
        if k < 0.22:
            s = r.choice(SEEDS)
            self.used.add(s[0])
            self.seeded = True
            self.draws = 0
            return r.choice(['SETRANDOM(%s)', 'SETRANDOM(%s)', 'pset(SETRANDOM, %s)', 'begin real q; q := %s; SETRANDOM(q) end']) % s[0]
        free = ['i', 'j', 'k', 'a[5]', 'y', 'a[i]']
        if k < 0.5:
            e = self.real(3, [], free)
            return r.choice(['print(%s); NLCR', 'x := %s; print(x); NLCR', 'b[0] := %s; print(b[0]); NLCR',
                             'show(%s)', 'showv(%s)', 'print(-%s); NLCR', 'if %s > 1 then PRINTTEXT(`gt\') else PRINTTEXT(`le\'); NLCR']) % (
                                 '(' + e + ')')
        if k < 0.58:
            e = self.sum(3, [], free)
            return 'print(%s); NLCR' % e
        if k < 0.66:
            v = r.choice([0, 1, 2, 3, 10, 11, 67108863, 67108862, r.randint(0, 67108863)])
            v = r.choice([str(v), '(-%d)' % v])
            return r.choice(['print(EVEN(%s)); NLCR', 'ap(EVEN, %s)', 'show(EVEN(%s))', 'n := %s; print(EVEN(n)); n := 3; NLCR',
                             'if EVEN(%s) = 1 then PRINTTEXT(`even\') else PRINTTEXT(`odd\'); NLCR',
                             'goto sw[(EVEN(%s) + 3) // 2]; l1: PRINTTEXT(`odd\'); goto l3; l2: PRINTTEXT(`even\'); l3: NLCR',
                             'for n := 1 step 1 until 3 do print(EVEN(n + %s)); n := 3; NLCR' if abs(int(v.strip('()'))) < 60000000 else 'print(EVEN(%s)); NLCR']) % v
        if k < 0.76:
            if self.draws + 4 <= K and self.seeded:
                self.draws += 4
                return r.choice(['show2(RANDOM, RANDOM)', 'show4(RANDOM)', 'print(RANDOM, RANDOM, RANDOM, RANDOM); NLCR',
                                 'x := RANDOM - RANDOM * RANDOM; print(x, RANDOM); NLCR',
                                 'for n := 1 step 1 until 4 do b[n] := RANDOM; print(b[1], b[2], b[3], b[4]); n := 3; NLCR',
                                 'apr(RANDOM)', 'print(rec(4)); NLCR', 'print(entier(RANDOM * 6), entier(RANDOM * 1000), entier(67108863 * RANDOM), RANDOM); NLCR'])
            return 'print(fev(n)); NLCR'
        if k < 0.84:
            return r.choice(['print(TIMEOFDAY); NLCR', 'x := TIMEOFDAY; print(x); NLCR; x := 1', 'showv(TIMEOFDAY)', 'show(TIMEOFDAY)',
                             'print(TIMEOFDAY, EVEN(3), TIMEOFDAY); NLCR', 'apr2(TIMEOFDAY)', 'b[4] := TIMEOFDAY; print(b[4]); NLCR; b[4] := 0'])
        if k < 0.9:
            return 'print(x, y, n, c); NLCR; print(SUM(i, 0, 4, b[i])); NLCR; print(SUM(j, 1, 8, a[j])); NLCR'
        if k < 0.95:
            return r.choice(['print(aps(SUM, %d, %d)); NLCR' % (r.randint(-3, 3), r.randint(-3, 6)),
                             'print(jen(k, k * k)); NLCR', 'print(jen(a[2], a[2] * EVEN(a[2]))); NLCR'])
        return 'i := j := k := 1; y := 2; a[5] := 6'

    def program(self):
        r = self.r
        L = [self.stmt() for _ in range(r.randint(4, 11))]
        out = []
        tag = 0
        for s in L:
            if 'sw[' in s:
                tag += 1
                if tag > 1:
                    continue
            out.append('i := j := k := 1; y := a[5] := 1')
            out.append(s)
        sw = 'switch sw := l1, l2; ' if tag else ''
        t = ('begin integer i, j, k, n, c; real x, y; integer array a[-4:12]; real array b[0:4]; ' + sw +
             'integer procedure cnt(v); value v; integer v; begin c := c + 1; cnt := v end; '
             'integer procedure fev(v); integer v; fev := EVEN(v) + EVEN(v + 1) + 10; '
             'real procedure nam(v); real v; nam := v; real procedure val(v); value v; real v; val := v + 0.5; '
             'real procedure rec(v); value v; integer v; if v = 1 then rec := RANDOM else rec := RANDOM - rec(v - 1); '
             'procedure show(v); real v; begin print(v); NLCR end; '
             'procedure showv(v); value v; real v; begin print(v); NLCR end; '
             'procedure show2(u, v); real u, v; begin print(v, u); print(u, v); NLCR end; '
             'procedure show4(u); real u; begin print(u); SPACE(1); print(u); SPACE(1); print(u); SPACE(1); print(u); NLCR end; '
             'procedure ap(f, v); value v; integer v; integer procedure f; begin print(f(v)); NLCR end; '
             'procedure pset(f, v); real v; procedure f; f(v); '
             'procedure apr(f); real procedure f; begin real q; q := f; print(q, f, f, f); NLCR end; '
             'procedure apr2(f); real procedure f; begin print(f, f); NLCR end; '
             'real procedure aps(f, u, v); value u, v; integer u, v; real procedure f; begin integer q; aps := f(q, u, v, q * q) + f(q, u, v, 1) end; '
             'real procedure jen(u, v); integer u; real v; jen := SUM(u, 1, 4, v) + SUM(u, 2, 3, v); '
             'x := 1; y := 1; n := 3; c := 0; for i := -4 step 1 until 12 do a[i] := i * 2; '
             'b[0] := b[1] := b[2] := b[3] := b[4] := 0.25; ')
        if '(RANDOM' in str(out) or 'RANDOM' in str(out):
            pass
        return t + '; '.join(out) + '; print(c) end'


def programs(ck, tab, n):
    cs = []
    for k in range(n):
        g = G('%d' % (ck.seed * 1000003 + k))
        c = Case(parse.program(g.program()), name='lib-%d' % (ck.seed * 1000003 + k), fuel=ck.n(12000, 40000))
        c.rnd = [dict(seed=v, vals=tab[q]) for q, (s, v) in enumerate(SEEDS) if s in g.used]
        c.tz = 11 - k % 24  # every hour of the day
        cs.append(c)
    return cs


def c20(ck):
    pr = probe(ck)
    pr.res = ck.X.run(pr.src, b'', 30)
    tab = table(ck, pr)
    if tab is None:
        ck.violation('random-table', 'SETRANDOM and RANDOM fail in a simple program',
                     '%s\nexit %d output %r message %r' % (pr.src, pr.res.rc, pr.res.out[:2000], pr.res.err[:300]))
        return
    # in the interval, and not stuck
    for k, (s, _) in enumerate(SEEDS):
        for e, v in enumerate(tab[k]):
            if v[1] < 0 or v[1] >= 1 << 20 or v[2] < 0 or v[2] >= 1 << 20 or v[3] > -40:
                ck.violation('random-range', 'after SETRANDOM(%s), number %d is outside [0, 1)' % (s, e + 1),
                             '%s\noutput %s' % (pr.src, pr.res.out.decode('utf-8', 'replace')[:3000]))
                return
        if len(set(tab[k])) < K // 2:
            ck.violation('random-stuck', 'after SETRANDOM(%s) the numbers repeat' % s, '%s\n%s' % (pr.src, tab[k]))
            return
    for a, b in PAIRS:
        if tab[a] == tab[b]:
            ck.violation('random-seed', 'the seeds %s and %s give the same sequence' % (SEEDS[a][0], SEEDS[b][0]),
                         '%s\n%s' % (pr.src, tab[a]))
            return
    ck.count('random_numbers_in_table', K * len(SEEDS))
    cor = ck.corpus('C20')
    for c in cor:
        c.rnd = [dict(seed=v, vals=tab[q]) for q, (s, v) in enumerate(SEEDS)]
        c.tz = len(c.src) % 24 - 12
    p_lang.run(ck, cor + programs(ck, tab, ck.n(600, 9000)))
