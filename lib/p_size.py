"""C19: programs with large numbers of everything."""
import random
import shutil
import sys
import algol
import parse
import p_lang
import x1
from conform import Case


sys.setrecursionlimit(20000)


class P:
    """a program under construction"""
    def __init__(self, r):
        self.r = r
        self.scal, self.arr, self.sw, self.proc, self.st = [], [], [], [], []
        self.n = 0

    def new(self, pre='v'):
        self.n += 1
        return '%s%d' % (pre, self.n)

    def text(self):
        return 'begin ' + '; '.join(self.scal + self.arr + self.sw + self.proc + self.st) + ' end'


def some(r, n, k=8):
    """numbers of a few things, the first and last ones among them"""
    return sorted(set([1, n] + [r.randint(1, n) for _ in range(k)] + [x for x in (2, 31, 32, 33, 63, 64, 65, 127, 128, 255, 256, 257, 511, 512) if x <= n and r.random() < 0.4]))


def variables(p, n):
    r = p.r
    ty = r.choice(['integer', 'real', 'boolean'])
    v = p.new('q')
    names = ['%sx%d' % (v, k) for k in range(1, n + 1)]
    for k in range(0, n, 60):
        p.scal.append('%s %s' % (ty, ', '.join(names[k:k + 60])))
    idx = some(r, n, 12)
    for k in idx:
        p.st.append('%s := %s' % (names[k - 1], k if ty != 'boolean' else r.choice(['true', 'false'])))
    r.shuffle(idx)
    for k in idx:
        p.st.append('print(%s)' % names[k - 1])
    p.st.append('NLCR')


def constants(p, n):
    r = p.r
    v = p.new('c')
    p.scal.append('real %s' % v)
    p.st.append('%s := 0' % v)
    vals = []
    for k in range(n):
        j = r.random()
        c = str(40000 + k * 3) if j < 0.5 else '%d.5' % (k + 3) if j < 0.8 else str(r.randint(32768, 67108863))
        vals.append(c)
    for k in range(0, n, 5):
        p.st.append('%s := %s' % (v, ' + '.join([v] + vals[k:k + 5])))
        if r.random() < 0.08:
            p.st.append('print(%s)' % v)
    for k in some(r, n, 4):
        p.st.append('print(%s, %s)' % (vals[k - 1], vals[0]))
    p.st.append('NLCR')


def procedures(p, n):
    r = p.r
    v = p.new('p')
    m = r.choice([0, 1, 1, 2])
    for k in range(1, n + 1):
        q = '%sx%d' % (v, k)
        prev = '%sx%d' % (v, r.randint(max(1, k - 4), k - 1)) if k > 1 and r.random() < 0.4 else None
        if m == 0:
            p.proc.append('integer procedure %s; %s := %s' % (q, q, (prev + ' + 1') if prev else k))
        elif m == 1:
            p.proc.append('integer procedure %s(a); value a; integer a; %s := a + %s' % (q, q, (prev + '(a)') if prev else k))
        else:
            p.proc.append('integer procedure %s(a, b); value b; integer a, b; begin integer c; c := b + %d; %s := a * c end' % (q, k, q))
    for k in some(r, n, 6):
        p.st.append('print(%sx%d%s)' % (v, k, ['', '(%d)' % r.randint(0, 99), '(%d, %d)' % (r.randint(0, 9), r.randint(0, 9))][m]))
    p.st.append('NLCR')


def labels(p, n):
    r = p.r
    v = p.new('l')
    c = p.new('k')
    p.scal.append('integer %s' % c)
    p.st.append('%s := 0' % c)
    order = list(range(1, n + 1))
    r.shuffle(order)
    nxt = {a: b for a, b in zip(order, order[1:])}
    nxt[order[-1]] = 0
    p.st.append('goto %sx%d' % (v, order[0]))
    for k in range(1, n + 1):
        p.st.append('%sx%d: %s := %s + 1; %sgoto %sx%d' % (v, k, c, c, 'print(%s, %d); ' % (c, k) if r.random() < 8 / n else '', v, nxt[k]))
    p.st.append('%sx0: print(%s); NLCR' % (v, c))


def switch(p, n):
    r = p.r
    v = p.new('s')
    k = p.new('k')
    p.scal.append('integer %s' % k)
    names = ['%sl%d' % (v, i) for i in range(1, min(n, 12) + 1)]
    els = [names[i] if i < len(names) else r.choice(names) for i in range(n)]
    r.shuffle(els)
    p.sw.append('switch %s := %s' % (v, ', '.join(els)))
    p.st.append('%s := %d' % (k, r.randint(1, n)))
    p.st.append('goto %s[%s]' % (v, k))
    for t, nm in enumerate(names):
        p.st.append('%s: print(%d)' % (nm, t))
        p.st.append('%s := %s + %d' % (k, k, max(1, n // 7)))
        p.st.append('if %s <= %d then goto %s[%s]' % (k, n, v, k))
    p.st.append('NLCR')


def strings(p, n):
    r = p.r
    if r.random() < 0.5:
        t = ''.join(r.choice('abcdefghijklmnopqrstuvwxyz0123456789 +-/.,:;()') for _ in range(n * 3))
        p.st.append("PRINTTEXT(`%s')" % t)
    else:
        v = p.new('t')
        p.proc.append('procedure %s(a, b); string a; integer b; if b > 0 then PRINTTEXT(a)' % v)
        pr = set(some(r, n, 8))
        for k in range(1, n + 1):
            p.st.append("%s(`s%d', %d)" % (v, k, k in pr))
    p.st.append('NLCR')


def blocks(p, n):
    r = p.r
    n = min(n, 40)
    v = p.new('b')
    t = 'print(%s)' % ' + '.join('%sx%d' % (v, k) for k in some(r, n, 4))
    t += '; %sx%d := 1000; print(%sx%d)' % (v, 1, v, max(1, n - 1))
    for k in range(n, 0, -1):
        t = 'begin integer %sx%d; %sx%d := %d; %s; print(%sx%d) end' % (v, k, v, k, k, t, v, k)
    p.st.append(t)
    p.st.append('NLCR')


def parens(p, n):
    r = p.r
    k = r.random()
    if k < 0.3:
        t = '1'
        for i in range(n):
            t = '(%s + %d)' % (t, i) if r.random() < 0.5 else '(%d + %s)' % (i, t)
        p.st.append('print(%s); NLCR' % t)
    elif k < 0.5:
        t = '0'
        for i in range(n):
            t = 'if %d = %d then %d else %s' % (n, i, i, t)
        p.st.append('print(%s); NLCR' % t)
    elif k < 0.7:
        v = p.new('f')
        p.proc.append('integer procedure %s(a); integer a; %s := a + 1' % (v, v))
        n = min(n, 40)
        p.st.append('print(%s1%s); NLCR' % ((v + '(') * n, ')' * n))
    elif k < 0.85:
        v = p.new('i')
        p.scal.append('integer %s' % v)
        p.st.append('%s := 0' % v)
        t = '%s := %s + 1; print(%s)' % (v, v, v)
        for i in range(n):
            t = r.choice(['begin %s end', 'if %d = %d then begin %%s end else print(9)' % (i, i), 'begin %s; print(' + str(i) + ') end'] if '%' not in v else []) % t
        p.st.append(t)
        p.st.append('NLCR')
    else:
        n = min(n, 12)
        v = p.new('d')
        t = 'print(%s)' % '+'.join('%sx%d' % (v, k) for k in range(n))
        for i in range(n - 1, -1, -1):
            t = 'for %sx%d := %d, %d do begin %s end' % (v, i, i, i + 1, t) if i < 3 else 'for %sx%d := %d do begin %s end' % (v, i, i, t)
        p.scal.append('integer ' + ', '.join('%sx%d' % (v, k) for k in range(n)))
        p.st.append(t)
        p.st.append('NLCR')


def parameters(p, n):
    r = p.r
    n = min(n, 30)
    v = p.new('a')
    nm = ['%sx%d' % (v, k) for k in range(1, n + 1)]
    val = [x for x in nm if r.random() < 0.4]
    t = 'procedure %s(%s); ' % (v, ', '.join(nm))
    if val:
        t += 'value %s; ' % ', '.join(val)
    t += 'integer %s; begin print(%s); print(%s) end' % (', '.join(nm), ' + '.join(nm), ' - '.join(r.sample(nm, min(n, 5))))
    p.proc.append(t)
    p.st.append('%s(%s); NLCR' % (v, ', '.join(str(r.randint(0, 999)) for _ in nm)))


def terms(p, n):
    r = p.r
    v = p.new('e')
    p.scal.append('integer %s' % v)
    p.st.append('%s := 3' % v)
    t = '1'
    for k in range(n):
        t += r.choice([' + %d', ' - %d', ' + %s * %d' % (v, r.randint(0, 9)), ' - (%s - %%d)' % v]).replace('%d', str(r.randint(0, 99)))
    p.st.append('print(%s); NLCR' % t)


def statements(p, n):
    r = p.r
    v = p.new('g')
    p.scal.append('integer %s' % v)
    p.st.append('%s := 0' % v)
    for k in range(n):
        p.st.append(r.choice(['%s := %s + %d' % (v, v, r.randint(0, 9)), 'if %s > %d then %s := %s - %d' % (v, r.randint(0, 99), v, v, r.randint(0, 50)),
                              '%s := %s - %d' % (v, v, r.randint(0, 9))] + (['print(%s)' % v] if r.random() < 20 / n else [])))
    p.st.append('print(%s); NLCR' % v)


def arrays(p, n):
    r = p.r
    v = p.new('w')
    k = r.random()
    if k < 0.5:
        for i in range(1, n + 1):
            p.arr.append('%sarray %sx%d[%d:%d]' % (r.choice(['integer ', 'real ']), v, i, i % 7 - 3, i % 7 + 1))
        idx = some(r, n, 6)
        for i in idx:
            p.st.append('%sx%d[%d] := %d' % (v, i, i % 7 - 1, i))
        for i in idx:
            p.st.append('print(%sx%d[%d])' % (v, i, i % 7 - 1))
    elif k < 0.8:
        size = min(n * 12, 9000)
        p.arr.append('integer array %s[1:%d]' % (v, size))
        p.st.append('%s[1] := 7; %s[%d] := 8; %s[%d] := 9; print(%s[1], %s[%d], %s[%d])' % (v, v, size // 2, v, size, v, v, size // 2, v, size))
    else:
        d = min(n, 12)
        p.arr.append('integer array %s[%s]' % (v, ', '.join('0:1' for _ in range(d))))
        a, b = ', '.join(r.choice('01') for _ in range(d)), ', '.join('1' for _ in range(d))
        p.st.append('%s[%s] := 5; %s[%s] := 6; print(%s[%s], %s[%s])' % (v, b, v, a, v, a, v, b) if a != b else '%s[%s] := 4; print(%s[%s])' % (v, a, v, a))
    p.st.append('NLCR')


def forlist(p, n):
    r = p.r
    v = p.new('h')
    c = p.new('k')
    p.scal.append('integer %s, %s' % (v, c))
    els = []
    for k in range(n):
        els.append(r.choice(['%d' % k, '%d' % (k * 7), '%s - 1' % v, '%d step 1 until %d' % (k, k + 1)]))
    p.st.append('%s := %s := 0; for %s := %s do %s := %s + %s; print(%s); NLCR' % (v, c, v, ', '.join(els), c, c, v, c))


# ------------------------------------------------------ things with a limit of their own
def names(v, n):
    return ['%sx%d' % (v, k) for k in range(1, n + 1)]


def locals_(p, n):
    """local variables of a procedure or of a block in it; arrays and for statements take places too"""
    r = p.r
    v = p.new('u')
    ty = r.choice(['integer', 'integer', 'real', 'boolean'])
    nm = names(v, n)
    more = r.choice(['', '', 'integer array %sw[1:3]; ' % v, 'real %sy, %sz; ' % (v, v)])
    mid = nm[n // 2]
    a, b, c, d = ('true', 'false', 'true', 'false') if ty == 'boolean' else ('1', '2', '3', '%s + 1' % nm[-1])
    t = '%s %s; %s%s := %s; %s := %s; %s := %s; %s := %s; print(%s)' % (
        ty, ', '.join(nm), more, nm[0], a, mid, b, nm[-1], c, nm[-2] if n > 3 else nm[0], d, ', '.join([nm[0], mid, nm[-1], nm[1 % n]] if ty == 'integer' else [nm[0], mid, nm[-1]]))
    if r.random() < 0.3:
        t += '; for %s := 1, 2 do print(%s)' % (nm[-1], nm[-1]) if ty == 'integer' else ''
    if ty == 'integer' and n > 1:
        t = t.replace(', %s)' % nm[1 % n], ')', 1)
    if r.random() < 0.5:
        p.proc.append('procedure %s(x); value x; integer x; begin %s end' % (v, t) if r.random() < 0.5 else 'procedure %s; begin %s end' % (v, t))
        p.st.append('%s%s; NLCR' % (v, '(4)' if '(x)' in p.proc[-1] else ''))
    else:
        p.st.append('begin %s end; NLCR' % t)


def many(p, n):
    """an array of many dimensions"""
    r = p.r
    v = p.new('m')
    n = min(n, 29)      # more are refused when the block is entered
    b = [r.choice(['1:1', '0:0', '-1:-1', '2:2']) for _ in range(n)]
    for q in r.sample(range(n), min(n, 3)):
        b[q] = '0:1'
    one, two = [x.split(':')[0] for x in b], [x.split(':')[1] for x in b]
    k = p.new('k')
    p.scal.append('integer %s' % k)
    t = '%s[%s] := 5; %s[%s] := 6; print(%s[%s], %s[%s])' % (v, ', '.join(two), v, ', '.join(one), v, ', '.join(one), v, ', '.join(two))
    if r.random() < 0.4:
        p.arr.append('integer array %s[%s]' % (v, ', '.join(b)))
        p.st.append(t)
    else:
        b[r.randrange(n)] = '0:%s' % k if n > 1 else '0:1'
        if '0:%s' % k in b:
            q = b.index('0:%s' % k)
            one[q], two[q] = '0', '1'
            t = '%s[%s] := 5; %s[%s] := 6; print(%s[%s], %s[%s])' % (v, ', '.join(two), v, ', '.join(one), v, ', '.join(one), v, ', '.join(two))
        p.st.append('%s := 1; begin %s array %s[%s]; %s end' % (k, r.choice(['integer', 'real']), v, ', '.join(b), t))
    p.st.append('NLCR')


def formals(p, n):
    r = p.r
    v = p.new('a')
    nm = names(v, n)
    val = [x for x in nm if r.random() < 0.3]
    p.proc.append('procedure %s(%s); %sinteger %s; begin integer %sz; %sz := %s + %s; print(%s, %s, %s, %sz) end' % (
        v, ', '.join(nm), ('value %s; ' % ', '.join(val)) if val else '', ', '.join(nm), v, v, nm[0], nm[-1], nm[0], nm[n // 2], nm[-1], v))
    p.st.append('%s(%s); NLCR' % (v, ', '.join(str(k) for k in range(1, n + 1))))


def deeper(p, n):
    r = p.r
    k = p.new('k')
    p.scal.append('integer %s' % k)
    p.st.append('%s := 1' % k)
    j = r.randrange(7)
    if j == 0:
        p.st.append('print(%s1%s)' % ('(2 + ' * n, ')' * n))
    elif j == 1:
        p.st.append('%s%s := 5%s; print(%s)' % (('if %s = 1 then begin ' % k) * n, k, ' end' * n, k))
    elif j == 2:
        p.st.append('%s%s := %s + 1; print(%s)' % (('for %s := 1 do ' % k) * n, k, k, k))
    elif j == 3:
        f = p.new('f')
        p.proc.append('integer procedure %s(a); %sinteger a; %s := a + 1' % (f, r.choice(['', 'value a; ']), f))
        p.st.append('print(%s%s%s)' % ((f + '(') * n, k, ')' * n))
    elif j == 4:
        f = p.new('f')
        p.arr.append('integer array %s[1:2]' % f)
        p.st.append('%s[1] := 2; %s[2] := 1; print(%s%s%s)' % (f, f, (f + '[') * n, k, ']' * n))
    elif j == 5:
        p.st.append('print(%s %s)' % (' '.join('if %s = %d then %d else' % (k, i + 2, i) for i in range(n)), k))
    else:
        f = p.new('f')
        t = '%s := %s + 1' % (k, k)
        for i in range(n, 0, -1):
            t = 'begin procedure %sx%d; begin %s end; %sx%d end' % (f, i, t, f, i)
        p.st.append('%s; print(%s)' % (t, k))
    p.st.append('NLCR')


def space(p, n):
    """static arrays"""
    r = p.r
    n *= 7
    v = p.new('w')
    ty = r.choice(['integer', 'real', 'boolean', 'integer'])
    p.arr.append('%s array %s[1:%d], %sx[0:9]' % (ty, v, n, v))
    a, b, c, d = ('true', 'false', 'true', 'false') if ty == 'boolean' else '4567'
    p.st.append('%s[1] := %s; %s[%d] := %s; %sx[0] := %s; %sx[9] := %s; print(%s[1], %s[%d], %sx[0], %sx[9]); NLCR' % (v, a, v, n, b, v, c, v, d, v, v, n, v, v))


def plain(p, n):
    """statements without jumps"""
    r = p.r
    v = p.new('o')
    p.scal.append('integer %s' % v)
    p.st.append('%s := 0' % v)
    for k in range(n):
        p.st.append(r.choice(['%s := %s + 1', '%s := %s - 2', '%s := %s + 50']) % (v, v))
    p.st.append('print(%s); NLCR' % v)


EDGES = [plain, variables, constants, procedures, labels, switch, strings, blocks, parens, terms, statements, arrays, forlist,
         locals_, locals_, many, formals, deeper, deeper, space]


def sized(seed, fs, n):
    p = P(random.Random('edge' + seed))
    p.scal.append('integer z')
    p.st.append('z := 0')
    p.st.append(random.Random(seed).choice(['if z = 0 then z := z + 3', 'goto qlab; print(1); qlab: z := z + 3', 'for z := z + 1 step 2 until 7 do print(z)', 'print(if z = 0 then 4 else 5)']))
    for f, w in fs:
        p.r = random.Random('%s%s' % (seed, f.__name__))
        f(p, max(4, int(n * w)))
    return p.text()


def accepted(ck, t):
    """whether the compiler takes it; None: something else happens than a refusal"""
    X = ck.X
    d = X.newdir()
    with open(d + '/p.a60', 'w') as f:
        f.write(algol.source(parse.program(t)))
    r = X.exec([X.comp, 'p.a60', X.lib], d, b'', 20, maxout=1 << 20)
    shutil.rmtree(d, ignore_errors=True)
    return True if r.rc == 0 else False if r.rc == 1 and not r.timeout and (r.out + r.err).strip() else None


def edges(ck, n):
    """programs of kinds growing together, at the largest size the compiler accepts: right there, or refused"""
    ck.X
    def one(k):
        seed = str(ck.seed * 1000003 + k)
        r = random.Random('edges' + seed)
        fs = [(EDGES[k % len(EDGES)], 1)]
        for f in r.sample(EDGES[:12], r.choice([0, 0, 1, 2])):
            if f is not fs[0][0]:
                fs.append((f, r.choice([0.1, 0.3, 1])))
        lo, hi = 4, 2500
        ok = {}

        def acc(m):
            if m not in ok:
                ok[m] = accepted(ck, sized(seed, fs, m))
            return ok[m]
        if acc(lo) is False:
            return []
        while hi - lo > 1:
            m = (lo + hi) // 2 if lo > 40 or hi < 120 else lo * 2
            if acc(m) is False:
                hi = m
            else:
                lo = m
        for m in {lo - 2, lo - 1, lo, lo + 1, lo + 2, lo + 3, lo + 6, r.randint(4, lo)} | {lo * 2}:
            if m >= 4:
                acc(m)
        out = []
        for m in sorted(x for x in ok if ok[x] is not False and (x > lo - 3 or ok[x] is None))[-5:]:
            c = Case(parse.program(sized(seed, fs, m)), name='edge-%s-%d' % (seed, m), fuel=ck.n(12000, 40000))
            c.may = True
            out.append(c)
        return out
    return [c for l in x1.pmap(one, range(n)) for c in l]


#           kind, sure size, largest size
KINDS = [(variables, 300, 1500), (constants, 300, 1500), (procedures, 80, 400), (labels, 120, 700), (switch, 100, 800),
         (strings, 150, 1000), (blocks, 20, 40), (parens, 30, 200), (parameters, 12, 40), (terms, 100, 800),
         (statements, 200, 1500), (arrays, 60, 500), (forlist, 60, 400)]


def program(seed, big):
    """text, and whether the compiler may refuse it"""
    r = random.Random('size' + seed)
    p = P(r)
    p.scal.append('integer z')
    p.st.append('z := 0')
    ks = r.sample(KINDS, r.choice([1, 1, 2, 2, 3] if big else [2, 3, 4, 5]))
    for f, sure, most in ks:
        hi = most if big else max(4, sure // len(ks))
        n = max(1, int(hi ** r.uniform(0.5, 1)))
        f(p, n)
    if not p.st:
        p.st.append('print(1)')
    return p.text(), big


def c19(ck):
    cs = []
    for k in range(ck.n(500, 5000)):
        big = k % 2 == 1
        t, may = program('%d' % (ck.seed * 1000003 + k), big)
        c = Case(parse.program(t), name='size-%d' % (ck.seed * 1000003 + k), fuel=ck.n(12000, 40000))
        c.may = may
        cs.append(c)
    cs += edges(ck, ck.n(80, 1200))
    ck.log('edges')
    ck.cov['refused'] = 0
    p_lang.run(ck, ck.corpus('C19') + cs)
    ck.cov['refused'] = sum(1 for c in cs if c.verdict and c.verdict[0] == 'refused')
