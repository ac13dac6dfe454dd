"""Programs that go through operators, operand kinds and array accesses
systematically (text in the plain notation of parse.py)."""
import random
import parse
from conform import Case


# ------------------------------------------------------------- operand kinds
def operands(seed):
    """a procedure with every kind of operand in it; prints A op B for many pairs"""
    r = random.Random('ops' + seed)
    iv = lambda: r.choice([0, 1, 2, 3, 2, 1, 4, 5, 7, 10, 100, -1, -2, -3, -7, 12345, 8191, -4096, 3000000, r.randint(-50, 50)])
    rv = lambda: r.choice(['0.5', '1.5', '2.25', '-0.75', '3.0', '100.125', '1@10', '-2.5@-3', '0.0', '7.0', '1@-12',
                           '%d.%d' % (r.randint(-40, 40), r.randint(0, 999))])
    pos = lambda n: str(n) if n >= 0 else '(-%d)' % -n
    rpos = lambda s: s if s[0] != '-' else '(%s)' % s
    ints = ['si', 'sj', 'li', 'lj', 'fi', 'fj', 'fk', 'fl', 'vi', 'sai[2]', 'lai[1]', 'sai[k]', 'lai[k-1]', 'if0(si)',
            'if1', 'md(9,li)', '(si+li)', '(sj-1)', '(if sb then li else 3)', 'fa[2]', 'va[1]', 'entier(sr)', 'sign(lr)']
    reals = ['sr', 'ss', 'lr', 'ls', 'fr', 'fs', 'ft', 'fu', 'vr', 'sar[0]', 'lar[k]', 'sar[k-2]', 'rf0(sr)', 'rf1',
             '(sr+1)', '(lr*2)', '(if lb then lr else 1)', 'fra[k]', 'vra[1]', 'abs(li)']
    L = []

    def opnd():
        k = r.random()
        if k < 0.42:
            return r.choice(ints), 'I'
        if k < 0.84:
            return r.choice(reals), 'R'
        if k < 0.93:
            return pos(abs(iv())), 'I'
        return rpos(rv().lstrip('-')), 'R'

    for _ in range(r.randint(20, 34)):
        a, ta = opnd()
        b, tb = opnd()
        op = r.choice(['+', '-', '*', '/', '+', '-', '*', '//', '<', '<=', '=', '#', '>=', '>'])
        if op == '//' and (ta == 'R' or tb == 'R'):
            op = '-'
        sg = r.choice(['', '', '', '-', '+'])
        if op in '/ //'.split():
            nz = '(if %s # 0 then %s else 4)' % (b, b)
            b2 = nz if r.random() < 0.3 else b
            e = '%s%s %s %s' % (sg, a, op, b2)
            ty = 'R' if op == '/' else 'I'
        elif op in ('+', '-', '*'):
            e = '%s%s %s %s' % (sg, a, op, b)
            ty = 'I' if ta == tb == 'I' else 'R'
            if r.random() < 0.4:
                c, tc = opnd()
                o2 = r.choice(['+', '-', '*', '-'])
                e = '%s %s %s' % (e, o2, c)
                if tc == 'R':
                    ty = 'R'
        else:
            L.append('print(%s%s %s %s)' % (sg, a, op, b))
            continue
        if r.random() < 0.3 and ty == 'R':
            e = '%s + 67108863 + 67108863' % e
        elif r.random() < 0.15 and ty == 'I' and '*' not in e:
            e = '(%s) // %s' % (e, r.choice(['1', '2', '(-3)']))
        w = r.random()
        if w < 0.8:
            L.append('print(%s)' % e)
        elif w < 0.9:
            L.append('lr := %s; print(lr); lr := %s' % (e, rv()))
        elif ty == 'I' and '*' not in e:
            L.append('li := %s; print(li, li // 2); li := %d' % (e, iv()))
        else:
            L.append('print(%s > %s)' % (e, r.choice(['0', '1.5', 'sr', 'li'])))
        if r.random() < 0.25:
            L.append('k := %d' % r.randint(2, 3))
    acti = lambda: r.choice(['si', 'sj', '4', 'si + 1', 'sai[2]', 'sai[h]', 'if0(3)', 'if1', '-sj', 'h'])
    actr = lambda: r.choice(['sr', 'ss', '2.5', 'sr * 2', 'sar[1]', 'sar[h - 2]', 'rf0(1.5)', 'rf1', '-ss', 'si', 'h'])
    body = '; NLCR; '.join(L)
    txt = '''integer si, sj, h; real sr, ss; boolean sb; integer array sai[1:3], xa[1:2]; real array sar[-1:1], xr[1:3];
integer procedure if0(x); value x; integer x; if0 := x + 1;
integer procedure if1; if1 := sj;
integer procedure md(x, n); value x, n; integer x, n; md := if n = 0 then x else x - x // n * n;
real procedure rf0(x); value x; real x; rf0 := x / 4;
real procedure rf1; rf1 := ss + 1;
procedure m(fi, fj, fk, fl, fr, fs, ft, fu, vi, vr, fa, va, fra, vra); value vi, vr, va, vra;
integer fi, fj, fk, fl, vi; real fr, fs, ft, fu, vr; integer array fa, va; real array fra, vra;
begin integer li, lj, k; real lr, ls; boolean lb; integer array lai[1:2]; real array lar[1:3];
li := %s; lj := %s; lr := %s; ls := %s; lb := %s; k := 2; lai[1] := %s; lai[2] := %s; lar[1] := lar[3] := %s; lar[2] := %s;
%s end;
h := 2; si := %s; sj := %s; sr := %s; ss := %s; sb := %s; sai[1] := %s; sai[2] := %s; sai[3] := %s;
xa[1] := %s; xa[2] := %s; sar[-1] := %s; sar[0] := %s; sar[1] := %s; xr[1] := %s; xr[2] := %s; xr[3] := %s;
m(%s, %s, %s, %s, %s, %s, %s, %s, %s, %s, xa, xa, xr, xr)''' % (
        (iv(), iv(), rv(), rv(), r.choice(['true', 'false']), iv(), iv(), rv(), rv(), body)
        + (iv(), iv(), rv(), rv(), r.choice(['true', 'false']), iv(), iv(), iv(), iv(), iv())
        + (rv(), rv(), rv(), rv(), rv(), rv())
        + tuple(acti() for _ in range(4)) + tuple(actr() for _ in range(4)) + (acti(), actr()))
    return parse.program(txt)


# ------------------------------------------------------------- arrays
def arrays(seed):
    r = random.Random('arr' + seed)
    nd = r.choice([1, 1, 2, 2, 3, 3, 4, 5])
    many = r.random() < 0.12
    if many:
        nd = r.randint(6, 29)
        wide = [r.randrange(nd) for _ in range(4)]
    ty = r.choice(['integer', 'real', 'boolean', 'integer', 'real'])
    dims = []
    size = 1
    for _ in range(nd):
        n = r.randint(1, 5 if nd < 3 else 3)
        if many:
            n = 2 if len(dims) in wide else 1
        lo = r.choice([0, 1, 1, -1, -3, 5, r.randint(-20, 20), r.randint(-300, 300)])
        dims.append((lo, lo + n - 1))
        size *= n
    ix = ['k%d' % (i + 1) if not many or i in wide else str(dims[i][0]) for i in range(nd)]
    place = r.choice(['static', 'local', 'localexp', 'own', 'name', 'value', 'conv'])
    if ty == 'boolean' and place == 'conv':
        place = 'value'
    if many and place in ('value', 'conv'):
        place = 'local'
    bnd = ','.join('%d:%d' % d for d in dims)

    def val(e):
        return {'integer': e, 'real': '%s / 4' % e, 'boolean': '%s // 2 * 2 = %s' % (e, e)}[ty]

    def loops(body):
        s = body
        for i in range(nd):
            lo, hi = dims[i]
            h = r.random()
            if ix[i][0] != 'k':
                continue
            if h < 0.7:
                f = 'for %s := %d step 1 until %d do ' % (ix[i], lo, hi)
            elif h < 0.9:
                f = 'for %s := %d step -1 until %d do ' % (ix[i], hi, lo)
            else:
                f = 'for %s := %s do ' % (ix[i], ', '.join(str(x) for x in range(lo, hi + 1)))
            s = f + s
        return s
    # linear number of an element, as in the language: each element its own
    mult = [7 ** i for i in range(5)] if not many else [3 ** len([j for j in range(i) if j in wide]) for i in range(nd)]
    lin = '+'.join('(%s-%s)*%d' % (ix[i], '(%d)' % dims[i][0], mult[i]) for i in range(nd) if ix[i][0] == 'k')
    sub = ','.join(ix)
    strides = [1]
    for lo, hi in dims:
        strides.append(strides[-1] * (hi - lo + 1))

    def point(off):
        """subscripts with linear offset off, perhaps outside single bounds"""
        p = []
        for i in reversed(range(nd)):
            q = off // strides[i] if i else off
            p.append(dims[i][0] + q)
            off -= q * strides[i]
        p.reverse()
        if nd > 1 and r.random() < 0.3:
            i = r.randrange(nd - 1)
            d = dims[i][1] - dims[i][0] + 1
            p[i] += d
            p[i + 1] -= 1
        return ','.join(str(x) for x in p)
    tail = []
    z = {'integer': '7', 'real': '2.5', 'boolean': 'true'}[ty]
    for _ in range(r.randint(0, 3)):
        o = r.randrange(size)
        tail.append('%s[%s] := %s' % ('a', point(o), z) if r.random() < 0.6 else 'print(a[%s])' % point(o))
    if r.random() < 0.6:
        o = r.choice([-1, size, size, -1, size + 1, -2, size + 40, -size, 2 * size])
        e = 'a[%s]' % point(o)
        tail.append('print(77)')
        tail.append('%s := %s' % (e, z) if r.random() < 0.6 else 'print(%s)' % e)
        tail.append('print(78)')
    show = loops('print(%sa[%s])' % ("" if ty != 'boolean' else '', sub))
    fillf = loops('%s[%s] := %s')
    fill = lambda nm: fillf % (nm, sub, val('(%s)' % lin))
    other = loops('print(%s[%s])')
    work = '; '.join([show] + tail + ([show] if r.random() < 0.5 else []))
    ks = 'integer h, ' + ', '.join(x for x in ix if x[0] == 'k')
    if place == 'static':
        txt = '%s; %s array b, a, c[%s]; %s; %s; %s; %s; %s' % (ks, ty, bnd, fill('b'), fill('c'), fill('a'), work,
                                                             other % ('c', sub))
    elif place in ('local', 'localexp'):
        b2 = bnd
        pre = ''
        if place == 'localexp':
            b2 = ','.join('%d + h : %d + h' % d for d in dims)
            pre = 'h := 0; '
        txt = '%s; %sbegin %s array b, a[%s], c[%s]; %s; %s; %s; %s; %s end' % (
            ks, pre, ty, b2, b2, fill('b'), fill('c'), fill('a'), work, other % ('b', sub))
        if r.random() < 0.4:
            i = txt.index('begin')
            txt = '%s; procedure p(n); value n; integer n; if n > 0 then p(n - 1) else %s; h := 0; p(%d)' % (
                txt[:i].split(';')[0], txt[i:], r.randint(1, 4))
    elif place == 'own':
        txt = ('%s; procedure p(n); value n; integer n; begin own %s array b, a, c[%s]; if n = 1 then begin %s; %s; %s end '
               'else begin %s; %s end end; p(1); p(2)'
               % (ks, ty, bnd, fill('b'), fill('c'), fill('a'), work, other % ('c', sub)))
    else:
        fty = ty
        if place == 'conv':
            fty = 'real' if ty == 'integer' else 'integer'
        v = '' if place == 'name' else 'value a; '
        w = work.replace('2.5', '7') if fty == 'integer' else work
        txt = ('%s; %s array b, x, c[%s]; procedure p(a); %s%s array a; begin %s end; '
               '%s; %s; %s; p(x); %s; %s' % (ks, ty, bnd, v, fty, w, fill('b'), fill('x'), fill('c'),
                                             other % ('x', sub), other % ('b', sub)))
        if r.random() < 0.4:
            # the array declared in an inner block
            txt = ('%s; procedure p(a); %s%s array a; begin %s end; begin %s array b, x, c[%s]; '
                   '%s; %s; %s; p(x); %s; %s end' % (ks, v, fty, w, ty, bnd, fill('b'), fill('x'), fill('c'),
                                                     other % ('x', sub), other % ('b', sub)))
    return parse.program(txt)


def cases(ck, f, n, name, **kw):
    out = []
    for k in range(n):
        s = ck.seed * 1000003 + k
        out.append(Case(f('%d' % s), name='%s-%d' % (name, s), **kw))
    return out


# ------------------------------------------------------------- formal parameters
def formals(seed):
    """every operation on formal parameters whose actuals are of every kind, directly and passed on"""
    r = random.Random('formal' + seed)
    ivs = lambda: r.choice([1, 2, 3, 4, 5, 6, 7, 9, 12, 100, 4097, -1, -2, -3, -8])
    P = lambda n: str(n) if n >= 0 else '(-%d)' % -n
    rvs = lambda: r.choice(['0.5', '1.5', '2.25', '4.0', '3.75', '10.5', '1@3', '2.5@(-2)'.replace('(-2)', '-2'), '7.0'])
    acts_i = ['si', 'li', 'sa[2]', 'la[k]', 'sa[k]', 'la[1]', '3', '70000', 'f(5)', 'f1', 'si + li', '-sj', 'n', 'q', 'va',
              'if sb then si else li', 'sa[sa[1]]', '(li)']
    acts_r = ['sr', 'lr', 'sx[2]', 'lx[k]', 'sx[k]', 'lx[1]', '2.5', 'g(4)', 'g1', 'sr * lr', '-ss', 'w', 'v', 'vb',
              'if sb then sr else lr', 'sx[sa[1]]', '(lr)']
    ops = ['+', '-', '*', '/', '//', '^', '<', '<=', '=', '>=', '>', '#']
    procs, calls = [], []
    for j in range(r.randint(3, 5)):
        tx, ty = r.choice('IR'), r.choice('IR')
        sp = {'I': 'integer', 'R': 'real'}
        lines = []
        for op in r.sample(ops, 6):
            if op == '//' and (tx == 'R' or ty == 'R'):
                op = '/'
            a, b = r.choice([('x', 'y'), ('x', 'y'), ('y', 'x') if op != '^' and not (op == '//' and tx == 'R') else ('x', 'y'),
                             ('lc', 'x') if op != '//' else ('x', 'y'), ('x', 'lc'), ('s0', 'x'), ('x', 'x')])
            if op == '//' and 's0' not in (a, b) and 'lc' in (a, b):
                a, b = 'x', 'y'
            if op == '^':
                a, b = ('x', str(r.randint(1, 3)))
            e = '%s %s %s' % (a, op, b)
            if op in ('+', '-', '*') and r.random() < 0.5:
                e = '%s %s %s %s' % (r.choice(['s0', 'lc', '5', '2.5']), r.choice('+-*'), '(%s)' % e if r.random() < 0.5 else e,
                                     '')
            lines.append('print(%s)' % e)
        if r.random() < 0.5:
            lines.insert(r.randint(0, len(lines)), 'lc := y; print(lc)')
        if r.random() < 0.25:
            lines.insert(r.randint(0, len(lines)), 's0 := x; print(s0)')
        lev = r.choice([0, 0, 1, 2, 3])
        nm = 'p%d' % j
        body = '; NLCR; '.join(lines)
        decl = 'procedure %s(x, y); %s x; %s y; begin %s lc; lc := %s; %s end' % (
            nm, sp[tx], sp[ty], r.choice(['integer', 'real']), P(ivs()), body)
        procs.append(decl)
        for l in range(lev):
            inner = 'p%d%s' % (j, 'abc'[l - 1]) if l else nm
            nm2 = 'p%d%s' % (j, 'abc'[l])
            sw = r.random() < 0.3 and tx == ty
            procs.append('procedure %s(x, y); %s x; %s y; begin integer z; z := %d; %s(%s) end' % (
                nm2, sp[tx], sp[ty], r.randint(1, 5), inner, 'y, x' if sw else r.choice(['x, y', 'x, y', 'x, x', 'x, z'])
                if tx == ty == 'I' else 'x, y'))
            nm = nm2
        for _ in range(r.randint(3, 6)):
            pa = lambda t: r.choice(acts_i if t == 'I' else acts_r)
            calls.append('%s(%s, %s)' % (nm, pa(tx), pa(ty)))
            if r.random() < 0.3:
                calls.append('k := %d' % r.randint(1, 3))
    txt = '''integer si, sj, s0; real sr, ss; boolean sb; integer array sa[1:3]; real array sx[1:3];
integer procedure f(x); value x; integer x; f := x + 1;
integer procedure f1; f1 := sj;
real procedure g(x); value x; integer x; g := x / 4;
real procedure g1; g1 := ss + 1;
%s;
procedure m(n, q, w, v, va, vb); value va, vb; integer n, q, va; real w, v, vb;
begin integer li, k; real lr; integer array la[1:3]; real array lx[1:3];
li := %s; lr := %s; k := 2; la[1] := %s; la[2] := %s; la[3] := %s; lx[1] := %s; lx[2] := %s; lx[3] := %s;
%s end;
s0 := 3; si := %s; sj := %s; sr := %s; ss := %s; sb := %s; sa[1] := 3; sa[2] := %s; sa[3] := %s; sx[1] := %s; sx[2] := %s; sx[3] := %s;
m(%s, %s, %s, %s, si + 1, sr)''' % (
        (';\n'.join(procs), P(ivs()), rvs(), P(ivs()), P(ivs()), P(ivs()), rvs(), rvs(), rvs(), '; '.join(calls),
         P(ivs()), P(ivs()), rvs(), rvs(), r.choice(['true', 'false']), P(ivs()), P(ivs()), rvs(), rvs(), rvs())
        + (r.choice(['si', 'sa[3]', 'f(2)', '17', 'f1']), r.choice(['sj', 'sa[2]', 'si - 9', 'sa[sa[1]]']),
           r.choice(['sr', 'sx[3]', 'g(9)', '0.75', 'g1']), r.choice(['ss', 'sx[1]', 'sr / 2', 'sx[sa[1]]'])))
    return parse.program(txt)


# ------------------------------------------------------------- jumps outwards
class _Exits:
    """a statement that may jump, wrapped in contexts that have to be left"""
    KINDS = ['proc', 'func', 'byname', 'bynamex', 'value', 'for', 'forel', 'forstep', 'forwhile', 'block', 'bound', 'subscript',
             'local', 'formalproc', 'assign', 'print', 'cond', 'lab', 'nest', 'std', 'strproc', 'passon', 'formalfun', 'cell']

    def __init__(self, r):
        self.r = r
        self.n = 0
        # declarations of the block under construction: scalars, arrays, switches, procedures
        self.ds = [[], [], [], []]

    def new(self, p):
        self.n += 1
        return '%s%d' % (p, self.n)

    def d(self, k, t):
        self.ds[k].append(t)

    def fun(self, s):
        """a function executing s"""
        f = self.new('f')
        k = self.r.random()
        ty = self.r.choice(['integer', 'integer', 'real'])
        if k < 0.5:
            self.d(3, '%s procedure %s; begin %s; %s := %d end' % (ty, f, s, f, self.r.randint(1, 3)))
        elif k < 0.8:
            self.d(3, '%s procedure %s; begin integer t; t := %d; %s; %s := t end' % (ty, f, self.r.randint(1, 3), s, f))
        else:
            self.d(3, '%s procedure %s; begin %s := 2; begin integer array t[1:2]; t[2] := 1; %s; %s := t[2] end end' % (ty, f, f, s, f))
        return f

    def wrap(self, kind, s):
        r, new, d = self.r, self.new, self.d
        if kind == 'proc':
            p = new('p')
            d(3, 'procedure %s; begin integer a; a := %d; %s; print(a) end' % (p, r.randint(1, 9), s))
            return p
        if kind == 'nest':
            p = new('p')
            d(3, 'procedure %s(n); value n; integer n; if n > 0 then %s(n - 1) else begin %s end' % (p, p, s))
            return '%s(%d)' % (p, r.randint(1, 3))
        if kind == 'for':
            i = new('i')
            d(0, 'integer %s' % i)
            return 'for %s := %s do begin %s end' % (i, r.choice(['1 step 1 until 3', '1, 2, 3', '3 step -1 until 1']), s)
        if kind == 'block':
            i = new('z')
            return 'begin integer array %s[0:3]; %s[2] := 5; %s; print(%s[2]) end' % (i, i, s, i)
        if kind == 'formalproc':
            p, q = new('p'), new('p')
            d(3, 'procedure %s; begin integer w; w := 2; %s end' % (p, s))
            d(3, 'procedure %s(p); procedure p; begin integer w; w := 1; p; print(w) end' % q)
            return '%s(%s)' % (q, p)
        if kind == 'strproc':
            p, q = new('p'), new('p')
            d(3, "procedure %s(s); string s; begin PRINTTEXT(s); %s end" % (p, s))
            d(3, "procedure %s(p); procedure p; p(`x')" % q)
            return '%s(%s)' % (q, p)
        f = self.fun(s)
        q = new('q')
        if kind == 'func':
            return 'print(%s)' % r.choice(['10 + %s * 2' % f, '%s - 1' % f, '(1 + 2) * (3 - %s)' % f, 'if %s > 0 then 1 else 2' % f])
        if kind == 'byname':
            d(3, 'procedure %s(x); integer x; begin integer q; q := 1 + x; print(q) end' % q)
            return '%s(%s)' % (q, r.choice(['%s + 1', '%s', '3 - %s']) % f)
        if kind == 'bynamex':
            d(3, 'integer procedure %s(x); integer x; %s := 7 %s x' % (q, q, r.choice('+-*')))
            return 'print(1 + %s(%s))' % (q, r.choice(['%s * 2', '%s', '1 + %s']) % f)
        if kind == 'value':
            d(3, 'integer procedure %s(y, x); value %s; integer x, y; %s := x + y' % (q, r.choice(['x', 'y, x']), q))
            return 'print(2 * %s(1, %s))' % (q, f)
        if kind == 'passon':
            q2 = new('q')
            d(3, 'integer procedure %s(x); integer x; %s := 1 + x' % (q, q))
            d(3, 'integer procedure %s(x); integer x; %s := 2 * %s(%s)' % (q2, q2, q, r.choice(['x', 'x + 1'])))
            return 'print(%s(%s))' % (q2, r.choice(['%s', '%s + 1']) % f)
        if kind == 'formalfun':
            d(3, 'integer procedure %s(g); integer procedure g; %s := 3 + g' % (q, q))
            return 'print(1 + %s(%s))' % (q, f)
        if kind in ('forel', 'forstep', 'forwhile'):
            d(0, 'integer %s' % q)
            return {'forel': 'for %s := 1, %s, 3 do print(%s)' % (q, f, q),
                    'forstep': 'for %s := 1 step %s until %s do print(%s)' % (q, r.choice([f, '1']), r.choice([f, '3']), q),
                    'forwhile': 'for %s := 1, %s + 1 while %s < %s + 2 do print(%s)' % (q, q, q, f, q)}[kind]
        if kind == 'bound':
            return 'begin %sarray %s[0:%s]; %s[1] := 5; print(%s[1]) end' % (r.choice(['integer ', 'real ']), q, f, q, q)
        if kind == 'subscript':
            d(1, 'integer array %s[1:3]' % q)
            return r.choice(['%s[%s] := 4', 'print(%s[%s])', '%s[1] := %s']) % (q, f)
        if kind == 'cell':
            d(1, 'integer array %s[1:3]' % q)
            q2 = new('q')
            d(3, 'procedure %s(x); integer x; begin x := 3; print(x + 1) end' % q2)
            return '%s(%s[%s])' % (q2, q, f)
        if kind == 'local':
            return 'begin integer %s; %s := %s; print(%s) end' % (q, q, f, q)
        if kind == 'assign':
            d(0, 'integer %s' % q)
            return '%s := %s' % (q, r.choice(['5 + %s', '%s', '%s * 2 - 1']) % f)
        if kind == 'print':
            return 'print(1, %s)' % f
        if kind == 'std':
            return r.choice(['print(sign(%s))', 'print(entier(%s))', 'FIXT(3, 0, %s)', 'print(abs(%s))']) % f
        if kind == 'cond':
            return 'if %s > 9 then print(1) else print(2)' % f
        if kind == 'lab':
            l = new('l')
            d(3, 'procedure %s(x, l); label l; integer x; begin if x > 99 then goto l; print(97) end' % q)
            return 'begin %s(%s, %s); %s: end' % (q, f, l, l)
        raise KeyError(kind)

    def region(self, inner, outer):
        """a block with a label, left from deep inside"""
        r = self.r
        save, self.ds = self.ds, [[], [], [], []]
        m, l, c = self.new('m'), self.new('l'), self.new('c')
        self.d(0, 'integer %s, %s' % (m, c))
        form = r.choice(['plain', 'plain', 'switch', 'cond', 'formal', 'formalif'])
        when = r.choice([1, 1, 2, 3])
        go = 'goto %s' % l
        if form == 'switch':
            s = self.new('s')
            self.d(2, 'switch %s := %s, %s' % (s, l, l))
            go = 'goto %s[%s]' % (s, r.choice(['1', '2', '%s - %s + 1' % (c, c)]))
        elif form == 'cond':
            go = 'goto if %s > 0 then %s else %s' % (c, l, l)
        elif form in ('formal', 'formalif'):
            p = self.new('p')
            self.d(3, 'procedure %s(l); label l; begin integer w; w := 6; goto l end' % p)
            go = '%s(%s)' % (p, l if form == 'formal' else 'if %s > 0 then %s else %s' % (c, l, l))
        s = '%s := %s + 1; if %s = %d then %s' % (c, c, c, when, go)
        for k in inner:
            s = self.wrap(k, 'begin %s end' % s if ';' in s or s.startswith('if') else s)
        ds = self.ds
        self.ds = save
        t = 'begin ' + '; '.join(sum(ds, []) + ['%s := %d' % (m, r.randint(10, 50)), '%s := 0' % c, s, 'print(91)',
                                                '%s: print(%s, %s); NLCR' % (l, m, c)]) + ' end'
        as_ = r.choice(['block', 'proc', 'fun', 'fun', 'fun'])
        if as_ != 'block':
            # the body of a procedure or function itself
            f = self.new('h')
            if as_ == 'proc':
                self.d(3, 'procedure %s; %s' % (f, t))
                t = f
            else:
                self.d(3, '%s procedure %s; %s; %s := %d end' % (r.choice(['integer', 'real']), f, t[:-4], f, r.randint(1, 3)))
                q = self.new('q')
                k = r.random()
                if k < 0.4:
                    t = 'print(%s)' % r.choice(['10 + %s * 2', '%s - 1', '(1 + 2) * (3 - %s)', '%s', '2 - %s']) % f
                elif k < 0.7:
                    self.d(3, 'integer procedure %s(x); integer x; %s := 7 %s x' % (q, q, r.choice('+-*')))
                    t = 'print(1 + %s(%s))' % (q, r.choice(['%s * 2', '%s', '1 + %s']) % f)
                else:
                    self.d(0, 'integer %s' % q)
                    t = 'begin %s := %s; print(%s) end' % (q, f, q)
        for k in outer:
            t = self.wrap(k, t)
        return t


def exits(seed):
    r = random.Random('exits' + seed)
    x = _Exits(r)
    st = []
    for _ in range(r.randint(2, 4)):
        inner = [r.choice(x.KINDS) for _ in range(r.choice([1, 2, 2, 3]))]
        outer = [r.choice(x.KINDS) for _ in range(r.choice([0, 1, 1, 2]))]
        st.append(x.region(inner, outer))
        st.append('print(7); NLCR')
    return parse.program('begin ' + '; '.join(sum(x.ds, []) + st) + ' end')


# ------------------------------------------------------------- powers and quotients without a result
def powers(seed):
    """operations whose result may be undefined, for every kind of zero, one and extreme"""
    r = random.Random('pow' + seed)
    iz = ['0', 'z', '(z - z)', 'az[1]', '(1 - 1)', '(-z)', 'fz(0)', 'sign(z)', '(0 * (-3))']
    rz = ['0.0', 'x0', '(x0 - x0)', 'ar[1]', '(0.5 - 0.5)', '(-x0)', 'fx(0)', '(x0 * (-3.5))', '(1@-400 * 1@-400)', 'vz']
    one = ['1', '(-1)', '1.0', '(-1.0)', 'i1', 'x1']
    small = ['2', '3', '(-2)', '(-3)', '0.5', '(-0.5)', '1.5', '(-1.5)', '10', '7', '(-7)', 'n', 'y', '0.125']
    big = ['67108863', '(-67108863)', '8191', '8192', '1@300', '(-1@300)', '1@-300', '1@600', '1@-600', '5794', '(-5793)', '406', '407']
    ex = ['1', '2', '3', '(-1)', '(-2)', '(-3)', '25', '26', '27', '(-25)', 'n', '(-n)', '5', '67108863', '(-67108863)']
    exr = ['0.5', '(-0.5)', '1.0', '2.0', '(-1.0)', '1.5', 'y', '(-y)', '0.125', '3.0']
    L = []
    for _ in range(r.randint(1, 5)):
        q = r.random()
        if q < 0.62:
            b = r.choice(r.choice([iz, rz, one, small, small, big]))
            e = r.choice(r.choice([iz, rz, ex, ex, ex, exr]))
            t = '%s ^ %s' % (b, e)
        elif q < 0.75:
            t = '%s / %s' % (r.choice(iz + rz + one + small), r.choice(r.choice([iz, rz, one, small])))
        elif q < 0.87:
            ints = ['0', '7', '(-7)', 'n', '67108863', '(-67108863)', 'z']
            t = '%s // %s' % (r.choice(ints), r.choice(iz + ['1', '(-1)', '2', '(-3)', 'n'] + (['2.0', 'x1'] if r.random() < .3 else [])))
        else:
            t = r.choice(['sqrt(%s)', 'ln(%s)', 'entier(%s)', 'sign(%s)', 'abs(%s)']) % r.choice(iz + rz + one + small + big)
        t = r.choice(['%s', '%s', '%s', '2 * %s', '1 + %s', '(%s) * 0', '-%s'] if '(' in t or '^' in t else ['%s']) % t
        L.append(r.choice(['print(%s)', 'print(%s)', 'y1 := %s; print(y1)', 'pn(%s)', 'pv(%s)', 'print(if %s > 1 then 1 else 2)',
                           'ar[2] := %s; print(ar[2])']) % t)
    txt = '''integer z, i1, n; real x0, x1, y, y1; integer array az[1:1]; real array ar[1:2];
integer procedure fz(k); value k; integer k; fz := k; real procedure fx(k); value k; real k; fx := k;
procedure pn(u); real u; print(u); procedure pv(u); value u; real u; print(u);
procedure m(vz); value vz; real vz; begin %s end;
z := 0; i1 := 1; n := %d; x0 := 0; x1 := 1; y := %s; az[1] := 0; ar[1] := 0; print(%d); m(0); print(99)''' % (
        '; '.join(L), r.choice([2, 3, -2, 4]), r.choice(['0.5', '2', '(-1.5)', '0.75']), r.randint(1, 9))
    return parse.program(txt)


# ------------------------------------------------------------- for statements
def loops(seed):
    """for lists of every kind: steps of either sign, zero and changing, limits met exactly, left early"""
    r = random.Random('loop' + seed)
    P = lambda n: str(n) if n >= 0 else '(-%d)' % -n
    L = []
    for nl in range(r.randint(2, 4)):
        v = r.choice(['i', 'j', 'x', 'a[2]', 'a[k]', 'b[k]', 'fi', 'fx', 'li', 'lx'])
        real = v in ('x', 'b[k]', 'fx', 'lx')

        def num(lo=-6, hi=9):
            n = r.randint(lo, hi)
            if r.random() < (0.4 if real else 0.12):
                return P(n).rstrip(')') + r.choice(['.5', '.25', '.75', '.0']) + (')' if n < 0 else '')
            return P(n)

        def e(t):
            """the value t by some route"""
            w = r.random()
            if w < 0.55:
                return t
            if w < 0.7:
                return 'f(%s)' % t
            if w < 0.8:
                return '(if lb then %s else 1)' % t
            if w < 0.9:
                return '%s + z' % t
            return 'g(%s)' % t
        els = []
        for _ in range(r.choice([1, 1, 1, 2, 2, 3, 4])):
            w = r.random()
            if w < 0.55:
                a, s, b = num(), r.choice(['1', '1', '-1', '2', '-2', '3', '0', '0.5', '-0.25', 'st', 'ft', '0.0', '-3', '7', 'z', '1.5']), num()
                if s[0] == '-':
                    s = '(%s)' % s
                w2 = r.random()
                if w2 < 0.12:
                    b = '%s' % a    # once
                elif w2 < 0.2:
                    b = 'lim'
                elif w2 < 0.25:
                    b = '%s + %s' % (v, r.choice(['1', '(-1)', '0']))
                els.append('%s step %s until %s' % (e(a), e(s) if r.random() < 0.4 else s, e(b) if r.random() < 0.4 else b))
            elif w < 0.75:
                els.append(e(num()))
            else:
                els.append('%s while %s' % (r.choice([e(num()), '%s + 1' % v, '%s - 2' % v, '%s * 2' % v]),
                                            r.choice(['n < %d' % r.randint(1, 6), '%s < %s and n < 9' % (v, num()), 'lb and n < 5',
                                                      '%s # %s' % (v, num())])))
        body = ['print(%s, n)' % v, 'n := n + 1', 'if n > %d then goto out%d' % (r.randint(5, 9), nl)]
        for _ in range(r.choice([0, 0, 0, 1, 1, 2])):
            body.insert(r.randint(0, 2), r.choice([
                'lim := lim - 1', 'lim := lim + 1', 'st := -st', 'st := st + 1', 'st := 0', 'st := 1', 'lb := not lb',
                'if n = 2 then st := -1', 'if n = 1 then st := 0', '%s := %s + 1' % (v, v), 'if n = 2 then %s := %s' % (v, num()),
                'if n = 1 then k := 3', 'lim := %s' % v, 'z := 1 - z']))
        body.append(r.choice(['NLCR', 'SPACE(1)', 'NLCR']))
        nest = r.random()
        s = 'for %s := %s do begin %s end' % (v, ', '.join(els), '; '.join(body))
        if nest < 0.15:
            s = 'for h := 1 step 1 until 2 do begin n := 0; %s end' % s
        elif nest < 0.22:
            s = 'if lb then %s' % 'begin %s end' % s
        pre = 'n := 0; k := %d; z := 0; st := %s; lim := %s; lb := %s; i := j := li := 1; x := lx := 0; a[1] := a[2] := a[3] := 4; b[1] := b[2] := b[3] := 1.5' % (
            r.randint(1, 3), r.choice(['1', '2', '(-1)', '0', '(-2)']), P(r.randint(-4, 6)), r.choice(['true', 'true', 'false']))
        L.append('%s; %s; print(%s); out%d: print(n, st, lim, a[1] + 10 * a[2] + 100 * a[3], i, j, li); NLCR' % (pre, s, v, nl))
    txt = '''integer i, j, k, n, h, z, lim; real x, st; boolean lb; integer array a[1:3]; real array b[1:3];
real procedure f(u); value u; real u; begin PRSYM(30); f := u end;
integer procedure g(u); value u; real u; begin PRSYM(31); k := if k = 3 then 1 else k + 1; g := u end;
procedure m(fi, fx, ft); integer fi; real fx, ft; begin integer li; real lx; %s end;
k := 1; h := 0; m(%s, %s, %s)''' % ('; '.join(L), r.choice(['i', 'j', 'a[k]', 'a[3]']), r.choice(['x', 'b[1]', 'b[k]']),
                                 r.choice(['st', '1', '(-1)', 'st + z', 'b[2]', '0.5']))
    return parse.program(txt)
