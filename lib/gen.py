"""Random programs for the conformance checks.

Every generated program is one the compiler accepts, terminates, and (unless an
error is planted on purpose) keeps its numbers in range, so that what it should
do is completely defined.  Profiles steer which parts of the language are used.
"""
import random

LIM = 999            # |value| of every integer variable
RLIM = 1 << 20       # |value| of every real variable
IMAX = (1 << 26) - 1

V = lambda n: ('v', n)
I = lambda n: ('i', n) if n >= 0 else ('un', '-', ('i', -n))
R = lambda ip, fp='', ex=0: ('r', ip, fp or ('' if ex else '0'), ex)
B = lambda o, a, b: ('bi', o, a, b)
CALL = lambda n, *a: ('ca', n, list(a))
FC = lambda n, *a: ('fc', n, list(a))


def pr(*a):
    return ('ca', 'print', list(a))


DEFAULT = dict(
    budget=500, stmts=(5, 9), depth=3, edepth=3,
    # statement weights
    assign=10, prnt=8, cond=4, loop=4, block=2, call=4, goto=2, comp=1, nop=0.3, text=0.6,
    jswitch=0.7, multi=1,
    # expression weights
    side=0.15, fcall=1.0, arr=1.0, real=0.4, boolv=0.3, power=0.4, condx=0.8,
    # declarations
    procs=(1, 3), arrays=(0, 2), own=0.15, nest=2, local=0.12, shadow=0.35, rec=0.4,
    # parameters
    byname=0.5, parr=0.25, plab=0.2, psw=0.15, pproc=0.25, pstr=0.1, passon=0.4,
)


class Ent:
    """a declared thing: kind var, arr, proc, label, switch, str"""
    def __init__(self, kind, name, **kw):
        self.kind, self.name = kind, name
        self.ty = ''
        self.writable = True
        self.__dict__.update(kw)


class Gen:
    def __init__(self, seed, prof=None):
        self.r = random.Random(seed)
        self.p = dict(DEFAULT)
        self.p.update(prof or {})
        self.scopes = []       # list of dicts name -> Ent
        self.nname = 0
        self.cost = 0
        self.mult = 1
        self.helpers = set()
        self.labels = []       # (name, 'f'|'b') currently usable
        self.depth = 0
        self.pdepth = 0
        self.inproc = None
        self.tag = 0
        self.pure = 0          # >0: expressions without calls
        self.active = []       # procedures being declared
        self.noloop = set()    # names not to be assigned

    # ---------------------------------------------------------------- helpers
    def ch(self, p):
        return self.r.random() < p

    def pick(self, xs):
        return self.r.choice(xs)

    def wpick(self, pairs):
        pairs = [(w, x) for w, x in pairs if w > 0]
        t = self.r.random() * sum(w for w, _ in pairs)
        for w, x in pairs:
            t -= w
            if t <= 0:
                return x
        return pairs[-1][1]

    def newname(self, pre):
        # sometimes the name of something in an outer block
        self.nname += 1
        return pre + str(self.nname)

    def declname(self, pre):
        cur = self.scopes[-1]
        if len(self.scopes) > 1 and self.ch(self.p['shadow']):
            outer = [n for s in self.scopes[:-1] for n, e in s.items()
                     if n not in cur and e.kind in ('var', 'arr', 'proc') and n not in self.noloop
                     and n not in self.active
                     and not n.startswith('gc') and n not in HELPERS and not getattr(e, 'fixed', False)]
            if outer:
                return self.pick(outer)
        return self.newname(pre)

    def vis(self, kind, pred=None):
        seen = set()
        res = []
        for s in reversed(self.scopes):
            for n, e in s.items():
                if n in seen:
                    continue
                seen.add(n)
                if e.kind == kind and (pred is None or pred(e)):
                    res.append(e)
        return res

    def use(self, h):
        self.helpers.add(h)
        if h == 'md':
            self.cost += self.mult * 12
        elif h == 'ix':
            self.cost += self.mult * 18
        else:
            self.cost += self.mult * 8
        return h

    def tick(self, n=1):
        self.cost += self.mult * n

    def rich(self):
        return self.cost < self.p['budget']

    # ------------------------------------------------------------ expressions
    def ivar(self):
        vs = self.vis('var', lambda e: e.ty == 'I')
        return self.pick(vs) if vs else None

    def iexp(self, d=None, lim=IMAX):
        """integer expression: (node, bound on the absolute value)"""
        if d is None:
            d = self.p['edepth']
        self.tick()
        lim = max(lim, 0)
        P = self.p
        r = self.r
        opts = [(3, 'lit'), (6, 'var')]
        if d > 0 and self.rich():
            opts += [(6, 'add'), (2.5, 'mul'), (1.5, 'div'), (1, 'neg'),
                     (P['condx'], 'if'), (P['arr'], 'arr'), (0.4, 'sign'), (0.5, 'ent')]
            opts += [(P['power'], 'pow')]
            if not self.pure:
                opts += [(P['fcall'], 'fc'), (P['side'] * 5, 'tr')]
        k = self.wpick(opts)
        if k == 'var':
            e = self.ivar()
            if e is None or e.bound > lim:
                k = 'lit'
            else:
                return V(e.name), e.bound
        if k == 'arr':
            a = self.vis('arr', lambda e: e.ty == 'I')
            if a and LIM <= lim:
                return self.element(self.pick(a), d - 1), LIM
            k = 'lit'
        if k == 'fc':
            x = self.fcall('I', d)
            if x and LIM <= lim:
                return x, LIM
            k = 'lit'
        if k == 'lit':
            m = min(lim, self.pick([1, 3, 9, 9, 50, 999]))
            n = r.randint(0, m)
            return I(n), n
        if k == 'add':
            a, x = self.iexp(d - 1, lim - 1 if lim < 2 else lim // 2)
            b, y = self.iexp(d - 1, lim - x)
            return B(self.pick('+-'), a, b), x + y
        if k == 'mul':
            a, x = self.iexp(d - 1, min(lim, 5000))
            b, y = self.iexp(d - 1, lim // max(x, 1))
            return B('*', a, b), x * y
        if k == 'div':
            n = r.randint(1, 12)
            if self.ch(0.5):
                a, x = self.iexp(d - 1, min(IMAX, lim * n))
                return B('//', a, I(n)), x // n
            b, y = self.iexp(d - 1, 30)
            if self.haseff(b):
                return self.iexp(0, lim)
            a, x = self.iexp(d - 1, lim)
            return B('//', a, B('+', B('*', b, b), I(n))), x
        if k == 'neg':
            a, x = self.iexp(d - 1, lim)
            return ('un', self.pick('--+'), a), x
        if k == 'if':
            c = self.bexp(d - 1)
            a, x = self.iexp(d - 1, lim)
            b, y = self.iexp(d - 1, lim)
            return ('if', c, a, b), max(x, y)
        if k == 'sign':
            if self.ch(0.5):
                a, _ = self.iexp(d - 1)
            else:
                a, _ = self.rexp(d - 1)
            return FC('sign', a), 1
        if k == 'ent':
            a, x = self.rexp(d - 1, lim=min(lim // 2, 1 << 24))
            return FC('entier', a), int(x) + 1
        if k == 'tr':
            a, x = self.iexp(d - 1, lim)
            self.tag += 1
            return FC(self.use('tr'), I(self.tag), a), x
        if k == 'pow':
            base = r.randint(0, 9)
            n = r.randint(0, 5)
            if self.ch(0.4):
                a, x = self.iexp(d - 1, 30)
                n = r.randint(0, 3)
                if x ** n <= lim:
                    return B('^', a, I(n)), x ** n
            if base ** n <= lim:
                return B('^', I(base), I(n)), max(1, base ** n)
            return I(1), 1
        raise AssertionError(k)

    def haseff(self, e):
        return True if 'fc' in repr(e) else False

    def iexpl(self, lim=LIM, d=None):
        """an integer expression with bound at most lim"""
        x, b = self.iexp(d)
        if b <= lim:
            return x
        if self.ch(0.5):
            return FC(self.use('md'), x) if lim >= 996 else B('-', FC(self.use('ix'), x, I(lim)), I(0))
        k = b // lim + 1
        return B('//', x, I(k))

    def rexp(self, d=None, lim=1 << 60):
        if d is None:
            d = self.p['edepth']
        self.tick()
        P = self.p
        r = self.r
        opts = [(3, 'lit'), (5, 'var'), (1.5, 'int')]
        if d > 0 and self.rich():
            opts += [(6, 'add'), (3, 'mul'), (2, 'div'), (1, 'neg'), (P['condx'], 'if'),
                     (P['arr'] * 0.8, 'arr'), (0.3, 'abs'), (P['power'], 'pow'), (0.3, 'sqrt')]
            if not self.pure:
                opts += [(P['fcall'], 'fc'), (P['side'] * 5, 'tr')]
        k = self.wpick(opts)
        if k == 'var':
            vs = self.vis('var', lambda e: e.ty == 'R' and e.bound <= lim)
            if vs:
                e = self.pick(vs)
                return V(e.name), e.bound
            k = 'lit'
        if k == 'arr':
            a = self.vis('arr', lambda e: e.ty == 'R')
            if a and RLIM <= lim:
                return self.element(self.pick(a), d - 1), RLIM
            k = 'lit'
        if k == 'fc':
            x = self.fcall('R', d)
            if x and RLIM <= lim:
                return x, RLIM
            k = 'lit'
        if k == 'lit':
            if self.ch(0.25) and lim > 2 ** 10:
                n = r.randint(1, 9)
                ex = r.randint(-8, 2)
                return R(str(n), '', ex), n * 10.0 ** ex
            n = r.randint(0, max(0, min(int(lim), 99)))
            f = self.pick(['5', '25', '125', '75', '1', '3', '', '0625'])
            if n == 0 and f == '':
                f = '5'
            return R(str(n), f), n + 1
        if k == 'int':
            x, b = self.iexp(min(d, 1), min(int(lim), IMAX))
            return x, b
        if k == 'add':
            a, x = self.rexp(d - 1, lim / 2)
            b, y = self.rexp(d - 1, lim - x)
            return B(self.pick('+-'), a, b), x + y
        if k == 'mul':
            a, x = self.rexp(d - 1, min(lim, RLIM))
            b, y = self.rexp(d - 1, lim / max(x, 1))
            return B('*', a, b), max(x, 1) * max(y, 1)
        if k == 'div':
            a, x = self.rexp(d - 1, lim)
            if self.ch(0.6):
                c = self.pick([R('2'), R('3'), I(7), R('0', '75'), R('1', '5'), I(10), I(4)])
                return B('/', a, c), x * 2
            b, y = self.rexp(0, 1000)
            return B('/', a, B('+', B('*', b, b), R('1'))), x * 2
        if k == 'neg':
            a, x = self.rexp(d - 1, lim)
            return ('un', self.pick('--+'), a), x
        if k == 'if':
            c = self.bexp(d - 1)
            a, x = self.rexp(d - 1, lim)
            b, y = self.rexp(d - 1, lim)
            return ('if', c, a, b), max(x, y)
        if k == 'abs':
            a, x = self.rexp(d - 1, lim)
            return FC('abs', a), x
        if k == 'sqrt':
            a, x = self.rexp(d - 1, min(lim, RLIM))
            return FC('sqrt', FC('abs', a)), max(x, 1)
        if k == 'tr':
            a, x = self.rexp(d - 1, lim)
            self.tag += 1
            return FC(self.use('rt'), I(self.tag), a), x
        if k == 'pow':
            base, x = self.rexp(0, 8)
            n = r.randint(0, 5)
            if x ** n <= lim:
                return B('^', base, I(n)), max(1, x ** n)
            return R('1', '5'), 2
        raise AssertionError(k)

    def rexpl(self, lim=RLIM, d=None):
        x, b = self.rexp(d)
        if b <= lim:
            return x
        k = 2
        while b / k > lim:
            k *= 2
        return B('/', x, R(str(k)) if k < 2 ** 26 else R('1', '', len(str(k))))

    def bexp(self, d=None):
        if d is None:
            d = self.p['edepth']
        self.tick()
        opts = [(6, 'rel')]
        bv = self.vis('var', lambda e: e.ty == 'B')
        opts += [(1, 'lit'), (3 if bv else 0, 'var')]
        if d > 0 and self.rich():
            opts += [(3, 'bin'), (1, 'not'), (self.p['condx'], 'if')]
            if self.vis('arr', lambda e: e.ty == 'B'):
                opts.append((1, 'arr'))
            if not self.pure:
                opts += [(self.p['fcall'], 'fc'), (self.p['side'] * 4, 'tr')]
        k = self.wpick(opts)
        if k == 'var':
            return V(self.pick(bv).name)
        if k == 'arr':
            return self.element(self.pick(self.vis('arr', lambda e: e.ty == 'B')), d - 1)
        if k == 'fc':
            x = self.fcall('B', d)
            if x:
                return x
            k = 'rel'
        if k == 'lit':
            return ('b', self.ch(0.5))
        if k == 'bin':
            return B(self.pick(['and', 'or', 'and', 'or', 'imp', 'eqv']), self.bexp(d - 1), self.bexp(d - 1))
        if k == 'not':
            return ('un', 'not', self.bexp(d - 1))
        if k == 'if':
            return ('if', self.bexp(d - 1), self.bexp(d - 1), self.bexp(d - 1))
        if k == 'tr':
            self.tag += 1
            return FC(self.use('bt'), I(self.tag), self.bexp(d - 1))
        op = self.pick(['<', '<=', '=', '>=', '>', '#'])
        if self.ch(self.p['real']):
            return B(op, self.rexp(d - 1)[0], self.rexp(d - 1)[0])
        return B(op, self.iexp(d - 1)[0], self.iexp(d - 1)[0])

    def exp(self, ty, d=None):
        """an expression assignable to a variable of this type"""
        if ty == 'I':
            if self.ch(0.12):
                return self.rexpl(LIM, d)      # rounded on assignment
            return self.iexpl(LIM, d)
        if ty == 'R':
            return self.rexpl(RLIM, d)
        return self.bexp(d)

    def subscript(self, lo, hi, d):
        n = hi - lo + 1
        # a loop variable that stays in range
        vs = self.vis('var', lambda e: e.ty == 'I' and getattr(e, 'range', None)
                      and e.range[0] >= lo and e.range[1] <= hi)
        if vs and self.ch(0.6):
            return V(self.pick(vs).name)
        if self.ch(0.45) or d <= 0 or not self.rich():
            v = self.r.randint(lo, hi)
            if self.ch(0.08):
                return B('+', I(v), R('0', self.pick(['3', '4', '25'])))
            return I(v)
        vs = self.vis('var', lambda e: e.ty == 'I' and getattr(e, 'range', None))
        if vs and self.ch(0.4):
            e = self.pick(vs)
            if e.range[1] - e.range[0] <= hi - lo:
                off = lo - e.range[0]
                return B('+', V(e.name), I(off)) if off >= 0 else B('-', V(e.name), I(-off))
        x = FC(self.use('ix'), self.iexp(d - 1)[0], I(n))
        return B('+', x, I(lo)) if lo >= 0 else B('-', x, I(-lo))

    def element(self, a, d):
        return ('ix', a.name, [self.subscript(lo, hi, d) for lo, hi in a.shape])

    # ------------------------------------------------------------- procedures
    def fcall(self, ty, d):
        if self.pure:
            return None
        ps = self.vis('proc', lambda e: e.ty == ty and self.callable(e))
        if not ps:
            return None
        e = self.pick(ps)
        args = self.actuals(e, d - 1)
        if args is None:
            return None
        self.tick(e.cost + 5)
        return ('fc', e.name, args)

    def callable(self, e):
        return e.cost * self.mult + self.cost < self.p['budget'] * 1.5 and not e.closed

    def ptarget(self, ty):
        """a variable that may be assigned to: node"""
        vs = self.vis('var', lambda e: e.ty == ty and e.writable and e.name not in self.noloop)
        as_ = self.vis('arr', lambda e: e.ty == ty)
        if as_ and (not vs or self.ch(0.3)):
            self.pure += 1
            x = self.element(self.pick(as_), 1)
            self.pure -= 1
            return x
        if vs:
            return V(self.pick(vs).name)
        return None

    def actuals(self, e, d):
        res = []
        for f in e.formals:
            x = self.actual(f, d)
            if x is None:
                return None
            res.append(x)
        return res

    def actual(self, f, d):
        k = f['kind']
        if k == 'val':
            ty = f['ty']
            if f.get('count'):
                return I(self.r.randint(0, 3))
            if ty == 'I':
                return self.exp('I', min(d, 2))
            return self.exp(ty, min(d, 2))
        if k == 'name':
            if f['w']:
                return self.ptarget(f['ty'])
            ty = f['ty']
            c0 = self.cost
            self.p, old = dict(self.p, side=self.p['side'] * 0.7), self.p
            x = self.exp(ty, min(d, 2))
            self.p = old
            self.tick((self.cost - c0) // max(self.mult, 1) * 2)
            return x
        if k in ('arr', 'varr'):
            as_ = self.vis('arr', lambda e: e.ty == f['ty'] and e.shape == f['shape'] and not getattr(e, 'undef', False))
            return V(self.pick(as_).name) if as_ else None
        if k == 'lab':
            # jumps made through parameters are always guarded
            if not self.labels:
                return None
            n = self.pick(self.labels)[0]
            return V(n)
        if k == 'sw':
            ss = self.vis('switch', lambda e: e.n >= f['n'])
            return V(self.pick(ss).name) if ss else None
        if k == 'proc':
            ps = self.vis('proc', lambda e: e.sig == f['sig'] and e.ty == f['ty'] and self.callable(e)
                          and not e.formal_rec)
            return V(self.pick(ps).name) if ps else None
        if k == 'str':
            ss = self.vis('str')
            if ss and self.ch(0.6):
                return V(self.pick(ss).name)
            return ('str', self.string())
        raise AssertionError(k)

    def string(self):
        n = self.pick([0, 1, 2, 3, 4, 5, 6, 8, 13])
        return ''.join(self.pick('abcdefghijklmnopqrstuvwxyzABCDEFXYZ0123456789+-,.;:()[]=<> ')
                       for _ in range(n)).encode()

    def mkformals(self):
        r = self.r
        P = self.p
        fs = []
        n = self.pick([0, 1, 1, 2, 2, 3, 4])
        for _ in range(n):
            nm = self.newname('f')
            k = self.wpick([(4, 'val'), (8 * P['byname'], 'name'), (4 * P['parr'], 'arr'), (2 * P['parr'], 'varr'),
                            (4 * P['plab'], 'lab'), (4 * P['psw'], 'sw'), (4 * P['pproc'], 'proc'),
                            (4 * P['pstr'], 'str')])
            ty = self.wpick([(5, 'I'), (5 * P['real'], 'R'), (4 * P['boolv'], 'B')])
            f = dict(name=nm, kind=k, ty=ty)
            if k == 'name':
                f['w'] = self.ch(0.5)
            if k in ('arr', 'varr'):
                arrs = self.vis('arr', lambda e: not getattr(e, 'undef', False))
                if not arrs:
                    continue
                a = self.pick(arrs)
                f['ty'], f['shape'] = a.ty, a.shape
                if k == 'varr' and len(a.shape) > 4:
                    f['kind'] = 'arr'
            if k == 'sw':
                f['n'] = r.randint(1, 3)
            if k == 'proc':
                f['sig'] = self.pick(['', '', 'i'])
                f['ty'] = self.pick(['', 'I', 'I', 'R', 'B']) if self.ch(0.7) else ''
            fs.append(f)
        return fs

    def sigof(self, fs, ty):
        if not fs:
            return ''
        if len(fs) == 1 and fs[0]['kind'] == 'val' and fs[0]['ty'] == 'I' and not fs[0].get('count'):
            return 'i'
        return None

    def mkproc(self, like=None):
        """declare a procedure: returns the declaration, enters it in the current scope;
        like: a formal procedure that it can be an actual parameter for"""
        r = self.r
        P = self.p
        ty = self.wpick([(4, ''), (4, 'I'), (4 * P['real'], 'R'), (3 * P['boolv'], 'B')])
        name = self.declname('p')
        if like:
            ty = like['ty']
            fs = [] if like['sig'] == '' else [dict(name=self.newname('f'), kind='val', ty='I')]
        else:
            fs = self.mkformals()
        rec = not like and self.ch(P['rec'])
        if rec:
            fs.insert(r.randint(0, len(fs)), dict(name=self.newname('f'), kind='val', ty='I', count=True))
        if self.ch(0.25) and not rec and not fs and not like:
            fs = [dict(name=self.newname('f'), kind='val', ty='I')]
        ent = Ent('proc', name, ty=ty, formals=fs, sig=self.sigof(fs, ty), cost=10, closed=True, formal_rec=rec)
        old = self.scopes[-1].get(name)
        self.scopes[-1][name] = ent
        # body
        save = (self.cost, self.mult, self.labels, self.inproc, self.depth, self.noloop)
        self.cost, self.mult = 0, 1
        bud = P['budget']
        self.p = dict(P, budget=bud // 5)
        self.labels = [(n, 'b') for n, _ in self.labels]
        self.noloop = set(self.noloop)
        self.pdepth += 1
        sc = {}
        vals, spec = [], []
        count = None
        for f in fs:
            nm = f['name']
            k = f['kind']
            T = {'I': 'integer', 'R': 'real', 'B': 'Boolean', '': ''}[f['ty']]
            bnd = {'I': LIM, 'R': RLIM, 'B': 0, '': 0}[f['ty']]
            if k == 'val':
                vals.append((nm, 'sc', f['ty']))
                spec.append((T, nm))
                sc[nm] = Ent('var', nm, ty=f['ty'], bound=bnd)
                if f.get('count'):
                    count = nm
                    sc[nm].writable = False
                    sc[nm].bound = 3
                    sc[nm].range = (0, 3)
            elif k == 'name':
                spec.append((T, nm))
                sc[nm] = Ent('var', nm, ty=f['ty'], bound=bnd, writable=f['w'], byname=True)
            elif k in ('arr', 'varr'):
                if k == 'varr':
                    vals.append((nm, 'array', f['ty']))
                spec.append(((T + ' array') if f['ty'] != 'R' or self.ch(0.5) else 'array', nm))
                sc[nm] = Ent('arr', nm, ty=f['ty'], shape=f['shape'])
            elif k == 'lab':
                spec.append(('label', nm))
                self.labels = self.labels + [(nm, 'b')]
            elif k == 'sw':
                spec.append(('switch', nm))
                sc[nm] = Ent('switch', nm, n=f['n'])
            elif k == 'proc':
                spec.append(((T + ' procedure').strip(), nm))
                fo = [] if f['sig'] == '' else [dict(name='x', kind='val', ty='I')]
                sc[nm] = Ent('proc', nm, ty=f['ty'], formals=fo, sig=f['sig'], cost=40, closed=False,
                             formal_rec=False)
            elif k == 'str':
                spec.append(('string', nm))
                sc[nm] = Ent('str', nm)
        order = lambda x: (3 if 'procedure' in x[0] else 1 if 'array' in x[0] else
                           2 if x[0] in ('label', 'switch') else 0)
        self.r.shuffle(spec)
        spec.sort(key=order)
        self.scopes.append(sc)
        self.inproc = (name, ty)
        nact = len(self.active)
        self.active += [name] + [f['name'] for f in fs]
        self.depth = 1
        body = self.procbody(ent, count)
        self.scopes.pop()
        del self.active[nact:]
        cost = self.cost + 10
        self.cost, self.mult, self.labels, self.inproc, self.depth, self.noloop = save
        self.p = P
        self.pdepth -= 1
        ent.cost = cost * (4 if count else 1)
        ent.closed = False
        return ('dp', ty, name, [f['name'] for f in fs], vals, spec, body)

    def procbody(self, ent, count):
        ty = ent.ty
        name = ent.name
        stmts = []
        decls = []
        self.scopes.append({})
        if self.ch(0.6):
            decls, inits = self.decls(nested=True)
            stmts += inits
        # a procedure of this incarnation, to be passed on or called
        forms = [f for f in ent.formals if f['kind'] == 'proc']
        if self.pdepth <= self.p['nest'] and self.ch(self.p['local'] if not (forms and count) else 0.75):
            decls = decls + [self.mkproc(self.pick(forms) if forms and count else None)]
            forms = forms[:0]
        res = None
        mark = len(stmts)
        n = self.r.randint(1, 3)
        stmts += self.stmtlist(n)
        if count:
            # recursive call with a smaller count
            args = []
            ok = True
            for f in ent.formals:
                if f.get('count'):
                    args.append(B('-', V(count), I(1)))
                elif self.ch(self.p['passon'] * (1 if forms or f['kind'] != 'proc' else 0.3)) and f['kind'] in ('name', 'arr', 'varr', 'lab', 'sw', 'proc', 'str'):
                    args.append(V(f['name']))
                else:
                    x = self.actual(f, 1)
                    if x is None:
                        x = V(f['name'])
                    args.append(x)
            if ty == '':
                call = CALL(name, *args)
            elif ty == 'B':
                call = ('as', [V(name)], FC(name, *args))
            else:
                call = ('as', [V(name)], B('//', B('+', FC(name, *args), self.iexpl(LIM, 1)), I(2)) if ty == 'I'
                        else B('/', B('+', FC(name, *args), self.rexpl(RLIM, 1)), I(2)))
            guard = B('>', V(count), I(0))
            alt = None
            if ty:
                alt = ('as', [V(name)], self.exp(ty, 1))
            elif self.ch(0.4):
                alt = pr(V(count))
            stmts.insert(self.r.randint(mark, len(stmts)) if not ty else len(stmts), ('ifs', guard, call, alt))
            if ty == '' and self.ch(0.6):
                stmts.append(self.stmt(0))
        elif ty:
            stmts.insert(self.r.randint(mark, len(stmts)) if self.ch(0.5) else len(stmts),
                         ('as', [V(name)], self.exp(ty, 2)))
            # the value must be defined even if the statement is jumped over
            stmts.insert(mark, ('as', [V(name)], self.exp(ty, 0)))
        self.scopes.pop()
        if decls:
            return ('bl', decls, stmts)
        if stmts[0][0] == 'lb' or len(stmts) == 0:
            stmts.insert(0, ('nop',))
        if len(stmts) == 1:
            return stmts[0]
        return ('co', stmts)

    # ----------------------------------------------------------- declarations
    SHAPES = [[(1, 4)], [(0, 3)], [(-2, 2)], [(1, 3), (1, 3)], [(0, 2), (-1, 1)], [(-3, -1), (2, 3)],
              [(1, 2), (0, 1), (-1, 1)], [(5, 9)], [(1, 1)], [(0, 1), (0, 1), (1, 2), (3, 4)]]

    def decls(self, nested=False, outer=False):
        """declarations for a new block: (decls, initialising statements)"""
        P = self.p
        sc = self.scopes[-1]
        ds, inits = [], []
        inproc = self.inproc is not None
        for ty, w in (('I', 1), ('R', P['real']), ('B', P['boolv'])):
            n = self.r.randint(1, 3) if self.ch(0.4 + w * 0.5) or outer else 0
            names = []
            for _ in range(n):
                nm = self.declname({'I': 'i', 'R': 'x', 'B': 'b'}[ty])
                if nm in names or nm in sc:
                    continue
                names.append(nm)
            if not names:
                continue
            own = not outer and self.ch(P['own']) and ty != 'B'
            ds.append(('dv', ty, own, names))
            for nm in names:
                sc[nm] = Ent('var', nm, ty=ty, bound={'I': LIM, 'R': RLIM, 'B': 0}[ty])
                if own:
                    continue
                v = I(self.r.randint(0, 20)) if ty == 'I' else \
                    R(str(self.r.randint(0, 9)), self.pick(['5', '25', '1'])) if ty == 'R' else ('b', self.ch(.5))
                inits.append(('as', [V(nm)], v))
        for _ in range(self.r.randint(*P['arrays']) if not nested or self.ch(0.5) else 0):
            ty = self.wpick([(4, 'I'), (4 * P['real'], 'R'), (3 * P['boolv'], 'B')])
            shape = self.pick(self.SHAPES)
            names = []
            for _ in range(self.pick([1, 1, 2])):
                nm = self.declname('a')
                if nm not in sc and nm not in names:
                    names.append(nm)
            if not names:
                continue
            own = not outer and self.ch(P['own'] * 0.7) and ty == 'I'
            if outer or own:
                bounds = [(I(lo), I(hi)) for lo, hi in shape]
            else:
                bounds = []
                for lo, hi in shape:
                    bounds.append((self.boundexp(lo, sc), self.boundexp(hi, sc)))
            ds.append(('da', ty, own, [(names, bounds)]))
            for nm in names:
                sc[nm] = Ent('arr', nm, ty=ty, shape=shape)
            if not own:
                for nm in names:
                    inits += self.fill(sc[nm])
        if self.r.random() < 0.15 and not nested:
            pass
        self.r.shuffle(ds)
        # the order the manual prescribes: scalars, then arrays (own ones among them)
        ds.sort(key=lambda d: d[0] == 'da')
        return ds, inits

    def boundexp(self, v, sc):
        """an expression with value v that does not depend on the new block"""
        cs = [e for e in self.vis('var', lambda e: getattr(e, 'const', None) is not None) if e.name not in sc]
        if cs and self.ch(0.6):
            e = self.pick(cs)
            d = v - e.const
            return B('+', V(e.name), I(d)) if d >= 0 else B('-', V(e.name), I(-d))
        if self.ch(0.05):
            return R(str(abs(v)), '3') if v >= 0 else ('un', '-', R(str(-v), '3'))
        return I(v)

    def fill(self, a):
        """statements giving every element of a new array a value"""
        n = len(a.shape)
        size = 1
        for lo, hi in a.shape:
            size *= hi - lo + 1
        self.tick(size * 12)
        vs = [e for e in self.vis('var', lambda e: e.ty == 'I' and getattr(e, 'loopvar', False))][:n]
        if len(vs) < n:
            # one by one
            import itertools
            out = []
            for k, idx in enumerate(itertools.product(*[range(lo, hi + 1) for lo, hi in a.shape])):
                x = I(k % 7) if a.ty == 'I' else R(str(k), '5') if a.ty == 'R' else ('b', k % 3 == 0)
                out.append(('as', [('ix', a.name, [I(j) for j in idx])], x))
            return [('co', out)]
        s = V(vs[0].name)
        for k in range(1, n):
            s = B('+', s, B('*', I(k + 1), V(vs[k].name)))
        val = s if a.ty == 'I' else B('*', s, R('0', '5')) if a.ty == 'R' else B('<', s, I(self.r.randint(0, 3)))
        st = ('as', [('ix', a.name, [V(e.name) for e in vs])], val)
        for e, (lo, hi) in zip(vs, a.shape):
            st = ('for', V(e.name), [('es', I(lo), I(1), I(hi))], st)
        return [st]

    # -------------------------------------------------------------- statements
    def stmtlist(self, n):
        """n statements with labels among them"""
        save = self.labels
        pos = {}
        if self.ch(0.5) and self.p['goto'] > 0 and n > 1:
            for _ in range(self.pick([1, 1, 2])):
                pos.setdefault(self.r.randint(0, n - 1), self.newname('l'))
        self.openlabels(pos)
        outer = self.labels
        out = []
        for j in range(n):
            self.labels = outer + [(nm, 'f' if q > j else 'b') for q, nm in pos.items()]
            s = self.stmt()
            if j in pos:
                s = ('lb', pos[j], s)
            out.append(s)
        self.labels = save
        return out

    def openlabels(self, pos):
        pass

    def guarded(self, s):
        """at most a few executions of jump s in the whole program"""
        k = self.r.randint(2, 6)
        return [('as', [V('gc')], B('+', V('gc'), I(1))), ('ifs', B('<', V('gc'), I(k)), s, None)]

    def stmt(self, d=None):
        if d is None:
            d = self.p['depth']
        d = min(d, self.p['depth'] - self.depth)
        P = self.p
        self.tick()
        if not self.rich():
            return self.wpick([(3, lambda: pr(self.iexp(0)[0])), (1, lambda: ('nop',)),
                               (3, self.s_assign)])()
        opts = [(P['assign'], self.s_assign), (P['prnt'], self.s_print), (P['nop'], lambda: ('nop',)),
                (P['text'], self.s_text)]
        if self.labels:
            opts += [(P['goto'], self.s_goto)]
        opts += [(P['call'], self.s_call)]
        if self.vis('switch'):
            opts += [(P['jswitch'] * 3, self.s_switch)]
        if d > 0:
            opts += [(P['cond'], self.s_cond), (P['loop'], self.s_loop), (P['block'], self.s_block),
                     (P['comp'], self.s_comp)]
        return self.wpick(opts)()

    def sub(self, f):
        self.depth += 1
        x = f()
        self.depth -= 1
        return x

    def s_assign(self):
        ty = self.wpick([(6, 'I'), (6 * self.p['real'], 'R'), (4 * self.p['boolv'], 'B')])
        t = self.ptarget2(ty)
        if t is None:
            return pr(self.iexp(1)[0])
        ts = [t]
        while self.ch(0.12 * self.p['multi']) and len(ts) < 3:
            t2 = self.ptarget2(ty)
            if t2:
                ts.append(t2)
        return ('as', ts, self.exp(ty))

    def ptarget2(self, ty):
        vs = self.vis('var', lambda e: e.ty == ty and e.writable and e.name not in self.noloop)
        as_ = self.vis('arr', lambda e: e.ty == ty)
        if as_ and (not vs or self.ch(0.35 * self.p['arr'])):
            return self.element(self.pick(as_), 2)
        return V(self.pick(vs).name) if vs else None

    def s_print(self):
        k = self.pick([1, 1, 1, 2, 3])
        args = []
        for _ in range(k):
            t = self.wpick([(6, 'I'), (4 * self.p['real'], 'R'), (3 * self.p['boolv'], 'B')])
            args.append(self.iexp()[0] if t == 'I' else self.rexp()[0] if t == 'R' else self.bexp())
        self.tick(5 * k)
        s = pr(*args)
        if self.ch(0.3):
            return ('co', [s, ('ca', 'NLCR', [])])
        return s

    def s_text(self):
        ss = self.vis('str')
        if ss and self.ch(0.7):
            return CALL('PRINTTEXT', V(self.pick(ss).name))
        return CALL('PRINTTEXT', ('str', self.string()))

    def s_call(self):
        ps = self.vis('proc', lambda e: (e.ty == '' or self.ch(0.15)) and self.callable(e))
        if not ps:
            return self.s_print()
        e = self.pick(ps)
        args = self.actuals(e, 2)
        if args is None:
            return self.s_assign()
        self.tick(e.cost + 5)
        return CALL(e.name, *args)

    def s_goto(self):
        n, k = self.pick(self.labels)
        d = V(n)
        if self.ch(0.15) and len(self.labels) > 1:
            n2, k2 = self.pick(self.labels)
            d = ('if', self.bexp(1), V(n), V(n2))
            if k2 == 'b':
                k = 'b'
        s = ('go', d)
        if k == 'b':
            return ('co', self.guarded(s))
        if self.ch(0.85):
            return ('ifs', self.bexp(1), s, None)
        return s

    def s_switch(self):
        e = self.pick(self.vis('switch'))
        ix = I(self.r.randint(1, e.n))
        if self.ch(0.6):
            ix = B('+', FC(self.use('ix'), self.iexp(1)[0], I(e.n)), I(1))
        return ('co', self.guarded(('go', ('ix', e.name, [ix]))))

    def s_cond(self):
        c = self.bexp()
        a = self.sub(self.stmt)
        b = self.sub(self.stmt) if self.ch(0.6) else None
        return ('ifs', c, a, b)

    def s_comp(self):
        return ('co', self.sub(lambda: self.stmtlist(self.r.randint(1, 3))))

    def s_block(self):
        return self.sub(lambda: self.block(self.r.randint(2, 4)))

    def mkswitch(self, pos):
        """a switch over the labels of this block"""
        labs = [V(n) for n in pos.values()]
        if not labs:
            return None
        n = self.r.randint(1, 4)
        els = []
        for _ in range(n):
            if self.ch(0.2) and len(labs) > 1:
                self.pure += 1
                els.append(('if', self.bexp(1), self.pick(labs), self.pick(labs)))
                self.pure -= 1
            else:
                els.append(self.pick(labs))
        nm = self.newname('s')
        self.scopes[-1][nm] = Ent('switch', nm, n=n)
        return ('ds', nm, els)

    def block(self, n, outer=False):
        P = self.p
        self.scopes.append({})
        save = self.labels
        pre = []
        if outer:
            sc = self.scopes[-1]
            sc['gc'] = Ent('var', 'gc', ty='I', bound=LIM, writable=False, fixed=True)
            lv = ['k1', 'k2', 'k3', 'k4']
            for v in lv:
                sc[v] = Ent('var', v, ty='I', bound=LIM, loopvar=True, fixed=True)
                self.noloop.add(v)
            cv = {}
            for v in ('c1', 'c2'):
                val = self.r.randint(-2, 5)
                sc[v] = Ent('var', v, ty='I', bound=9, writable=False, const=val, fixed=True)
                cv[v] = val
            pre = [('dv', 'I', False, ['gc'] + lv + ['c1', 'c2'])]
        else:
            cv = {}
        ds, inits = self.decls(outer=outer)
        inits = [('as', [V(v)], I(x)) for v, x in cv.items()] + inits
        if outer:
            inits.insert(0, ('as', [V('gc')], I(0)))
        # labels of the block are known to its procedures and switches
        pos = {}
        if P['goto'] > 0 and n > 1 and self.ch(0.6):
            for _ in range(self.pick([1, 2, 2, 3])):
                pos.setdefault(self.r.randint(0, n - 1), self.newname('l'))
        self.labels = self.labels + [(nm, 'b') for nm in pos.values()]
        if pos and self.ch(P['jswitch'] * 0.6):
            s = self.mkswitch(pos)
            if s:
                ds.append(s)
        np_ = self.r.randint(*P['procs']) if outer else (1 if self.ch(0.25) and self.pdepth < P['nest'] else 0)
        for _ in range(np_):
            ds.append(self.mkproc())
        self.labels = save
        out = []
        for j in range(n):
            self.labels = save + [(nm, 'f' if q > j else 'b') for q, nm in pos.items()]
            s = self.stmt()
            if j in pos:
                s = ('lb', pos[j], s)
            out.append(s)
        self.labels = save
        self.scopes.pop()
        allds = pre + ds
        if not allds:
            return ('co', inits + out)
        return ('bl', allds, inits + out)

    # ------------------------------------------------------------------- loops
    def s_loop(self):
        return self.sub(self.loop)

    def freeloop(self):
        return [e for e in self.vis('var', lambda e: e.ty == 'I' and getattr(e, 'loopvar', False))
                if e.name not in getattr(self, 'busy', set())]

    def loop(self):
        r = self.r
        if not hasattr(self, 'busy'):
            self.busy = set()
        # in procedures loop variables are shared with callers: use plain counts there too
        free = self.freeloop()
        kind = self.wpick([(6, 'std'), (2, 'list'), (1.5, 'while'), (1.5, 'dyn'), (1.2, 'real'), (1, 'elem'),
                           (1, 'modify'), (1, 'name'), (0.8, 'nolimit')])
        if self.inproc or not free:
            vs = self.vis('var', lambda e: e.ty == 'I' and e.writable and e.name not in self.noloop)
            if not vs:
                return self.s_assign()
            v = self.pick(vs)
            if self.inproc and getattr(v, 'byname', False) and kind not in ('list',):
                pass
            return self.loop2(v, kind if kind in ('list', 'while') else 'cnt')
        return self.loop2(self.pick(free), kind)

    def body(self, trips, var=None, rng=None, lock=True):
        """a loop body executed about trips times"""
        m = self.mult
        self.mult = max(1, int(m * max(trips, 1)))
        save = self.noloop
        self.noloop = set(save)
        old = None
        if var is not None:
            self.noloop.add(var.name)
            self.busy.add(var.name)
            old = getattr(var, 'range', None)
            var.range = rng
        b = self.stmt() if self.ch(0.5) else ('co', self.stmtlist(self.r.randint(1, 3)))
        if b[0] == 'ifs':
            b = ('co', [b])
        if var is not None:
            var.range = old
            self.busy.discard(var.name)
        self.noloop = save
        self.mult = m
        return b

    def loop2(self, v, kind):
        r = self.r
        nm = V(v.name)
        if kind == 'cnt':
            # the variable might be changed by the body: a counter of its own ends the loop
            k = r.randint(1, 3)
            gl = self.newname('l')
            return ('for', nm, [('es', I(r.randint(0, 3)), I(1), I(r.randint(2, 4)))],
                    ('co', [self.body(2, None), ('as', [V('gc')], B('+', V('gc'), I(1))),
                            ('ifs', B('>', V('gc'), I(r.randint(3, 30))), ('as', [nm], I(100)), None)]))
        if kind == 'std':
            a = r.randint(-3, 5)
            n = r.choice([0, 1, 2, 3, 4, 5])
            s = r.choice([1, 1, 1, 1, 2, 3, -1, -1, -2])
            b = a + s * (n - 1) + (r.randint(0, abs(s) - 1) if abs(s) > 1 else 0) * (1 if s > 0 else -1)
            last = a + s * (n - 1)
            rng = (min(a, last), max(a, last)) if n > 0 else None
            ea, es, eb = I(a), I(s), I(b)
            if self.ch(0.2):
                ea = self.pad(a)
            if self.ch(0.2):
                eb = self.pad(b)
            if self.ch(0.15):
                es = self.pad(s)
            self.tick(n * 6)
            return ('for', nm, [('es', ea, es, eb)], self.body(n, v, rng))
        if kind == 'list':
            els = []
            lo, hi = 99, -99
            trips = 0
            for _ in range(r.randint(1, 4)):
                k = r.random()
                if k < 0.5:
                    x = r.randint(-3, 6)
                    els.append(('e1', self.pad(x) if self.ch(0.3) else I(x)))
                    lo, hi = min(lo, x), max(hi, x)
                    trips += 1
                elif k < 0.85:
                    a = r.randint(-2, 4)
                    n = r.randint(0, 3)
                    s = r.choice([1, 2, -1])
                    els.append(('es', I(a), I(s), I(a + s * (n - 1))))
                    if n:
                        lo, hi = min(lo, a, a + s * (n - 1)), max(hi, a, a + s * (n - 1))
                    trips += n
                else:
                    x = r.randint(0, 3)
                    els.append(('ew', ('if', B('<', V(v.name), I(0)), I(x), B('+', V(v.name), I(1))),
                                B('<', V(v.name), I(r.randint(2, 5)))))
                    lo, hi = -99, 99
                    trips += 3
            locked = v.name.startswith('k')
            return ('for', nm, els, self.body(trips, v if locked else None, None if lo < -50 else (lo, hi))
                    if locked else ('nop',) if self.ch(0.1) else pr(nm))
        if kind == 'while':
            n = r.randint(1, 4)
            return ('co', [('as', [V('gc')], I(0))] if False else
                    [('for', nm, [('ew', self.iexpl(LIM, 1), B('<', V('gc'), I(n)))],
                      ('co', [('as', [V('gc')], B('+', V('gc'), I(1))), self.body(n, None)]))])
        if kind == 'dyn':
            # limit and step are variables that the body changes
            vs = self.vis('var', lambda e: e.ty == 'I' and e.writable and e.name not in self.noloop
                          and not getattr(e, 'byname', False))
            if not vs:
                return self.loop2(v, 'std')
            w = self.pick(vs)
            self.noloop = set(self.noloop) | {w.name}
            st = self.body(3, v, None)
            self.noloop = set(self.noloop) - {w.name}
            lim = r.randint(3, 7)
            if self.ch(0.5):
                return ('co', [('as', [V(w.name)], I(lim)),
                               ('for', nm, [('es', I(1), I(1), V(w.name))],
                                ('co', [('as', [V(w.name)], B('-', V(w.name), I(1))), st]))])
            return ('co', [('as', [V(w.name)], I(1)),
                           ('for', nm, [('es', I(1), V(w.name), I(lim + 4))],
                            ('co', [('as', [V(w.name)], B('+', V(w.name), I(1))), st, pr(nm)]))])
        if kind == 'real':
            xs = self.vis('var', lambda e: e.ty == 'R' and e.writable and e.name not in self.noloop
                          and not getattr(e, 'byname', False))
            if not xs:
                return self.loop2(v, 'std')
            x = self.pick(xs)
            self.noloop = set(self.noloop) | {x.name}
            st = self.body(3, None)
            self.noloop = set(self.noloop) - {x.name}
            step = self.pick([R('0', '5'), R('1', '25'), R('0', '3'), I(1)])
            a, b = R(str(r.randint(0, 2)), '5'), R(str(r.randint(2, 3)), self.pick(['', '5', '75']))
            if self.ch(0.3):
                step = ('un', '-', step)
                a, b = b, a
            return ('for', V(x.name), [('es', a, step, b)], ('co', [pr(V(x.name)), st]))
        if kind == 'elem':
            as_ = self.vis('arr', lambda e: e.ty == 'I')
            if not as_:
                return self.loop2(v, 'std')
            a = self.pick(as_)
            el = ('ix', a.name, [I(r.randint(lo, hi)) for lo, hi in a.shape])
            k = self.newname('l')
            n = r.randint(1, 4)
            return ('co', [('as', [nm], I(0)),
                           ('for', el, [('es', I(r.randint(0, 2)), I(1), I(n))],
                            ('co', [('as', [nm], B('+', nm, I(1))),
                                    ('ifs', B('>', nm, I(5)), ('as', [el], I(99)), None),
                                    pr(el)]))])
        if kind == 'modify':
            n = r.randint(3, 6)
            save = self.noloop
            self.noloop = set(save) | {v.name}
            self.busy.add(v.name)
            st = self.body(3, None)
            self.busy.discard(v.name)
            self.noloop = save
            return ('for', nm, [('es', I(0), I(1), I(n))],
                    ('co', [pr(nm), ('ifs', self.bexp(1), ('as', [nm], B('+', nm, I(1))), None), st]))
        if kind == 'name':
            return self.loop2(v, 'std')
        if kind == 'nolimit':
            # left by a jump
            lab = self.newname('l')
            n = r.randint(2, 5)
            st = self.body(n, v, (0, n))
            return ('co', [('for', nm, [('es', I(0), I(1), I(900))],
                            ('co', [('ifs', B('>', nm, I(n)), ('go', V(lab)), None), st])),
                           ('lb', lab, pr(nm))])
        raise AssertionError(kind)

    def pad(self, v):
        """a more complicated expression with value v"""
        k = self.r.random()
        cs = self.vis('var', lambda e: getattr(e, 'const', None) is not None)
        if cs and k < 0.6:
            e = self.pick(cs)
            d = v - e.const
            return B('+', V(e.name), I(d)) if d >= 0 else B('-', V(e.name), I(-d))
        if k < 0.8:
            return ('if', B('<', I(1), I(2)), I(v), I(0))
        self.tag += 1
        return FC(self.use('tr'), I(self.tag), I(v))

    # ----------------------------------------------------------------- program
    def program(self):
        body = self.block(self.r.randint(*self.p['stmts']), outer=True)
        ds, ss = body[1], body[2]
        ss = ss + self.finale()
        hs = [HELPERS[h] for h in sorted(self.helpers)]
        k = len([d for d in ds if d[0] != 'dp'])
        return ('bl', ds[:k] + hs + ds[k:], ss)

    def finale(self):
        return []


def _fn(ty, name, formals, types, body):
    T = {'I': 'integer', 'R': 'real', 'B': 'Boolean'}
    return ('dp', ty, name, formals, [(f, 'sc', t) for f, t in zip(formals, types)],
            [(T[t], f) for f, t in zip(formals, types)], body)


HELPERS = {
    'md': _fn('I', 'md', ['x'], 'I',
              ('as', [V('md')], B('-', V('x'), B('*', B('//', V('x'), I(997)), I(997))))),
    'ix': _fn('I', 'ix', ['x', 'n'], 'II',
              ('co', [('as', [V('x')], B('-', V('x'), B('*', B('//', V('x'), V('n')), V('n')))),
                      ('as', [V('ix')], ('if', B('<', V('x'), I(0)), B('+', V('x'), V('n')), V('x')))])),
    'tr': _fn('I', 'tr', ['k', 'v'], 'II', ('co', [pr(V('k')), ('as', [V('tr')], V('v'))])),
    'rt': _fn('R', 'rt', ['k', 'v'], 'IR', ('co', [pr(V('k')), ('as', [V('rt')], V('v'))])),
    'bt': _fn('B', 'bt', ['k', 'v'], 'IB', ('co', [pr(V('k')), ('as', [V('bt')], V('v'))])),
}


def program(seed, prof=None):
    return Gen(seed, prof).program()
