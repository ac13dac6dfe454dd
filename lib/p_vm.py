"""C15, C16: recorded executions of object programs against the object machine
(X1VM.tla, VMTrace.tla)."""
import json
import os
import random
import re
import shutil
import tlc
import x1

NZ = 1000000000
ONES = (1 << 27) - 1
DEVICES = (0o77771, 0o77772, 0o77774, 0o77775, 0o77776)

ORDER = re.compile(rb'^([0-7]{5}): ([0-7]{2}) ([0-7]{2}) ([0-7]{5})( |$)')
MEM = re.compile(rb'^       Memory (Read|Write) \[([0-7]+)\] = ([0-7]{2}) ([0-7]{2}) ([0-7]{5})')
STACK = re.compile(rb'^       Stack (\w+) \[([0-7]+)\] = (.*)$')
DISPLAY = re.compile(rb'^       Display \[([0-7]+)\] = ([0-7]+)')
REG = re.compile(rb'^       (A|B|C|S|SP|FP) = (.*)$')
HEX = re.compile(r'^(-?)0x([0-9a-f]+)(?:\.([0-9a-f]*))?p([+-]\d+)$')


class Unreadable(Exception):
    pass


def limbs(n):
    r = []
    while n:
        r.append(n & 4095)
        n >>= 12
    return r


def cell(t):
    t = t.decode('latin-1')
    if t == 'nan':
        return ['N']
    k, _, v = t.partition(' ')
    if k == 'integer' and v.endswith('d'):
        v = v[:-1]
        if v == '-0':
            return ['I', NZ]
        return ['I', int(v)]
    if k == 'addr':
        return ['A', int(v, 8)]
    if k == 'real':
        m = HEX.match(v)
        if m:
            s = 1 if m.group(1) else 0
            fr = m.group(3) or ''
            n = int(m.group(2) + fr, 16)
            e = int(m.group(4)) - 4 * len(fr)
            if n == 0:
                return ['R', s, [], 0]
            d = n.bit_length() - 40
            if d > 0:
                if n & ((1 << d) - 1):
                    raise Unreadable('real %s' % v)
                n >>= d
            else:
                n <<= -d
            return ['R', s, limbs(n), e + d]
    raise Unreadable('cell %s' % t)


def word(a, b, c):
    return int(a, 8) << 21 | int(b, 8) << 15 | int(c, 8)


def records(text, limit):
    """the orders of a trace: [ot, w, A, B, C, S, sp, fp, pops, cells, words, disp, dev, giv]"""
    recs = []
    A = B = C = S = SP = FP = 0
    cur = None
    seen = None
    i = 0
    cut = False
    loaded = []

    def close():
        cur[2:8] = [A, B, C, S, SP, FP]
        cur[9] = [[k, v] for k, v in cur[9].items()]
        cur[11] = [[k, v] for k, v in cur[11].items()]

    for line in text.split(b'\n'):
        m = ORDER.match(line)
        if m:
            if cur is not None:
                close()
            if len(recs) >= limit:
                cur = None
                cut = True
                break
            cur = [int(m.group(1), 8), word(*m.group(2, 3, 4)), 0, 0, 0, 0, 0, 0, [], {}, [], {}, [], []]
            seen = set()
            recs.append(cur)
            continue
        if cur is None:
            m = MEM.match(line)
            if m and m.group(1) == b'Write':
                loaded.append([int(m.group(2), 8), word(*m.group(3, 4, 5))])
            continue
        m = STACK.match(line)
        if m:
            k = int(m.group(2), 8)
            c = cell(m.group(3))
            if m.group(1) == b'Pop':
                if k not in seen:
                    cur[8].append([k, c])
            else:
                cur[9].pop(k, None)
                cur[9][k] = c
                if m.group(1) in (b'Push', b'Write') and c[0] == 'R':
                    cur[13] = c
            seen.add(k)
            continue
        m = MEM.match(line)
        if m:
            a = int(m.group(2), 8)
            w = word(*m.group(3, 4, 5))
            if m.group(1) == b'Write':
                cur[10].append([a, w])
            elif a in DEVICES:
                cur[12].append([a, w])
            continue
        m = DISPLAY.match(line)
        if m:
            cur[11][int(m.group(1), 8)] = int(m.group(2), 8)
            continue
        m = REG.match(line)
        if m:
            r, v = m.group(1), m.group(2)
            if r == b'A':
                A = word(*v.split())
            elif r == b'S':
                S = word(*v.split())
            elif r == b'B':
                B = int(v, 8)
            elif r == b'C':
                C = int(v)
            elif r == b'SP':
                SP = int(v, 8)
            else:
                FP = int(v, 8)
            continue
        if line.startswith((b'       Change Level', b'--- ', b'X1 Algol Simulator')) or not line.strip():
            continue
        raise Unreadable('line %r' % line[:80])
    if cur is not None:
        close()
    return recs, cut, loaded


def image(obj):
    """words and entry of an object file (only of well-formed ones)"""
    mem = {}
    entry = None
    for line in obj.decode('latin-1').split('\n'):
        f = line.split()
        if not f:
            continue
        if len(f) == 2:
            mem[int(f[0])] = int(f[1])
        elif len(f) == 3:
            if entry is None:
                entry = (int(f[0]) * 32 + int(f[1])) * 32 + int(f[2])
    segs = []
    for a in sorted(mem):
        if segs and a == segs[-1][0] + len(segs[-1][1]):
            segs[-1][1].append(mem[a])
        else:
            segs.append([a, [mem[a]]])
    return segs, entry


def execute(X, src, inp, limit, timeout=8):
    """compile and run with trace"""
    d = X.newdir()
    try:
        with open(d + '/p.a60', 'wb') as f:
            f.write(src.encode('utf-8') if isinstance(src, str) else src)
        r = X.exec([X.comp, 'p.a60', X.lib], d, b'', timeout)
        if r.rc != 0:
            return None
        with open(d + '/p.x1', 'wb') as f:
            f.write(r.out)
        return observe(X, d, inp, limit, timeout)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def observe(X, d, inp, limit, timeout=8, img=None, start=None, disc=True):
    if img is None:
        img, start = image(open(d + '/p.x1', 'rb').read())
    r = X.exec([X.sim, '-d', '--trace=t.txt', 'p.x1'], d, inp, timeout)
    size = limit * 600 + 4000000
    with open(d + '/t.txt', 'rb') as f:
        text = f.read(size)
    rec, cut, loaded = records(text[:text.rfind(b'\n') + 1], limit)
    if len(text) == size and not cut and rec:
        rec.pop()
        cut = True
    if r.timeout or r.rc not in (0, 1) or r.err.startswith(b'\n'):
        if r.timeout or r.rc in (137, 153, -9, -25):
            cut = True
            if rec:
                rec.pop()       # may be incomplete
    return dict(img=img, start=start, input=list(inp), out=list(r.out[:200000]), rc=r.rc if r.rc >= 0 else 255,
                msg=bool(r.err.strip()), clk=list(r.clk), done=not cut, rec=rec,
                loaded=loaded, disc=disc)


def judge(ck, runs, heap='12g'):
    """verdicts [p, k, err, bad, state]"""
    fn = os.path.join(x1.scratch(), 'runs-%d.json' % id(runs))
    with open(fn, 'w') as f:
        json.dump(runs, f)
    R = tlc.run('VMTrace', env={'RUNS': fn}, timeout=800, heap=heap)
    keep = os.environ.get('X1_KEEP')
    if not R.ok and keep:
        shutil.copy(fn, keep)
    os.unlink(fn)
    if not R.ok:
        if len(runs) == 1:
            # outside what the specification can express: counted, and few may be
            ck.count('not_expressible')
            if ck.cov['not_expressible'] > 10:
                raise tlc.TlcError(R.text[-5000:])
            ck.notes.append('outside the specification: ' + R.text[-300:])
            return [[1, 1, 'open', '', 0]]
        h = len(runs) // 2
        return judge(ck, runs[:h], heap) + judge(ck, runs[h:], heap)
    ck.cov['states'] += R.distinct
    ck.cov['transitions'] += sum(len(r['rec']) for r in runs)
    res = {v[0]: v for v in R.lines('@V')}
    return [res.get(i + 1) for i in range(len(runs))]


def octal(w):
    return '%02o %02o %05o' % (w >> 21, w >> 15 & 63, w & 32767)


def report(r, v, src):
    k = v[1]
    t = []
    for i in range(max(0, k - 12), min(k + 1, len(r['rec']))):
        x = r['rec'][i]
        t.append('%6d  %05o: %s  A=%s B=%05o C=%d S=%s SP=%d FP=%d  taken %s stack %s words %s levels %s devices %s' % (
            i + 1, x[0], octal(x[1]), octal(x[2]), x[3], x[4], octal(x[5]), x[6], x[7], x[8], x[9], x[10], x[11], x[12]))
    st = v[4] or {}
    if isinstance(st, dict):
        st = {a: st[a] for a in st if a not in ('disp', 'st')}
    return '%s\ninput %r\nat order %d: %s\n\nthe orders before it as recorded:\n%s\n\nthe state according to the specification:\n%s\n' \
        % (src, bytes(r['input']), k, v[3], '\n'.join(t), st)


def traces(ck, cases, limit, batch=300, only=None):
    """cases: (name, source text, function giving the record).  TLC judges the
    records; what does not agree is recorded once more before it counts."""
    X = ck.X

    def one(c):
        try:
            return c[2]()
        except Unreadable as e:
            return str(e)
    for b in range(0, len(cases), batch):
        if ck.left(700 if ck.quick else 36000) < 0:
            ck.notes.append('stopped after %d cases: time' % b)
            break
        part = cases[b:b + batch]
        recs = x1.pmap(one, part)
        odd = [(c[0], r) for c, r in zip(part, recs) if isinstance(r, str)]
        if len(odd) > len(part) // 2:
            raise Exception('traces cannot be read: %s' % (odd[:2],))
        for c, r in odd:
            ck.notes.append('trace of %s not read: %s' % (c, r))
        sel = [(c, r) for c, r in zip(part, recs) if isinstance(r, dict)]
        ck.count('not_traced', len(part) - len(sel))
        if not sel:
            continue
        vs = judge(ck, [r for c, r in sel])
        for (c, r), v in zip(sel, vs):
            if v is None:
                raise tlc.TlcError('no verdict for %s' % c[0])
            if not v[3]:
                ck.cov['traces_validated_against_impl'] += 1
                if v[2] == 'open':
                    ck.count('left_open_at_some_order')
                continue
            if len(ck.viol) >= 3:
                continue
            r2 = one(c)
            v2 = judge(ck, [r2])[0] if isinstance(r2, dict) else None
            if v2 is None or not v2[3]:
                ck.notes.append('a first result of %s was not confirmed: %s' % (c[0], v[:4]))
                continue
            ck.violation(c[0], 'the execution is not one of the object machine: order %d: %s' % (v2[1], v2[3]), report(r2, v2, c[1]))
        ck.count('orders', sum(len(r['rec']) for c, r in sel))
        ck.count('programs', len(sel))
        if sel:
            c, r = sel[0]
            ck.sample({'case': c[0], 'source': c[1][:1200], 'orders': len(r['rec']),
                       'first': ['%05o: %s' % (x[0], octal(x[1])) for x in r['rec'][:12]], 'verdict': vs[0][:4]})
        ck.log('%d programs, %d orders' % (ck.cov['programs'], ck.cov['orders']))
        if len(ck.viol) >= 3:
            break


def compiled(ck, cs, limit):
    X = ck.X
    return [(c.name, c.src, (lambda c=c: execute(X, c.src, c.inp, limit))) for c in cs]


def c15(ck):
    import p_lang
    import p_lib
    import p_matrix
    cs = ck.corpus('C03', 'C04', 'C05', 'C06', 'C07', 'C09', 'C17')
    lim = ck.n(1500, 12000)
    ex = p_matrix.cases(ck, p_matrix.exits, ck.n(40, 600), 'exits')
    q = [(pr, ck.n(22, 400)) for pr in ('C03', 'C04', 'C05', 'C06', 'C07', 'C09')] + [('ALL', ck.n(40, 800))]
    for pr, n in q:
        cs += p_lang.generated(ck, pr, n, base=700000)
    tab = [[]] * len(p_lib.SEEDS)
    cs += ex + p_lang.faults(ck, ck.n(40, 600)) + p_lib.programs(ck, tab, ck.n(15, 150))
    traces(ck, compiled(ck, cs, lim), lim)


# ---------------------------------------------------------------- machine code
# function parts of the orders: letter, digit, mode and condition setting
F = dict(OPC=0, A_IMM=0o0220, A_TOP=0o0244, A_NEG=0o0320, A_TYPE=0o0350, A_ADD=0o0400, A_ST=0o0600, TOP_A=0o0640,
         S_LD=0o1200, S_IMM=0o1220, S_LDB=0o1240, S_ST=0o1600, S_EQ=0o3431, S_AND=0o3620, B_ADD=0o4020, B_LD=0o4200,
         B_IMM=0o4220, B_LDB=0o4240, B_ST=0o4600, T_REL=0o5100, T_IMM=0o5220, T_CNT=0o5404, FAIL=0o6700, ROT=0o6714,
         SHR=0o7700)


class Code:
    """a random program of machine orders"""
    ORG = 10000
    DATA = 12000     # words
    REALS = 12200    # pairs
    CODE2 = 14000

    def __init__(self, seed):
        self.r = random.Random('code-%s' % seed)
        self.w = []
        self.mem = {}
        self.fix = []        # (index in w, label)
        self.labels = {}
        self.depth = 0
        self.nlab = 0
        self.subs = []
        r = self.r
        for i in range(24):
            self.mem[self.DATA + i] = self.word()
        for i in range(12):
            hi, lo = self.realwords()
            self.mem[self.REALS + 2 * i] = hi
            self.mem[self.REALS + 2 * i + 1] = lo
        for i in range(8):   # small integers
            self.mem[self.DATA + 24 + i] = r.randint(0, 12) if r.random() < .7 else ONES - r.randint(0, 12)

    def word(self):
        r = self.r
        k = r.random()
        if k < .3:
            return r.choice([0, 1, 2, 3, ONES, ONES - 1, ONES - 2, 1 << 26, (1 << 26) - 1, (1 << 26) + 1, 32767, 32768, 1 << 25])
        if k < .5:
            return r.randint(0, 200)
        if k < .65:
            return ONES - r.randint(0, 200)
        return r.randint(0, ONES)

    def realwords(self):
        r = self.r
        k = r.random()
        if k < .08:
            return (0, 0) if r.random() < .7 else (ONES, ONES)
        m = r.choice([1 << 39, (1 << 40) - 1, (1 << 39) + 1, r.randint(1 << 39, (1 << 40) - 1), r.randint(1 << 10, (1 << 11) - 1) << 29,
                      r.randint(1, 7) << 39])
        while m >= 1 << 40:
            m >>= 1
        while m < 1 << 39:
            m <<= 1
        e = r.choice([0, 0, 1, -1, 2, 4, 26, 27, 40, r.randint(-10, 45), r.randint(-60, 60), r.randint(-2040, 2040)])
        hi = m >> 14
        lo = (m & 0x3fff) << 12 | (e + 2048) & 4095
        if r.random() < .4:
            return ONES - hi, ONES - lo
        return hi, lo

    def emit(self, f, a=0, react=0, d=0):
        self.w.append((F[f] | react) << 15 | a & 32767)
        self.depth += d

    def opc(self, n, d=0):
        self.emit('OPC', n, 0, d)

    def addr(self):
        r = self.r
        return r.choice([self.DATA + r.randrange(32)] * 6 + [self.REALS + r.randrange(24), r.randrange(0, 9000), 0, 48, 51])

    def react(self):
        return self.r.choice([0] * 6 + [2, 3])

    def lab(self):
        self.nlab += 1
        return self.nlab

    def jump(self, f, lab, react):
        self.fix.append((len(self.w), lab))
        self.emit(f, 0, react)

    def simple(self):
        """an order on the registers"""
        r = self.r
        k = r.randrange(15)
        q = self.react()
        small = r.randint(0, 40) if r.random() < .5 else r.randint(0, 32767)
        if k == 0:
            self.emit('A_IMM', small, q)
        elif k == 1:
            self.emit('A_NEG', small, q)
        elif k == 2:
            self.emit('S_IMM', small, q)
        elif k == 3:
            self.emit('B_IMM', small, q)
        elif k in (4, 5):
            self.emit(r.choice(['A_ST', 'S_ST', 'B_ST']), self.addr(), q)
        elif k in (6, 7):
            self.emit('S_LD', self.addr(), q)
        elif k == 8:
            self.emit('B_LD', self.addr(), q)
        elif k == 9:
            d = r.randrange(32)
            self.emit('B_IMM', d if r.random() < .6 else 32768 - d)
            self.emit(r.choice(['S_LDB', 'B_LDB']), (self.DATA + r.randrange(0, 40) - (0 if r.random() < .5 else 20)), q)
        elif k == 10:
            self.emit('B_ADD', small, q)
        elif k == 11:
            a = r.randint(0, 32767) if r.random() < .6 else small
            if r.random() < .5:
                self.emit('S_IMM', a)
            self.emit('S_EQ', a)
        elif k == 12:
            self.emit('S_AND', r.choice([1, 7, 127, 32767, 16384, small]), q)
        else:
            self.emit(r.choice(['ROT', 'SHR']), r.randint(0, 27) + r.choice([0, 32]), q)

    def push(self, real=None):
        r = self.r
        if real is None:
            real = r.random() < .5
        if real:
            self.emit('B_IMM', self.REALS + 2 * r.randrange(12))
            self.opc(32, 1)
        else:
            self.emit('B_IMM', self.DATA + (r.randrange(24, 32) if r.random() < .6 else r.randrange(24)))
            self.opc(34, 1)

    def stack(self):
        """an operation on the stack"""
        r = self.r
        k = r.randrange(17)
        if k <= 4:
            for i in range(2 - min(2, self.depth)):
                self.push()
            self.opc(r.choice([59, 60, 61, 62, 63, 65, 66, 67, 68, 69, 70, 72, 73, 74, 75]), -1)
        elif k == 5:
            if not self.depth:
                self.push()
            self.opc(r.choice([57, 57, 71, 76, 77, 84]))
        elif k == 6:
            if not self.depth:
                self.push()
            real = r.random() < .5
            self.emit('B_IMM', self.REALS + 2 * r.randrange(12) if real else self.DATA + 24 + r.randrange(8))
            self.opc(36 + 5 * r.randrange(4) + (1 if real else 3))
        elif k == 7:
            self.push()
            self.opc(30, -1)
            self.skip(lambda: self.simple())
        elif k == 8:
            self.push()
            self.opc(29, -1)
        elif k == 9:
            real = r.random() < .5
            self.emit('B_IMM', self.REALS + 2 * r.randrange(12) if real else self.DATA + r.randrange(32))
            self.opc(15 if real else 17, 1)
            self.push()
            if r.random() < .7:
                self.opc(85, -2)
            else:
                self.opc(86, -1)
        elif k == 10:
            real = r.random() < .5
            self.emit('B_IMM', self.REALS + 2 * r.randrange(12) if real else self.DATA + r.randrange(32))
            self.opc(15 if real else 17, 1)
            self.opc(58)
        elif k == 11:
            if not self.depth:
                self.push()
            self.emit('A_TOP', 0o77774)
            self.skip(lambda: self.simple())
        elif k == 12:
            if not self.depth:
                self.push()
            self.emit('A_TYPE', 0o77777)
            self.skip(lambda: self.simple())
        elif k == 13:
            self.push(False)
            self.emit('A_IMM', r.randint(0, 32767))
            self.emit('TOP_A', 0o77774)
        elif k == 14:
            self.push()
            self.push(False)
            self.opc(64, -1)
        elif k == 15:
            self.push()
            self.opc(103)
            self.depth = 0
            self.opc(105)
        else:
            self.emit('S_IMM', r.choice([10, 37, 64, 65, 80, 91, 101, 119, r.randrange(128)]))
            self.opc(99)

    def skip(self, f):
        """a part that is jumped over on some condition"""
        l = self.lab()
        self.jump('T_IMM', l, self.r.choice([2, 3]))
        d = self.depth
        f()
        if self.depth == d:
            self.labels[l] = len(self.w)
        else:                      # keep the stack the same on both ways
            while self.depth > d:
                self.opc(30, -1)
            while self.depth < d:
                self.push(False)
            self.labels[l] = len(self.w)

    def count(self):
        """a counted loop"""
        l = self.lab()
        self.emit(self.r.choice(['A_IMM', 'S_IMM', 'B_IMM']), self.r.randint(1, 4))
        reg = {F['A_IMM']: 'A_ST', F['S_IMM']: 'S_ST', F['B_IMM']: 'B_ST'}[self.w[-1] >> 15]
        self.emit(reg, 0)
        self.labels[l] = len(self.w)
        for i in range(self.r.randint(1, 4)):
            self.register_only()
        self.jump('T_CNT', l, 0)

    def register_only(self):
        n = len(self.w)
        self.simple()
        for w in self.w[n:]:
            if w >> 15 & ~3 in (F['A_ST'], F['S_ST'], F['B_ST']) and w & 32767 == 0:
                del self.w[n:]
                return

    def relative(self):
        """1T: forward by a word that has to be W15 - 1 - distance"""
        l = self.lab()
        k = self.r.randint(1, 4)
        c = self.DATA + 60 + len(self.labels)
        self.emit('T_REL', c, self.react())
        i = len(self.w)
        for j in range(k):
            self.simple()
        self.mem[c] = 32768 - 1 - (len(self.w) - i)
        self.labels[l] = len(self.w)

    def call(self):
        """a subroutine with a block level and a local"""
        l = self.lab()
        fun = self.r.random() < .6
        n = self.r.choice([0, 0, 1, 2])
        if fun:
            self.jump('B_IMM', l, 0)
            self.emit('A_IMM', n)
            self.opc(8, 1)
        else:
            self.jump('B_IMM', l, 0)
            self.emit('A_IMM', n)
            self.opc(9)
        self.subs.append((l, fun, n))

    def bodies(self):
        r = self.r
        while self.subs:
            l, fun, n = self.subs.pop()
            if l in self.labels:
                continue
            self.labels[l] = len(self.w)
            lev = r.choice([1, 1, 1, 2, 5])
            self.emit('B_IMM', 1)
            self.opc(89)
            k = r.randint(0, 3)
            self.emit('A_IMM', k)
            self.emit('A_ADD', 49)
            self.emit('A_ADD', 50)
            self.depth = 0
            for i in range(r.randint(1, 4)):
                if k and r.random() < .5:
                    off = 5 + 2 * n + r.randrange(k)
                    c = self.DATA + 100 + len(self.mem) % 50
                    self.mem[c] = 32 * off + 1
                    # local := value; then it is used
                    self.emit('S_LD', c)
                    self.opc(16, 1)
                    self.push(False)
                    self.opc(85, -2)
                    self.emit('S_LD', c)
                    self.opc(33, 1)
                    self.opc(30, -1)
                else:
                    self.simple()
            if fun:
                self.emit('B_IMM', 0)
                self.push()
                self.emit('B_IMM', 0)
                self.opc(87, -1)
            self.opc(12)

    def program(self):
        r = self.r
        for i in range(r.randint(8, 30)):
            k = r.random()
            if k < .4:
                self.simple()
            elif k < .78:
                self.stack()
            elif k < .84:
                self.skip(lambda: [self.simple() for j in range(r.randint(1, 3))])
            elif k < .88:
                self.count()
            elif k < .92:
                self.relative()
            elif k < .97:
                self.call()
            elif r.random() < .3:   # anything
                self.w.append(r.randint(1 << 15, ONES))
            if self.depth > 6:
                for j in range(4):
                    self.opc(r.choice([59, 60, 61]), -1)
        if r.random() < .35:
            # a word that is nearly an order, somewhere
            w = r.choice([0, 1, 2, 7, 100, 101, 109, 113, 127, 128, 1000]) if r.random() < .25 else \
                (r.choice(list(F.values())) ^ 1 << r.randrange(12)) << 15 | r.choice([0, 5, 49, 50, 51, self.DATA, 32764, 32767])
            f = w >> 15
            if f not in F.values() and f & ~3 not in F.values() or f == 0:
                k = r.randint(len(self.w) // 2, len(self.w))
                self.w.insert(k, w)
                self.fix = [(i + 1 if i >= k else i, l) for i, l in self.fix]
                self.labels = {l: (i + 1 if i >= k else i) for l, i in self.labels.items()}
        if r.random() < .6:
            while self.depth:
                self.opc(30, -1)
        self.opc(97)
        self.bodies()
        for i, l in self.fix:
            self.w[i] = self.w[i] & ~32767 | (self.ORG + self.labels[l]) & 32767
        for i, w in enumerate(self.w):
            self.mem[self.ORG + i] = w
        return self.mem

    def text(self):
        mem = self.program()
        a = list(mem)
        if self.r.random() < .3:
            self.r.shuffle(a)
        o = self.ORG
        return ' %d %d %d\n' % (o >> 10, o >> 5 & 31, o & 31) + ''.join('%d %d\n' % (x, mem[x]) for x in a)


def mutate(obj, r):
    """a compiled program with some words changed"""
    lines = obj.decode('latin-1').split('\n')
    ws = [i for i, l in enumerate(lines) if len(l.split()) == 2]
    for k in range(r.randint(1, 3)):
        i = r.choice(ws)
        a, w = [int(x) for x in lines[i].split()]
        q = r.random()
        if q < .35:
            w = int(lines[r.choice(ws)].split()[1])
        elif q < .6:
            w ^= 1 << r.randrange(27)
        elif q < .8:
            w = (w & ~32767) | (w + r.choice([-2, -1, 1, 2, 32, -32])) & 32767
        else:
            w = r.choice([r.randint(8, 112), r.choice(list(F.values())) << 15 | w & 32767])
        lines[i] = '%d %d' % (a, w)
    return '\n'.join(lines).encode('latin-1')


def run_object(X, text, inp, limit, parse=True):
    d = X.newdir()
    try:
        with open(d + '/p.x1', 'wb') as f:
            f.write(text)
        return observe(X, d, inp, limit, disc=False) if parse else observe(X, d, inp, limit, img=[], start=0)
    finally:
        shutil.rmtree(d, ignore_errors=True)


# ---------------------------------------------------------------- object files
def object_file(seed, objs):
    """a text for the loader: well-formed or with some damage"""
    r = random.Random('object-%s' % seed)
    lines = []
    if r.random() < .15 and objs:
        lines = [l for l in r.choice(objs).decode('latin-1').split('\n')]
        k = r.randint(10, 40)
        head = [l for l in lines if len(l.split()) > 2][:4]
        lines = head + r.sample([l for l in lines if len(l.split()) == 2], k) + ['']
    else:
        o = r.choice([10000, 20000, r.randint(100, 32000)])
        n = r.randint(1, 12)
        for i in range(r.choice([0, 1, 1, 2])):
            nm = ''.join(r.choice('ABCxyz019_$(') for j in range(r.randint(1, 9)))
            lines.append('%s %02d %02d %02d' % (nm, r.randrange(32), r.randrange(32), r.randrange(32)))
        ents = [o] + [r.randrange(32768) for i in range(r.choice([0, 0, 1, 2]))]
        if r.random() < .08:
            ents = []
        for e in ents:
            lines.append(r.choice([' %d %d  %d', '%d %d %d', '%02d %02d %02d', '\t%d\t%d %d ']) % (e >> 10, e >> 5 & 31, e & 31))
        for i in range(n):
            w = r.choice([97, 0, r.randint(0, ONES), ONES, 1 << 26])
            lines.append(r.choice(['%d %d', '%5d %9d', ' %d   %d ', '%05d\t%08d']) % (o + i & 32767 if o + i < 32700 else 5, w))
        lines += [''] * r.choice([0, 0, 1])
        if r.random() < .3:
            r.shuffle(lines)
    text = '\n'.join(lines) + r.choice(['\n', '\n', '', '\r\n'])
    if r.random() < .06:
        text = text.replace('\n', '\r\n')
    b = bytearray(text.encode('latin-1'))
    if r.random() < .6:
        for i in range(r.choice([1, 1, 1, 2, 3])):
            k = r.randrange(len(b)) if b else 0
            q = r.randrange(8)
            if q == 0 and b:
                del b[k]
            elif q == 1:
                b.insert(k, r.choice(b'0123456789 \n\tax.,;'))
            elif q == 2 and b:
                b[k] = r.choice(b'0123456789 \nAx?\xff\x00')
            elif q == 3 and b:
                b[k] ^= 1 << r.randrange(8)
            elif q == 4:
                del b[k:]
            elif q == 5:
                j = b.find(b'\n', k)
                if j >= 0:
                    b[j:j + 1] = b' '
            elif q == 6:
                b[k:k] = r.choice([b'32768 5\n', b'5 134217728\n', b'40000 1\n', b'12\n', b'1 2 3 4 5\n', b'END\n', b'A B\n', b' \n',
                                   b'x 1 2\n', b'1 2 3 4\n', b'abc 1 2 3\n', b'32760 3\n', b'7 134217727\n', b'9 1.5\n', b'0x10 7\n',
                                   b'5 7a\n', b'00005 00007\n'])
            else:
                j = b.find(b'\n', k)
                e = b.find(b'\n', j + 1)
                if 0 <= j < e:
                    del b[j:e]
    return bytes(b)


def files(ck, texts):
    """load each text and let TLC (Object.tla) judge what was done"""
    X = ck.X
    texts = [t for t in texts if not re.search(rb'(^|\n)[ \t]*0*327(5[6-9]|6[0-7])[ \t]', t)]

    def one(t):
        try:
            r = run_object(X, t, b'', 1, parse=False)
        except Unreadable as e:
            return None
        return dict(text=list(t), words=r['loaded'], started=bool(r['rec']), start=r['rec'][0][0] if r['rec'] else 0,
                    rc=r['rc'], msg=r['msg'])
    recs = [(t, r) for t, r in zip(texts, x1.pmap(one, texts)) if r]
    fn = os.path.join(x1.scratch(), 'files.json')
    with open(fn, 'w') as f:
        json.dump([r for t, r in recs], f)
    R = tlc.run('Object', env={'FILES': fn}, timeout=800, heap='8g')
    if not R.ok:
        raise tlc.TlcError(R.text[-5000:])
    ck.cov['states'] += R.distinct
    ck.cov['transitions'] += max(0, R.generated - len(recs))
    res = {v[0]: v for v in R.lines('@V')}
    for i, (t, r) in enumerate(recs):
        v = res.get(i + 1)
        if v is None:
            raise tlc.TlcError('no verdict for a file')
        ck.count('files_' + {'run': 'accepted', 'bad': 'refused', 'open': 'left_open'}[v[1]])
        if not v[2]:
            ck.cov['traces_validated_against_impl'] += 1
            continue
        if len(ck.viol) < 3 and one(t) == r:
            ck.violation('file-%d' % i, v[2], 'object file %r\nspecified: %s (line %d)\nobserved: started %s at %d, exit %d, message %s, '
                         'words %s' % (t, v[1], v[3], r['started'], r['start'], r['rc'], r['msg'], r['words'][:60]))


def c16(ck):
    import p_lang
    X = ck.X
    lim = 2000
    objs = [r.out for r in x1.pmap(lambda c: X.compile(c.src), p_lang.generated(ck, 'ALL', 6, base=900000)) if r.rc == 0]
    files(ck, [object_file('%d' % (ck.seed * 1000003 + k), objs) for k in range(ck.n(1500, 20000))])
    cs = []
    for k in range(ck.n(2600, 60000)):
        s = ck.seed * 1000003 + k
        t = Code(s).text()
        inp = b' 1 -2 3.5 0 12345678 1 1 1'
        cs.append(('code-%d' % s, t, (lambda t=t, inp=inp: run_object(X, t.encode(), inp, lim))))
    traces(ck, cs, lim, batch=3000)
