"""C14 and C21: library tapes, their assembler and converter, and linking
(Tape.tla, TapeMC.tla, TapeConf.tla)."""
import json
import os
import random
import re
import shutil
import tlc
import x1

MASKS = [656, 2192, 2688, 144, 2176, 2704, 0, 16, 2691, 32, 640, 146, 256, 134, 402, 48]
SHORT = [33, 34, 16, 56, 58, 85, 9, 14, 18, 30, 13, 17, 19, 20, 31, 35, 39, 61]
CROSS = [(0, 54), (1, 20), (2, 14), (7, 7), (8, 8), (17, 7), (18, 8), (77, 7)]
NAMES = {0: 'SUM', 1: 'PRINTTEXT', 2: 'EVEN', 7: 'RESYM', 8: 'PRSYM', 17: 'RANDOM', 18: 'SETRANDOM', 77: 'TIMEOFDAY'}
LENGTH = dict(CROSS)
STORE = (77, 2, 1)


# ---------------------------------------------------------------- generators
def word(r, kinds=(0, 0, 0, 1, 1, 3)):
    if r.random() < .4:
        return (r.choice(SHORT) if r.random() < .5 else r.randint(8, 112), 0)
    k = r.choice(kinds)
    m = r.choice(MASKS) if r.random() < .6 else r.choice([r.randrange(4096), 4095, 1 << r.randrange(12)])
    q = r.random()
    a = (r.randrange(32768) if q < .3 else r.choice([0, 1, 2, 3, 31, 32, 33, 63, 64, 96, 128, 160, 1023, 1024, 32767]) if q < .6
         else r.choice([0, 1, 2, 31]) << 10 | r.randrange(32) << 5 | r.randrange(8))
    if k == 3:
        a = r.choice([0, 1, 2, 7, 8, 17, 18, 77])
    return (k, m << 15 | a)


def fmt_num(r, v, style=None):
    s = style or r.choice('doxo')
    if s == 'd':
        return '%d' % v
    if s == 'x':
        return r.choice(['0x%x', '0X%X', '0x%06x']) % v
    return r.choice(['0%o', '%010o', '00%o']) % v if v else '0'


def fmt_text(r, ws, plain=False):
    lines = []
    for k, (o, v) in enumerate(ws):
        t = r.choice(['', ' ', '   ', '\t']) + fmt_num(r, k) + r.choice([' ', '  ', '\t', '   ']) + r.choice(['', '', '0' if o else '']) + str(o)
        if o < 8:
            t += r.choice([' ', '\t', '   ']) + fmt_num(r, v)
        if r.random() < .3:
            t += r.choice([' 2B 1 A', '\tSCC', '  <-- 18', ' 17 x', ' ;', ' 0x'])
        lines.append(t)
        if r.random() < .1:
            lines.append(r.choice(['', 'comment 12', '   ', 'offset OPC word', '-', 'x 1 2', '+ 3']))
    if r.random() < .3:
        lines.insert(0, 'Converting MCP 3, length %d' % len(ws))
    nl = '\r\n' if r.random() < .08 else '\n'
    return nl.join(lines) + r.choice(['\n', '\n', '\n\n', ''])


def bad_text(r, ws):
    """a text with something wrong in one place (most of the time)"""
    lines = fmt_text(r, ws).split('\n')
    k = r.randrange(len(lines))
    q = r.randrange(12)
    m = re.match(r'^(\s*)(\S+)(\s+)(\d+)(.*)$', lines[k])
    if q == 0:
        del lines[k]
    elif q == 1:
        lines.insert(k, lines[k])
    elif q == 2 and len(lines) > 1:
        j = r.randrange(len(lines))
        lines[k], lines[j] = lines[j], lines[k]
    elif m and q == 3:
        lines[k] = m.group(1) + m.group(2) + m.group(3) + r.choice(['113', '-1', '127', '200', '1000', '999999999', '112', '8', '7', '61', '62'])
    elif m and q == 4:
        lines[k] = m.group(1) + m.group(2)
    elif m and q == 5:
        lines[k] = m.group(1) + m.group(2) + m.group(3) + str(r.randrange(8)) + r.choice(['', ' ', ' x', ' -', ' A 5', '\t2B 1 A'])
    elif m and q == 6:
        lines[k] = m.group(1) + m.group(2) + m.group(3) + str(r.randrange(4)) + ' ' + r.choice(
            ['0777777777', '01000000000', '134217728', '134217727', '-1', '0x8000000', '0x7ffffff', '99999999999', '-0', '07777777778'])
    elif m and q == 7:
        lines[k] = m.group(1) + fmt_num(r, len(ws) + r.randrange(3)) + m.group(3) + m.group(4) + m.group(5)
    elif m and q == 8:
        lines[k] = m.group(1) + '-' + m.group(2) + m.group(3) + m.group(4) + m.group(5)
    elif m and q == 9:
        lines[k] = m.group(1) + m.group(2) + ':' + m.group(3) + m.group(4) + m.group(5)
    elif m and q == 10:
        lines[k] = m.group(1) + m.group(2) + m.group(3) + 'x' + m.group(4) + m.group(5)
    else:
        t = lines[k]
        j = r.randrange(len(t) + 1)
        lines[k] = t[:j] + r.choice(['0', '1', '8', ' ', 'x', '-', '+', '9', '\t', '.']) + t[j + r.randrange(2):]
    return '\n'.join(lines)


def rows5(ws, num):
    """a five-track tape (the specification decides what it says)"""
    def rows(v, n):
        return [v >> 5 * (n - 1 - k) & 31 for k in range(n)]

    def even(v):
        return bin(v).count('1') % 2 == 0
    out = [31] + rows(len(ws) | (16384 if bin(len(ws)).count('1') & 1 else 0), 3) + rows(num | (512 if bin(num).count('1') & 1 else 0), 2)
    table = [0, 144, 640, 656, 2176, 2192, 2688, 2704, 2691, 256]
    for o, v in ws:
        if o >= 8:
            x = 256 + o
            out += rows(x | (0 if even(x) else 512), 2)
        elif v >> 15 in table:
            x = table.index(v >> 15) + 1 << 17 | o << 15 | v & 32767
            out += rows(x | (0 if even(x) else 1 << 24), 5)
        else:
            x = 1 << 32 | o << 27 | v
            out += rows(x | (0 if even(x) else 1 << 34), 7)
    return out


def five_text(r, rows):
    return ''.join('%s%s' % (x, r.choice(['\n', '\n', ' ', '\r\n', '\t', '\n\n'])) for x in rows)


# ---------------------------------------------------------------- the tools
def assemble(X, text, num, w=False, stdin=True):
    d = X.newdir()
    b = text.encode('latin-1')
    a = [X.root + '/bin/objfile'] + (['-w'] if w else []) + [str(num)]
    if not stdin:
        with open(d + '/t.src', 'wb') as f:
            f.write(b)
        a.append('t.src')
        b = b''
    r = X.exec(a, d, b)
    shutil.rmtree(d, ignore_errors=True)
    vals, ok = [], True
    out = r.out.decode('latin-1')
    if r.rc == 0:
        if w:
            for k, l in enumerate(out.split('\n')[:-1]):
                m = re.match(r'^store\[mcpb \+ (\d+)\] = 0([0-7]+);$', l)
                if not m or int(m.group(1)) != k + 1:
                    ok = False
                    break
                vals.append(int(m.group(2), 8))
        else:
            try:
                vals = [int(x) for x in out.split()]
            except ValueError:
                ok = False
        if not ok:
            vals = [-1]
    return dict(kind='asm', text=list(text.encode('latin-1')), num=num, w=w, rc=r.rc, vals=vals, msg=bool(r.out + r.err))


def convert(X, text, rows):
    r = X.exec([X.root + '/bin/from5track'], X.root, text.encode('latin-1'))
    ws, num, ln, ok = [], -1, -1, True
    lines = r.out.decode('latin-1').split('\n')[:-1]
    msg = False
    for k, l in enumerate(lines):
        m = re.match(r'^Converting MCP (\d+), length (\d+)$', l)
        if m and k == 0:
            num, ln = int(m.group(1)), int(m.group(2))
            continue
        m = re.match(r'^(\d+) (\d+)( [0-7]+)?( !)?$', l)
        if m and int(m.group(1)) == len(ws):
            ws.append([int(m.group(2)), int(m.group(3), 8) if m.group(3) else -1, not m.group(4)])
        elif k == len(lines) - 1:
            msg = True
        else:
            ok = False
    if not ok:
        ws = [[-9, -9, True]]
    return dict(kind='five', rows=rows, rc=r.rc, num=num, len=ln, ws=ws, msg=msg)


def tape_file(path, tape, binary=False):
    """tape: rows, or text (bytes)"""
    with open(path, 'wb') as f:
        if isinstance(tape, bytes):
            f.write(tape)
        elif binary:
            f.write(bytes(tape))
        else:
            f.write(' '.join(map(str, tape)).encode() + b'\n')


def rows_of(text):
    """numbers of a tape text, and whether it breaks off at something else"""
    rows = []
    for x in text.split():
        m = re.match(rb'^[+-]?\d+', x)
        if not m:
            return rows, True
        rows.append(int(m.group(0)))
        if m.end() != len(x):
            return rows, True
    return rows, False


def link(X, src, need, tapes, binary=False, keep=None):
    """compile with these tapes (None: a file that does not exist)"""
    d = X.newdir()
    with open(d + '/p.a60', 'wb') as f:
        f.write(src.encode('utf-8'))
    names = []
    for k, t in enumerate(tapes):
        names.append('t%d.lib' % k)
        if t is not None:
            tape_file(d + '/' + names[-1], t, binary)
    r = X.exec([X.comp] + (['-b'] if binary else []) + ['p.a60'] + names, d)
    shutil.rmtree(d, ignore_errors=True)
    ents, ws = [], []
    if r.rc == 0:
        for l in r.out.decode('latin-1').split('\n'):
            f = l.split()
            try:
                if len(f) == 3:
                    ents.append(int(f[0]) * 1024 + int(f[1]) * 32 + int(f[2]))
                elif len(f) == 2:
                    ws.append((int(f[0]), int(f[1])))
            except ValueError:
                pass
    rlib = ents[0] if ents else 0
    lo = [x for x in ws if x[0] < rlib]
    mcpe = ents[1] if len(ents) > 1 else rlib
    refs = sorted({w & 32767 for a, w in ws if a >= rlib and mcpe <= w & 32767 < rlib and w >> 15 in (2192, 2704)})
    every = sorted({w & 32767 for a, w in ws if a >= rlib and mcpe <= w & 32767 < rlib})
    ts = []
    for t in tapes:
        rows, junk = ([], False) if t is None else rows_of(t) if isinstance(t, bytes) else (list(t), False)
        ts.append(dict(there=t is not None, rows=rows, junk=junk))
    return dict(kind='link', tapes=ts, need=sorted(need), rc=r.rc, msg=bool(r.err) or b'\n' in r.out, rlib=rlib, mcpe=mcpe, ents=ents,
                words=lo, refs=refs, all=every, text=[], num=0)


# ---------------------------------------------------------------- judging
def store_texts():
    res = []
    for n, f in ((77, 'timeofday'), (2, 'even'), (1, 'printtext')):
        res.append([n, list(open(os.path.join(x1.REPO, 'library', f + '.src'), 'rb').read())])
    return res


def judge(ck, jobs, batch=12000):
    out = []
    for k in range(0, len(jobs), batch):
        out += judge_some(ck, jobs[k:k + batch])
    return out


def judge_some(ck, jobs):
    """jobs: (name, text describing it, function giving a record); a
    disagreement counts when it is found again"""
    recs = x1.pmap(lambda j: j[2](), jobs)
    fn = os.path.join(x1.scratch(), 'tapes-%d.json' % len(os.listdir(x1.scratch())))
    with open(fn, 'w') as f:
        json.dump(recs, f)
    with open(fn + '.store', 'w') as f:
        json.dump(store_texts(), f)
    R = tlc.run('TapeConf', env={'RECS': fn, 'STORE': fn + '.store'}, timeout=800, heap='8g')
    os.unlink(fn)
    if not R.ok:
        raise tlc.TlcError(R.text[-5000:])
    ck.cov['states'] += R.distinct
    ck.cov['transitions'] += max(0, R.generated - len(recs))
    res = {v[0]: v for v in R.lines('@V')}
    out = []
    for i, (j, r) in enumerate(zip(jobs, recs)):
        v = res.get(i + 1)
        if v is None:
            raise tlc.TlcError('no verdict for %s' % j[0])
        ck.count('%s_%s' % (r['kind'], v[1].replace(' ', '_')))
        out.append(v[1])
        if not v[2]:
            ck.cov['traces_validated_against_impl'] += 1
        elif len(ck.viol) < 3 and j[2]() == r:
            q = {k: x for k, x in r.items() if k not in ('text',)}
            ck.violation(j[0], v[2], '%s\nspecified: %s\nobserved: %s' % (j[1], v[1], json.dumps(q)[:6000]))
    return out


def model(ck):
    """the formats themselves: what is written is what is read, damage shows"""
    R = tlc.run('TapeMC', 'TapeMC.cfg' if ck.quick else 'TapeMC2.cfg', timeout=800 if ck.quick else 3000, heap='8g')
    if not R.ok:
        raise tlc.TlcError(R.text[-5000:])
    ck.cov['states'] += R.distinct
    ck.cov['transitions'] += R.generated
    ck.log('formats: %d states' % R.distinct)


# ---------------------------------------------------------------- C21
def c21(ck):
    X = ck.X
    model(ck)
    jobs = []
    for k in range(ck.n(1400, 20000)):
        s = '%d' % (ck.seed * 1000003 + k)
        r = random.Random('tape-%s' % s)
        n = r.choice([1, 1, 2, 3, 5, 7, 8, 13, 20, 54]) if k % 40 else r.choice([120, 260, 400])
        ws = [word(r, (0, 0, 0, 1, 1, 3, 2, r.randrange(8))) for i in range(n)]
        num = r.choice([0, 1, 2, 7, 8, 17, 18, 50, 77, r.randrange(8192)])
        t = bad_text(r, ws) if k % 3 == 2 else fmt_text(r, ws)
        w, si = r.random() < .35, r.random() < .5
        if k < 8:       # the repository's own texts
            f = sorted(x for x in os.listdir(os.path.join(x1.REPO, 'library')) if x.endswith('.src'))
            if f:
                t = open(os.path.join(x1.REPO, 'library', f[k % len(f)]), encoding='latin-1').read()
        jobs.append(('asm-' + s, 'number %d, word format %s, text:\n%s' % (num, w, t), lambda t=t, num=num, w=w, si=si: assemble(X, t, num, w, si)))
    # what the compiler reads back
    for k in range(ck.n(260, 4000)):
        s = '%d' % (ck.seed * 1000003 + k)
        r = random.Random('back-%s' % s)
        num = r.choice([0, 0, 0, 7, 8, 17, 18])
        ws = [word(r) for i in range(LENGTH[num] - r.choice([0, 0, 0, 1, 3, 5]))]
        t = fmt_text(r, ws)
        src = program(r, [num])

        def back(t=t, num=num, src=src):
            a = assemble(X, t, num)
            q = link(X, src, [num], [a['vals']] if a['rc'] == 0 and a['vals'] != [-1] else [None])
            q['text'], q['num'] = list(t.encode('latin-1')), num
            return q
        jobs.append(('back-' + s, 'text, assembled under number %d and read by the compiler:\n%s' % (num, t), back))
    for k in range(ck.n(1200, 20000)):
        s = '%d' % (ck.seed * 1000003 + k)
        r = random.Random('five-%s' % s)
        ws = [word(r, (0, 0, 0, 1, 1, 3, 2)) for i in range(r.choice([0, 1, 1, 2, 3, 5, 8, 13, 20, 54]))]
        rows = rows5(ws, r.choice([0, 1, 2, 7, 50, r.randrange(512)]))
        if k % 3:
            rows = damage5(r, rows)
        if k < 3:
            f = ['sum', 'even', 'printtext'][k]
            q = os.path.join(x1.REPO, 'library', f + '.5tr')
            if os.path.exists(q):
                rows = [int(x) for x in open(q).read().split()]
        t = five_text(r, rows)
        q = [x if isinstance(x, int) else -1 for x in rows]
        jobs.append(('five-' + s, 'five-track tape %s' % rows, lambda t=t, q=q: convert(X, t, q)))
    judge(ck, jobs)
    ck.sample({'assembler text': bytes(jobs[9][1].encode('utf-8')).decode('utf-8')[:600]})


def damage5(r, rows):
    rows = list(rows)
    for i in range(r.choice([1, 1, 1, 2])):
        k = r.randrange(len(rows)) if rows else 0
        q = r.randrange(9)
        if not rows:
            break
        if q < 4:
            rows[k] = rows[k] ^ (1 << r.randrange(5)) if isinstance(rows[k], int) else 0
        elif q == 4:
            del rows[k]
        elif q == 5:
            rows.insert(k, r.randrange(32))
        elif q == 6:
            del rows[k:]
        elif q == 7:
            rows[k] = r.choice([32, 33, 100, -1, 'x', '!', 63])
        else:
            rows[k] = r.randrange(32)
    return rows


# ---------------------------------------------------------------- C14
USES = {0: ['i:=SUM(i,1,3,i)', 'p(SUM(i,1,i,2))', 'r:=SUM(i,0,1,SUM(j,1,2,j))'], 1: ['PRINTTEXT(“ab”)', 'q(“x”)'], 2: ['i:=EVEN(i)', 'p(EVEN(3))'],
        7: ['i:=RESYM', 'p(RESYM)', 'g(RESYM)'], 8: ['PRSYM(i)', 'f(PRSYM)'], 17: ['r:=RANDOM', 'p(RANDOM+1)', 'g(RANDOM)'],
        18: ['SETRANDOM(r)', 'f(SETRANDOM)'], 77: ['i:=TIMEOFDAY', 'p(TIMEOFDAY)']}


def word_symbols(t):
    """underline the words of a text in which they are written <word>"""
    return re.sub(r'<(\w+)>', lambda m: ''.join('_' + c for c in m.group(1)), t)


def program(r, need, hide=()):
    """a program that refers to the procedures need, and hides others behind
    declarations of its own"""
    uses = []
    for n in need:
        for i in range(r.choice([1, 1, 2])):
            uses.append(r.choice(USES[n]))
    r.shuffle(uses)
    hide = [n for n in hide if n not in need]
    decl = ''
    inner = ''
    for n in hide:
        nm = NAMES[n]
        q = r.randrange(3)
        if q == 0:
            inner += '<integer> %s; ' % nm
        elif q == 1:
            decl += '<procedure> %s(x); <integer> x; <begin> x:=x+1 <end>; ' % nm
        else:
            decl += '<integer> <procedure> %s; %s:=2; ' % (nm, nm)
    decl += '<procedure> p(x); <real> x; r:=r+x; '
    if any(u.startswith('f(') for u in uses):
        decl += '<procedure> f(x); <procedure> x; x(1); '
    if any(u.startswith('g(') for u in uses):
        decl += '<procedure> g(x); <real> <procedure> x; r:=x; '
    if any(u.startswith('q(') for u in uses):
        decl += '<procedure> q(x); <string> x; PRINTTEXT(x); '
        if 1 not in need:
            uses = [u for u in uses if not u.startswith('q(')]
    body = '; '.join(uses + ['i:=0'])
    if hide and inner:
        body += '; <begin> %si:=1 <end>' % inner
    return word_symbols('<begin> <integer> i,j; <real> r; %s<if> i _> 1 <then> <begin> %s <end> <end>\n' % (decl, body)).replace('“', '|<').replace('”', '|>')


def lib_rows():
    rows, junk = rows_of(open(os.path.join(x1.REPO, 'library', 'x1algol.lib'), 'rb').read())
    return rows


def own_tapes():
    res = {}
    for n, f in ((0, 'sum'), (7, 'resym'), (8, 'prsym'), (17, 'random'), (18, 'setrandom')):
        q = os.path.join(x1.REPO, 'library', f + '.lib')
        if os.path.exists(q):
            res[n] = rows_of(open(q, 'rb').read())[0]
    return res


def flip(r, tapes):
    """one punched position of one tape changed"""
    tapes = [list(t) if t is not None else None for t in tapes]
    ks = [k for k, t in enumerate(tapes) if t]
    if ks:
        t = tapes[r.choice(ks)]
        k = r.randrange(len(t))
        t[k] ^= 1 << r.randrange(7)
    return tapes


def spoil(r, tapes):
    """other damage"""
    tapes = [list(t) if t is not None else None for t in tapes]
    ks = [k for k, t in enumerate(tapes) if t]
    if not ks:
        return tapes
    n = r.choice(ks)
    t = tapes[n]
    k = r.randrange(len(t))
    q = r.randrange(8)
    if q == 0:
        del t[k]
    elif q == 1:
        t.insert(k, r.choice([0, 0, 30, 127, r.randrange(128)]))
    elif q == 2:
        del t[k:]
    elif q == 3:
        t[k] = r.choice([128, 200, 255])
    elif q == 4:
        t[k] ^= 1 << r.randrange(7)
        t[r.randrange(len(t))] ^= 1 << r.randrange(7)
    elif q == 5:
        a = ' '.join(map(str, t[:k])) + ' ' + r.choice(['x', 'END', '*']) + ' ' + ' '.join(map(str, t[k:]))
        tapes[n] = a.encode()
    elif q == 6:
        tapes[n] = []
    else:
        tapes[n] = None
    return tapes


def c14(ck):
    X = ck.X
    lib = lib_rows()
    own = own_tapes()
    jobs = []
    for k in range(ck.n(3600, 8000)):
        s = '%d' % (ck.seed * 1000003 + k)
        r = random.Random('link-%s' % s)
        if k % 3 == 0:
            need = [n for n in NAMES if r.random() < r.choice([.2, .5, .9])]
        else:
            need = r.sample(list(NAMES), r.choice([0, 1, 1, 2, 2, 3]))
        src = program(r, need, [n for n in NAMES if r.random() < .15])
        q = r.random()
        if q < .25:
            tapes = [lib]
        else:
            pool = []
            for n in own:
                if r.random() < .85:
                    pool.append(own[n])
                if r.random() < .25:        # another procedure under that number
                    ws = [word(r) for i in range(LENGTH[n] - r.choice([0, 0, 0, 0, 2, -1]))]
                    pool.append((n, ws))
            for i in range(r.choice([0, 0, 1, 2])):     # numbers nobody needs
                pool.append((r.choice([3, 4, 5, 6, 9, 24, 33, 50]), [word(r) for i in range(r.choice([1, 5, 20, 100]))]))
            if r.random() < .05:
                pool.append((r.choice([51, 60, 77, 127]), [word(r)]))
            r.shuffle(pool)
            tapes = []
            for x in pool:
                if isinstance(x, tuple):
                    a = assemble(X, fmt_text(r, x[1]), x[0])
                    x = a['vals'] if a['rc'] == 0 else []
                x = [0] * r.choice([0, 0, 3]) + x + [0] * r.choice([0, 0, 0, 2, 9])
                if tapes and r.random() < .5:
                    tapes[-1] = tapes[-1] + x
                else:
                    tapes.append(x)
            if r.random() < .04:
                tapes.insert(r.randrange(len(tapes) + 1), None)
        kind = 'whole'
        if k % 3 == 1:
            tapes, kind = flip(r, tapes), 'one position'
        elif k % 9 == 2:
            tapes, kind = spoil(r, tapes), 'damaged'
        b = r.random() < .15 and all(isinstance(t, list) or t is None for t in tapes) and all(v < 256 for t in tapes if t for v in t)
        jobs.append(('link-' + s, 'needs %s, tapes %s (%s)\n%s' % ([NAMES[n] for n in need], [t if not isinstance(t, list) else len(t) for t in tapes], kind, src),
                     lambda src=src, need=need, tapes=tapes, b=b: link(X, src, need, tapes, b)))
    # every position of one tape, and of the library in the thorough run
    r = random.Random('flips-%d' % ck.seed)
    for n in ([r.choice(sorted(own))] if ck.quick else sorted(own)):
        t = own.get(n)
        src = program(r, [n])
        for k in range(len(t)):
            for b in range(7):
                u = list(t)
                u[k] ^= 1 << b
                jobs.append(('flip-%d-%d-%d' % (n, k, b), 'tape of %s with row %d, position %d changed' % (NAMES[n], k, b),
                             lambda src=src, n=n, u=u: link(X, src, [n], [u])))
    judge(ck, jobs)
