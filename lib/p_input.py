"""C10: numbers, symbols and console switches from the input."""
import random
import parse
import p_lang
from conform import Case

SYMS = list('abcxyzABCXYZ0123456789') + list('+-*/>=<,.@:;()[]`\'"?|_ \t\n') + \
    ['×', '÷', '↑', '≥', '≤', '≠', '¬', '∧', '∨', '⊃', '≡', '⏨']


def number(r):
    """a legal number"""
    k = r.random()
    sg = r.choice(['', '', '', '+', '-'])
    if k < 0.3:
        d = str(r.choice([0, 1, 7, 10, 99, 67108863, 67108864, 1099511627775, 1099511627776, r.randint(0, 10 ** 9)]))
        if r.random() < 0.2:
            d = '0' * r.randint(1, 5) + d
    else:
        n = r.randint(1, 8) if r.random() < 0.8 else r.randint(9, 25)
        d = ''.join(r.choice('0123456789') for _ in range(n))
        p = r.randint(0, n)
        d = d[:p] + '.' + d[p:]
        if r.random() < 0.1:
            d = d.rstrip('.') + '0' * r.randint(1, 9) if '.' in d.rstrip('.') else d
    if r.random() < 0.4:
        e = r.choice([0, 1, 2, 5, 10, 12, 100, 300, 600, r.randint(0, 40), r.randint(0, 600)])
        d += r.choice(['⏨', '⏨', 'e', 'E']) + r.choice(['', '+', '-']) + ('0' if r.random() < 0.1 else '') + str(e)
    return sg + d


def sep(r):
    """separator after a number"""
    return ''.join(r.choice([' ', ' ', '\n', '\n', '\t', '\r\n']) for _ in range(r.choice([1, 1, 1, 2, 3, 6])))


def bad(r):
    return r.choice(['-', '+', '.', 'x', '--5', '+ 5', '⏨5', '1⏨', '1⏨+', '1e-x', '-.', 'abc', ':=', '1⏨ 5', '.⏨3', '*', '∧', '5⏨-⏨1'])


def program(seed):
    r = random.Random('inp' + seed)
    L = []
    t = ''
    sw = False
    mode = r.random()
    end = None
    for _ in range(r.randint(3, 12)):
        k = r.random()
        if k < 0.55 or mode < 0.3:
            lead = sep(r) if r.random() < 0.3 else ''
            j = r.random()
            if j < 0.3:
                t += lead + number(r) + sep(r)
                L.append(r.choice(['print(read); NLCR', 'x := read; print(x); NLCR', 'p(read)', 'a[2] := read; print(a[2]); NLCR',
                                   'print(rd); NLCR', 'print(-read); NLCR', 'print(abs(read)); NLCR', 'pn(read)']))
                if L[-1] == 'pn(read)':
                    t += number(r) + sep(r)
            elif j < 0.5:
                t += lead + number(r) + sep(r) + number(r) + sep(r)
                L.append(r.choice(['print(read, read); NLCR', 'x := read; y := read; print(x, y); NLCR', 'print(read - read, x); NLCR',
                                   'print(rd, read); NLCR', 'if read < read then print(1) else print(2)', 'print(read = rd); NLCR']))
            elif j < 0.65:
                t += '%d%s%s%s' % (r.randint(1, 4), sep(r), number(r), sep(r))
                L.append(r.choice(['a[read] := read; print(a[1], a[2], a[3], a[4]); NLCR', 'i := read; a[i] := read; print(i, a[i]); NLCR']))
            elif j < 0.8:
                n = r.randint(0, 6)
                t += '%d%s' % (n, sep(r)) + ''.join(number(r) + sep(r) for _ in range(n))
                L.append('n := read; for i := 1 step 1 until n do begin x := read; print(x); NLCR end')
            elif j < 0.9:
                n = r.randint(0, 5)
                t += ''.join(r.choice(['1', '-2.5', '7', '.25', '1⏨3']) + sep(r) for _ in range(n)) + '0' + sep(r)
                L.append('for x := read while x # 0 do print(x, 2 * x); NLCR')
            else:
                t += ''.join(str(r.randint(-999, 999)) + sep(r) for _ in range(5))
                L.append('x := SUM(i, 1, 5, read); print(x); NLCR')
        elif k < 0.9:
            j = r.random()
            n = r.randint(1, 12)
            s = ''.join(r.choice(SYMS) if r.random() < 0.93 else '\r' for _ in range(n))
            if s.endswith('\r'):
                s += 'z'
            cnt = len(s.replace('\r', ''))
            t += s
            if j < 0.5:
                L.append('for i := 1 step 1 until %d do print(RESYM); NLCR' % cnt)
            elif j < 0.8:
                L.append('for i := 1 step 1 until %d do begin j := RESYM; print(j); if j < 128 then PRSYM(j) end; NLCR' % cnt)
            else:
                t += ';'
                L.append('j := 0; for i := RESYM while i # 91 do begin j := j + 1; if i < 128 then PRSYM(i) end; print(j); NLCR')
                t = t[:-len(s) - 1] + s.replace(';', ',') + ';'
        else:
            if not sw:
                if t and not t.endswith('\n'):
                    t += '\n'
                    L.append('print(RESYM); NLCR')
                elif t:
                    # separators that no number has taken yet
                    i = len(t.rstrip())
                    if i + 1 < len(t):
                        continue
                w = ''.join(r.choice('01') for _ in range(r.choice([1, 3, 10, 26, 27])))
                t += w + r.choice(['\n', '\n', '\r\n'])
                sw = True
            L.append('print(%s); NLCR' % ', '.join('XEEN(%s)' % r.choice(['1', '2', '67108863', '0', '-1', '-5', 'j', str(r.randint(0, 67108863))])
                                                   for _ in range(r.randint(1, 4))))
            if r.random() < 0.2:
                L.append('stop')
                sw = False
    k = r.random()
    if k < 0.25:
        t += bad(r) + sep(r)
        L.append('print(read); PRINTTEXT(`not reached?\')')
    elif k < 0.45:
        t += ''.join(r.choice([' ', '\n', '']) for _ in range(3))
        L.append('print(read); PRINTTEXT(`not reached\')')
    elif k < 0.6:
        t = t.rstrip('\r')
        L.append('for i := RESYM while i # 255 do print(i); print(RESYM, RESYM)')
    elif k < 0.7:
        t = t.replace('\r', '') + r.choice(['$', '&', '§', 'é', '~', '{'])
        L.append('for i := RESYM while i # 255 do print(i); PRINTTEXT(`not reached\')')
    elif k < 0.8:
        # a number that the end of the input finishes
        t += number(r)
        L.append('print(read); print(RESYM)')
    elif k < 0.85:
        t += r.choice(['1⏨700 ', '-9.5⏨640 ', '1⏨616 ', '.5⏨-900 ', '0⏨900 ', '1⏨-615 '])
        L.append('print(read)')
    txt = '''real x, y; integer i, j, n; real array a[1:4];
real procedure rd; rd := read;
procedure p(z); value z; real z; begin print(z, z); NLCR end;
procedure pn(z); real z; begin print(z); print(z); NLCR end;
x := y := i := j := n := 1; for i := 1 step 1 until 4 do a[i] := 0; %s''' % ';\n'.join(L)
    txt = txt.replace('x := y := i := j := n := 1', 'x := y := 1; i := j := n := 1')
    return parse.program(txt), t.encode()


def c10(ck):
    cs = []
    for k in range(ck.n(900, 20000)):
        s = ck.seed * 1000003 + k
        t, i = program('%d' % s)
        cs.append(Case(t, inp=i, name='inp-%d' % s))
    p_lang.run(ck, ck.corpus('C10') + cs)
