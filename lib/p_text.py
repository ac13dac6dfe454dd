"""C11: the way a program is written; C12: texts that are no correct programs.
Texts are decided by Source.tla, behaviour by Conform.tla."""
import json
import os
import random
import re
import shutil
import algol
import conform
import gen
import p_lang
import tlc
import x1
from conform import Case

STD = ['read', 'print', 'TAB', 'NLCR', 'XEEN', 'SPACE', 'stop', 'abs', 'sign', 'sqrt', 'sin', 'cos', 'arctan',
       'ln', 'exp', 'entier', 'FLOT', 'FIXT', 'ABSFIXT', 'SUM', 'PRINTTEXT', 'EVEN', 'RESYM', 'PRSYM', 'RANDOM',
       'SETRANDOM', 'TIMEOFDAY']
LOW = 'abcdefghijklmnopqrstuvwxyz'
LET = LOW + LOW.upper()
DIG = '0123456789'
SPELL = {'*': ['*', '×'], '//': ['÷', '_:', ':\u0332'], '^': ['↑', '|∧', '||∧'], '<=': ['≤', '_<', '<\u0332'],
         '>=': ['≥', '_>', '>\u0332', '__>'], '#': ['≠', '|=', '||='], 'not': ['¬'], 'and': ['∧'], 'or': ['∨'],
         'imp': ['⊃', '_¬'], 'eqv': ['≡', '_=', '=\u0332']}


def codes(s):
    return [ord(c) for c in s]


def judge(ck, cases):
    """cases: dicts for Source.tla; returns verdicts (verdict, ending, position)"""
    fn = os.path.join(x1.scratch(), 'texts-%d.json' % id(cases))
    with open(fn, 'w') as f:
        json.dump(cases, f)
    R = tlc.run('Source', env={'CASES': fn}, timeout=800)
    if not R.ok:
        if os.environ.get('X1_KEEP'):
            shutil.copy(fn, os.environ['X1_KEEP'])
        raise tlc.TlcError(R.text[-4000:])
    os.unlink(fn)
    ck.cov['states'] += R.distinct
    ck.cov['transitions'] += R.generated
    res = {v[0]: v[1:] for v in R.lines('@C')}
    return [res[k + 1] for k in range(len(cases))]


# ------------------------------------------------------------ representations
def newnames(r, names, taken):
    """other identifiers for names, different in their nine significant characters"""
    res = {}
    used = set(t[:9] for t in taken)
    base = ''.join(r.choice(LET + DIG) for _ in range(8))
    base = r.choice(LET) + base[1:]
    for n in names:
        while True:
            k = r.random()
            if k < 0.25:       # different in the last significant character only
                s = base + r.choice(LET + DIG)
            elif k < 0.4:      # beginnings of one another, with zeros
                s = base[:r.randint(1, 8)] + '0' * r.randint(0, 3)
            elif k < 0.5:
                s = r.choice(STD)
            elif k < 0.6 and res:
                s = r.choice(list(res.values()))
                q = r.randrange(len(s))
                s = s[:q] + r.choice([s[q].swapcase(), r.choice(LET), s[q]]) + s[q + 1:] + r.choice(['', r.choice(LET + DIG)])
            else:
                s = r.choice(LET) + ''.join(r.choice(LET + DIG) for _ in range(r.choice([0, 0, 1, 2, 3, 4, 5, 6, 7, 8, 11, 15, 40])))
            if s[:9] not in used:
                break
        used.add(s[:9])
        res[n] = s
    return res


COMM = LET + DIG + ' \n\t+-×/÷↑>≥=≤<≠¬∧∨⊃≡,.⏨@:()[]`\'"?|_!#$%&{}~^\\' + '   '
ENDC = LET + DIG + ' \n\t+-×/=<,.'


class Style:
    """how a text is written"""
    def __init__(self, r):
        self.r = r
        self.word = r.choice(['_', '\u0332', 'mix'])
        self.blank = r.choice([0, 0, 0.05, 0.3, 0.8])
        self.inner = r.choice([0, 0, 0.05, 0.3])
        self.comment = r.choice([0, 0.1, 0.5])
        self.endc = r.choice([0, 0.3, 1])
        self.spell = r.choice(['first', 'last', 'mix'])

    def lay(self):
        r = self.r
        return ''.join(r.choice(' \n\t ') for _ in range(r.choice([1, 1, 2, 5])))

    def spread(self, s):
        if not self.inner:
            return s
        return ''.join(c + (self.lay() if self.r.random() < self.inner else '') for c in s[:-1]) + s[-1:]

    def text(self, al, n):
        return ''.join(self.r.choice(al) for _ in range(n))


def write(toks, r, names, tails=True):
    st = Style(r)
    out = []
    depth = 0

    def put(s):
        # two underlined things beside each other would be one word
        if out and out[-1][0] == 'w' and (s[0] == '_' or s[1:2] == '\u0332'):
            out.append(('l', st.lay()))
        out.append(('t', s))

    for q, (k, v) in enumerate(toks):
        if k == 'w':
            s = ''
            for c in v:
                m = st.word if st.word != 'mix' else r.choice(['_', '\u0332'])
                s += ('_' * r.choice([1, 1, 1, 1, 2]) + c) if m == '_' else c + '\u0332'
            put(s)
            out[-1] = ('w', s)
        elif k == 'o':
            sp = SPELL.get(v, [v])
            put(sp[0] if st.spell == 'first' else sp[-1] if st.spell == 'last' else r.choice(sp))
        elif k == 'n':
            s = names.get(v, v)
            if len(s) >= 9 and tails and v in names:
                s = s[:9] + st.text(LET + DIG, r.choice([0, 0, 1, 1, 2, 9]))
            put(st.spread(s))
        elif k == 'num':
            put(st.spread(v.replace('@', r.choice('@⏨'))))
        else:
            s = v.decode('utf-8')
            if st.spell != 'first':
                s = ''.join(r.choice(['`', '|<']) if c == '`' else r.choice(["'", '|>', '||>']) if c == "'" else c for c in s)
            a, b = ('`', "'") if st.spell == 'first' else (r.choice(['`', '|<']), r.choice(["'", '|>']))
            put(a + s + b)
        # what may stand behind
        nxt = toks[q + 1] if q + 1 < len(toks) else ('', '')
        if k in ('w', 'n', 'num') and nxt[0] in ('w', 'n', 'num') and (k != 'w' or nxt[0] == 'w'):
            out.append(('l', st.lay()))
        elif r.random() < st.blank:
            out.append(('l', st.lay()))
        if v == 'begin':
            depth += 1
        elif v == 'end' and k == 'w':
            depth -= 1
            if depth and r.random() < st.endc:
                out.append(('l', r.choice(' \n') + st.text(ENDC, r.choice([1, 3, 10, 60])) + ' '))
            elif not depth:
                out.append(('l', r.choice(['', '\n', '\n\n  \n', '\n' + st.text(ENDC, r.randint(0, 50)) + '\n'])))
        if ((k, v) == ('o', ';') or (k, v) == ('w', 'begin')) and r.random() < st.comment:
            if out[-1][0] == 'w':
                out.append(('l', st.lay()))
            w = ''.join('_' + c for c in 'comment') if st.word == '_' else ''.join(c + '\u0332' for c in 'comment')
            c = st.text(COMM, r.choice([0, 1, 5, 30, 200]))
            if c[:1] in ('_', '\u0332'):
                c = ' ' + c
            out.append(('t', w + c + ';'))
    return ''.join(s for _, s in out)


def declared(t, res=None):
    """names declared anywhere in a tree"""
    if res is None:
        res = set()
    if isinstance(t, tuple) and t:
        if t[0] == 'dv':
            res.update(t[3])
        elif t[0] == 'da':
            for ns, _ in t[3]:
                res.update(ns)
        elif t[0] == 'dp':
            res.add(t[2])
            res.update(t[3])
        elif t[0] == 'ds':
            res.add(t[1])
        elif t[0] == 'lb':
            res.add(t[1])
    if isinstance(t, (tuple, list)):
        for x in t:
            declared(x, res)
    return res


def variant(r, tree):
    """the canonical text of a tree, another text for it, standard names it uses"""
    toks = algol.tokens(tree)
    names = sorted(set(v for k, v in toks if k == 'n'))
    own = declared(tree)
    std = [n for n in names if n not in own]
    ren = newnames(r, [n for n in names if n in own], std) if r.random() < 0.8 else {}
    return algol.plain(toks), write(toks, r, ren), std


MIX = ['C01', 'C03', 'C04', 'C05', 'C06', 'C07', 'C09', 'ALL']


def bases(ck, n):
    """trees to be written in other ways"""
    out = []
    for p in ('C01', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C10', 'C17', 'C20', 'C22'):
        for c in ck.corpus(p):
            if len(c.src) < 6000:
                out.append((c.tree, c.inp, c.name))
    ck.rng.shuffle(out)
    out = out[:ck.n(100, 1000)]
    for k in range(n):
        s = '%d' % (ck.seed * 1000003 + k)
        prof = dict(p_lang.PROFILES[MIX[k % len(MIX)]], budget=200, stmts=(3, 6))
        if k % 5 == 4:
            out.append((p_lang.text_program('x' + s), b'', 'text-' + s))
        else:
            out.append((gen.program('x' + s, prof), b'', 'gen-' + s))
    return out


def c11(ck):
    model(ck)
    todo = bases(ck, ck.n(420, 9000))
    for k in range(0, len(todo), 1000):
        cs, recs = [], []
        for tree, inp, name in todo[k:k + 1000]:
            r = random.Random('%s/%s' % (ck.seed, name))
            a, b, std = variant(r, tree)
            if '_' in ''.join(v.decode('utf-8') for kk, v in algol.tokens(tree) if kk == 's'):
                continue
            cs.append(Case(tree, src=b, inp=inp, name='form-' + name, fuel=ck.n(8000, 30000)))
            recs.append(dict(kind='same', a=codes(a), b=codes(b), std=[codes(n[:9]) for n in std]))
        vs = judge(ck, recs)
        for c, v, rec in zip(cs, vs, recs):
            if v[0] != 'same':
                raise tlc.TlcError('the specification does not take two texts for the same program: %s %s\n%s' % (c.name, v, c.src))
        ck.count('representations', len(cs))
        ck.count('symbols', sum(len(x['b']) for x in recs))
        ck.conformance(cs, reduce=False)
        if len(ck.viol) >= 3:
            return
        ck.log('%d texts' % len(cs))


def model(ck):
    """the lexer itself, over all short texts"""
    R = tlc.run('LexerMC', cfg='LexerMC%s.cfg' % ('' if ck.quick else '2'), timeout=3000)
    if not R.ok:
        raise tlc.TlcError(R.text[-3000:])
    ck.cov['states'] += R.distinct
    ck.cov['transitions'] += R.generated
    ck.count('model_states', R.distinct)


# ------------------------------------------------------------- incorrect texts
def observe(X, src, comp=None, tmo=10):
    """what the compiler and the driver do with a text"""
    d = X.newdir()
    with open(d + '/p.a60', 'wb') as f:
        f.write(src)
    res = X.exec([comp or X.comp, 'p.a60', X.lib], d, b'', tmo, maxout=8 << 20)
    o = dict(done=not res.timeout, rc=res.rc if res.rc >= 0 else 255, msg=False, words=[], junk=0, entry=-1, ran=False, drc=1)
    if res.rc == 0:
        for line in res.out.decode('latin-1').split('\n'):
            f = line.split()
            if not f:
                continue
            if not all(re.fullmatch(r'-?[0-9]{1,10}', x) for x in (f if len(f) < 4 else f[1:])):
                o['junk'] += 1
            elif len(f) == 2:
                o['words'].append([int(f[0]), int(f[1])])
            elif len(f) == 3:
                if o['entry'] < 0:
                    o['entry'] = int(f[0]) % 32 * 1024 + int(f[1]) * 32 + int(f[2])
            elif len(f) != 4:
                o['junk'] += 1
        if any(abs(x) > 2 ** 31 - 1 for w in o['words'] for x in w):
            o['junk'] += 1
            o['words'] = []
    elif not res.timeout:
        o['msg'] = bool(res.out.strip() or res.err.strip())
        e = X.exec([X.sim, 'p.a60'], d, b'', tmo)
        o['drc'] = 137 if e.timeout else e.rc if e.rc >= 0 else 255
        o['ran'] = bool(e.out.strip())
        o['msg'] = o['msg'] and bool(e.err.strip() or e.out.strip())
    shutil.rmtree(d, ignore_errors=True)
    return o


def uses(t, path=()):
    """paths of the identifiers used in a tree"""
    if isinstance(t, tuple) and t:
        k = t[0]
        if k in ('v', 'ix', 'fc', 'ca'):
            yield path + (1,)
        for i, x in enumerate(t):
            if isinstance(x, (tuple, list)) and not (k == 'dp' and i in (3, 4, 5)) and not (k == 'dv') and not (k == 'str'):
                yield from uses(x, path + (i,))
    elif isinstance(t, list):
        for i, x in enumerate(t):
            if isinstance(x, (tuple, list)):
                yield from uses(x, path + (i,))


def undeclare(r, tree):
    """a tree with some identifier used where perhaps no declaration of it is visible"""
    ps = list(uses(tree))
    if not ps:
        return tree
    p = r.choice(ps)
    pool = sorted(declared(tree))
    if r.random() < 0.3:
        nm = r.choice(LET) + ''.join(r.choice(LET + DIG) for _ in range(r.randint(0, 10)))
    else:
        nm = r.choice(pool or ['q'])
        if r.random() < 0.3 and len(nm) < 9:
            nm += r.choice(LET + DIG)
        elif r.random() < 0.1:
            nm = nm.swapcase()

    return p_lang.modify(tree, p, lambda _: nm)


def unlabel(tree, r):
    """a tree with one declaration or label less"""
    out = []

    def walk(t, path):
        if isinstance(t, tuple) and t:
            if t[0] == 'lb':
                out.append(path)
            if t[0] == 'bl' and t[1]:
                for i in range(len(t[1])):
                    out.append(path + (1, i))
        if isinstance(t, (tuple, list)):
            for i, x in enumerate(t):
                if isinstance(x, (tuple, list)):
                    walk(x, path + (i,))
    walk(tree, ())
    if not out:
        return tree
    p = r.choice(out)
    t = tree
    for i in p:
        t = t[i]
    if t[0] == 'lb':
        return p_lang.modify(tree, p, lambda x: x[2])

    def drop(l):
        return l[:p[-1]] + l[p[-1] + 1:]
    return p_lang.modify(tree, p[:-1], drop)


WORDSP = [''.join('_' + c for c in w) for w in algol.WORDS]
BADSYM = ['|a', '|', '|+', '| ', '_+', '_)', '_1', '_', '_ ', '_j', '_n_o_t', '_Z', '_b', '_e', '_t', '_s', '_f', '_i ', '"', '?',
          '_x_y', "'", '`', '1⏨123456789', '⏨999999999', '2⏨-987654321', '.5⏨+1234567890123']
PIECES = WORDSP + list('()[]:;,+-×/÷↑<=>≤≥≠¬∧∨⊃≡.⏨') + [':=', '`', "'", '1', 'x', '0', 'abc', '\n', ' ', '_', '|'] + BADSYM


def split(src):
    """a text in pieces"""
    return re.findall(r'(?:_\w)+|:=|[A-Za-z][A-Za-z0-9]*|[0-9.⏨@]+|`[^\']*\'|\s+|.', src, re.S)


def spoil(r, src):
    """a damaged text"""
    k = r.random()
    ps = split(src)
    if k < 0.08:
        return src[:r.randrange(len(src))]
    if k < 0.12:
        return ''.join(ps[:r.randrange(len(ps))])
    for _ in range(r.choice([1, 1, 1, 1, 2, 3, 8])):
        i = r.randrange(len(ps))
        z = r.random()
        if z < 0.25:
            ps.insert(i, r.choice(BADSYM))
        elif z < 0.45:
            ps.insert(i, r.choice(PIECES))
        elif z < 0.5:
            j = r.randrange(len(ps))
            ps[i], ps[j] = ps[j], ps[i]
        elif z < 0.55:
            ps.insert(i, ps[r.randrange(len(ps))])
        elif z < 0.65:
            t = [q for q, x in enumerate(ps) if x.strip()]
            del ps[r.choice(t)]
        elif z < 0.8:
            t = [q for q, x in enumerate(ps) if x in '()[]' or x in ('_e_n_d', '_b_e_g_i_n')]
            if t:
                del ps[r.choice(t)]
        elif z < 0.9:
            t = [q for q, x in enumerate(ps) if x in (';', '_b_e_g_i_n', '_e_n_d')]
            if t:
                q = r.choice(t)
                ps.insert(q + (r.random() < 0.5), r.choice(['(', ')', '[', ']', ':', '_e_n_d', '_b_e_g_i_n', '`', "'"]))
        elif z < 0.95:
            x = ps[i]
            if x:
                q = r.randrange(len(x))
                ps[i] = x[:q] + chr(r.choice([r.randint(32, 126), r.randint(0, 31), 0x2260, 0xd7, 0xe9, 0x4e2d])) + x[q + 1:]
        else:
            a, b = sorted((r.randrange(len(ps)), r.randrange(len(ps))))
            b = min(b, a + 12)
            ps = ps[:a] + ps[b:]
        if not ps:
            ps = ['_b_e_g_i_n']
    return ''.join(ps)


def garbage(r):
    k = r.randrange(14)
    n = r.choice([0, 1, 3, 10, 100, 1000])
    B, E = '_b_e_g_i_n ', ' _e_n_d'
    if k == 0:
        return bytes(r.randrange(256) for _ in range(n))
    if k == 1:
        return ''.join(r.choice(PIECES) for _ in range(n)).encode()
    if k == 2:
        return (B + ''.join(r.choice(PIECES) + r.choice(['', ' ']) for _ in range(min(n, 60))) + E).encode()
    if k == 3:     # deep nesting
        o, c = r.choice([('(', ')'), ('[', ']'), (B, E), ('_i_f 1<2 _t_h_e_n ', ''), ('_f_o_r k:=1 _d_o ', ''), ('x(', ')'), ('x[', ']'),
                         ('_i_f 1<2 _t_h_e_n 1 _e_l_s_e ', ''), ('_b_e_g_i_n _i_n_t_e_g_e_r k; ', E), ('+', ''), ('¬', ''), ('1↑', '1'),
                         ('k:=', '1'), ('l:', ''), ('_p_r_o_c_e_d_u_r_e p; ', '')])
        m = r.choice([10, 31, 60, 130, 400, 3000, 20000])
        return (B + '_i_n_t_e_g_e_r k; _a_r_r_a_y x[1:2]; ' + r.choice(['k:=', '', 'print(']) + o * m + r.choice(['', '1', 'k:=1']) + c * r.choice([m, m, m - 1, 0]) + E).encode()
    if k == 4:     # long symbols
        m = r.choice([100, 5000, 70000, 300000])
        return (B + r.choice(['', '_i_n_t_e_g_e_r ']) + r.choice(['a', '1', '_a', '_', '|', '9', '.', '⏨', ' ', '\n', ':', 'Z']) * m + r.choice(['', ':=1', ';']) + E).encode()
    if k == 5:
        return (B + 'PRINTTEXT(`' + r.choice(["'", 'a', '`', 'x`y\'']) * r.choice([1, 100, 600, 9000, 60000]) + r.choice(["'", '']) + ')' + E).encode()
    if k == 6:     # many names, constants, labels, strings
        m = r.choice([100, 700, 3000, 9000])
        f = r.choice([lambda i: '_i_n_t_e_g_e_r v%d; ' % i, lambda i: 'l%d: ' % i, lambda i: 'print(%d.5); ' % i, lambda i: '_g_o_t_o l%d; ' % i,
                      lambda i: '_p_r_o_c_e_d_u_r_e p%d; ; ' % i, lambda i: '_s_w_i_t_c_h s%d:=l; ' % i, lambda i: 'print(%d); ' % (i * 70001)])
        return (B + ''.join(f(i) for i in range(m)) + E).encode()
    if k == 7:
        return (r.choice(['', 'x', '1', '5.5⏨', '_e_n_d', '_e_l_s_e', ';', '(', '`', "'", ':', ':=', '_r_e_a_l', '_f_o_r', '_g_o_t_o', ' ', '\n', '_c_o_m_m_e_n_t'])).encode()
    if k == 8:     # declarations with errors
        return (B + r.choice(WORDSP) + ' ' + r.choice(['a', 'a, b', 'a, ', '', '1', 'a[', 'a[1', 'a[1:', 'a[1:2', 'a[1:2]', 'a:=', 'a:=b,', 'a(', 'a(b', 'a(b)', 'a(b);', '(', ')'])
                + r.choice(['', ';', ':', ',', ' ' + r.choice(WORDSP)]) + ' ' + r.choice(['', 'a:=1', 'print(a)', 'a', '_e_n_d']) + E).encode()
    if k == 9:
        return (B + ''.join(r.choice(WORDSP) + ' ' for _ in range(r.randint(1, 12))) + r.choice(['', E])).encode()
    if k == 10:
        return (B + r.choice(['print', 'read', 'sin', 'stop', 'FIXT', 'SUM', 'PRINTTEXT', 'EVEN', 'NLCR', 'abs', 'x']) +
                r.choice(['', '(', ')', '()', '(,)', '(1,)', '(,1)', '(1', '(1;', '[1]', ':', ':=', ':=1', '(1)(2)', '(`', "('", '(1,2,3,4,5,6,7,8)', '(_b_e_g_i_n)']) + E).encode()
    if k == 11:
        return b'\xef\xbb\xbf' + (B + 'print(1)' + E).encode()
    if k == 12:
        s = (B + '_i_n_t_e_g_e_r k; k:=1; print(k≤2)' + E).encode()
        i = r.randrange(len(s))
        return s[:i] + bytes([r.randrange(256)]) + s[i + 1:]
    return (B + ''.join(r.choice('()[],:;+-1x ') for _ in range(r.randint(1, 30))) + r.choice([E, ''])).encode()


def systematic(r, quick):
    """every symbol, plain, underlined and struck through, in a few places of a program; underlined beginnings of words"""
    every = [chr(c) for c in range(32, 127)] + list('×÷↑≤≥≠¬∧∨⊃≡⏨')
    frames = ['_b_e_g_i_n _i_n_t_e_g_e_r x; x:=3; x:=3%s4; print(x) _e_n_d', '_b_e_g_i_n _i_n_t_e_g_e_r x; x:=3; %s; print(x) _e_n_d',
              '_b_e_g_i_n _b_o_o_l_e_a_n b; _i_n_t_e_g_e_r x; x:=3; b:=x%sx; _i_f b _t_h_e_n print(x) _e_n_d',
              '_b_e_g_i_n _i_n_t_e_g_e_r x; x:=3; _i_f %sx<4 _t_h_e_n print(x)%s _e_n_d', "_b_e_g_i_n PRINTTEXT(`a%sb'); print(1)_e_n_d"]
    out = []
    for c in every:
        for p in ('', '_', '|', '__', '_ _', '||'):
            fs = frames if p in ('_', '|') or not quick else r.sample(frames, 1)
            for fr in fs:
                out.append(fr.replace('%s', p + c))
    letters = 'abcdefghijklmnopqrstuvwxyz'
    two = ['_%s_%s' % (a, b) for a in letters for b in letters] + ['_s_t_' + a for a in letters] + ['_' + a + b for a in letters for b in letters + ' 1('] + ['_s_t' + a for a in letters]
    for w in (r.sample(two, 250) if quick else two):
        out.append(r.choice(frames).replace('%s', r.choice(['', ' ']) + w + r.choice(['', ' '])))
    for w in algol.WORDS:
        for k in range(1, len(w) + 1):
            u = ''.join('_' + c for c in w[:k])
            out.append(r.choice(frames).replace('%s', r.choice([u, u + w[k:], u + ' ' + ''.join('_' + c for c in w[k:])])))
    return out


LONG = 6000      # longer texts are not followed by the specification: they only have to end in order


def points(b):
    """code points of a text in bytes; what is no UTF-8 becomes a sign the specification leaves open"""
    return codes(b.decode('utf-8', 'replace'))


def c12(ck):
    X = ck.X
    todo = []        # kind, bytes, nodes, valid
    r = random.Random('c12/%d' % ck.seed)
    n = ck.n(1500, 40000)
    trees = []
    for k in range(ck.n(150, 3000)):
        s = 'y%d' % (ck.seed * 1000003 + k)
        trees.append(gen.program(s, dict(p_lang.PROFILES[MIX[k % len(MIX)]], budget=120, stmts=(2, 5))))
    for t in trees:
        todo.append(('valid', algol.source(t).encode(), algol.flatten(t), True))
    for k in range(n):
        t = r.choice(trees)
        z = k % 10
        if z < 2:
            for q in range(8):
                u = undeclare(r, t) if r.random() < 0.75 else unlabel(t, r)
                if u != t:
                    break
            try:
                todo.append(('names', algol.source(u).encode(), algol.flatten(u), False))
            except ValueError:
                pass
        elif z < 7:
            src = algol.source(t)
            if r.random() < 0.2:
                src = write(algol.tokens(t), r, {})
            todo.append(('spoiled', spoil(r, src).encode('utf-8', 'replace'), [], False))
        else:
            todo.append(('garbage', garbage(r), [], False))
    for t in systematic(r, ck.quick):
        todo.append(('systematic', t.encode(), [], False))
    for k in range(0, len(todo), 2500):
        part = todo[k:k + 2500]
        obs = x1.pmap(lambda c: observe(X, c[1]), part)
        ck.log('observed')
        recs = []
        for c, o in zip(part, obs):
            pts = points(c[1])
            if len(pts) > LONG:
                pts = [65533]
            recs.append(dict(kind='check', a=pts, b=[], std=[], nodes=c[2], valid=c[3], obs=o))
        vs = judge(ck, recs)
        for c, o, v in zip(part, obs, vs):
            ck.count(c[0] + '_' + v[1])
            if v[0] == 'ok':
                continue
            # once more
            o2 = observe(X, c[1], tmo=60)
            rec = dict(kind='check', a=points(c[1]), b=[], std=[], nodes=c[2], valid=c[3], obs=o2)
            if len(rec['a']) > LONG:
                rec['a'] = [65533]
            v2 = judge(ck, [rec])[0]
            if v2[0] == 'ok':
                continue
            what = {'endless': 'the compiler does not end', 'crash': 'the compiler crashes', 'accepted': 'a wrong text is not refused',
                    'refused': 'a correct program is refused', 'incomplete': 'neither an error nor a complete object program'}[v2[0]]
            ck.violation('text-%08x' % (hash(c[1]) & 0xffffffff), what + ' (%s, %s at %d)' % (c[0], v2[1], v2[2]),
                         'exit %d, message %s, driver %d\n%s' % (o2['rc'], o2['msg'], o2['drc'], c[1][:4000].decode('utf-8', 'replace')))
            if len(ck.viol) >= 3:
                return
        ck.cov['traces_validated_against_impl'] += sum(1 for v in vs if v[0] == 'ok')
        ck.count('texts', len(part))
        ck.count('refused_as_specified', sum(1 for v, rec in zip(vs, recs) if v[0] == 'ok' and rec['obs']['rc'] == 1))
        for c, o in list(zip(part, obs))[::700]:
            ck.sample(dict(kind=c[0], text=c[1][:300].decode('utf-8', 'replace'), exit=o['rc']))
        ck.log('%d texts' % len(part))
