"""Reading ALGOL 60 texts into syntax trees (see algol.py for the nodes).

Two notations are accepted: plain reserved words (begin, if, not, and ...), used
for the programs kept in /verif/corpus, and the notation of the X1 compiler with
underlined words, used for the example programs of the repository."""
import re
import unicodedata
import algol

WORDS = {w.lower(): w for w in algol.WORDS}
OPW = {'not': 'not', 'and': 'and', 'or': 'or', 'imp': 'imp', 'eqv': 'eqv', 'div': '//'}
SYM = {'×': '*', '÷': '//', '↑': '^', '≤': '<=', '≥': '>=', '≠': '#', '¬': 'not', '∧': 'and',
       '∨': 'or', '⊃': 'imp', '≡': 'eqv', '!=': '#', '~': 'not', '&': 'and', '|': 'or'}


class ParseError(Exception):
    pass


def lex_plain(text):
    toks = []
    i, n = 0, len(text)
    while i < n:
        c = text[i]
        if c.isspace():
            i += 1
            continue
        if c == '`':
            j, q = i + 1, 1
            while q:
                q += (text[j] == '`') - (text[j] == "'")
                j += 1
            toks.append(('s', text[i + 1:j - 1].encode('utf-8')))
            i = j
            continue
        m = re.compile(r'[A-Za-z][A-Za-z0-9]*').match(text, i)
        if m:
            w = m.group()
            if w.lower() in WORDS:
                if w.lower() == 'comment':
                    i = text.index(';', i) + 1
                    continue
                toks.append(('w', WORDS[w.lower()]))
                i = m.end()
                if w.lower() == 'end':
                    # what follows is skipped up to ; end else
                    m2 = re.compile(r'[^;]*?(?=;|\bend\b|\belse\b|$)').match(text, i)
                    i = m2.end()
                continue
            elif w.lower() in OPW:
                toks.append(('o', OPW[w.lower()]))
            else:
                toks.append(('n', w))
            i = m.end()
            continue
        m = re.compile(r'(\d+)?(\.\d+)?(@[+-]?\d+)?').match(text, i)
        if m.group():
            toks.append(('num', m.group()))
            i = m.end()
            continue
        for k in (':=', '<=', '>=', '!=', '//'):
            if text.startswith(k, i):
                toks.append(('o', SYM.get(k, k)))
                i += len(k)
                break
        else:
            toks.append(('o', SYM.get(c, c)))
            i += 1
    return toks


def lex_x1(text):
    """the notation of the compiler: underlined words, blanks without meaning"""
    text = text.replace('\r', '')
    chars = []          # (char, underlined, barred)
    under = bar = False
    for c in text:
        if c == '\u0332':
            chars[-1] = (chars[-1][0], True, chars[-1][2])
        elif c == '_' and not under:
            under = True
        elif c == '|' and not bar:
            bar = True
        else:
            chars.append((c, under, bar))
            under = bar = False
    toks = []
    i, n = 0, len(chars)
    ident = lambda c: c.isascii() and c.isalnum()
    while i < n:
        c, u, b = chars[i]
        if u and c.isalpha():
            w = ''
            while i < n and ((chars[i][1] and chars[i][0].isalpha())):
                w += chars[i][0]
                i += 1
            if w.startswith('go') and w != 'goto' and w == 'go':
                while i < n and chars[i][0].isspace():
                    i += 1
                while i < n and chars[i][1] and chars[i][0].isalpha():
                    w += chars[i][0]
                    i += 1
            # words may follow one another directly
            while w:
                for k in sorted(WORDS, key=len, reverse=True):
                    if w.lower().startswith(k):
                        break
                else:
                    raise ParseError('word ' + w)
                if k == 'comment':
                    while chars[i][0] != ';':
                        i += 1
                    i += 1
                    w = ''
                    continue
                toks.append(('w', WORDS[k]))
                w = w[len(k):]
            if toks and toks[-1] == ('w', 'end'):
                while i < n and chars[i][0] != ';' and not chars[i][1]:
                    i += 1
            continue
        if u or b:
            k = ('_' if u else '|') + c
            m = {'_<': '<=', '_>': '>=', '_:': '//', '|=': '#', '|^': '^', '|∧': '^', '_=': 'eqv', '_¬': 'imp',
                 '_~': 'imp', '|<': '`', '|>': "'"}.get(k)
            if m is None:
                raise ParseError('symbol ' + k)
            if m == '`':
                j, q, s = i + 1, 1, ''
                while q:
                    c2, u2, b2 = chars[j]
                    if (b2 and c2 == '<') or c2 == '`':
                        q += 1
                    if (b2 and c2 == '>') or c2 == "'":
                        q -= 1
                    s += ('_' if u2 else '') + ('|' if b2 else '') + c2
                    j += 1
                s = s[:-2] if s.endswith('|>') else s[:-1]
                toks.append(('s', s.encode('utf-8')))
                i = j
                continue
            toks.append(('o', m))
            i += 1
            continue
        if c.isspace():
            i += 1
            continue
        if c in '`‘':
            j, q, s = i + 1, 1, ''
            while q:
                c2, u2, b2 = chars[j]
                q += (c2 in '`‘' or (b2 and c2 == '<')) - (c2 in "'’" or (b2 and c2 == '>'))
                s += ('_' if u2 else '') + ('|' if b2 else '') + c2
                j += 1
            toks.append(('s', s[:-1].encode('utf-8')))
            i = j
            continue
        if c.isalpha() and c.isascii():
            w = ''
            while i < n and not chars[i][1] and not chars[i][2] and (ident(chars[i][0]) or chars[i][0].isspace()):
                w += chars[i][0]
                i += 1
            toks.append(('n', re.sub(r'\s', '', w)))
            continue
        if c.isdigit() or c in '.⏨@':
            w = ''
            while i < n and not chars[i][1] and (chars[i][0].isdigit() or chars[i][0] in '.⏨@' or chars[i][0].isspace()
                             or (chars[i][0] in '+-' and w[-1:] in ('⏨', '@'))):
                if not chars[i][0].isspace():
                    w += chars[i][0]
                i += 1
            toks.append(('num', w.replace('⏨', '@')))
            continue
        if c == ':' and i + 1 < n:
            j = i + 1
            while j < n and chars[j][0].isspace():
                j += 1
            if j < n and chars[j][0] == '=' and not chars[j][1]:
                toks.append(('o', ':='))
                i = j + 1
                continue
        toks.append(('o', SYM.get(c, c)))
        i += 1
        if len(toks) >= 1 and toks[-1] == ('w', 'end'):
            pass
    return toks


class Parser:
    def __init__(self, toks):
        self.t, self.i = toks + [('eof', '')], 0

    def peek(self, k=0):
        return self.t[self.i + k]

    def isw(self, w):
        return self.t[self.i] == ('w', w)

    def iso(self, o):
        return self.t[self.i] == ('o', o)

    def fail(self, what=''):
        raise ParseError('%s at %s' % (what, self.t[max(0, self.i - 6):self.i + 4]))

    def opt(self, k, v):
        if self.t[self.i] == (k, v):
            self.i += 1
            return True
        return False

    def need(self, k, v=None):
        t = self.t[self.i]
        if t[0] != k or (v is not None and t[1] != v):
            self.fail('expected %s %s' % (k, v))
        self.i += 1
        return t[1]

    # ------------------------------------------------------------ expressions
    def expr(self):
        if self.opt('w', 'if'):
            c = self.expr()
            self.need('w', 'then')
            a = self.binary(3)
            self.need('w', 'else')
            return ('if', c, a, self.expr())
        return self.binary(3)

    def binary(self, p):
        if p == 7:
            if self.opt('o', 'not'):
                return ('un', 'not', self.binary(7))
            return self.binary(8)
        if p == 9:
            if self.iso('+') or self.iso('-'):
                o = self.need('o')
                a = ('un', o, self.binary(10))
            else:
                a = self.binary(10)
        elif p == 12:
            return self.primary()
        else:
            a = self.binary(p + 1)
        while self.peek()[0] == 'o' and algol.PRI.get(self.peek()[1]) == p:
            o = self.need('o')
            if p == 8:
                return ('bi', o, a, self.binary(9))
            a = ('bi', o, a, self.binary(p + 1 if p != 11 else 12))
        return a

    def primary(self):
        k, v = self.peek()
        if k == 'num':
            self.i += 1
            return number(v)
        if k == 'w' and v in ('true', 'false'):
            self.i += 1
            return ('b', v == 'true')
        if k == 'o' and v == '(':
            self.i += 1
            e = self.expr()
            self.need('o', ')')
            return e
        if k == 'n':
            self.i += 1
            if self.iso('['):
                return ('ix', v, self.subscripts())
            if self.iso('('):
                return ('fc', v, self.actuals())
            return ('v', v)
        if k == 's':
            self.i += 1
            return ('str', v)
        self.fail('primary')

    def subscripts(self):
        self.need('o', '[')
        xs = [self.expr()]
        while self.opt('o', ','):
            xs.append(self.expr())
        self.need('o', ']')
        return xs

    def actuals(self):
        self.need('o', '(')
        xs = [self.expr()]
        while self.opt('o', ','):
            xs.append(self.expr())
        self.need('o', ')')
        return xs

    # -------------------------------------------------------------- statements
    def statement(self):
        k, v = self.peek()
        if k == 'n' and self.peek(1) == ('o', ':'):
            self.i += 2
            return ('lb', v, self.statement())
        if k == 'w':
            if v == 'goto':
                self.i += 1
                return ('go', self.expr())
            if v == 'if':
                self.i += 1
                c = self.expr()
                self.need('w', 'then')
                a = self.statement()
                b = self.statement() if self.opt('w', 'else') else None
                return ('ifs', c, a, b)
            if v == 'for':
                self.i += 1
                t = self.primary()
                self.need('o', ':=')
                els = []
                while True:
                    e = self.expr()
                    if self.opt('w', 'step'):
                        s = self.expr()
                        self.need('w', 'until')
                        els.append(('es', e, s, self.expr()))
                    elif self.opt('w', 'while'):
                        els.append(('ew', e, self.expr()))
                    else:
                        els.append(('e1', e))
                    if not self.opt('o', ','):
                        break
                self.need('w', 'do')
                return ('for', t, els, self.statement())
            if v == 'begin':
                return self.block()
            return ('nop',)
        if k == 'n':
            t = self.primary()
            if self.iso(':='):
                ts = [t]
                self.i += 1
                while True:
                    e = self.expr()
                    if not self.opt('o', ':='):
                        break
                    ts.append(e)
                return ('as', ts, e)
            if t[0] == 'v':
                return ('ca', t[1], [])
            if t[0] == 'fc':
                return ('ca', t[1], t[2])
            self.fail('statement')
        return ('nop',)

    DECL = ('own', 'integer', 'real', 'Boolean', 'array', 'procedure', 'switch')

    def block(self):
        self.need('w', 'begin')
        ds = []
        while self.peek()[0] == 'w' and self.peek()[1] in self.DECL:
            ds.append(self.declaration())
            self.need('o', ';')
        ss = [self.statement()]
        while self.opt('o', ';'):
            ss.append(self.statement())
        self.need('w', 'end')
        return ('bl', ds, ss) if ds else ('co', ss)

    def names(self):
        xs = [self.need('n')]
        while self.opt('o', ','):
            xs.append(self.need('n'))
        return xs

    def declaration(self):
        own = self.opt('w', 'own')
        if self.opt('w', 'switch'):
            nm = self.need('n')
            self.need('o', ':=')
            xs = [self.expr()]
            while self.opt('o', ','):
                xs.append(self.expr())
            return ('ds', nm, xs)
        ty = ''
        if self.peek()[1] in ('integer', 'real', 'Boolean'):
            ty = self.need('w')[0].upper()
        if self.opt('w', 'array'):
            segs = []
            while True:
                ns = self.names()
                self.need('o', '[')
                bs = []
                while True:
                    lo = self.expr()
                    self.need('o', ':')
                    bs.append((lo, self.expr()))
                    if not self.opt('o', ','):
                        break
                self.need('o', ']')
                segs.append((ns, bs))
                if not self.opt('o', ','):
                    break
            return ('da', ty or 'R', own, segs)
        if self.opt('w', 'procedure'):
            nm = self.need('n')
            fs, vals, spec = [], [], []
            if self.opt('o', '('):
                fs = self.names()
                self.need('o', ')')
            self.need('o', ';')
            vn = []
            if self.opt('w', 'value'):
                vn = self.names()
                self.need('o', ';')
            while self.peek()[0] == 'w' and self.peek()[1] in ('integer', 'real', 'Boolean', 'array', 'label',
                                                             'switch', 'procedure', 'string'):
                ws = [self.need('w')]
                while self.peek()[0] == 'w':
                    ws.append(self.need('w'))
                for x in self.names():
                    spec.append((' '.join(ws), x))
                self.need('o', ';')
            for x in vn:
                s = dict((b, a) for a, b in spec)[x]
                arr = s.endswith('array')
                vals.append((x, 'array' if arr else 'sc', 'R' if s == 'array' else s[0].upper()))
            return ('dp', ty, nm, fs, vals, spec, self.statement())
        return ('dv', ty, own, self.names())


def number(v):
    m = re.match(r'(\d*)(?:\.(\d+))?(?:@([+-]?\d+))?$', v)
    if not m:
        raise ParseError('number ' + v)
    ip, fp, ex = m.groups()
    if fp is None and ex is None:
        x = int(ip)
        return ('i', x) if x <= 67108863 else ('r', ip, '', 0)
    return ('r', ip, fp or '', int(ex or 0))


def parse(text, x1=False):
    p = Parser((lex_x1 if x1 else lex_plain)(text))
    labs = []
    while p.peek()[0] == 'n' and p.peek(1) == ('o', ':'):
        labs.append(p.need('n'))
        p.i += 1
    t = p.block()
    return t


def program(text):
    """tree of a program given as 'declarations; statements' or begin ... end"""
    text = text.strip()
    if not re.match(r'begin\b', text):
        text = 'begin ' + text + ' end'
    return parse(text)
