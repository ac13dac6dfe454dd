"""Syntax trees of ALGOL 60 programs: building, flattening for the TLA+
specification, and writing as source text.

Nodes are tuples:
 expressions
  ('i', v)  ('r', ip, fp, ex)  ('b', bool)  ('v', name)  ('ix', name, [e])
  ('fc', name, [actual])  ('un', op, e)  ('bi', op, a, b)  ('if', c, a, b)
  ('str', bytes)
 statements
  ('as', [targets], e) ('ca', name, [actual]) ('go', d) ('ifs', c, s1, s2|None)
  ('for', target, [elements], body) ('bl', [decls], [stmts]) ('co', [stmts])
  ('lb', name, s) ('nop',)
  elements: ('e1', e) ('es', a, b, c) ('ew', e, c)
 declarations
  ('dv', ty, own, [names])  ('da', ty, own, [([names], [(lo, hi)])])
  ('dp', ty|'', name, [formals], [(name, 'sc'|'array', ty)], [(spec, name)], body)
  ('ds', name, [designators])
"""


def flatten(prog):
    nodes = []

    def add(n):
        nodes.append(n)
        return len(nodes)

    def ex(e):
        k = e[0]
        if k == 'i':
            return add(['i', e[1]])
        if k == 'r':
            ip, fp, x = e[1], e[2], e[3]
            dg = [int(c) for c in ip + fp]
            if all(d == 0 for d in dg):
                return add(['i', 0])
            return add(['r', dg, x - len(fp)])
        if k == 'b':
            return add(['b', e[1]])
        if k == 'v':
            return add(['v', e[1], '=' + e[1]])
        if k in ('ix', 'fc'):
            return add([k, e[1], [ex(x) for x in e[2]]])
        if k == 'un':
            return add(['un', e[1], ex(e[2])])
        if k == 'bi':
            a = ex(e[2])
            return add(['bi', e[1], a, ex(e[3])])
        if k == 'if':
            c = ex(e[1])
            a = ex(e[2])
            return add(['if', c, a, ex(e[3])])
        if k == 'str':
            return add(['str', list(e[1])])
        raise ValueError(e)

    def st(s):
        k = s[0]
        if k == 'as':
            t = [ex(x) for x in s[1]]
            return add(['as', t, ex(s[2])])
        if k == 'ca':
            return add(['ca', s[1], [ex(x) for x in s[2]]])
        if k == 'go':
            return add(['go', ex(s[1])])
        if k == 'ifs':
            c = ex(s[1])
            a = st(s[2])
            return add(['ifs', c, a, st(s[3]) if s[3] is not None else 0])
        if k == 'for':
            t = ex(s[1])
            els = []
            for el in s[2]:
                els.append(add([el[0]] + [ex(x) for x in el[1:]]))
            return add(['for', t, els, st(s[3])])
        if k == 'bl':
            d = [de(x) for x in s[1]]
            return add(['bl', d, [st(x) for x in s[2]]])
        if k == 'co':
            return add(['co', [st(x) for x in s[1]]])
        if k == 'lb':
            return add(['lb', s[1], st(s[2])])
        if k == 'nop':
            return add(['nop'])
        raise ValueError(s)

    def de(d):
        k = d[0]
        if k == 'dv':
            return add(['dv', d[1], d[2], list(d[3])])
        if k == 'da':
            return add(['da', d[1], d[2],
                        [[list(ns), [[ex(lo), ex(hi)] for lo, hi in bs]] for ns, bs in d[3]]])
        if k == 'dp':
            body = st(d[6])
            # value parameters are evaluated in the order of their specifications
            order = [nm for _, nm in d[5]]
            vals = sorted(([*v] for v in d[4]), key=lambda v: order.index(v[0]))
            return add(['dp', d[1], d[2], list(d[3]), vals, body, '=' + d[2]])
        if k == 'ds':
            return add(['ds', d[1], [ex(x) for x in d[2]]])
        raise ValueError(d)

    st(prog)
    return nodes


# ------------------------------------------------------------------ source text
WORDS = ['begin', 'end', 'if', 'then', 'else', 'for', 'do', 'step', 'until', 'while',
         'goto', 'integer', 'real', 'Boolean', 'array', 'procedure', 'switch', 'own',
         'value', 'label', 'string', 'true', 'false', 'comment']
PRI = {'^': 11, '*': 10, '/': 10, '//': 10, '+': 9, '-': 9, '<': 8, '<=': 8, '=': 8,
       '>=': 8, '>': 8, '#': 8, 'not': 7, 'and': 6, 'or': 5, 'imp': 4, 'eqv': 3}
TYPES = {'I': 'integer', 'R': 'real', 'B': 'Boolean'}


def tokens(prog):
    """The program as a list of basic symbols: words as ('w', name), operators
    ('o', op), identifiers ('n', name), numbers ('num', text), strings ('s', bytes)"""
    out = []
    w = lambda x: out.append(('w', x))
    o = lambda x: out.append(('o', x))
    n = lambda x: out.append(('n', x))

    def num(e):
        if e[0] == 'i':
            out.append(('num', str(e[1])))
        else:
            t = e[1]
            if e[2] != '' or (t == '' and e[3] == 0):
                t += '.' + e[2]
            if e[3] != 0 or t == '':
                t += '@' + str(e[3])
            out.append(('num', t))

    def lst(xs, f):
        for i, x in enumerate(xs):
            if i:
                o(',')
            f(x)

    def paren(e):
        o('(')
        ex(e, 0, True)
        o(')')

    def ex(e, pri, left):
        """pri: priority of the context; left: at the start of an expression"""
        k = e[0]
        if k in ('i', 'r'):
            if k == 'i' and e[1] < 0:
                raise ValueError('negative literal')
            num(e)
        elif k == 'b':
            w('true' if e[1] else 'false')
        elif k == 'v':
            n(e[1])
        elif k == 'ix':
            n(e[1])
            o('[')
            lst(e[2], lambda x: ex(x, 0, True))
            o(']')
        elif k == 'fc':
            n(e[1])
            if e[2]:
                o('(')
                lst(e[2], lambda x: ex(x, 0, True))
                o(')')
        elif k == 'un' and e[1] == 'not':
            if pri > 7:
                return paren(e)
            o('not')
            ex(e[2], 8, True)
        elif k == 'un':
            if not left or pri > 10:
                return paren(e)
            o(e[1])
            ex(e[2], 11, False)
        elif k == 'bi':
            p = PRI[e[1]]
            if p < pri:
                return paren(e)
            ex(e[2], p if p != 8 else 9, left)
            o(e[1])
            ex(e[3], p + 1, p <= 8)
        elif k == 'if':
            if pri > 0:
                return paren(e)
            w('if')
            ex(e[1], 0, True)
            w('then')
            ex(e[2], 1, True)
            w('else')
            ex(e[3], 0, True)
        elif k == 'str':
            out.append(('s', e[1]))
        else:
            raise ValueError(e)

    def simple(s, closed):
        """statement after then (closed: followed by else)"""
        k = s[0]
        if k == 'ifs' or (closed and opens(s)):
            w('begin')
            st(s)
            w('end')
        else:
            st(s)

    def opens(s):
        while s[0] == 'lb':
            s = s[2]
        if s[0] == 'for':
            return True
        return s[0] == 'ifs'

    def st(s):
        k = s[0]
        if k == 'as':
            for t in s[1]:
                ex(t, 20, False)
                o(':=')
            ex(s[2], 0, True)
        elif k == 'ca':
            n(s[1])
            if s[2]:
                o('(')
                lst(s[2], lambda x: ex(x, 0, True))
                o(')')
        elif k == 'go':
            w('goto')
            ex(s[1], 0, True)
        elif k == 'ifs':
            w('if')
            ex(s[1], 0, True)
            w('then')
            simple(s[2], s[3] is not None)
            if s[3] is not None:
                w('else')
                st(s[3])
        elif k == 'for':
            w('for')
            ex(s[1], 20, False)
            o(':=')

            def el(x):
                ex(x[1], 0, True)
                if x[0] == 'es':
                    w('step')
                    ex(x[2], 0, True)
                    w('until')
                    ex(x[3], 0, True)
                elif x[0] == 'ew':
                    w('while')
                    ex(x[2], 0, True)
            lst(s[2], el)
            w('do')
            st(s[3])
        elif k in ('bl', 'co'):
            w('begin')
            if k == 'bl':
                for d in s[1]:
                    de(d)
                    o(';')
            ss = s[-1]
            for i, x in enumerate(ss):
                if i:
                    o(';')
                st(x)
            w('end')
        elif k == 'lb':
            n(s[1])
            o(':')
            st(s[2])
        elif k == 'nop':
            pass
        else:
            raise ValueError(s)

    def de(d):
        k = d[0]
        if k == 'dv':
            if d[2]:
                w('own')
            w(TYPES[d[1]])
            lst(d[3], n)
        elif k == 'da':
            if d[2]:
                w('own')
            if d[1] != 'R' or d[2]:
                w(TYPES[d[1]])
            w('array')

            def seg(x):
                lst(x[0], n)
                o('[')

                def b(y):
                    ex(y[0], 0, True)
                    o(':')
                    ex(y[1], 0, True)
                lst(x[1], b)
                o(']')
            lst(d[3], seg)
        elif k == 'ds':
            w('switch')
            n(d[1])
            o(':=')
            lst(d[2], lambda x: ex(x, 0, True))
        elif k == 'dp':
            if d[1]:
                w(TYPES[d[1]])
            w('procedure')
            n(d[2])
            if d[3]:
                o('(')
                lst(d[3], n)
                o(')')
            o(';')
            if d[4]:
                w('value')
                lst([v[0] for v in d[4]], n)
                o(';')
            for spec, name in d[5]:
                for x in spec.split():
                    w(x)
                n(name)
                o(';')
            st(d[6])
        else:
            raise ValueError(d)

    st(prog)
    return out


OPS = {'*': '×', '//': '÷', '^': '↑', '<=': '≤', '>=': '≥', '#': '≠', 'not': '¬',
       'and': '∧', 'or': '∨', 'imp': '⊃', 'eqv': '≡'}


def plain(toks):
    """source text in one fixed style"""
    out = []
    col = 0
    prev = None
    for t in toks:
        k, v = t
        if k == 'w':
            s = ''.join('_' + c for c in v)
        elif k == 'o':
            s = OPS.get(v, v)
        elif k == 'num':
            s = v.replace('@', '⏨')
        elif k == 's':
            s = '`' + v.decode('utf-8') + "'"
        else:
            s = v
        if prev and (prev[0] in ('w', 'n', 'num') and k in ('w', 'n', 'num')):
            s = ' ' + s
        out.append(s)
        col += len(s)
        if v in (';', 'begin', 'do', 'then', 'else') or col > 90:
            out.append('\n')
            col = 0
        prev = t
    out.append('\n')
    return ''.join(out)


def source(prog):
    return plain(tokens(prog))
