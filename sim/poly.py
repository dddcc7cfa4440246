"""Exact normal forms of Schubert expressions, independent of schubertpy.

A value is a dict {monomial: Fraction-or-int} with monomial a sorted tuple of
(symbol name, exponent); symbol names are decoded ('S[2,1]', 'q').
"""
from fractions import Fraction

_DEC = str.maketrans('fjg', '[,]')


def padd(a, b, c=1):
    r = dict(a)
    for k, v in b.items():
        t = r.get(k, 0) + c * v
        if t:
            r[k] = t
        else:
            r.pop(k, None)
    return r


def pmul(a, b):
    r = {}
    for k1, v1 in a.items():
        for k2, v2 in b.items():
            d = dict(k1)
            for s, e in k2:
                d[s] = d.get(s, 0) + e
            k = tuple(sorted((s, e) for s, e in d.items() if e))
            t = r.get(k, 0) + v1 * v2
            if t:
                r[k] = t
            else:
                r.pop(k, None)
    return r


def ppow(a, n):
    r = {(): 1}
    for _ in range(n):
        r = pmul(r, a)
    return r


class ParseError(Exception):
    pass


def parse(text):
    """Parse a rendered expression: integers, S[...], q names, + - * / ^ ** ()."""
    toks = []
    i, n = 0, len(text)
    while i < n:
        ch = text[i]
        if ch.isspace():
            i += 1
        elif ch.isdigit():
            j = i
            while j < n and text[j].isdigit():
                j += 1
            if j < n and text[j] == '.':
                raise ParseError('inexact number in %r' % text)
            toks.append(('n', int(text[i:j])))
            i = j
        elif ch == 'S':
            j = i + 1
            if j >= n or text[j] != '[':
                raise ParseError('bad symbol at %d in %r' % (i, text))
            depth = 0
            while j < n:
                if text[j] == '[':
                    depth += 1
                elif text[j] == ']':
                    depth -= 1
                    if depth == 0:
                        break
                elif not (text[j].isdigit() or text[j] in ', '):
                    raise ParseError('bad symbol in %r' % text)
                j += 1
            if depth:
                raise ParseError('unbalanced %r' % text)
            toks.append(('s', text[i:j + 1].replace(' ', '')))
            i = j + 1
        elif ch.isalpha():
            j = i
            while j < n and (text[j].isalnum() or text[j] == '_'):
                j += 1
            toks.append(('s', text[i:j]))
            i = j
        elif text.startswith('**', i):
            toks.append(('o', '^'))
            i += 2
        elif ch in '+-*/^()':
            toks.append(('o', ch))
            i += 1
        else:
            raise ParseError('bad character %r in %r' % (ch, text))
    pos = [0]

    def peek():
        return toks[pos[0]] if pos[0] < len(toks) else (None, None)

    def nxt():
        t = peek()
        pos[0] += 1
        return t

    def expr():
        v = term()
        while peek() in (('o', '+'), ('o', '-')):
            o = nxt()[1]
            v = padd(v, term(), 1 if o == '+' else -1)
        return v

    def term():
        v = unary()
        while peek() in (('o', '*'), ('o', '/')):
            o = nxt()[1]
            w = unary()
            if o == '*':
                v = pmul(v, w)
            else:
                if set(w) != {()}:
                    raise ParseError('division by non-constant in %r' % text)
                v = {k: Fraction(c) / w[()] for k, c in v.items()}
        return v

    def unary():
        if peek() == ('o', '-'):
            nxt()
            return {k: -c for k, c in unary().items()}
        if peek() == ('o', '+'):
            nxt()
            return unary()
        return power()

    def power():
        v = atom()
        if peek() == ('o', '^'):
            nxt()
            k, e = nxt()
            if k != 'n':
                raise ParseError('bad exponent in %r' % text)
            v = ppow(v, e)
        return v

    def atom():
        k, v = nxt()
        if k == 'n':
            return {(): v} if v else {}
        if k == 's':
            return {((v, 1),): 1}
        if (k, v) == ('o', '('):
            r = expr()
            if nxt() != ('o', ')'):
                raise ParseError('missing ) in %r' % text)
            return r
        raise ParseError('unexpected %r in %r' % (v, text))
    r = expr()
    if pos[0] != len(toks):
        raise ParseError('trailing input in %r' % text)
    return canon(r)


def canon(d):
    out = {}
    for k, v in d.items():
        if isinstance(v, Fraction) and v.denominator == 1:
            v = int(v)
        if v:
            out[k] = v
    return out


def from_sympy(expr):
    """Normal form of a sympy expression; ParseError if it is not exact."""
    import sympy as sp
    expr = sp.expand(expr)
    out = {}
    for t in sp.Add.make_args(expr):
        c, rest = t.as_coeff_Mul()
        if not c.is_Rational:
            raise ParseError('inexact or odd coefficient %s' % (c,))
        mono = {}
        for f in sp.Mul.make_args(rest):
            if f == 1:
                continue
            b, e = f.as_base_exp()
            if not b.is_Symbol or not e.is_Integer or e < 0:
                raise ParseError('odd factor %s' % (f,))
            nm = b.name.translate(_DEC) if b.name.startswith('S') else b.name
            mono[nm] = mono.get(nm, 0) + int(e)
        c = int(c.p) if c.q == 1 else Fraction(int(c.p), int(c.q))
        k = tuple(sorted(mono.items()))
        v = out.get(k, 0) + c
        if v:
            out[k] = v
        else:
            out.pop(k, None)
    return out


def name(lam):
    return 'S[' + ','.join(map(str, lam)) + ']'


def from_element(el):
    """Normal form of a reference-model element."""
    out = {}
    for (lam, (q, q1, q2)), c in el.items():
        m = [(name(lam), 1)]
        if q:
            m.append(('q', q))
        if q1:
            m.append(('q1', q1))
        if q2:
            m.append(('q2', q2))
        out[tuple(sorted(m))] = c
    return out


def to_json(d):
    return sorted([[list(map(list, k)), str(v)] for k, v in d.items()])


def show(d):
    if not d:
        return '0'
    ts = []
    for k, v in sorted(d.items()):
        f = '*'.join(s if e == 1 else '%s^%d' % (s, e) for s, e in k)
        ts.append(('%s*%s' % (v, f)) if f and v != 1 else (f or str(v)))
    return ' + '.join(ts)
