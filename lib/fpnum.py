"""Exact binary floating-point values: ('n',) not a number, ('i', sign)
infinity, ('f', sign, magnitude) with a rational magnitude."""
from fractions import Fraction
P = {32: 24, 64: 53, 80: 64}
EMAX = {32: 127, 64: 1023, 80: 16383}
NAN = ('n',)


def zero(sg=0): return ('f', sg, Fraction(0))


def rnd(q, w, sg=None):
    """a rational (or value) rounded to nearest, ties to even"""
    if isinstance(q, tuple):
        if q[0] != 'f': return q
        sg, q = q[1], q[2]
    else:
        if sg is None: sg = 1 if q < 0 else 0
        q = abs(q)
    if q == 0: return ('f', sg, Fraction(0))
    p = P[w]
    e = q.numerator.bit_length() - q.denominator.bit_length()
    if Fraction(2) ** e > q: e -= 1
    e = max(e, 1 - EMAX[w])
    u = Fraction(2) ** (e - p + 1)
    n = q / u
    k = n.numerator // n.denominator
    d = n - k
    if d > Fraction(1, 2) or (d == Fraction(1, 2) and k & 1): k += 1
    r = k * u
    if r >= Fraction(2) ** (EMAX[w] + 1): return ('i', sg)
    return ('f', sg, r)


def neg(a): return a if a[0] == 'n' else (a[0], 1 - a[1]) + a[2:]


def sval(a): return -a[2] if a[1] else a[2]


def add(a, b, w):
    if a[0] == 'n' or b[0] == 'n': return NAN
    if a[0] == 'i': return NAN if b[0] == 'i' and b[1] != a[1] else a
    if b[0] == 'i': return b
    r = sval(a) + sval(b)
    if r == 0: return zero(1 if a[1] and b[1] else 0)
    return rnd(r, w)


def sub(a, b, w): return add(a, neg(b), w)


def mul(a, b, w):
    if a[0] == 'n' or b[0] == 'n': return NAN
    sg = a[1] ^ b[1]
    if a[0] == 'i' or b[0] == 'i':
        if a[0] == 'f' and a[2] == 0 or b[0] == 'f' and b[2] == 0: return NAN
        return ('i', sg)
    return rnd(a[2] * b[2], w, sg)


def div(a, b, w):
    if a[0] == 'n' or b[0] == 'n': return NAN
    sg = a[1] ^ b[1]
    if a[0] == 'i': return NAN if b[0] == 'i' else ('i', sg)
    if b[0] == 'i': return zero(sg)
    if b[2] == 0: return NAN if a[2] == 0 else ('i', sg)
    return rnd(a[2] / b[2], w, sg)


def cmp(p, a, b):
    """predicate o../u../ord/uno"""
    un = a[0] == 'n' or b[0] == 'n'
    if p == 'uno': return un
    if p == 'ord': return not un
    if un: return p[0] == 'u'
    def k(x): return (float('inf') if not x[1] else float('-inf')) if x[0] == 'i' else sval(x)
    x, y = k(a), k(b)
    return {'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[p[1:]]


def toint(a):
    """truncated value or None"""
    if a[0] != 'f': return None
    n = a[2].numerator // a[2].denominator
    return -n if a[1] else n


def near(a):
    if a[0] != 'f': return None
    n = a[2].numerator // a[2].denominator
    d = a[2] - n
    if d > Fraction(1, 2) or (d == Fraction(1, 2) and n & 1): n += 1
    return -n if a[1] else n


def enc(a, w):
    a = rnd(a, w)
    eb = {32: 8, 64: 11, 80: 15}[w]
    fb = {32: 23, 64: 52, 80: 64}[w]
    em = (1 << eb) - 1
    if a[0] == 'n': return (em << fb) | (1 << (fb - 1)) | ((1 << 63) if w == 80 else 0) if w != 80 else (em << 64) | (3 << 62)
    if a[0] == 'i': return (a[1] << (w - 1)) | (em << fb) | ((1 << 63) if w == 80 else 0)
    if a[2] == 0: return a[1] << (w - 1)
    q = a[2]
    e = q.numerator.bit_length() - q.denominator.bit_length()
    if Fraction(2) ** e > q: e -= 1
    e = max(e, 1 - EMAX[w])
    m = q / Fraction(2) ** (e - P[w] + 1)
    m = m.numerator // m.denominator
    top = 1 << (P[w] - 1)
    be = e + EMAX[w] if m >= top else 0
    if w != 80: m &= top - 1
    return (a[1] << (w - 1)) | (be << fb) | m


def dec(b, w):
    b &= (1 << w) - 1
    eb = {32: 8, 64: 11, 80: 15}[w]
    fb = {32: 23, 64: 52, 80: 64}[w]
    sg = b >> (w - 1)
    e = (b >> fb) & ((1 << eb) - 1)
    m = b & ((1 << fb) - 1)
    if e == (1 << eb) - 1:
        f = m & ((1 << 63) - 1) if w == 80 else m
        return NAN if f else ('i', sg)
    if w == 80:
        if e and not m >> 63: return NAN
        return ('f', sg, Fraction(m) * Fraction(2) ** ((e or 1) - 16383 - 63))
    if e: m |= 1 << fb; x = e
    else: x = 1
    return ('f', sg, Fraction(m) * Fraction(2) ** (x - EMAX[w] - fb))


def same(a, b):
    return a == b or (a[0] == 'n' and b[0] == 'n')
