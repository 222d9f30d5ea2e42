"""Bit patterns <-> exact values of the three floating formats (representation only; no arithmetic)."""
from fractions import Fraction
NAMES = [None, "_Bool", "char", "signed char", "unsigned char", "short", "unsigned short", "int", "unsigned", "long", "unsigned long", "long long", "unsigned long long", "float", "double", "long double"]
W = [0, 1, 8, 8, 8, 16, 16, 32, 32, 64, 64, 64, 64]
S = [0, 0, 1, 1, 0, 1, 0, 1, 0, 1, 0, 1, 0]
SIZE = [0, 1, 1, 1, 1, 2, 2, 4, 4, 8, 8, 8, 8, 4, 8, 10]


def limbs(v):
    return [(v >> 16 * i) & 0xffff for i in range(4)]


def unlimb(l):
    return sum(x << 16 * i for i, x in enumerate(l))


def wrap(v, t):
    if t == 1:
        return int(v != 0)
    v &= (1 << W[t]) - 1
    return v - (1 << W[t]) if S[t] and v >> (W[t] - 1) else v


def norm(s, m, e):
    if m == 0:
        return ("num", s, 0, 0)
    n = 64 - m.bit_length()
    return ("num", s, m << n if n >= 0 else m >> -n, e - n)


def decode(t, b):
    """little-endian bytes -> (k, s, m, e)"""
    x = int.from_bytes(b, "little")
    if t == 15:
        s, ex, m = x >> 79 & 1, x >> 64 & 0x7fff, x & (1 << 64) - 1
        if ex == 0x7fff:
            return ("inf" if m << 1 & (1 << 64) - 1 == 0 else "nan", s, 0, 0)
        return norm(s, m, max(ex, 1) - 16383 - 63)
    p, eb = (23, 8) if t == 13 else (52, 11)
    s, ex, m = x >> (p + eb) & 1, x >> p & (1 << eb) - 1, x & (1 << p) - 1
    bias = (1 << eb - 1) - 1
    if ex == (1 << eb) - 1:
        return ("inf" if m == 0 else "nan", s, 0, 0)
    return norm(s, m | (1 << p if ex else 0), max(ex, 1) - bias - p)


def encode(t, v):
    """exactly representable (k, s, m, e) -> bytes"""
    k, s, m, e = v
    p, eb = ((23, 8), (52, 11), (63, 15))[t - 13]
    top = (1 << eb) - 1
    bias = (1 << eb - 1) - 1
    if k == "inf":
        ex, f = top, 1 << 63 if t == 15 else 0
    elif k == "nan":
        ex, f = top, 3 << 62 if t == 15 else 1 << p - 1
    elif m == 0:
        ex, f = 0, 0
    else:
        ex = e + 63 + bias
        f = m >> (63 - p)
        if ex <= 0:
            f >>= 1 - ex
            ex = 0
        elif t != 15:
            f &= (1 << p) - 1
    x = (s << eb | ex) << (64 if t == 15 else p) | f
    return x.to_bytes(SIZE[t], "little")


def lit(t, v):
    """a literal of type t for a finite non-negative value"""
    k, s, m, e = v
    while m and m % 2 == 0:
        m >>= 1
        e += 1
    return f"0x{m:x}p{e}" + ["f", "", "L"][t - 13]


def ilit(v):
    if v >= 1 << 63:
        return f"{v}UL"
    return "(-9223372036854775807L - 1)" if v == -(1 << 63) else f"{v}L"


def ivalue(r, t):
    x = r.random()
    if t == 1:
        return r.randint(0, 1)
    if x < .25:
        v = r.randint(-5, 9)
    elif x < .5:
        v = (1 << r.randint(0, W[t])) + r.choice([-1, 0, 0, 1])
    elif x < .6:
        v = -(1 << r.randint(0, W[t])) + r.choice([-1, 0, 1])
    elif x < .75:     # rounding ties in the floating formats
        p = r.choice([24, 53])
        k = r.choice([W[t], W[t] - 1, r.randint(1, 64)]) - p     # bits below the precision
        if k < 1:
            k = r.randint(1, 8)
        v = ((r.getrandbits(p) | 1 << p - 1) << k) + (1 << k - 1) + r.choice([-1, 0, 0, 1, 1, 2])
        v *= r.choice([1, 1, -1])
    else:
        v = r.getrandbits(r.choice([8, 16, 32, 33, 64])) * r.choice([1, -1])
    return wrap(v, t)


def itie(r, t, p):
    """an integer of type t at or next to a rounding tie of a p-bit format, its top bit as high as t allows or near"""
    w = W[t] - S[t] - r.choice([0, 0, 0, 0, 1, 2, r.randint(0, 20)])
    k = w - p
    if k < 1:
        return wrap(r.getrandbits(64), t)
    m = r.getrandbits(p) | 1 << p - 1
    if r.random() < .3:
        m = r.choice([1 << p - 1, (1 << p) - 1, (1 << p) - 2, (1 << p - 1) + 1])
    v = (m << k) + (1 << k - 1) + r.choice([-1, 0, 0, 1, 1, 1, 1 << r.randint(0, k - 1), -(1 << r.randint(0, k - 1))])
    return wrap(v * (r.choice([1, -1]) if S[t] else 1), t)


def fvalue(r, t):
    p, lmin, mmax = ((24, -149, 127), (53, -1074, 1023), (64, -16445, 16383))[t - 13]
    x = r.random()
    s = r.randint(0, 1)
    if x < .05:
        return ("num", s, 0, 0)
    if x < .08:
        return (r.choice(["inf", "nan"]), s, 0, 0)
    if x < .35:        # near the integer types' limits
        k = r.choice([7, 8, 15, 16, 24, 31, 32, 53, 63, 64])
        b = Fraction(1 << k) + r.choice([0, 0, 1, -1, 2, -2, Fraction(1, 2), Fraction(-1, 2), Fraction(1, 1024), Fraction(-1, 1024), Fraction(1 << k) / (1 << p - 1), -Fraction(1 << k) / (1 << p)])
    elif x < .55:
        b = Fraction(r.randint(0, 1000), r.choice([1, 1, 2, 4, 16, 3, 10]))
    elif x < .7:       # ties and near-ties of the narrower formats
        q = r.choice([24, 53])
        b = (Fraction(r.getrandbits(q) | 1 << q - 1) + r.choice([Fraction(1, 2), Fraction(1, 2), Fraction(1, 2) + Fraction(1, 1 << 9), Fraction(1, 2) - Fraction(1, 1 << 9), Fraction(1, 2) + Fraction(1, 1 << 35), Fraction(1, 2) - Fraction(1, 1 << 35)])) * Fraction(2) ** r.choice([0, 0, -10, 40, -160, -149 - q + r.randint(0, 30), -1074 - q + r.randint(0, 30), 127 - q + 1, 1023 - q + 1])
    elif x < .85:
        b = Fraction(r.getrandbits(p)) * Fraction(2) ** r.randint(lmin, min(mmax - p, lmin + 60)) if r.random() < .4 else Fraction(r.getrandbits(64)) * Fraction(2) ** r.randint(-70, 10)
    else:
        b = Fraction(r.getrandbits(p) | 1) * Fraction(2) ** r.randint(lmin, mmax - p)
    if b == 0:
        return ("num", s, 0, 0)
    # cut to the format (any representable value will do)
    e = b.numerator.bit_length() - b.denominator.bit_length()
    lsb = max(e - p + 1, lmin)
    q = b / Fraction(2) ** lsb
    m = q.numerator // q.denominator
    while m.bit_length() > p:
        m >>= 1
        lsb += 1
    v = norm(s, m, lsb)
    if m and v[3] + 63 > mmax:
        return ("num", s, 0, 0)
    return v
