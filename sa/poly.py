"""Polynomials over interned atoms with exact rational coefficients: the affine/value-form domain."""
from fractions import Fraction


class Atom:
    __slots__ = ("id", "name", "lo", "hi", "nz", "info", "cls", "rng", "g")
    _n = [0]

    def __init__(s, name, lo=None, hi=None, nz=False, info=None, cls=None, rng=None, g=None):
        """lo/hi: integer range; rng: closed real interval of a float atom; g: the float is a multiple of 2**g"""
        s._n[0] += 1
        s.id = s._n[0]
        s.name, s.lo, s.hi, s.nz, s.info, s.cls, s.rng, s.g = name, lo, hi, nz, info, cls, rng, g

    def __repr__(s):
        return s.name

    def __lt__(s, o):
        return s.id < o.id


class Poly:
    """d: {tuple(sorted atoms): coefficient}; () is the constant term"""
    __slots__ = ("d", "h")

    def __init__(s, d):
        s.d = d
        s.h = None

    def __hash__(s):
        if s.h is None:
            s.h = hash(frozenset(s.d.items()))
        return s.h

    def __eq__(s, o):
        return s is o or (isinstance(o, Poly) and s.d == o.d)

    def __ne__(s, o):
        return not s == o

    @staticmethod
    def const(c):
        if type(c) is Fraction and c.denominator == 1:
            c = c.numerator
        return Poly({(): c} if c else {})

    @staticmethod
    def atom(a):
        return Poly({(a,): 1})

    def is_const(s):
        d = s.d
        return not d or (len(d) == 1 and () in d)

    def cval(s):
        return s.d.get((), 0)

    def __add__(s, o):
        if not isinstance(o, Poly):
            o = Poly.const(o)
        a, b = s.d, o.d
        if not b:
            return s
        if not a:
            return o
        if len(a) < len(b):
            a, b = b, a
        r = dict(a)
        for k, v in b.items():
            w = r.get(k, 0) + v
            if w:
                if type(w) is Fraction and w.denominator == 1:
                    w = w.numerator
                r[k] = w
            else:
                del r[k]
        return Poly(r)

    __radd__ = __add__

    def __neg__(s):
        return Poly({k: -v for k, v in s.d.items()})

    def __sub__(s, o):
        if not isinstance(o, Poly):
            o = Poly.const(o)
        return s + (-o)

    def __rsub__(s, o):
        return Poly.const(o) - s

    def scale(s, c):
        if c == 0:
            return ZERO
        if c == 1:
            return s
        r = {}
        for k, v in s.d.items():
            w = v * c
            if type(w) is Fraction and w.denominator == 1:
                w = w.numerator
            r[k] = w
        return Poly(r)

    def __mul__(s, o):
        if not isinstance(o, Poly):
            return s.scale(o)
        if o.is_const():
            return s.scale(o.cval())
        if s.is_const():
            return o.scale(s.cval())
        r = {}
        for k1, v1 in s.d.items():
            for k2, v2 in o.d.items():
                k = tuple(sorted(k1 + k2)) if k1 and k2 else (k1 or k2)
                w = r.get(k, 0) + v1 * v2
                if w:
                    r[k] = w
                else:
                    r.pop(k, None)
        for k, w in r.items():
            if type(w) is Fraction and w.denominator == 1:
                r[k] = w.numerator
        return Poly(r)

    __rmul__ = __mul__

    def atoms(s):
        out = set()
        for k in s.d:
            out.update(k)
        return out

    def subst(s, m):
        """m: {atom: Poly}"""
        if not any(a in m for k in s.d for a in k):
            return s
        r = ZERO
        for k, v in s.d.items():
            t = None
            rest = []
            for a in k:
                if a in m:
                    t = m[a] if t is None else t * m[a]
                else:
                    rest.append(a)
            term = Poly({tuple(rest): v})
            r = r + (term if t is None else term * t)
        return r

    def divide(s, o):
        """exact quotient Poly q with s == o*q, or None"""
        if not o.d:
            return None
        if not s.d:
            return ZERO
        if o.is_const():
            return s.scale(Fraction(1) / o.cval())
        lead = max(o.d, key=lambda k: (len(k), [a.id for a in k]))
        lc = o.d[lead]
        q, r = ZERO, s
        for _ in range(64):
            if not r.d:
                return q
            # find the leading monomial of r divisible by lead
            km = max(r.d, key=lambda k: (len(k), [a.id for a in k]))
            rest = list(km)
            ok = True
            for a in lead:
                if a in rest:
                    rest.remove(a)
                else:
                    ok = False
                    break
            if not ok:
                return None
            t = Poly({tuple(rest): Fraction(r.d[km]) / lc})
            t = t.scale(1)
            for k, w in t.d.items():
                if type(w) is Fraction and w.denominator == 1:
                    t.d[k] = w.numerator
            q = q + t
            r = r - t * o
        return None

    def norm(s):
        """(key, sign, const): s == sign*key + const, key without constant and with canonical sign"""
        c = s.d.get((), 0)
        if c:
            d = dict(s.d)
            del d[()]
        else:
            d = s.d
        if not d:
            return ZERO, 1, c
        m = min(d, key=lambda k: (len(k), [a.id for a in k]))
        if d[m] < 0:
            return Poly({k: -v for k, v in d.items()}), -1, c
        return Poly(d), 1, c

    def single(s):
        """the atom if s is exactly one atom with coefficient 1"""
        if len(s.d) == 1:
            (k, v), = s.d.items()
            if v == 1 and len(k) == 1:
                return k[0]
        return None

    def __repr__(s):
        if not s.d:
            return "0"
        out = []
        for k, v in sorted(s.d.items(), key=lambda kv: [a.id for a in kv[0]]):
            m = "*".join(a.name for a in k)
            if not k:
                out.append(str(v))
            elif v == 1:
                out.append(m)
            elif v == -1:
                out.append("-" + m)
            else:
                out.append("%s*%s" % (v, m))
        return " + ".join(out).replace("+ -", "- ")


ZERO = Poly({})
ONE = Poly({(): 1})
