"""Abstract interpreter over LLVM IR.

Domains (all finite descriptions, joined at control merges; nothing is executed, no path is handed to a solver):
  integers / pointer offsets : polynomials over entry symbols + interval constraints on linear forms (affine equalities
                               recovered at joins by expressing every differing value along a common pivot, Karr-style)
  floats                     : value forms (polynomials over opaque atoms: which cells, constants and roundings a value is
                               made of), an "odd" mark (lowest bit set), and a class (zero / normal of known exponent / ...)
  float bit patterns         : per-bit known / own-bit-of-a-float domain
  memory                     : regions x symbolic offsets, strong updates where offsets are provably distinct
Loops are either unrolled by constant propagation (decided counters) or taken to a fixpoint at a widened header.
A client object supplies entry states, ghost counters, models of calls and joins of float forms, and collects violations.
"""
import heapq, math
from fractions import Fraction
from poly import Poly, Atom, ZERO, ONE
from ir import Module, Operand, Ty, I1, I32, I64, DBL, FLT, PTR


class Undef:
    def __repr__(s):
        return "undef"


UNDEF = Undef()


class Restart(Exception):
    pass


class AnalysisBroken(Exception):
    """The analysis cannot interpret the program (anchor vanished, unsupported construct)."""


# ---------------------------------------------------------------- values
class F:
    """float value form: p over opaque atoms; odd: lowest mantissa bit forced to one; rng: known real interval;
    inex: some addition on the way could not be shown exact"""
    __slots__ = ("p", "odd", "prec", "rng", "inex")

    def __init__(s, p, odd=False, prec="d", rng=None, inex=False):
        s.p, s.odd, s.prec, s.rng, s.inex = p, odd, prec, rng, inex

    def __eq__(s, o):
        return isinstance(o, F) and s.p == o.p and s.odd == o.odd

    def __ne__(s, o):
        return not s == o

    def __hash__(s):
        return hash((s.p, s.odd))

    def __repr__(s):
        return ("F(%r%s)" % (s.p, "|1" if s.odd else ""))


class Ptr:
    __slots__ = ("r", "o")

    def __init__(s, r, o):
        s.r, s.o = r, o

    def __eq__(s, x):
        return isinstance(x, Ptr) and s.r is x.r and s.o == x.o

    def __ne__(s, x):
        return not s == x

    def __hash__(s):
        return hash((id(s.r), s.o))

    def __repr__(s):
        return "&%s[%r]" % (s.r.name, s.o)


class Region:
    __slots__ = ("name", "kind", "const", "info", "size", "seq")
    _n = [0]

    def __init__(s, name, kind, const=False, info=None, size=None):
        s.name, s.kind, s.const, s.info, s.size = name, kind, const, info, size
        s._n[0] += 1
        s.seq = s._n[0]

    def __repr__(s):
        return s.name


class Bits:
    """bit pattern of a float: bits[i] is 0, 1, None (= own bit i of src) or ('b', j) (own bit j of src), lowest first"""
    __slots__ = ("src", "w", "bits", "prec", "h")

    def __init__(s, src, w, bits, prec=None):
        s.src, s.w, s.bits, s.h = src, w, bits, None
        s.prec = prec or ("d" if w == 64 else "f")

    def __eq__(s, o):
        return isinstance(o, Bits) and s.src == o.src and s.bits == o.bits

    def __ne__(s, o):
        return not s == o

    def __hash__(s):
        if s.h is None:
            s.h = hash((s.src, s.bits))
        return s.h

    def __repr__(s):
        return "Bits(%r)" % (s.src,)


class Cond:
    """op: 'cmp' (rel, Poly) meaning poly rel 0, rel in lt le eq ne; 'f' (pred, F, F); 'cls' (F, frozenset);
    'and'/'or' (Cond, Cond); 'not' (Cond); 'unk' id"""
    __slots__ = ("op", "a")

    def __init__(s, op, *a):
        s.op, s.a = op, a

    def __eq__(s, o):
        return isinstance(o, Cond) and s.op == o.op and s.a == o.a

    def __ne__(s, o):
        return not s == o

    def __hash__(s):
        return hash((s.op, s.a))

    def __repr__(s):
        return "%s%r" % (s.op, s.a)


class CInt:
    """integer 0/1 (or 0/-1) made from a condition"""
    __slots__ = ("c", "neg")

    def __init__(s, c, neg=False):
        s.c, s.neg = c, neg

    def __eq__(s, o):
        return isinstance(o, CInt) and s.c == o.c and s.neg == o.neg

    def __ne__(s, o):
        return not s == o

    def __hash__(s):
        return hash((s.c, s.neg))


class Opq:
    """opaque non-numeric value"""
    __slots__ = ("n",)

    def __init__(s, n):
        s.n = n

    def __eq__(s, o):
        return isinstance(o, Opq) and s.n == o.n

    def __ne__(s, o):
        return not s == o

    def __hash__(s):
        return hash(s.n)

    def __repr__(s):
        return "?%s" % (s.n,)


def cnot(c):
    if c is True or c is False:
        return not c
    if c.op == "not":
        return c.a[0]
    if c.op == "cmp":
        rel, p = c.a
        if rel == "eq":
            return Cond("cmp", "ne", p)
        if rel == "ne":
            return Cond("cmp", "eq", p)
        if rel == "lt":
            return Cond("cmp", "le", -p)
        return Cond("cmp", "lt", -p)
    return Cond("not", c)


WIDEN_AT = 1
MANT = {"d": 52, "f": 23}
EBIAS = {"d": 1023, "f": 127}
WID = {"d": 64, "f": 32}


def num_bits(x, prec):
    """bit pattern (int) of the Fraction x"""
    import struct
    if prec == "d":
        return struct.unpack("<Q", struct.pack("<d", float(x)))[0]
    return struct.unpack("<I", struct.pack("<f", float(x)))[0]


def bits_num(b, prec):
    import struct
    if prec == "d":
        return struct.unpack("<d", struct.pack("<Q", b))[0]
    return struct.unpack("<f", struct.pack("<I", b))[0]


# ---------------------------------------------------------------- state
def content(d):
    """greatest integer and product of strides (nz atoms) dividing every term of d"""
    import math
    g, mono = 0, None
    for m, v in d.d.items():
        if not isinstance(v, int):
            return ONE
        g = math.gcd(g, v)
        n = [a for a in m if a.nz]
        if mono is None:
            mono = n
        else:
            k, n = [], list(n)
            for a in mono:
                if a in n:
                    n.remove(a)
                    k.append(a)
            mono = k
    return Poly({tuple(mono): g}) if g and (g > 1 or mono) else ONE


class State:
    __slots__ = ("env", "mem", "own", "cons", "ne", "ghost", "ctx", "_v")

    def __init__(s):
        s.env, s.mem, s.own, s.cons, s.ne, s.ghost, s.ctx = {}, {}, set(), {}, frozenset(), None, ()
        s._v = None

    def copy(s):
        n = State()
        n.env = dict(s.env)
        n.mem = dict(s.mem)
        s.own = set()
        n.own = set()
        n.cons = dict(s.cons)
        n._v = s._v
        n.ne = s.ne
        n.ghost = s.ghost.copy() if s.ghost is not None else None
        n.ctx = s.ctx
        return n

    # --- intervals
    def view(s):
        """index of the constraints for bound queries; rebuilt when they change"""
        at, ix, memo = {}, {}, {}
        for k, (l, h) in s.cons.items():
            m, c = next(iter(k.d.items()))
            if len(k.d) == 1 and len(m) == 1 and c == 1:
                at[m[0]] = (l, h)
            else:
                e = (list(k.d.items()), len(k.d), l, h)
                for m, c in k.d.items():
                    ix.setdefault(m, []).append((c, e))
        s._v = (at, ix, memo)
        return s._v

    def abounds(s, a):
        v = s._v or s.view()
        lo, hi = a.lo, a.hi
        c = v[0].get(a)
        if c is not None:
            l, h = c
            if l is not None and (lo is None or l > lo):
                lo = l
            if h is not None and (hi is None or h < hi):
                hi = h
        return lo, hi

    def _simple(s, d):
        lo = hi = 0
        ab = s.abounds
        for k, v in d.items():
            if not k:
                if lo is not None:
                    lo += v
                if hi is not None:
                    hi += v
                continue
            l, h = ab(k[0])
            for a in k[1:]:
                l2, h2 = ab(a)
                if l is not None and l2 is not None and l >= 0 and l2 >= 0:
                    l, h = l * l2, (h * h2 if h is not None and h2 is not None else None)
                elif None not in (l, h, l2, h2):
                    q = (l * l2, l * h2, h * l2, h * h2)
                    l, h = min(q), max(q)
                else:
                    l = h = None
            if v < 0:
                l, h = h, l
            lo = None if lo is None or l is None else lo + l * v
            hi = None if hi is None or h is None else hi + h * v
            if lo is None and hi is None:
                return None, None
        return lo, hi

    def bounds(s, p, depth=2):
        d = p.d
        if not d or (len(d) == 1 and () in d):
            c = p.cval()
            return c, c
        v = s._v or s.view()
        r = v[2].get((p, depth))
        if r is None:
            r = v[2][p, depth] = s._bounds(d, depth, v)
        return r

    def _bounds(s, d, depth, v):
        lo, hi = s._simple(d)
        if depth <= 0:
            if len(d) - (() in d) > 1:
                key, sg, c = Poly(d).norm()
                q = s.cons.get(key)
                if q:
                    l, h = q
                    if sg < 0:
                        l, h = (None if h is None else -h), (None if l is None else -l)
                    if l is not None and (lo is None or l + c > lo):
                        lo = l + c
                    if h is not None and (hi is None or h + c < hi):
                        hi = h + c
        elif lo is None or hi is None or lo < hi:
            ix = v[1]
            n = len(d) + (depth > 1)
            for m, pc in d.items():
                for kc, (kd, kn, l, h) in ix.get(m, ()):
                    if kc == 1:
                        lam = pc
                    elif kc == -1:
                        lam = -pc
                    elif type(pc) is int and type(kc) is int and pc % kc == 0:
                        lam = pc // kc
                    else:
                        continue
                    r = dict(d)
                    for k, w in kd:
                        x = r.get(k, 0) - lam * w
                        if x:
                            r[k] = x
                        else:
                            del r[k]
                    if len(r) > n:
                        continue
                    if not r:
                        l2 = h2 = 0
                    elif len(r) == 1 and () in r:
                        l2 = h2 = r[()]
                    else:
                        fk = (frozenset(r.items()), depth)
                        q = v[2].get(fk)
                        if q is None:
                            q = v[2][fk] = s._bounds(r, depth - 1, v)
                        l2, h2 = q
                    a, b = (l, h) if lam > 0 else (h, l)
                    if a is not None and l2 is not None and (lo is None or a * lam + l2 > lo):
                        lo = a * lam + l2
                    if b is not None and h2 is not None and (hi is None or b * lam + h2 < hi):
                        hi = b * lam + h2
        if lo is not None and not isinstance(lo, int):
            lo = math.ceil(lo)
        if hi is not None and not isinstance(hi, int):
            hi = math.floor(hi)
        return lo, hi

    def constrain(s, p, lo, hi):
        """lo <= p <= hi; False if infeasible"""
        if p.is_const():
            c = p.cval()
            return (lo is None or c >= lo) and (hi is None or c <= hi)
        key, sg, c = p.norm()
        if sg < 0:
            lo, hi = (None if hi is None else -(hi - c)), (None if lo is None else -(lo - c))
        else:
            lo, hi = (None if lo is None else lo - c), (None if hi is None else hi - c)
        l0, h0 = s.bounds(key)
        if lo is None or (l0 is not None and l0 > lo):
            lo = l0
        if hi is None or (h0 is not None and h0 < hi):
            hi = h0
        if lo is not None and hi is not None and lo > hi:
            return False
        s.cons[key] = (lo, hi)
        s._v = None
        return True

    def nonzero(s, p):
        if p.is_const():
            return p.cval() != 0
        lo, hi = s.bounds(p)
        if (lo is not None and lo > 0) or (hi is not None and hi < 0):
            return True
        key = p.norm()
        if key[2] == 0 and key[0] in s.ne:
            return True
        if p in s.ne or -p in s.ne:
            return True
        if len(p.d) == 1:
            (k, v), = p.d.items()
            return all(a.nz or s.nonzero(Poly.atom(a)) if not a.nz else True for a in k) if len(k) > 1 else k[0].nz
        return False

    def decide(s, c):
        """True / False / None"""
        if c is True or c is False:
            return c
        if c.op == "cmp":
            rel, p = c.a
            if rel in ("eq", "ne"):
                if not p.d:
                    return rel == "eq"
                if s.nonzero(p):
                    return rel == "ne"
                lo, hi = s.bounds(p)
                if lo == 0 and hi == 0:
                    return rel == "eq"
                return None
            lo, hi = s.bounds(p)
            if rel == "lt":
                if hi is not None and hi < 0:
                    return True
                if lo is not None and lo >= 0:
                    return False
            else:
                if hi is not None and hi <= 0:
                    return True
                if lo is not None and lo > 0:
                    return False
            return None
        if c.op == "not":
            r = s.decide(c.a[0])
            return None if r is None else not r
        if c.op in ("and", "or"):
            x, y = s.decide(c.a[0]), s.decide(c.a[1])
            if c.op == "and":
                if x is False or y is False:
                    return False
                return True if x and y else None
            if x or y:
                return True
            return False if x is False and y is False else None
        if c.op == "f":
            return fdecide(c)
        if c.op == "cls":
            k = fclass(c.a[0])
            if k is None:
                return None
            return clsin(k, c.a[1])
        return None

    def assume(s, c, truth, client=None):
        if c is True or c is False:
            return c == truth
        if not truth:
            c = cnot(c)
        if c is True or c is False:
            return c
        d = s.decide(c)
        if d is not None:
            return d
        if c.op == "cmp":
            rel, p = c.a
            if rel in ("lt", "le", "eq"):
                if not s.constrain(p, 0 if rel == "eq" else None, -1 if rel == "lt" else 0):
                    return False
                return s.pinned(p, client)
            lo, hi = s.bounds(p)
            if lo == 0:
                if not s.constrain(p, 1, None):
                    return False
            if hi == 0:
                if not s.constrain(p, None, -1):
                    return False
            k = p.norm()
            s.ne = s.ne | {p if k[2] else k[0]}
            return s.pinned(p, client) if lo == 0 or hi == 0 else True
        if c.op == "and":
            return s.assume(c.a[0], True, client) and s.assume(c.a[1], True, client)
        if c.op == "not" and c.a[0] not in (True, False) and c.a[0].op == "or":
            return s.assume(c.a[0].a[0], False, client) and s.assume(c.a[0].a[1], False, client)
        if client is not None:
            return client.assume(s, c)
        return True

    def pinned(s, p, client):
        """p has become a constant: use the equality"""
        if client is not None and getattr(client, "subst_eq", False):
            lo, hi = s.bounds(p)
            if lo is not None and lo == hi:
                return s.equate(p - lo, client)
        return True

    def equate(s, p, client):
        """p == 0: eliminate its youngest symbol from the state"""
        best = None
        for k, v in p.d.items():
            if len(k) == 1 and v in (1, -1) and k[0] not in client.roots and (best is None or k[0].id > best[0].id):
                if sum(1 for q in p.d if k[0] in q) == 1:
                    best = (k[0], v)
        if best is None:
            return True
        a, v = best
        e = (Poly.atom(a).scale(v) - p).scale(v)      # a == e
        return s.substitute(a, e, client)

    def substitute(s, a, e, client):
        m = {a: e}

        def val(x):
            if isinstance(x, Poly):
                return x.subst(m) if a in x.atoms() else x
            if isinstance(x, Ptr):
                return Ptr(x.r, x.o.subst(m)) if a in x.o.atoms() else x
            if isinstance(x, tuple):
                return tuple(val(y) for y in x)
            if isinstance(x, F):
                p = client.subst_form(x.p, a, m)
                return x if p is x.p else F(p, x.odd, x.prec, x.rng, x.inex)
            return x
        for n, x in s.env.items():
            y = val(x)
            if y is not x:
                s.env[n] = y
        for r in list(s.mem):
            new, ch = {}, False
            for o, (x, sz) in s.mem[r].items():
                o2, x2 = val(o), val(x)
                ch = ch or o2 is not o or x2 is not x
                new[o2] = (x2, sz)
            if ch:
                s.mem[r] = new
                s.own.add(r)
        old = s.cons
        s.cons = {}
        s._v = None
        for q, (lo, hi) in old.items():
            if a in q.atoms():
                q = q.subst(m)
            if not s.constrain(q, lo, hi):
                return False
        s.ne = frozenset(q.subst(m) if a in q.atoms() else q for q in s.ne)
        if any(not q.d for q in s.ne):
            return False
        client.subst_ghost(s, a, m)
        return True

    def wmem(s, r):
        if r not in s.own:
            s.mem[r] = dict(s.mem.get(r, ()))
            s.own.add(r)
        return s.mem[r]


def arange(a):
    """real interval of a float/int atom or None"""
    if a.rng is not None:
        return a.rng
    if a.lo is not None and a.hi is not None:
        return (a.lo, a.hi)
    if a.cls and a.cls[0] == "norm" and a.cls[2] is not None:
        l, h = Fraction(2) ** a.cls[1], Fraction(2) ** (a.cls[1] + 1)
        return (l, h - l / (1 << 60)) if a.cls[2] == 0 else (-h + l / (1 << 60), -l)
    if a.cls and a.cls[0] == "zero":
        return (0, 0)
    return None


def resid(p):
    """bound on |value| when p is c*(x - R) with R the part of x absorbed on a grid of 2**g, else None"""
    best = None
    for k, v in p.d.items():
        if len(k) == 1 and k[0].g is not None and k[0].info and k[0].info[0] == "R":
            if p - Poly({k: v}) == k[0].info[2].scale(-v):
                b = abs(v) * Fraction(2) ** k[0].g
                if best is None or b < best:
                    best = b
    return best


def frange(x):
    """closed real interval known to contain the float x, or None"""
    r = frange0(x)
    if len(x.p.d) > 1:
        b = resid(x.p)
        if b is not None:
            return (-b, b) if r is None else (max(-b, r[0]), min(b, r[1]))
    return r


def frange0(x):
    lo = hi = 0
    for k, v in x.p.d.items():
        if not k:
            lo += v
            hi += v
            continue
        if len(k) > 1:
            l, h = 1, 1
            for a in k:
                r = arange(a)
                if r is None:
                    return x.rng
                q = (l * r[0], l * r[1], h * r[0], h * r[1])
                l, h = min(q), max(q)
        else:
            r = arange(k[0])
            if r is None:
                return x.rng
            l, h = r
        if v < 0:
            l, h = h, l
        lo += l * v
        hi += h * v
    if x.rng is not None:
        lo, hi = max(lo, x.rng[0]), min(hi, x.rng[1])
    return (lo, hi)


def pow2part(c):
    """largest g with c a multiple of 2**g (c nonzero rational with power-of-two denominator), else None"""
    if type(c) is Fraction:
        d = c.denominator
        if d & (d - 1):
            return None
        n = c.numerator
        return ((n & -n).bit_length() - 1) - (d.bit_length() - 1)
    return (c & -c).bit_length() - 1


def fgran(p):
    """g such that every value of the form p is a multiple of 2**g, or None"""
    g = None
    for k, v in p.d.items():
        q = pow2part(v)
        if q is None:
            return None
        for a in k:
            if a.g is not None:
                q += a.g
            elif a.lo is not None and a.hi is not None and a.rng is None:
                pass
            else:
                return None
        g = q if g is None else min(g, q)
    return g


def exact(p, rng, prec):
    """is a real of form p within rng certainly representable?"""
    g = fgran(p)
    if rng is None:
        return False
    if g is None:
        return not p.d
    m = MANT[prec] + 1
    return max(abs(rng[0]), abs(rng[1])) <= Fraction(2) ** (g + m) and g >= (-1074 if prec == "d" else -149)


def fclass(x):
    """class of a float value: ('zero',) ('norm', e, sign) ('nan',) ('inf', s) ('fin',) ('nz',) or None"""
    c = fclass0(x)
    if c is None:
        r = frange(x)
        if r is not None:
            lo, hi = r
            if lo > 0 and ilog2(lo) == ilog2(hi):
                return ("norm", ilog2(lo), 0)
            if hi < 0 and ilog2(-lo) == ilog2(-hi):
                return ("norm", ilog2(-lo), 1)
            if lo > 0 or hi < 0:
                return ("nz", 0 if lo > 0 else 1)
            return ("fin",)
    return c


def fclass0(x):
    p = x.p
    if p.is_const():
        c = p.cval()
        if c == 0:
            return None if x.odd else ("zero",)
        e = ilog2(abs(c))
        return ("norm", e, 0 if c > 0 else 1)
    a = p.single()
    if a is not None and not x.odd:
        return a.cls
    if a is not None and x.odd and a.cls and a.cls[0] == "norm":
        return a.cls
    if len(p.d) == 1:
        (k, v), = p.d.items()
        if len(k) == 1 and k[0].cls and v != 1 and not x.odd:
            c = k[0].cls
            sg = 1 if v < 0 else 0
            if c[0] == "norm":
                q = pow2part(v)
                if q is not None and abs(v) == Fraction(2) ** q:
                    return ("norm", c[1] + q, c[2] ^ sg if c[2] is not None else None)
                return ("nz",) + ((c[2] ^ sg,) if c[2] is not None else ())
            if c[0] == "inf":
                return ("inf", c[1] ^ sg if c[1] is not None else None)
            if c[0] == "nz" and len(c) > 1:
                return ("nz", c[1] ^ sg)
            return c
    return None


def p2norm(p):
    """p up to a power-of-two factor and sign"""
    if not p.d:
        return p
    k = min(p.d, key=lambda m: (len(m), [a.id if hasattr(a, "id") else id(a) for a in m]))
    c = p.d[k]
    return p.scale((1 if c > 0 else -1) / Fraction(2) ** ilog2(abs(c)))


def ilog2(c):
    n, d = (c.numerator, c.denominator) if type(c) is Fraction else (c, 1)
    e = n.bit_length() - d.bit_length()
    if (n if e < 0 else n) * (1 << max(0, -e)) < d * (1 << max(0, e)):
        e -= 1
    return e


def clsin(k, names):
    t = k[0]
    if t == "nonfin":
        if "nan" in names and "inf" in names:
            return True
        if "nan" in names or "inf" in names:
            return None
        return False
    if t == "fin":
        if names & {"nan", "inf"} and not names & {"zero", "norm", "sub"}:
            return False
        if {"zero", "norm"} <= names:
            return True
        return None
    if t == "nz":      # finite non-zero
        if names & {"norm"}:
            return True
        return False
    if t in ("zero", "nan", "inf", "norm"):
        return t in names
    return None


def fdecide(c):
    pred, a, b = c.a
    ca, cb = fclass(a), fclass(b)
    if ca and ca[0] == "nan" or cb and cb[0] == "nan":
        return pred in ("une", "uno", "ueq", "ult", "ule", "ugt", "uge")
    if pred in ("uno", "ord"):
        if ca and cb and ca[0] != "nonfin" and cb[0] != "nonfin":
            return pred == "ord"
        if a == b and ca and ca[0] != "nonfin":
            return pred == "ord"
        return None
    if a.p.is_const() and b.p.is_const() and not a.odd and not b.odd:
        x, y = a.p.cval(), b.p.cval()
        return {"oeq": x == y, "ueq": x == y, "une": x != y, "one": x != y, "olt": x < y, "ult": x < y, "ole": x <= y,
                "ule": x <= y, "ogt": x > y, "ugt": x > y, "oge": x >= y, "uge": x >= y}[pred]
    for x, y, cx, sw in ((a, b, ca, False), (b, a, cb, True)):
        if y.p == ZERO and not y.odd and cx:
            if pred in ("oeq", "une", "ueq", "one"):
                if cx[0] in ("norm", "inf", "nz"):
                    return pred in ("une", "one")
                if cx[0] == "zero":
                    return pred in ("oeq", "ueq")
            elif cx[0] == "zero":
                return pred[1:] in ("le", "ge")
            elif cx[0] == "norm" and cx[2] is not None or cx[0] == "nz" and len(cx) > 1:
                sg = 1 if cx[-1] == 0 else -1
                if sw:
                    sg = -sg
                return {"lt": sg < 0, "le": sg < 0, "gt": sg > 0, "ge": sg > 0}.get(pred[1:])
    if ca and cb and ca[0] in ("norm",) and cb[0] == "norm" and ca[2] == 0 and cb[2] == 0 and ca[1] != cb[1]:
        return {"lt": ca[1] < cb[1], "le": ca[1] < cb[1], "gt": ca[1] > cb[1], "ge": ca[1] > cb[1], "eq": False,
                "ne": True}.get(pred[1:])
    ra, rb = frange(a), frange(b)
    if ra and rb:
        if ra[1] < rb[0]:
            return pred[1:] in ("lt", "le", "ne")
        if rb[1] < ra[0]:
            return pred[1:] in ("gt", "ge", "ne")
        if ra[1] <= rb[0] and pred[1:] in ("le", "gt"):
            return pred[1:] == "le"
        if rb[1] <= ra[0] and pred[1:] in ("ge", "lt"):
            return pred[1:] == "ge"
    inf = [k for k in (ca, cb) if k and k[0] == "inf"]
    if inf and pred in ("oeq", "une"):
        o = cb if inf[0] is ca else ca
        if o and o[0] in ("norm", "zero", "fin", "nz"):
            return pred == "une"
    return None


# ---------------------------------------------------------------- program
class Program:
    def __init__(s, paths):
        s.mods = {}
        s.index = {}
        s.paths = paths
        s.static = {}
        import re
        for p in paths:
            for m in re.finditer(r"^define (.*?)@([-\w.$]+)\(", open(p).read(), re.M):
                link = m.group(1)
                if "internal" in link or "available_externally" in link or "private" in link:
                    s.static.setdefault(p, {})[m.group(2)] = p
                elif m.group(2) not in s.index or "linkonce" not in link:
                    s.index[m.group(2)] = p

    def mod(s, p):
        if p not in s.mods:
            s.mods[p] = Module(p)
        return s.mods[p]

    def lookup(s, name, mod=None):
        if mod is not None and name in mod.funcs:
            return mod.funcs[name]
        if name in s.index:
            return s.mod(s.index[name]).funcs[name]
        return None

    def all_names(s):
        return sorted(s.index)


def wto(f):
    """linear order with every loop contiguous: block -> position"""
    pos = {}
    cnt = [0]

    def order(nodes, skip_header):
        # topological order of SCCs of the subgraph
        idx, low, st, on, out = {}, {}, [], set(), []
        sys_nodes = sorted(nodes, key=lambda n: f.blocks[n].rpo)

        def succs(n):
            return [x for x in f.blocks[n].succ if x in nodes and x != skip_header]
        for root in sys_nodes:
            if root in idx:
                continue
            work = [(root, iter(succs(root)))]
            idx[root] = low[root] = len(idx)
            st.append(root)
            on.add(root)
            while work:
                n, it = work[-1]
                adv = False
                for x in it:
                    if x not in idx:
                        idx[x] = low[x] = len(idx)
                        st.append(x)
                        on.add(x)
                        work.append((x, iter(succs(x))))
                        adv = True
                        break
                    elif x in on:
                        low[n] = min(low[n], idx[x])
                if adv:
                    continue
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[n])
                if low[n] == idx[n]:
                    comp = []
                    while True:
                        y = st.pop()
                        on.discard(y)
                        comp.append(y)
                        if y == n:
                            break
                    out.append(comp)
        for comp in reversed(out):
            if len(comp) == 1:
                pos[comp[0]] = cnt[0]
                cnt[0] += 1
            else:
                h = min(comp, key=lambda n: f.blocks[n].rpo)
                pos[h] = cnt[0]
                cnt[0] += 1
                order(set(comp) - {h}, None)
    order(set(f.blocks), None)
    return pos


def lincomb(d, vs):
    """rational coefficients c with d == sum c_i vs_i, or None"""
    keys = sorted({k for v in vs for k in v.d}, key=lambda k: (len(k), [a.id for a in k]))
    if any(k not in set(keys) for k in d.d):
        return None
    n = len(vs)
    rows = [[Fraction(v.d.get(k, 0)) for v in vs] + [Fraction(d.d.get(k, 0))] for k in keys]
    r = 0
    piv = []
    for c in range(n):
        p = next((i for i in range(r, len(rows)) if rows[i][c]), None)
        if p is None:
            continue
        rows[r], rows[p] = rows[p], rows[r]
        q = rows[r][c]
        rows[r] = [x / q for x in rows[r]]
        for i in range(len(rows)):
            if i != r and rows[i][c]:
                q = rows[i][c]
                rows[i] = [x - q * y for x, y in zip(rows[i], rows[r])]
        piv.append(c)
        r += 1
    if any(row[n] for row in rows[r:]):
        return None
    out = [Fraction(0)] * n
    for i, c in enumerate(piv):
        out[c] = rows[i][n]
    return out


# ---------------------------------------------------------------- client base
class Client:
    """Override what a particular analysis needs."""

    def init_load(s, st, r, off, ty, inst):
        return None

    def call(s, ai, st, name, args, inst):
        return NotImplemented

    def on_load(s, ai, st, ptr, ty, inst):
        pass

    def on_store(s, ai, st, ptr, val, ty, inst):
        pass

    def fop(s, ai, st, op, a, b, inst):
        return NotImplemented

    def key(s, st, block):
        return ()

    def join_float(s, ai, a, b, A, B, slot, hdr):
        return None

    def ghosts(s, st):
        """list of (name, Poly) integer ghosts carried by the state"""
        return []

    def set_ghosts(s, st, vals):
        pass

    def join_ghost(s, ai, A, B, J, hdr):
        pass

    def ghost_leq(s, ai, H, B, sigma):
        return True

    def assume(s, st, c):
        return True

    def before_merge(s, ai, st, block):
        pass

    def on_edge(s, ai, st, f, src, dst):
        pass

    def unknown_call(s, ai, st, name, args, inst):
        raise AnalysisBroken("call to unmodelled function %s" % name)


class Interp:
    MAXUNROLL = 700

    def __init__(s, prog, client):
        s.prog, s.client = prog, client
        s.intern = {}
        s.bcache = {}
        s.opcache = {}
        s.fcache = {}
        s.orig = {}
        s.fvals = set()
        s.widen = set()
        s.steps = 0
        s.fixpoints = 0
        s.stack = []
        s.gregions = {}
        s.covered = set()      # (function, block) visited
        s.fresh_n = 0
        s.hdrsyms = {}

    # ---- atoms
    def opaque(s, *key, **kw):
        a = s.intern.get(key)
        if a is None:
            a = Atom(kw.pop("name", None) or "%s(%s)" % (key[0], ",".join(map(str, key[1:]))), **kw)
            s.intern[key] = a
        return a

    def fresh(s, name, **kw):
        s.fresh_n += 1
        return Atom("%s'%d" % (name, s.fresh_n), **kw)

    # ---- operands
    def global_region(s, name, mod):
        g = mod.globals.get(name)
        static = g is not None and ("internal" in g.linkage or "private" in g.linkage)
        key = (mod.path if static else None, name)
        r = s.gregions.get(key)
        if r is None:
            const = bool(g and g.const)
            r = Region(name, "global", const=const, info=(g, mod), size=g.ty.size() if g and g.ty else None)
            s.gregions[key] = r
        return r

    def val(s, o, st):
        k = o.k
        if k == "v":
            try:
                return st.env[o.v]
            except KeyError:
                raise AnalysisBroken("no value for %s in %s" % (o.v, s.stack and s.stack[-1].name))
        if k == "c":
            return s.const(o)
        if k == "g":
            f = s.stack[-1]
            if o.v in f.mod.globals:
                return Ptr(s.global_region(o.v, f.mod), ZERO)
            return Opq(("fn", o.v))
        if k == "ce":
            op, bt, ops = o.v
            if op == "gep":
                return s.gep(bt, [s.val(q, st) for q in ops], ops)
            return s.val(ops[0], st)
        raise AnalysisBroken("operand %r" % o)

    def const(s, o):
        v, t = o.v, o.ty
        if v == "undef":
            return tuple(UNDEF for _ in range(t.n)) if t.k == "vec" else UNDEF
        if t.k == "vec":
            if v == "zero":
                z = s.const(Operand("c", 0 if t.t.k == "i" else Fraction(0), t.t))
                return tuple(z for _ in range(t.n))
            return tuple(s.const(e) for e in v)
        if t.k in ("f", "d", "fp80"):
            if v == "zero":
                v = Fraction(0)
            pr = "f" if t.k == "f" else "d"
            if v == "-0":
                return s.raw(1 << (WID[pr] - 1), pr)
            if isinstance(v, str):
                if v == "nan":
                    return F(Poly.atom(s.opaque("NaN", cls=("nan",))), prec=pr)
                return F(Poly.atom(s.opaque("Inf", cls=("inf", 0))).scale(1 if v == "inf" else -1), prec=pr)
            return F(Poly.const(v), prec=pr)
        if t.k == "i":
            if v == "zero":
                v = 0
            if t.n == 1:
                return bool(v)
            return Poly.const(v)
        if t.k == "ptr":
            return Poly.const(0)
        return Opq(("const", repr(v)))

    def gep(s, bt, vals, ops):
        base = vals[0]
        if not isinstance(base, Ptr):
            return Opq(("gep", base))
        off = base.o
        t = bt
        for i, v in enumerate(vals[1:]):
            v = s.toint(v)
            if i == 0:
                sz = t.size()
            elif t.k in ("arr", "vec"):
                t = t.t
                sz = t.size()
            elif t.k == "struct":
                o, t = t.field(int(v.cval()))
                off = off + o
                continue
            else:
                raise AnalysisBroken("gep")
            off = off + v.scale(sz)
        return Ptr(base.r, off)

    def toint(s, v):
        if isinstance(v, Poly):
            return v
        if isinstance(v, CInt):
            return Poly.atom(s.opaque("cint", v, lo=-1 if v.neg else 0, hi=0 if v.neg else 1))
        if v is True or v is False:
            return Poly.const(int(v))
        if isinstance(v, Bits):
            return s.bits_int(v)
        if isinstance(v, Cond):
            return Poly.atom(s.opaque("cint", v, lo=0, hi=1))
        if v is UNDEF:
            return Poly.atom(s.fresh("undef"))
        if isinstance(v, Opq):
            return Poly.atom(s.opaque("opqint", v))
        if isinstance(v, Ptr):
            return Poly.atom(s.opaque("ptrint", v))
        raise AnalysisBroken("toint %r" % (v,))

    def raw(s, n, prec):
        """a float known by its bit pattern only (negative zero, NaN payloads, infinities)"""
        f = bits_num(n, prec)
        if f != f:
            c = ("nan",)
        elif f == 0:
            c = ("zero",)
        else:
            c = ("inf", n >> (WID[prec] - 1))
        return F(Poly.atom(s.opaque("raw", n, prec, info=("raw", n), cls=c)), prec=prec)

    # ---- float bits
    def f_bits(s, x, w):
        """Bits of float x viewed at width w"""
        r = s.orig.get((x, w))
        if r is not None:
            return r
        k = (x, w, x.rng)
        r = s.bcache.get(k)
        if r is None:
            r = s.bcache[k] = s._f_bits(x, w)
        return r

    def _f_bits(s, x, w):
        pr = "d" if w == 64 else "f"
        m = MANT[pr]
        if x.p.is_const() and not x.odd:
            n = num_bits(x.p.cval(), pr)
            return Bits(x, w, tuple((n >> i) & 1 for i in range(w)))
        ra = x.p.single()
        if ra is not None and ra.info and ra.info[0] == "raw":
            n = ra.info[1] | (1 if x.odd else 0)
            return Bits(x, w, tuple((n >> i) & 1 for i in range(w)))
        b = [None] * w
        c = fclass(x)
        if c:
            if c[0] == "norm":
                e = max(0, c[1] + EBIAS[pr])
                for i in range(w - 1 - m):
                    b[m + i] = (e >> i) & 1
                if c[2] is not None:
                    b[w - 1] = c[2]
            elif c[0] == "zero":
                b = [0] * w
            elif c[0] in ("inf", "nan", "nonfin"):
                for i in range(w - 1 - m):
                    b[m + i] = 1
                if c[0] == "inf":
                    for i in range(m):
                        b[i] = 0
                    if c[1] is not None:
                        b[w - 1] = c[1]
            if c[0] == "norm" and c[2] is not None and -EBIAS[pr] < c[1]:
                r = frange(x)
                if r is not None:         # leading mantissa bits shared by the whole interval are known
                    l, h = min(abs(r[0]), abs(r[1])), max(abs(r[0]), abs(r[1]))
                    u = Fraction(2) ** c[1]
                    ml, mh = math.floor((l / u - 1) * (1 << m)), math.floor((h / u - 1) * (1 << m))
                    for i in range(m - 1, -1, -1):
                        if (ml >> i) != (mh >> i):
                            break
                        b[i] = (ml >> i) & 1
        if x.odd:
            b[0] = 1
        return Bits(x, w, tuple(b))

    def bits_known(s, b):
        v = 0
        for i, x in enumerate(b.bits):
            if x is None or isinstance(x, tuple):
                return None
            v |= x << i
        return v

    def bits_int(s, b):
        """integer value of a bit pattern as a Poly"""
        r = ZERO
        i, n = 0, b.w
        while i < n:
            x = b.bits[i]
            if x == 0 or x == 1:
                if x:
                    v = 1 << i
                    if i == b.w - 1 and b.w in (32, 64):
                        v = -v
                    r = r + v
                i += 1
                continue
            if x is not None and x[0] == "n":
                a = s.field(b.src, b.prec, x[1], 1)
                v = 1 << i
                if i == b.w - 1 and b.w in (32, 64):
                    v = -v
                r = r + (1 - a).scale(v)
                i += 1
                continue
            j0 = i if x is None else x[1]
            k = 0
            while i + k < n:
                y = b.bits[i + k]
                jj = i + k if y is None else (y[1] if isinstance(y, tuple) and y[0] == "b" else None)
                if jj != j0 + k:
                    break
                k += 1
            a = s.field(b.src, b.prec, j0, k)
            v = 1 << i
            r = r + a.scale(v)
            i += k
        return r

    def field(s, src, prec, lo, ln):
        """own bits lo..lo+ln-1 of src as one or more atoms (mantissa pieces stay separate bits when short)"""
        if ln <= 4:
            r = ZERO
            for i in range(ln):
                r = r + Poly.atom(s.opaque("bit", src, prec, lo + i, lo=0, hi=1)).scale(1 << i)
            return r
        return Poly.atom(s.opaque("field", src, prec, lo, ln, lo=0, hi=(1 << ln) - 1))

    def bits_float(s, b, prec):
        """reinterpret bits as a float of the given precision"""
        k = (b, prec, b.src.rng)
        r = s.fcache.get(k)
        if r is None:
            r = s.fcache[k] = s._bits_float(b, prec)
            if b.src is not None and r != b.src and b.w == WID[prec] and not r.p.is_const():
                s.orig[(r, b.w)] = b
        return r

    def _bits_float(s, b, prec):
        x = b.src
        own = all(y is None or y == ("b", i) for i, y in enumerate(b.bits))
        k = s.bits_known(b)
        if k is not None and WID[prec] == b.w:
            f = bits_num(k, prec)
            if f != f or f == 0 and k:
                return s.raw(k, prec)
            if f in (float("inf"), -float("inf")):
                return F(Poly.atom(s.opaque("Inf", cls=("inf", 0))).scale(1 if f > 0 else -1), prec=prec)
            return F(Poly.const(Fraction(f)), prec=prec)
        if b.prec != prec or b.w != WID[prec]:
            return F(Poly.atom(s.opaque("rebits", b, prec)), prec=prec)
        if own:
            return F(x.p, x.odd, prec, x.rng, x.inex)
        # same float with some bits changed
        base = s.f_bits(x, b.w)
        c = fclass(x)
        changed = [i for i in range(b.w) if b.bits[i] != base.bits[i] and not
                   (b.bits[i] == ("b", i) and base.bits[i] is None)]
        if not changed:
            return F(x.p, x.odd, prec, x.rng, x.inex)
        if changed == [0] and b.bits[0] == 1:
            return F(x.p, True, prec, x.rng, x.inex)
        m = MANT[prec]
        if changed == [b.w - 1] and b.bits[b.w - 1] == 0 and base.bits[b.w - 1] is None:
            return F(s.abs_poly(x.p), x.odd, prec)
        if changed == [b.w - 1] and b.bits[b.w - 1] == ("n", b.w - 1):
            return F(-x.p, x.odd, prec)
        if changed == [0, b.w - 1] and b.bits[0] == 1 and b.bits[b.w - 1] == 0 and base.bits[b.w - 1] is None:
            return F(s.abs_poly(x.p), True, prec)
        if changed in ([0, b.w - 1], [b.w - 1, 0]) and b.bits[0] == 1 and b.bits[b.w - 1] == ("n", b.w - 1):
            return F(-x.p, True, prec)
        if changed == [b.w - 1] and b.bits[b.w - 1] == 0 and base.bits[b.w - 1] == 0:
            return F(x.p, x.odd, prec, x.rng, x.inex)
        if c and c[0] == "norm" and c[2] == 0 and all(i < m for i in changed) and not x.odd:
            r = x.p
            e = c[1]
            for i in changed:
                def bitp(q):
                    if q == 0 or q == 1:
                        return Poly.const(q)
                    j = i if q is None else q[1]
                    if q is not None and q[0] == "n":
                        return 1 - Poly.atom(s.opaque("bit", x, prec, j, lo=0, hi=1))
                    return Poly.atom(s.opaque("bit", x, prec, j, lo=0, hi=1))
                r = r + (bitp(b.bits[i]) - bitp(base.bits[i])).scale(Fraction(2) ** (i - m + e))
            u = Fraction(2) ** e
            lo = hi = u
            for i in range(m):
                y = b.bits[i]
                if y == 1:
                    lo += u / (1 << (m - i))
                if y != 0:
                    hi += u / (1 << (m - i))
            return F(r, False, prec, (lo, hi), x.inex)
        # mantissa cleared: unit in the first place
        if all(b.bits[i] == 0 for i in range(m)) and all(
                b.bits[i] == base.bits[i] or b.bits[i] == 0 and i == b.w - 1 for i in range(m, b.w)):
            if c and c[0] == "norm":
                return F(Poly.const(Fraction(2) ** c[1] * (1 if b.bits[b.w - 1] == 0 else -1)), prec=prec)
            return F(Poly.atom(s.opaque("ufp", x.p, prec)), prec=prec)
        return F(Poly.atom(s.opaque("rebits", b, prec)), prec=prec)

    def abs_poly(s, p):
        if p.is_const():
            return Poly.const(abs(p.cval()))
        k = min(p.d, key=lambda k: (len(k), [a.id for a in k]))
        if p.d[k] < 0:
            p = -p
        a = p.single()
        if a is not None and a.info and a.info[0] == "abs":
            return p
        if a is not None and a.cls and a.cls[0] == "norm" and a.cls[2] == 0:
            return p
        c = fclass(F(p))
        if c and c[0] == "norm":
            c = ("norm", c[1], 0)
        elif c and c[0] == "inf":
            c = ("inf", 0)
        return Poly.atom(s.opaque("abs", p, info=("abs", p), cls=c))

    # ---- memory
    def region_init(s, st, r, off, ty, inst):
        v = s.client.init_load(st, r, off, ty, inst)
        if v is not None:
            return v
        if r.kind == "global" and r.info and r.info[0] is not None:
            g, mod = r.info
            if off.is_const() and g.init is not None:
                return s.ginit(g.init, g.ty, off.cval(), ty)
            if g.const:
                return s.mk_opaque(("gload", r, off), ty)
        if r.kind in ("alloca",):
            return UNDEF
        if r.kind == "heap":
            return UNDEF
        return s.mk_opaque(("init", r, off), ty)

    def ginit(s, o, t, off, ty):
        """value of type ty at byte offset off of constant initialiser o of type t"""
        if o.v == "undef":
            return UNDEF
        if o.v == "zero":
            return s.const(Operand("c", "zero" if ty.k == "vec" else 0 if ty.k == "i" else Fraction(0) if ty.k in ("f", "d") else "null", ty))
        if t.k in ("arr", "vec") and isinstance(o.v, tuple):
            sz = t.t.size()
            i = off // sz
            if i < 0 or i >= len(o.v):
                return UNDEF
            return s.ginit(o.v[i], t.t, off - i * sz, ty)
        if t.k == "struct" and isinstance(o.v, tuple):
            for i in range(len(o.v)):
                fo, ft = t.field(i)
                if fo <= off < fo + ft.size():
                    return s.ginit(o.v[i], ft, off - fo, ty)
        if off == 0 and t.k == ty.k:
            if o.k in ("g", "ce"):
                return Opq(("ginit", repr(o.v)))
            return s.const(o)
        return s.mk_opaque(("ginit", id(o), off), ty)

    def mk_opaque(s, key, ty):
        if ty.k in ("f", "d"):
            return F(Poly.atom(s.opaque(*key)), prec="f" if ty.k == "f" else "d")
        if ty.k == "i":
            if ty.n == 1:
                return Cond("unk", key)
            return Poly.atom(s.opaque(*key))
        if ty.k == "vec":
            return tuple(s.mk_opaque(key + (i,), ty.t) for i in range(ty.n))
        return Opq(key)

    def noalias(s, st, a, sa, b, sb):
        """accesses [a,a+sa) and [b,b+sb) at distinct symbolic offsets cannot overlap"""
        d = a - b
        if d.is_const():
            c = d.cval()
            return c >= sb or c <= -sa
        # congruence: all non-constant coefficients divisible by g
        g = 0
        for k, v in d.d.items():
            if k:
                if not isinstance(v, int):
                    g = 1
                    break
                g = math.gcd(g, v)
        c = d.cval() % g if g else 0
        if g and c >= sb and g - c >= sa:
            return True
        lo, hi = st.bounds(d)
        if (lo is not None and lo >= sb) or (hi is not None and hi <= -sa):
            return True
        if c == 0 and g >= max(sa, sb) and st.nonzero(d):
            return True
        return False

    def load(s, st, ptr, ty, inst):
        if not isinstance(ptr, Ptr):
            raise AnalysisBroken("load through unresolved pointer %r (%s)" % (ptr, inst))
        if ty.k == "vec":
            sz = ty.t.size()
            return tuple(s.load(st, Ptr(ptr.r, ptr.o + i * sz), ty.t, inst) for i in range(ty.n))
        if ty.k == "struct":
            if len(ty.t) == 1:
                return s.load(st, ptr, ty.t[0], inst)
            raise AnalysisBroken("struct load")
        s.client.on_load(s, st, ptr, ty, inst)
        if ptr.r.kind == "vec":
            return s.client.vec_load(s, st, ptr, ty, inst)
        size = ty.size()
        m = st.mem.get(ptr.r, {})
        e = m.get(ptr.o)
        if e is not None and e[1] == size:
            return s.retype(e[0], ty)
        if size == 8 and ty.k == "d" and (e is not None and e[1] == 4 or getattr(s.client, "es", 8) == 4 and ptr.r.kind in ("arg", "heap")):
            return Grp(tuple(s.load(st, Ptr(ptr.r, ptr.o + 4 * i), FLT, inst) for i in range(2)), FLT)
        for o, (v, sz) in m.items():
            if o == ptr.o or not s.noalias(st, ptr.o, size, o, sz):
                if o == ptr.o and sz != size:
                    return s.mk_opaque(("partial", ptr, s.nxt()), ty)
                r = s.client_mayalias(st, ptr, ty, o, v, inst)
                if r is not None:
                    return r
        v = s.region_init(st, ptr.r, ptr.o, ty, inst)
        if v is UNDEF:
            return v
        st.wmem(ptr.r)[ptr.o] = (v, size)
        return v

    def client_mayalias(s, st, ptr, ty, o, v, inst):
        h = getattr(s.client, "may_alias_load", None)
        if h:
            return h(s, st, ptr, ty, o, v, inst)
        return s.mk_opaque(("mayalias", ptr, s.nxt()), ty)

    def nxt(s):
        s.fresh_n += 1
        return s.fresh_n

    def retype(s, v, ty):
        if v is UNDEF:
            return v
        if ty.k in ("f", "d"):
            if isinstance(v, F):
                return v
            if isinstance(v, Bits):
                return s.bits_float(v, "f" if ty.k == "f" else "d")
            if isinstance(v, Poly) and v.is_const():
                pr = "f" if ty.k == "f" else "d"
                n = int(v.cval()) & ((1 << (8 * ty.size())) - 1)
                f = bits_num(n, pr)
                if f == f and abs(f) != float("inf") and (f or not n):
                    return F(Poly.const(Fraction(f)), prec=pr)
                return s.raw(n, pr)
            return s.mk_opaque(("retype", v, s.nxt()), ty)
        if ty.k == "i":
            if isinstance(v, F):
                return s.f_bits(v, ty.n)
            if isinstance(v, Opq):
                return s.mk_opaque(("retype", v), ty)
        return v

    def store(s, st, ptr, v, ty, inst):
        if not isinstance(ptr, Ptr):
            raise AnalysisBroken("store through unresolved pointer %r (%s)" % (ptr, inst))
        if ty.k == "vec":
            sz = ty.t.size()
            for i in range(ty.n):
                s.store(st, Ptr(ptr.r, ptr.o + i * sz), v[i], ty.t, inst)
            return
        if ty.k == "struct" and len(ty.t) == 1:
            return s.store(st, ptr, v, ty.t[0], inst)
        s.client.on_store(s, st, ptr, v, ty, inst)
        if ptr.r.kind == "vec":
            return
        size = ty.size()
        m = st.wmem(ptr.r)
        e = m.get(ptr.o)
        pd = ptr.o.d
        pc = pd.get((), 0) if not pd or len(pd) == 1 and () in pd else None
        if e is not None and e[1] == size and pc is not None:
            # a cell of its own: only cells at symbolic offsets can overlap it
            dead = [o for o, (w, sz) in m.items() if not o.is_const() and not s.noalias(st, ptr.o, size, o, sz)]
        elif pc is not None:
            dead = []
            for o, (w, sz) in m.items():
                d = o.d
                if not d or len(d) == 1 and () in d:
                    c = pc - d.get((), 0)
                    if c >= sz or c <= -size or not c:
                        continue
                elif s.noalias(st, ptr.o, size, o, sz):
                    continue
                dead.append(o)
        elif e is None or e[1] != size:
            dead = [o for o, (w, sz) in m.items() if o != ptr.o and not s.noalias(st, ptr.o, size, o, sz)]
        else:
            dead = [o for o, (w, sz) in m.items() if o != ptr.o and not (o - ptr.o).is_const()
                    and not s.noalias(st, ptr.o, size, o, sz)]
        if dead:
            h = getattr(s.client, "may_alias_store", None)
            for o in dead:
                if h and h(s, st, ptr, ty, o, m[o], inst):
                    continue
                del m[o]
        m[ptr.o] = (v, size)

    # ---- running
    def call_function(s, f, args, st):
        """-> list of (state, retval)"""
        if len(s.stack) > 40:
            raise AnalysisBroken("recursion")
        saved_env, saved_ctx = st.env, st.ctx
        st.env = {}
        st.ctx = ()
        for (nm, ty), v in zip(f.args, args):
            st.env[nm] = v
        s.stack.append(f)
        try:
            outs = s.run(f, st)
        finally:
            s.stack.pop()
        for o, _ in outs:
            o.env = dict(saved_env)
            o.ctx = saved_ctx
        return outs

    def run(s, f, st):
        if f.irreducible:
            raise AnalysisBroken("irreducible control flow in " + f.name)
        if not hasattr(f, "wto"):
            f.wto = wto(f)
        pend, heap = {}, []
        hdr = {}
        outs = []

        def push(b, stt):
            k = (b, stt.ctx)
            if k not in pend:
                pend[k] = []
                heapq.heappush(heap, (f.wto[b], -sum(c for _, c in stt.ctx), len(heap), s.nxt(), k))
            pend[k].append(stt)
        entry = f.order[0].name
        st.ctx = ()
        push(entry, st)
        while heap:
            e = heapq.heappop(heap)
            k = e[4]
            if k not in pend:
                continue
            bname, ctx = k
            if bname in f.loops and (f.name, bname) in s.widen and len(pend) > 1:
                # a widened header waits until nothing inside its loop is pending
                body = f.loops[bname]
                if any(q != k and q[0] != bname and q[0] in body for q in pend):
                    held = [e]
                    while heap and (heap[0][4] not in pend or heap[0][4][0] == bname):
                        held.append(heapq.heappop(heap))
                    nx = heapq.heappop(heap)
                    # everything smaller than the body block is a header that has to wait as well
                    while heap and not (nx[4] in pend and s.ready(f, nx[4], pend)):
                        held.append(nx)
                        nx = heapq.heappop(heap)
                    for h in held:
                        heapq.heappush(heap, h)
                    e = nx
                    k = e[4]
                    bname, ctx = k
            sts = pend.pop(k)
            b = f.blocks[bname]
            iswid = bname in f.loops and (f.name, bname) in s.widen
            groups = {}
            order = []
            for x in sts:
                s.client.before_merge(s, x, b)
                kk = s.key(x, b) if iswid or len(sts) > 1 else None
                if kk not in groups:
                    groups[kk] = x
                    order.append(kk)
                else:
                    groups[kk] = s.join(f, groups[kk], x, b, None)
            for kk in order:
                x = groups[kk]
                if iswid:
                    x = s.header(f, b, x, hdr, kk)
                    if x is None:
                        continue
                s.covered.add((f.name, bname))
                for stt, nxt, ret in s.block(f, b, x):
                    if nxt is None:
                        outs.append((stt, ret))
                        continue
                    s.edge(f, bname, nxt, stt, push)
        # merge exits with equal keys & mergeable return values
        return s.merge_outs(f, outs)

    def ready(s, f, k, pend):
        b = k[0]
        if b in f.loops and (f.name, b) in s.widen:
            body = f.loops[b]
            return not any(q != k and q[0] != b and q[0] in body for q in pend)
        return True

    def merge_outs(s, f, outs):
        if getattr(s.client, "no_merge_outs", False):
            return outs
        groups, order = {}, []
        for st, r in outs:
            st.env = {"%ret": r}
            st.ctx = ()
            k = (s.client.key(st, None), s.rkey(r))
            if k in groups:
                groups[k] = s.join(f, groups[k], st, None, None)
            else:
                groups[k] = st
                order.append(k)
        return [(groups[k], groups[k].env["%ret"]) for k in order]

    def rkey(s, r):
        if isinstance(r, Poly) and r.is_const():
            return r.cval()
        if isinstance(r, CInt):
            return r
        if isinstance(r, Poly):
            return "int"
        if isinstance(r, Ptr):
            return r.r
        if isinstance(r, F):
            return getattr(s.client, "ret_key", lambda r: "f")(r)
        return None

    def key(s, st, b):
        bk = tuple((p.res, st.env.get(p.res)) for p in b.phis if p.ty.k == "i" and p.ty.n == 1 and
                   st.env.get(p.res) in (True, False))
        pk = tuple((p.res, st.env[p.res].r if isinstance(st.env[p.res], Ptr) else type(st.env[p.res]).__name__)
                   for p in b.phis if p.ty.k == "ptr")
        pk += tuple((n, v.r) for n, v in st.env.items() if isinstance(v, Ptr) and False)
        return (s.client.key(st, b), bk, pk)

    def edge(s, f, src, dst, st, push):
        b = f.blocks[dst]
        srcb = f.blocks[src]
        s.client.on_edge(s, st, f, src, dst)
        env = st.env
        newp = {}
        for ph in b.phis:
            for o, pb in zip(ph.ops, ph.x):
                if pb == src:
                    newp[ph.res] = s.val(o, st)
                    break
            else:
                raise AnalysisBroken("phi without edge")
        ne = {n: env[n] for n in b.livein if n in env}
        ne.update(newp)
        st.env = ne
        # trace context of unrolled loops
        ctx = tuple((h, n) for h, n in st.ctx if h in b.loops and h != dst)
        if dst in f.loops and (f.name, dst) not in s.widen:
            cur = dict(st.ctx).get(dst)
            if cur is not None and dst in srcb.loops:
                n = cur + 1
                if n > s.MAXUNROLL:
                    s.widen.add((f.name, dst))
                    raise Restart()
            else:
                n = 0
            ctx = ctx + ((dst, n),)
        st.ctx = ctx
        push(dst, st)

    def header(s, f, b, x, hdr, kk):
        """widened loop header: returns the state to propagate, or None when already covered"""
        k = (b.name, x.ctx, kk)
        # a state coming from outside the loop restarts the header
        rec = hdr.get(k)
        fromin = x.ghost is not None and False
        if rec is not None and rec[2] == s._outer_stamp(f, b, x):
            H, n, _ = rec
            if hasattr(s.client, "pre_leq"):
                s.client.pre_leq(s, H, x, b)
            if s.leq(f, H, x, b):
                return None
            J = s.join(f, H, x, b, n)
            hdr[k] = (J, n + 1, rec[2])
            s.fixpoints += 1
            for q in [q for q in hdr if q[0] != b.name and q[0] in f.loops[b.name]]:
                del hdr[q]
            if n > 12:
                raise AnalysisBroken("no fixpoint at %s %s" % (f.name, b.name))
            return J.copy()
        hdr[k] = (x, 0, s._outer_stamp(f, b, x))
        return x.copy()

    def _outer_stamp(s, f, b, x):
        return x.env.get("#pass:" + b.name) if False else None

    # ---- block execution (forks on undecided conditions)
    def block(s, f, b, st):
        out = []
        work = [(st, 0)]
        while work:
            x, i = work.pop()
            n = len(b.insts)
            forked = False
            while i < n:
                it = b.insts[i]
                r = s.inst(it, x)
                i += 1
                if isinstance(r, list):      # forked: list of (state, value)
                    for y, v in r:
                        if it.res:
                            y.env[it.res] = v
                        work.append((y, i))
                    forked = True
                    break
                if it.res:
                    x.env[it.res] = r
            if forked:
                continue
            out.extend(s.term(f, b, x))
        return out

    def term(s, f, b, st):
        t = b.term
        s.steps += 1
        if t.op == "ret":
            return [(st, None, s.val(t.ops[0], st) if t.ops else None)]
        if t.op == "unreachable":
            return []
        if t.op == "br":
            if not t.ops:
                return [(st, t.x[0], None)]
            c = s.tocond(s.val(t.ops[0], st))
            if c is UNDEF:
                s.undef_use(st, t)
                c = Cond("unk", ("undef", s.nxt()))
            d = st.decide(c)
            if d is not None:
                return [(st, t.x[0] if d else t.x[1], None)]
            if t.x[0] == t.x[1]:
                return [(st, t.x[0], None)]
            s.undecided(f, b, c)
            a = st.copy()
            out = []
            if a.assume(c, True, s.client):
                out.append((a, t.x[0], None))
            if st.assume(c, False, s.client):
                out.append((st, t.x[1], None))
            return out
        if t.op == "switch":
            v = s.toint(s.val(t.ops[0], st))
            d, cases = t.x
            if v.is_const():
                for cv, lab in cases:
                    if cv == v.cval():
                        return [(st, lab, None)]
                return [(st, d, None)]
            out = []
            for cv, lab in cases:
                a = st.copy()
                if a.assume(Cond("cmp", "eq", v - cv), True, s.client):
                    out.append((a, lab, None))
                if not st.assume(Cond("cmp", "ne", v - cv), True, s.client):
                    return out
            out.append((st, d, None))
            return out
        raise AnalysisBroken("terminator " + t.op)

    def undecided(s, f, b, c):
        """an undecided integer exit test of an unrolled loop switches that loop to fixpoint mode"""
        if isinstance(c, Cond) and not s.has_int(c):
            return
        for h in b.loops:
            if (f.name, h) in s.widen:
                continue
            body = f.loops[h]
            if any(x not in body for x in b.succ):
                s.widen.add((f.name, h))
                raise Restart()

    def has_int(s, c):
        if not isinstance(c, Cond):
            return False
        if c.op == "cmp":
            # bit-pattern tests of floats are data tests, not counters
            return not all(a.name.startswith(("bit(", "field(")) for a in c.a[1].atoms())
        return any(s.has_int(a) for a in c.a)

    def undef_use(s, st, inst):
        h = getattr(s.client, "undef_use", None)
        if h:
            h(s, st, inst)

    def tocond(s, v):
        if isinstance(v, (bool, Cond)) or v is UNDEF:
            return v
        if isinstance(v, CInt):
            return v.c
        if isinstance(v, Poly):
            if v.is_const():
                return v.cval() != 0
            return Cond("cmp", "ne", v)
        return Cond("unk", v)

    # ---- instructions
    def inst(s, it, st):
        s.steps += 1
        op = it.op
        if op in ("fadd", "fsub", "fmul", "fdiv", "frem"):
            a, b = s.val(it.ops[0], st), s.val(it.ops[1], st)
            if it.ty.k == "vec":
                return tuple(s.fbin(st, op, x, y, it) for x, y in zip(a, b))
            return s.fbin(st, op, a, b, it)
        if op == "load":
            return s.load(st, s.val(it.ops[0], st), it.ty, it)
        if op == "store":
            s.store(st, s.val(it.ops[1], st), s.val(it.ops[0], st), it.ty, it)
            return None
        if op == "getelementptr":
            return s.gep(it.x, [s.val(o, st) for o in it.ops], it.ops)
        if op in ("add", "sub", "mul", "sdiv", "udiv", "srem", "urem", "shl", "lshr", "ashr", "and", "or", "xor"):
            a, b = s.val(it.ops[0], st), s.val(it.ops[1], st)
            if it.ty.k == "vec":
                return tuple(s.ibin(st, op, x, y, it.ty.t, it) for x, y in zip(a, b))
            return s.ibin(st, op, a, b, it.ty, it)
        if op in ("bitcast", "sext", "zext", "trunc", "fpext", "fptrunc", "fptosi", "sitofp", "uitofp", "fptoui",
                  "ptrtoint", "inttoptr"):
            return s.cast(st, op, s.val(it.ops[0], st), it.ops[0].ty, it.ty, it)
        if op == "icmp":
            a, b = s.val(it.ops[0], st), s.val(it.ops[1], st)
            if it.ops[0].ty.k == "vec":
                return tuple(s.icmp(st, it.x, x, y, it) for x, y in zip(a, b))
            return s.icmp(st, it.x, a, b, it)
        if op == "fcmp":
            a, b = s.val(it.ops[0], st), s.val(it.ops[1], st)
            if it.ops[0].ty.k == "vec":
                return tuple(s.fcmp(it.x, x, y) for x, y in zip(a, b))
            return s.fcmp(it.x, a, b)
        if op == "fneg":
            a = s.val(it.ops[0], st)
            if isinstance(a, tuple):
                return tuple(F(-x.p, x.odd, x.prec) if isinstance(x, F) else x for x in a)
            return F(-a.p, a.odd, a.prec) if isinstance(a, F) else a
        if op == "insertelement":
            a, v, i = (s.val(o, st) for o in it.ops)
            i = int(i.cval())
            return a[:i] + (v,) + a[i + 1:]
        if op == "extractelement":
            a, i = (s.val(o, st) for o in it.ops)
            i = s.toint(i)
            if not i.is_const():
                raise AnalysisBroken("variable lane")
            return a[int(i.cval())]
        if op == "shufflevector":
            a, b = s.val(it.ops[0], st), s.val(it.ops[1], st)
            m = it.ops[2]
            ab = tuple(a) + tuple(b)
            if m.v == "zero":
                return tuple(ab[0] for _ in range(m.ty.n))
            if m.v == "undef":
                return tuple(UNDEF for _ in range(m.ty.n))
            return tuple(UNDEF if e.v == "undef" else ab[e.v if e.v != "zero" else 0] for e in m.v)
        if op == "select":
            c, a, b = s.val(it.ops[0], st), s.val(it.ops[1], st), s.val(it.ops[2], st)
            if isinstance(c, tuple):
                return tuple(s.select1(st, x, y, z, it) for x, y, z in zip(c, a, b))
            c = s.tocond(c)
            if c is UNDEF:
                s.undef_use(st, it)
                return a
            d = st.decide(c)
            if d is not None:
                return a if d else b
            if a == b:
                return a
            if getattr(s.client, "lazy_select", False):
                if isinstance(a, Poly) and isinstance(b, Poly):
                    la, ha = st.bounds(a)
                    lb, hb = st.bounds(b)
                    if None not in (la, ha, lb, hb) and all(q.is_const() or (q.single() and q.single().info) for q in (a, b)):
                        return Poly.atom(s.opaque("sel", c, a, b, lo=min(la, lb), hi=max(ha, hb), info=("sel", c, a, b)))
                if isinstance(a, F) and isinstance(b, F):
                    r = s.client.vselect(s, st, c, a, b, it)
                    if r is not None:
                        return r
            x = st.copy()
            out = []
            if x.assume(c, True, s.client):
                out.append((x, a))
            if st.assume(c, False, s.client):
                out.append((st, b))
            return out
        if op == "alloca":
            f = s.stack[-1]
            r = Region("%s.%s" % (f.name, it.res), "alloca", info=(f, it), size=it.x.size())
            st.mem[r] = {}
            st.own.add(r)
            return Ptr(r, ZERO)
        if op == "call":
            return s.call(it, st)
        if op == "freeze":
            return s.val(it.ops[0], st)
        raise AnalysisBroken("unsupported instruction %s in %s" % (op, s.stack[-1].name))

    def select1(s, st, c, a, b, it):
        c = s.tocond(c)
        d = st.decide(c) if c is not UNDEF else None
        if d is not None:
            return a if d else b
        if a == b:
            return a
        h = getattr(s.client, "vselect", None)
        if h:
            r = h(s, st, c, a, b, it)
            if r is not None:
                return r
        return s.mk_opaque(("vselect", c, a, b), DBL if isinstance(a, F) else I64)

    def fbin(s, st, op, a, b, it):
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if isinstance(a, Bits):
            a = s.bits_float(a, a.prec)
        if isinstance(b, Bits):
            b = s.bits_float(b, b.prec)
        if not isinstance(a, F) or not isinstance(b, F):
            return s.mk_opaque(("fbin", op, a, b), DBL)
        r = s.client.fop(s, st, op, a, b, it)
        if r is not NotImplemented:
            return r
        return s.fdefault(st, op, a, b)

    def fdefault(s, st, op, a, b):
        pr = a.prec
        ca, cb = fclass(a), fclass(b)
        for x in (ca, cb):
            if x and x[0] == "nan":
                return F(Poly.atom(s.opaque("NaN", cls=("nan",))), prec=pr)
        if op in ("fadd", "fsub"):
            if ca and cb and (ca[0] == "inf" or cb[0] == "inf") and not (ca[0] == "inf" and cb[0] == "inf"):
                if ca[0] == "inf" and cb[0] in ("fin", "zero", "norm", "nz"):
                    return a
                if cb[0] == "inf" and ca[0] in ("fin", "zero", "norm", "nz"):
                    return b if op == "fadd" else F(-b.p, False, pr)
        if op in ("fadd", "fsub"):
            p = a.p + b.p if op == "fadd" else a.p - b.p
            ra, rb = frange(a), frange(b)
            rng = None
            if ra and rb:
                rng = (ra[0] + rb[0], ra[1] + rb[1]) if op == "fadd" else (ra[0] - rb[1], ra[1] - rb[0])
                own = frange(F(p))
                if own:
                    rng = (max(rng[0], own[0]), min(rng[1], own[1]))
            x = p.is_const() and not p.d or a.p == ZERO or b.p == ZERO or exact(p, rng, pr)
            return F(p, False, pr, rng, a.inex or b.inex or not x)
        if op == "fmul":
            p = a.p * b.p
            ra, rb = frange(a), frange(b)
            rng = None
            if ra and rb:
                q = (ra[0] * rb[0], ra[0] * rb[1], ra[1] * rb[0], ra[1] * rb[1])
                rng = (min(q), max(q))
            x = not p.d
            for u in (a, b):
                if u.p.is_const() and u.p.d and abs(u.p.cval()) == Fraction(2) ** ilog2(abs(u.p.cval())):
                    x = True
            return F(p, False, pr, rng, a.inex or b.inex or not x)
        if op == "fdiv":
            if b.p.is_const() and b.p.cval() != 0:
                c = Fraction(1) / b.p.cval()
                ra = frange(a)
                rng = ra and (min(ra[0] * c, ra[1] * c), max(ra[0] * c, ra[1] * c))
                return F(a.p.scale(c), False, pr, rng, a.inex or abs(c) != Fraction(2) ** ilog2(abs(c)))
            if a.p == b.p and b.p.d:
                return F(ONE, False, pr)
            if len(b.p.d) == 1:          # 1/(c*x*y..) = 1/c * inv(x)*inv(y)
                (k, v), = b.p.d.items()
                r = a.p.scale(Fraction(1) / v)
                for at in k:
                    q = Poly.atom(at)
                    if at.info and at.info[0] == "inv":
                        r = r * at.info[1]
                    else:
                        r = s.cancel(r * Poly.atom(s.opaque("inv", q, info=("inv", q))), at, s.opaque("inv", q, info=("inv", q)))
                return F(r, False, pr)
            return F(a.p * Poly.atom(s.opaque("inv", b.p, info=("inv", b.p))), False, pr)
        return F(Poly.atom(s.opaque(op, a.p, b.p)), False, pr)

    def cancel(s, p, a, b):
        """a*b == 1 inside monomials"""
        if not any(a in k and b in k for k in p.d):
            return p
        r = ZERO
        for k, v in p.d.items():
            k = list(k)
            while a in k and b in k:
                k.remove(a)
                k.remove(b)
            r = r + Poly({tuple(k): v})
        return r

    def ibin(s, st, op, a, b, ty, it):
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if isinstance(a, F):
            a = s.f_bits(a, ty.n)
        if isinstance(b, F):
            b = s.f_bits(b, ty.n)
        if ty.n == 1:
            a, b = s.tocond(a), s.tocond(b)
            if op in ("and", "or"):
                for x, y in ((a, b), (b, a)):
                    if x is True:
                        return y if op == "and" else True
                    if x is False:
                        return False if op == "and" else y
                if a == b:
                    return a
                return Cond(op, a, b)
            if op == "xor":
                for x, y in ((a, b), (b, a)):
                    if x is True:
                        return cnot(y)
                    if x is False:
                        return y
            return Cond("unk", (op, a, b))
        if isinstance(a, Bits) or isinstance(b, Bits):
            r = s.bitop(op, a, b, ty)
            if r is not None:
                return r
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if isinstance(a, Ptr) and isinstance(b, Ptr) and op == "sub" and a.r is b.r:
                return a.o - b.o
            if isinstance(a, Ptr) and op == "add":
                return Ptr(a.r, a.o + s.toint(b))
            if isinstance(b, Ptr) and op == "add":
                return Ptr(b.r, b.o + s.toint(a))
            if isinstance(a, Ptr) and op == "sub":
                return Ptr(a.r, a.o - s.toint(b))
        if isinstance(a, CInt) and isinstance(b, CInt) and op in ("and", "or"):
            return CInt(s.ibin(st, op, a.c, b.c, I1, it))
        if isinstance(a, CInt) and isinstance(b, Poly) and b.is_const() and b.cval() == 1 and op == "and":
            return a
        a, b = s.toint(a), s.toint(b)
        if op == "add":
            return a + b
        if op == "sub":
            return a - b
        if op == "mul":
            return a * b
        m = (1 << ty.n) - 1
        ac, bc = a.is_const(), b.is_const()
        if op == "shl" and bc:
            return a.scale(1 << int(b.cval()))
        if ac and bc:
            x, y = int(a.cval()), int(b.cval())
            ux, uy = x & m, y & m

            def sg(z):
                z &= m
                return z - (1 << ty.n) if z >> (ty.n - 1) else z
            if op in ("sdiv", "srem", "udiv", "urem") and y == 0:
                return Poly.atom(s.fresh("div0"))
            if op == "sdiv":
                q = abs(x) // abs(y)
                return Poly.const(q if (x < 0) == (y < 0) else -q)
            if op == "srem":
                r = abs(x) % abs(y)
                return Poly.const(r if x >= 0 else -r)
            if op == "udiv":
                return Poly.const(sg(ux // uy))
            if op == "urem":
                return Poly.const(sg(ux % uy))
            if op == "shl":
                return Poly.const(sg(ux << uy))
            if op == "lshr":
                return Poly.const(sg(ux >> uy))
            if op == "ashr":
                return Poly.const(sg(x >> uy))
            if op == "and":
                return Poly.const(sg(ux & uy))
            if op == "or":
                return Poly.const(sg(ux | uy))
            if op == "xor":
                return Poly.const(sg(ux ^ uy))
        lo, hi = st.bounds(a)
        if bc and op in ("sdiv", "udiv", "srem", "urem") and b.cval() > 0:
            d = int(b.cval())
            if op in ("sdiv", "udiv"):
                q = a.scale(Fraction(1, d))
                if all(isinstance(v, int) or v.denominator == 1 for v in q.d.values()):
                    return q
                tr = lambda x: None if x is None else (abs(x) // d) * (1 if x >= 0 else -1)
                return Poly.atom(s.opaque(op, a, d, lo=tr(lo), hi=tr(hi)))
            if lo is not None and hi is not None and 0 <= lo and hi < d:
                return a
            return Poly.atom(s.opaque(op, a, d, lo=0 if lo is not None and lo >= 0 else 1 - d, hi=d - 1))
        if bc and op in ("lshr", "ashr") and lo is not None and lo >= 0:
            d = 1 << int(b.cval())
            return Poly.atom(s.opaque("shr", a, d, lo=lo // d, hi=None if hi is None else hi // d))
        if op == "and" and bc and b.cval() > 0:
            y = int(b.cval())
            if y & (y + 1) == 0 and lo is not None and hi is not None and lo >= 0 and hi <= y:
                return a
            return Poly.atom(s.opaque("and", a, y, lo=0, hi=y))
        return Poly.atom(s.opaque(op, a, b))

    def bitop(s, op, a, b, ty):
        k = (op, a, b, ty.n)
        if k in s.opcache:
            return s.opcache[k]
        r = s.opcache[k] = s._bitop(op, a, b, ty)
        return r

    def _bitop(s, op, a, b, ty):
        w = ty.n

        def tob(x):
            if isinstance(x, Bits):
                return x
            if isinstance(x, Poly) and x.is_const():
                v = int(x.cval()) & ((1 << w) - 1)
                return Bits(None, w, tuple((v >> i) & 1 for i in range(w)))
            return None
        if isinstance(a, Bits) and a.w != w:
            return None
        if op in ("shl", "lshr", "ashr") and isinstance(a, Bits) and isinstance(b, Poly) and b.is_const():
            n = int(b.cval())
            bits = tuple(x if x is not None else ("b", i) for i, x in enumerate(a.bits))
            if op == "shl":
                nb = (0,) * n + bits[:w - n]
            else:
                fill = 0 if op == "lshr" else bits[-1]
                nb = bits[n:] + (fill,) * n
            return s.mkbits(a.src, w, nb, a.prec)
        if op not in ("and", "or", "xor"):
            return None
        a, b = tob(a), tob(b)
        if a is None or b is None:
            return None
        src = a.src if a.src is not None else b.src
        prec = a.prec if a.src is not None else b.prec
        if a.src is not None and b.src is not None and a.src != b.src:
            # one side may be fully known
            if s.bits_known(a) is not None:
                src, prec = b.src, b.prec
            elif s.bits_known(b) is not None:
                src, prec = a.src, a.prec
            else:
                return None
        elif b.src is not None and s.bits_known(a) is not None:
            src, prec = b.src, b.prec
        out = []
        for i, (x, y) in enumerate(zip(a.bits, b.bits)):
            x = x if x is not None else ("b", i)
            y = y if y is not None else ("b", i)
            if op == "and":
                if x == 0 or y == 0:
                    r = 0
                elif x == 1:
                    r = y
                elif y == 1 or x == y:
                    r = x
                else:
                    return None
            elif op == "or":
                if x == 1 or y == 1:
                    r = 1
                elif x == 0:
                    r = y
                elif y == 0 or x == y:
                    r = x
                else:
                    return None
            else:
                if x == 0:
                    r = y
                elif y == 0:
                    r = x
                elif x == y:
                    r = 0
                elif x in (0, 1) and y in (0, 1):
                    r = x ^ y
                elif y == 1:
                    r = ("n" if x[0] == "b" else "b", x[1])
                elif x == 1:
                    r = ("n" if y[0] == "b" else "b", y[1])
                else:
                    return None
            out.append(r)
        return s.mkbits(src, w, tuple(out), prec)

    def mkbits(s, src, w, bits, prec):
        bits = tuple(None if x == ("b", i) else x for i, x in enumerate(bits))
        if src is None or all(x in (0, 1) for x in bits):
            v = 0
            for i, x in enumerate(bits):
                if x:
                    v |= 1 << i
            if v >> (w - 1):
                v -= 1 << w
            if src is None or w != WID.get(prec, 0) or True:
                return Poly.const(v)
        return Bits(src, w, bits, prec)

    def cast(s, st, op, v, fty, ty, it):
        if v is UNDEF:
            return tuple(UNDEF for _ in range(ty.n)) if ty.k == "vec" else UNDEF
        if op == "bitcast":
            return s.bitcast(v, fty, ty)
        if isinstance(v, tuple):
            return tuple(s.cast(st, op, x, fty.t, ty.t, it) for x in v)
        if op == "sext":
            if isinstance(v, (bool, Cond)):
                return Poly.const(-1 if v else 0) if isinstance(v, bool) else CInt(v, True)
            return v
        if op == "zext":
            if isinstance(v, (bool, Cond)):
                return Poly.const(int(v)) if isinstance(v, bool) else CInt(v)
            if isinstance(v, Bits):
                return s.mkbits(v.src, ty.n, tuple(("b", i) if x is None else x for i, x in enumerate(v.bits)) + (0,) * (ty.n - v.w), v.prec)
            if isinstance(v, Poly) and v.is_const() and v.cval() < 0:
                return Poly.const(int(v.cval()) + (1 << fty.n))
            return v
        if op == "trunc":
            if isinstance(v, Bits):
                r = s.mkbits(v.src, ty.n, tuple(("b", i) if x is None else x for i, x in enumerate(v.bits))[:ty.n], v.prec)
                if ty.n == 1:
                    return s.tocond(s.toint(r))
                return r
            if ty.n == 1:
                return s.tocond(v)
            if isinstance(v, Poly) and v.is_const():
                m = (1 << ty.n) - 1
                x = int(v.cval()) & m
                return Poly.const(x - (1 << ty.n) if x >> (ty.n - 1) else x)
            if isinstance(v, Poly):
                lo, hi = st.bounds(v)
                if lo is not None and hi is not None and -(1 << ty.n - 1) <= lo and hi < 1 << (ty.n - 1):
                    return v
                if all(a.name.startswith("sizet") for a in v.atoms()):
                    return v
                return Poly.atom(s.opaque("trunc", v, ty.n)) if ty.n < 32 else v
            return v
        if op == "fpext":
            if isinstance(v, F):
                s.fvals.add(p2norm(v.p))
                return F(v.p, v.odd, "d", v.rng, v.inex)
            return v
        if op == "fptrunc":
            if isinstance(v, F):
                if v.p.is_const():
                    import struct
                    try:
                        return F(Poly.const(Fraction(struct.unpack("<f", struct.pack("<f", float(v.p.cval())))[0])), prec="f")
                    except OverflowError:
                        return F(Poly.atom(s.opaque("Inf", cls=("inf", 0))), prec="f")
                r = s.client.fop(s, st, "fptrunc", v, v, it)
                if r is not NotImplemented:
                    return r
                if p2norm(v.p) in s.fvals:       # a float scaled by a power of two
                    return F(v.p, v.odd, "f", v.rng, v.inex)
                c = fclass(v)
                return F(Poly.atom(s.opaque("fptrunc", v.p, info=("fptrunc", v.p), cls=c if c and c[0] in ("nan", "inf", "zero") else None)), prec="f")
            return v
        if op in ("sitofp", "uitofp"):
            p = s.toint(v)
            return F(p, prec="f" if ty.k == "f" else "d")
        if op in ("fptosi", "fptoui"):
            if isinstance(v, F) and v.p.is_const():
                return Poly.const(int(v.p.cval()))
            return Poly.atom(s.opaque("fptosi", v.p if isinstance(v, F) else v))
        if op in ("ptrtoint", "inttoptr"):
            return v
        raise AnalysisBroken("cast " + op)

    def bitcast(s, v, fty, ty):
        if fty.k == "vec" and ty.k == "vec":
            if fty.n == ty.n:
                return tuple(s.bitcast(x, fty.t, ty.t) for x in v)
            # lane-count change: <4 x double> <-> <8 x float> etc.
            return s.revec(v, fty, ty)
        if ty.k == "i" and fty.k in ("f", "d"):
            return s.f_bits(v, ty.n) if isinstance(v, F) else v
        if ty.k in ("f", "d") and fty.k == "i":
            return s.retype(v, ty)
        if fty.k == "vec" and ty.k != "vec":
            return s.revec(v, fty, Ty("vec", 1, ty))[0]
        if ty.k == "vec":
            return s.revec((v,), Ty("vec", 1, fty), ty)
        return v

    def revec(s, v, fty, ty):
        """regroup lanes of different width: keep whole floats when they line up, else opaque"""
        fs, ts = fty.t.size(), ty.t.size()
        if fs < ts and ts % fs == 0:
            k = ts // fs
            out = []
            for i in range(ty.n):
                grp = v[i * k:(i + 1) * k]
                out.append(("grp",) + tuple(grp))
            return tuple(Grp(g[1:], fty.t) for g in out)
        if fs > ts and fs % ts == 0:
            k = fs // ts
            out = []
            for x in v:
                if isinstance(x, Grp) and x.t.size() == ts:
                    out.extend(s.bitcast(y, x.t, ty.t) for y in x.v)
                elif isinstance(x, Poly) and x.is_const():
                    n = int(x.cval()) & ((1 << (8 * fs)) - 1)
                    for j in range(k):
                        c = (n >> (8 * ts * j)) & ((1 << 8 * ts) - 1)
                        if ty.t.k == "i":
                            out.append(Poly.const(c - (1 << 8 * ts) if c >> (8 * ts - 1) else c))
                        else:
                            out.append(s.retype(Poly.const(c), ty.t))
                elif isinstance(x, F) and x.p == ZERO and not x.odd:
                    out.extend(s.const(Operand("c", "zero", ty.t)) for _ in range(k))
                else:
                    out.extend(s.mk_opaque(("lanepart", x, j), ty.t) for j in range(k))
            return tuple(out)
        raise AnalysisBroken("vector bitcast %r -> %r" % (fty, ty))

    def icmp(s, st, cc, a, b, it):
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if isinstance(a, (Ptr, Opq)) or isinstance(b, (Ptr, Opq)):
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.r is b.r:
                a, b = a.o, b.o
            elif cc in ("eq", "ne"):
                if isinstance(a, Ptr) and isinstance(b, Poly) or isinstance(b, Ptr) and isinstance(a, Poly):
                    p = a if isinstance(a, Ptr) else b
                    h = getattr(s.client, "null_cond", None)
                    if h:
                        r = h(s, st, p)
                        if r is not None:
                            return r if cc == "eq" else cnot(r)
                    if p.r.kind == "heap":
                        c = Cond("unk", ("isnull", p.r))
                        return c if cc == "eq" else cnot(c)
                    return cc == "ne"
                if isinstance(a, Ptr) and isinstance(b, Ptr):
                    c = Cond("unk", ("ptreq", a, b))
                    return c if cc == "eq" else cnot(c)
                c = Cond("unk", ("eq", a, b))
                return c if cc == "eq" else cnot(c)
            else:
                return Cond("unk", (cc, a, b))
        if isinstance(a, Cond) or isinstance(a, bool):
            if isinstance(b, bool):
                r = a if b else cnot(a)
                return r if cc == "eq" else cnot(r)
        if isinstance(a, CInt) and isinstance(b, Poly) and b.is_const() and cc in ("eq", "ne"):
            t = -1 if a.neg else 1
            if b.cval() == 0:
                return a.c if cc == "ne" else cnot(a.c)
            if b.cval() == t:
                return a.c if cc == "eq" else cnot(a.c)
            return cc == "ne"
        if isinstance(a, Bits) and isinstance(b, Poly) and b.is_const() and cc in ("eq", "ne"):
            r = s.bits_eq(a, int(b.cval()) & ((1 << a.w) - 1))
            if r is not None:
                return r if cc == "eq" else cnot(r)
        a, b = s.toint(a), s.toint(b)
        d = a - b
        if cc in ("eq", "ne"):
            if not d.d:
                return cc == "eq"
            if d.is_const():
                return cc == "ne"
            r = s.sel_eq(st, d)
            if r is not None:
                return r if cc == "eq" else cnot(r)
            return Cond("cmp", cc, d)
        if cc[0] == "u":
            la, _ = st.bounds(a)
            lb, _ = st.bounds(b)
            if la is None or lb is None or la < 0 or lb < 0:
                if a.is_const() and b.is_const():
                    m = (1 << it.ops[0].ty.n) - 1 if it.ops[0].ty.k == "i" else (1 << 64) - 1
                    x, y = int(a.cval()) & m, int(b.cval()) & m
                    return {"lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y}[cc[1:]]
                return Cond("unk", (cc, a, b))
        r = {"lt": ("lt", d), "le": ("le", d), "gt": ("lt", -d), "ge": ("le", -d)}[cc[1:]]
        c = Cond("cmp", *r)
        dd = st.decide(c)
        return c if dd is None else dd

    def sel_eq(s, st, d):
        """d == 0 where d is a selected integer plus a constant"""
        for k, v in d.d.items():
            if len(k) == 1 and k[0].info and k[0].info[0] == "sel":
                rest = d - Poly({k: v})
                if not rest.is_const():
                    return None
                _, c, a, b = k[0].info
                out = []
                for x in (a, b):
                    y = x.scale(v) + rest
                    if y.is_const():
                        out.append(not y.d)
                    elif st.nonzero(y):
                        out.append(False)
                    else:
                        out.append(s.sel_eq(st, y))
                if None in out:
                    return None
                x, y = out
                if x is True and y is False:
                    return c
                if x is False and y is True:
                    return cnot(c)
                if x is y:
                    return x
                if y is False:
                    return Cond("and", c, x)
                if x is False:
                    return Cond("and", cnot(c), y)
                return None
        return None

    def bits_eq(s, b, v):
        own = []
        for i, x in enumerate(b.bits):
            if x in (0, 1):
                if x != (v >> i) & 1:
                    return False
            else:
                if isinstance(x, tuple) and x[0] == "n":
                    return Cond("unk", ("bits", b, v))
                own.append(i if x is None else x[1])
        if not own:
            return True
        m = MANT[b.prec]
        w = WID[b.prec]
        ef = list(range(m, w - 1))
        # test "exponent field is all ones"
        if sorted(own) == ef or (own and set(own) <= set(ef)):
            idx = [i for i, x in enumerate(b.bits) if x not in (0, 1)]
            if all((v >> i) & 1 for i in idx) and sorted(own) == ef:
                return Cond("cls", b.src, frozenset(("nan", "inf")))
        return Cond("unk", ("bits", b, v))

    def fcmp(s, pred, a, b):
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if pred == "true":
            return True
        if pred == "false":
            return False
        if not isinstance(a, F) or not isinstance(b, F):
            return Cond("unk", (pred, a, b))
        for x, y in ((a, b), (b, a)):        # |x| == inf
            cy = fclass0(y)
            if cy and cy[0] == "inf" and cy[1] == 0 and pred in ("oeq", "une", "ueq", "one") and not x.odd:
                ax = x.p.single()
                if ax is not None and ax.info and ax.info[0] == "abs":
                    nm = frozenset(("inf",)) if pred in ("oeq", "une") else frozenset(("inf", "nan"))
                    c = Cond("cls", F(ax.info[1], False, x.prec), nm)
                    k = fclass(c.a[0])
                    k = clsin(k, nm) if k else None
                    if k is not None:
                        c = k
                    return c if pred in ("oeq", "ueq") else cnot(c)
        if a == b and pred in ("uno", "ord", "une", "oeq") and not a.odd and fclass(a) is None:
            c = Cond("cls", a, frozenset(("nan",)))
            return c if pred in ("uno", "une") else cnot(c)
        c = Cond("f", pred, a, b)
        d = fdecide(c)
        return c if d is None else d

    # ---- calls
    def call(s, it, st):
        name = it.x
        if name[0] != "@":
            v = s.val(Operand("v", name, PTR), st)
            if isinstance(v, Opq) and isinstance(v.n, tuple) and v.n[0] == "fn":
                name = "@" + v.n[1]
            else:
                raise AnalysisBroken("indirect call in " + s.stack[-1].name)
        name = name[1:]
        if name.startswith(("llvm.lifetime", "llvm.dbg", "llvm.assume", "llvm.experimental.noalias")):
            return None
        args = [s.val(o, st) for o in it.ops]
        r = s.client.call(s, st, name, args, it)
        if r is not NotImplemented:
            return r
        f = s.prog.lookup(name, s.stack[-1].mod)
        if f is not None:
            outs = s.call_function(f, args, st)
            return [(o, v) for o, v in outs]
        r = s.builtin(st, name, args, it)
        if r is not NotImplemented:
            return r
        return s.client.unknown_call(s, st, name, args, it)

    def builtin(s, st, name, args, it):
        if name.startswith("llvm.fabs"):
            if isinstance(args[0], tuple):
                return tuple(F(s.abs_poly(x.p), x.odd, x.prec) for x in args[0])
            if args[0] is UNDEF:
                return UNDEF
            return F(s.abs_poly(args[0].p), args[0].odd, args[0].prec)
        if name.startswith("llvm.is.fpclass"):
            m = int(args[1].cval())
            names = set()
            if m & 0x3:
                names.add("nan")
            if m & (0x4 | 0x200):
                names.add("inf")
            if m & (0x60 | 0):
                names.add("zero")
            if m & (0x8 | 0x100):
                names.add("norm")
            c = Cond("cls", args[0], frozenset(names))
            d = st.decide(c)
            return c if d is None else d
        if name in ("ldexp", "ldexpf", "llvm.ldexp.f64.i32", "llvm.ldexp.f32.i32"):
            x, e = args
            pr = "f" if name == "ldexpf" else "d"
            if isinstance(e, Poly) and e.is_const():
                k = Fraction(2) ** int(e.cval())
                if x.p.is_const():
                    v = x.p.cval() * k
                    mx = Fraction(2) ** (1024 if pr == "d" else 128)
                    mn = Fraction(2) ** (-1074 if pr == "d" else -149)
                    if abs(v) >= mx:
                        return F(Poly.atom(s.opaque("Inf", cls=("inf", 0))), prec=pr)
                    if v != 0 and abs(v) < mn / 2:
                        return F(ZERO, prec=pr)
                    return F(Poly.const(v), prec=pr)
                return F(x.p.scale(k), prec=pr)
            return F(x.p * Poly.atom(s.opaque("exp2", s.toint(e))), prec=pr)
        if name in ("frexp", "frexpf"):
            x, p = args
            c = fclass(x)
            if c and c[0] == "norm":
                e = Poly.const(c[1] + 1)
            else:
                e = Poly.atom(s.opaque("frexp_exp", x.p))
            if isinstance(p, Ptr):
                s.store(st, p, e, I32, it)
            return F(Poly.atom(s.opaque("frexp_man", x.p)), prec=x.prec)
        if name in ("sqrt", "sqrtf", "llvm.sqrt.f64", "llvm.sqrt.f32"):
            return F(Poly.atom(s.opaque("sqrt", args[0].p)), prec=args[0].prec)
        if name.startswith("llvm.memset"):
            return s.memset(st, args, it)
        if name.startswith("llvm.memcpy") or name.startswith("llvm.memmove") or name in ("memcpy", "memmove"):
            return s.memcpy(st, args, it)
        if name in ("fmin", "fmax", "fminf", "fmaxf") or name.startswith(("llvm.maxnum", "llvm.minnum", "llvm.x86")):
            return NotImplemented
        return NotImplemented

    def memset(s, st, args, it):
        p, v, n = args[0], args[1], s.toint(args[2])
        h = getattr(s.client, "on_memset", None)
        if h and isinstance(p, Ptr):
            h(s, st, p, v, n, it)
            return None
        if isinstance(p, Ptr):
            m = st.wmem(p.r)
            if n.is_const() and p.o.is_const():
                lo, hi = int(p.o.cval()), int(p.o.cval() + n.cval())
                for o in list(m):
                    if not o.is_const() or lo <= o.cval() < hi:
                        del m[o]
            else:
                m.clear()
        return None

    def memcpy(s, st, args, it):
        d, sr, n = args[0], args[1], s.toint(args[2])
        h = getattr(s.client, "on_memcpy", None)
        if h:
            h(s, st, d, sr, n, it)
            return None
        if isinstance(d, Ptr) and isinstance(sr, Ptr) and n.is_const() and n.cval() <= 65536:
            m = st.mem.get(sr.r, {})
            new = {}
            for o, e in m.items():
                k = o - sr.o
                if k.is_const() and 0 <= k.cval() < n.cval():
                    new[d.o + k] = e
            w = st.wmem(d.r)
            for o in list(w):
                k = o - d.o
                if not k.is_const() or 0 <= k.cval() < n.cval():
                    del w[o]
            w.update(new)
            return None
        raise AnalysisBroken("memcpy")

    # ---- join
    def slots(s, st, b):
        """named scalar values of the state in a deterministic order"""
        out = []
        for n, p in s.client.ghosts(st):
            out.append((("g", n), p))
        for n in sorted(st.env):
            v = st.env[n]
            if isinstance(v, tuple):
                for i, x in enumerate(v):
                    out.append((("e", n, i), x))
            else:
                out.append((("e", n), v))
        return out

    def join(s, f, A, B, b, hdr):
        """least-effort upper bound of A and B (hdr: iteration number at a widened header, else None)"""
        J = State()
        J.ctx = A.ctx
        c = s.client
        c.pre_join(s, A, B, b, hdr) if hasattr(c, "pre_join") else None
        J.ghost = A.ghost.copy() if A.ghost is not None else None
        J.ne = A.ne & B.ne
        pivots = []          # (atom, pA, pB, delta)

        def jint(slot, x, y):
            if x == y:
                return x
            d = y - x
            for t, pa, pb, dt in pivots:
                q = d.divide(dt)
                if q is not None and all(isinstance(v, int) for v in q.d.values()):
                    return x + q * (Poly.atom(t) - pa)
            if len(pivots) > 1:
                for g in dict.fromkeys((ONE, content(d))):
                    co = lincomb(d if g is ONE else d.divide(g), [dt for _, _, _, dt in pivots])
                    if co is not None and all(isinstance(v, int) or v.denominator == 1 for v in co):
                        r = ZERO
                        for v, (t, pa, pb, dt) in zip(co, pivots):
                            if v:
                                r = r + (Poly.atom(t) - pa).scale(int(v))
                        return x + r * g
            t = s.fresh("%s@%s" % (slot[1] if len(slot) > 1 else slot, (b.name if b else "ret")))
            g = content(d) if hdr is None else ONE
            if g != ONE:
                # in units of the common factor, so that other values can be expressed by it
                xq, xr = {}, {}
                for m, v in x.d.items():
                    q = Poly({m: v}).divide(g)
                    if q is not None and all(isinstance(w, int) for w in q.d.values()):
                        xq.update(q.d)
                    else:
                        xr[m] = v
                xq = Poly(xq)
                dq = d.divide(g)
                pivots.append((t, xq, xq + dq, dq))
                return Poly(xr) + g * Poly.atom(t)
            pivots.append((t, x, y, d))
            return Poly.atom(t)

        gA, gB = c.ghosts(A), c.ghosts(B)
        newg = []
        for (n, x), (_, y) in zip(gA, gB):
            newg.append((n, jint(("g", n), x, y)))
        c.set_ghosts(J, newg)
        s.joining = J

        def jval(slot, x, y):
            if isinstance(x, F) and isinstance(y, F) and x is not y and x == y and (x.rng != y.rng or x.inex != y.inex):
                r = None
                if x.rng and y.rng and (hdr is None or hdr < 2):
                    r = (min(x.rng[0], y.rng[0]), max(x.rng[1], y.rng[1]))
                return F(x.p, x.odd, x.prec, r, x.inex or y.inex)
            if x is y or (type(x) is type(y) and x == y):
                return x
            if isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y):
                return tuple(jval(slot + (i,), p, q) for i, (p, q) in enumerate(zip(x, y)))
            if x is UNDEF or y is UNDEF:
                return UNDEF
            if isinstance(x, (CInt, bool, Bits)) and isinstance(y, (Poly, CInt, bool, Bits)) and not isinstance(x, Bits):
                x = s.toint(x)
            if isinstance(y, (CInt, bool)) and isinstance(x, Poly):
                y = s.toint(y)
            if isinstance(x, Poly) and isinstance(y, Poly):
                return jint(slot, x, y)
            if isinstance(x, Ptr) and isinstance(y, Ptr):
                if x.r is y.r:
                    return Ptr(x.r, jint(slot, x.o, y.o))
                h = getattr(c, "join_ptr", None)
                if h:
                    r = h(s, x, y, A, B, slot)
                    if r is not None:
                        return r
                return Opq(("ptrjoin", slot, x, y))
            if isinstance(x, F) and isinstance(y, F):
                r = c.join_float(s, x, y, A, B, slot, hdr)
                if r is not None:
                    return r
                return s.alt(x, y)
            if isinstance(x, (Cond, bool)) and isinstance(y, (Cond, bool)):
                return Cond("unk", ("join", slot, s.nxt()))
            if isinstance(x, (F, Bits)) and isinstance(y, (F, Bits)):
                if isinstance(x, Bits) and isinstance(y, Bits):
                    return Opq(("join", slot, s.nxt()))
            return Opq(("join", slot, s.nxt()))

        for n in sorted(A.env):
            if n in B.env:
                J.env[n] = jval(("e", n), A.env[n], B.env[n])
        regs = sorted(set(A.mem) | set(B.mem), key=lambda r: r.seq)
        for r in regs:
            ma, mb = A.mem.get(r), B.mem.get(r)
            if ma is mb:
                J.mem[r] = ma
                continue
            if ma is None or mb is None:
                if r.kind in ("alloca", "heap"):
                    J.mem[r] = ma if ma is not None else mb
                    continue
            ma, mb = ma or {}, mb or {}
            out = {}
            keys = list(ma) + [k for k in mb if k not in ma]
            for o in keys:
                ea, eb = ma.get(o), mb.get(o)
                if ea is None or eb is None:
                    have = ea or eb
                    if r.kind in ("alloca", "heap"):
                        # absent = uninitialised there
                        h = getattr(c, "absent", None)
                        v = h(s, A if ea is None else B, r, o, have) if h else None
                    else:
                        v = s.absent_value(A if ea is None else B, r, o, have)
                    if v is None:
                        if r.kind in ("alloca", "heap"):
                            out[o] = (UNDEF, have[1]) if getattr(c, "strict_undef", False) else have
                            if not getattr(c, "strict_undef", False):
                                out[o] = have if have[0] is not UNDEF else have
                        continue
                    if ea is None:
                        ea = (v, have[1])
                    else:
                        eb = (v, have[1])
                if ea[1] != eb[1]:
                    continue
                out[o] = (jval(("m", r.name, o), ea[0], eb[0]), ea[1])
            J.mem[r] = out
        # constraints
        for t, pa, pb, d in pivots:
            la, ha = A.bounds(pa)
            lb, hb = B.bounds(pb)
            s.put(J, Poly.atom(t), s.hull((la, ha), (lb, hb), A, B, t, hdr))
        keys = dict.fromkeys(list(A.cons) + list(B.cons))
        live = None
        for q in keys:
            ba = A.cons.get(q) or A.bounds(q)
            bb = B.cons.get(q) or B.bounds(q)
            s.put(J, q, s.hull(ba, bb, A, B, None, hdr))
        # relational templates: differences between pivots and the other integers
        tmpl = {}
        for n, v in J.env.items():
            if isinstance(v, Poly) and len(v.d) <= 3:
                tmpl[v] = (A.env[n], B.env[n])
        for n, v in newg:
            x = dict(gA)[n]
            y = dict(gB)[n]
            tmpl.setdefault(v, (x, y))
        for v, x, y in c.template_exprs(s, A, B, J) if hasattr(c, "template_exprs") else ():
            s.put(J, v, s.hull(A.bounds(x), B.bounds(y), A, B, None, hdr))
        if getattr(c, "pair_templates", False) and pivots:
            new = {t for t, _, _, _ in pivots}
            tl = [(v, x, y) for v, (x, y) in tmpl.items() if isinstance(x, Poly) and isinstance(y, Poly) and not v.is_const()]
            tl += [(Poly.atom(t), pa, pb) for t, pa, pb, _ in pivots]
            for i, (v, x, y) in enumerate(tl):
                for w, x2, y2 in tl[:i]:
                    q = v - w
                    if len(q.d) <= 4 and q.atoms() & new:
                        ba = A.bounds(x - x2, 1)
                        if ba[0] is not None or ba[1] is not None:
                            s.put(J, q, s.hull(ba, B.bounds(y - y2, 1), A, B, None, hdr))
        for t, pa, pb, d in pivots:
            T = Poly.atom(t)
            for v, (x, y) in tmpl.items():
                if v == T or not isinstance(x, Poly) or not isinstance(y, Poly):
                    continue
                if v.is_const():
                    continue
                s.put(J, v - T, s.hull(A.bounds(x - pa), B.bounds(y - pb), A, B, None, hdr))
            # the two alternatives themselves bound the joined value
            if hdr is None and not d.is_const():
                l, h = B.bounds(pb - pa)
                s.put(J, T - pa, (min(0, l) if l is not None else None, max(0, h) if h is not None else None))
                l, h = A.bounds(pa - pb)
                s.put(J, T - pb, (min(0, l) if l is not None else None, max(0, h) if h is not None else None))
        c.join_ghost(s, A, B, J, hdr)
        s.gc(J)
        if getattr(c, "pair_templates", False):
            s.prune(J)
        return J

    def prune(s, J):
        """drop constraints the others imply"""
        ks = sorted(J.cons, key=lambda k: (len(k.d), sum(abs(x) for x in k.d.values()), repr(k)), reverse=True)
        for k in ks:
            if len(k.d) < 2 and all(x == 1 for x in k.d.values()):
                continue
            lo, hi = J.cons.pop(k)
            J._v = None
            l, h = J.bounds(k, 1)
            if not ((lo is None or l is not None and l >= lo) and (hi is None or h is not None and h <= hi)):
                J.cons[k] = (lo, hi)
                J._v = None

    def absent_value(s, st, r, o, have):
        v, size = have
        if isinstance(v, F):
            ty = FLT if size == 4 else DBL
        elif isinstance(v, Poly):
            ty = Ty("i", size * 8)
        else:
            return None
        return s.region_init(st, r, o, ty, None)

    def hull(s, a, b, A, B, t, hdr):
        lo = None if a[0] is None or b[0] is None else min(a[0], b[0])
        hi = None if a[1] is None or b[1] is None else max(a[1], b[1])
        if hdr is not None and hdr >= WIDEN_AT:
            # widening: unstable bounds go
            if a[0] is not None and b[0] is not None and b[0] < a[0]:
                lo = None
            if a[1] is not None and b[1] is not None and b[1] > a[1]:
                hi = None
        return lo, hi

    def put(s, J, p, bd):
        if bd[0] is None and bd[1] is None:
            return
        if p.is_const():
            return
        key, sg, c = p.norm()
        lo, hi = bd
        if sg < 0:
            lo, hi = (None if hi is None else -(hi - c)), (None if lo is None else -(lo - c))
        else:
            lo, hi = (None if lo is None else lo - c), (None if hi is None else hi - c)
        old = J.cons.get(key)
        if old:
            if lo is None or (old[0] is not None and old[0] > lo):
                lo = old[0]
            if hi is None or (old[1] is not None and old[1] < hi):
                hi = old[1]
        J.cons[key] = (lo, hi)
        J._v = None

    def gc(s, J):
        """drop constraints over symbols that no longer occur in any value"""
        live = set()
        for n, v in J.env.items():
            for x in (v if isinstance(v, tuple) else (v,)):
                if isinstance(x, Poly):
                    live |= x.atoms()
                elif isinstance(x, Ptr):
                    live |= x.o.atoms()
                elif isinstance(x, (Cond, CInt)):
                    s.cond_atoms(x, live)
        for _, p in s.client.ghosts(J):
            live |= p.atoms()
        for r, m in J.mem.items():
            for o, e in m.items():
                if isinstance(e[0], Poly):
                    live |= e[0].atoms()
                live |= o.atoms()
        live |= getattr(s.client, "roots", set())
        x = s.client.live_atoms(J) if hasattr(s.client, "live_atoms") else ()
        live |= set(x)
        for q in list(J.cons):
            if not q.atoms() <= live:
                del J.cons[q]
                J._v = None

    def cond_atoms(s, c, live):
        if isinstance(c, CInt):
            c = c.c
        if isinstance(c, Cond):
            for x in c.a:
                if isinstance(x, Poly):
                    live |= x.atoms()
                elif isinstance(x, Cond):
                    s.cond_atoms(x, live)

    def alt(s, x, y):
        """finite disjunction of two float forms"""
        alts = []
        for v in (x, y):
            a = v.p.single()
            if a is not None and a.info and a.info[0] == "alt" and not v.odd:
                for z in a.info[1]:
                    if z not in alts:
                        alts.append(z)
            elif v not in alts:
                alts.append(v)
        if len(alts) == 1:
            return alts[0]
        if len(alts) > 40:
            return F(Poly.atom(s.fresh("top")))
        key = frozenset(alts)
        cl = {fclass(v) for v in alts}
        a = s.opaque("alt", key, info=("alt", tuple(alts)), cls=cl.pop() if len(cl) == 1 else None)
        return F(Poly.atom(a), prec=x.prec)

    def leq(s, f, H, B, b):
        """is B covered by header state H?"""
        sigma = {}
        c = s.client

        def match(h, v):
            if h is v or (type(h) is type(v) and h == v):
                if isinstance(h, F) and h is not v:
                    if h.rng is not None and (v.rng is None or v.rng[0] < h.rng[0] or v.rng[1] > h.rng[1]):
                        return False
                    return h.inex or not v.inex
                if not isinstance(h, Poly):
                    return True
            if isinstance(h, tuple) and isinstance(v, tuple):
                return len(h) == len(v) and all(match(p, q) for p, q in zip(h, v))
            if isinstance(h, (F,)) and isinstance(v, F):
                r = c.leq_float(s, h, v, H, B) if hasattr(c, "leq_float") else None
                return h == v if r is None else r
            if isinstance(h, Poly) and isinstance(v, (Poly, CInt, bool)):
                return mint(h, s.toint(v))
            if isinstance(h, Ptr) and isinstance(v, Ptr):
                return h.r is v.r and mint(h.o, v.o)
            if h is UNDEF:
                return True
            if isinstance(h, Opq) or (isinstance(h, Cond) and h.op == "unk"):
                return True
            return h == v
        todo = []

        def mint(h, v):
            a = h.single()
            if a is not None and "@" in a.name and a not in sigma:
                sigma[a] = v
                return True
            todo.append((h, v))
            return True
        for (n, x), (_, y) in zip(c.ghosts(H), c.ghosts(B)):
            if not match(x, y):
                return False
        for n, h in sorted(H.env.items()):
            if n not in B.env:
                return False
            if not match(h, B.env[n]):
                return False
        for r, m in H.mem.items():
            mb = B.mem.get(r, {})
            if m is mb:
                continue
            for o, e in m.items():
                eb = mb.get(o)
                if eb is None:
                    if r.kind in ("alloca", "heap"):
                        continue
                    return False
                if not match(e[0], eb[0]):
                    return False
            if r.kind not in ("alloca", "heap"):
                for o in mb:
                    if o not in m:
                        e = s.absent_value(H, r, o, mb[o])
                        if e is not None and not match(e, mb[o][0]):
                            return False
        for h, v in todo:
            if h.subst(sigma) != v:
                return False
        for q, (lo, hi) in H.cons.items():
            l, h = B.bounds(q.subst(sigma))
            if lo is not None and (l is None or l < lo):
                return False
            if hi is not None and (h is None or h > hi):
                return False
        for q in H.ne:
            if not B.nonzero(q.subst(sigma)):
                return False
        return c.ghost_leq(s, H, B, sigma)


class Grp:
    """adjacent narrow lanes viewed as one wide lane"""
    __slots__ = ("v", "t")

    def __init__(s, v, t):
        s.v, s.t = v, t

    def __eq__(s, o):
        return isinstance(o, Grp) and s.v == o.v

    def __ne__(s, o):
        return not s == o

    def __hash__(s):
        return hash(s.v)


def analyse(prog, client, func, args, state):
    """run to completion, restarting when a loop must be widened. args/state: zero-argument factories"""
    ip = Interp(prog, client)
    while True:
        try:
            if hasattr(client, "reset"):
                client.reset()
            ip.stack = []
            f = prog.lookup(func)
            if f is None:
                raise AnalysisBroken("function %s not found" % func)
            st = State()
            a = state(ip, st)
            return ip, ip.call_function_top(f, a, st)
        except Restart:
            continue


def _top(s, f, args, st):
    st.env = {}
    for (nm, ty), v in zip(f.args, args):
        st.env[nm] = v
    s.stack = [f]
    return s.run(f, st)


Interp.call_function_top = _top
