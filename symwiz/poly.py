"""Sparse multivariate polynomials over Q with packed exponents, and factored rational functions.

A monomial is a python int: 16 bits of exponent per generator.  Generators may carry a rewrite
rule  g**2 -> poly  (square roots, sines); arithmetic is then in the quotient ring.
"""
from fractions import Fraction
from math import gcd

SH = 16
M1 = (1 << SH) - 1
MAXTERMS = 400000


class Blowup(Exception):
    pass


def _norm(c):
    if type(c) is Fraction and c.denominator == 1:
        return c.numerator
    return c


class P:
    """immutable polynomial"""
    __slots__ = ('t', '_k')

    def __init__(self, t):
        self.t = t
        self._k = None

    @property
    def key(self):
        if self._k is None:
            self._k = tuple(sorted(self.t.items()))
        return self._k

    def __hash__(self): return hash(self.key)
    def __eq__(self, o): return type(o) is P and self.key == o.key
    def iszero(self): return not self.t
    def isconst(self): return not self.t or (len(self.t) == 1 and 0 in self.t)
    def cval(self): return self.t.get(0, 0)
    def __len__(self): return len(self.t)


PZERO = P({})
PONE = P({0: 1})


def pgen(i): return P({1 << (SH * i): 1})
def pconst(c): return P({0: _norm(c)}) if c else PZERO


def padd(a, b, cb=1):
    r = dict(a.t)
    for m, c in b.t.items():
        v = r.get(m, 0) + c * cb
        if v == 0:
            r.pop(m, None)
        else:
            r[m] = _norm(v)
    return P(r)


def pscale(a, c):
    if c == 0:
        return PZERO
    if c == 1:
        return a
    return P({m: _norm(v * c) for m, v in a.t.items()})


def gens_of_mono(m):
    i, out = 0, []
    while m:
        e = m & M1
        if e:
            out.append((i, e))
        m >>= SH
        i += 1
    return out


def pgens(a):
    o = 0
    for m in a.t:
        o |= m
    return {i for i, _ in gens_of_mono(o)}


class Ring:
    """generator registry + quotient arithmetic"""

    def __init__(self):
        self.gens = []        # info objects
        self.rules = {}       # index -> P  (g^2 -> P)
        self.rmask = 0        # mask of exponent bits >= 2 of ruled gens

    def new(self, info, rule=None):
        i = len(self.gens)
        self.gens.append(info)
        if rule is not None:
            self.rules[i] = rule
            self.rmask |= (M1 ^ 1) << (SH * i)
        return i

    def reduce(self, d):
        rm = self.rmask
        if not rm:
            return d
        bad = [m for m in d if m & rm]
        if not bad:
            return d
        work = [(m, d.pop(m)) for m in bad]
        cache = {}
        while work:
            m, c = work.pop()
            x = m & rm
            if not x:
                v = d.get(m, 0) + c
                if v == 0:
                    d.pop(m, None)
                else:
                    d[m] = _norm(v)
                continue
            # highest ruled generator first (rules only refer to earlier ones)
            i = (x.bit_length() - 1) // SH
            e = (m >> (SH * i)) & M1
            q = e // 2
            base = m - ((2 * q) << (SH * i))
            rp = cache.get((i, q))
            if rp is None:
                rp = cache[(i, q)] = self.ppow(self.rules[i], q)
            for m2, c2 in rp.t.items():
                work.append((base + m2, c * c2))
            if len(d) > MAXTERMS:
                raise Blowup('reduce')
        return d

    def pmul(self, a, b):
        if len(a.t) > len(b.t):
            a, b = b, a
        if not a.t:
            return PZERO
        if a.isconst():
            return pscale(b, a.t[0])
        if len(a.t) * len(b.t) > 20 * MAXTERMS:
            raise Blowup('pmul %d x %d' % (len(a.t), len(b.t)))
        d = {}
        bt = list(b.t.items())
        for m1, c1 in a.t.items():
            for m2, c2 in bt:
                m = m1 + m2
                d[m] = d.get(m, 0) + c1 * c2
        d = {m: _norm(c) for m, c in d.items() if c != 0}
        if len(d) > MAXTERMS:
            raise Blowup('pmul')
        return P(self.reduce(d))

    def ppow(self, a, n):
        r = PONE
        b = a
        while n:
            if n & 1:
                r = self.pmul(r, b)
            n >>= 1
            if n:
                b = self.pmul(b, b)
        return r

    # -------------------------------------------------------------- rational functions
    # RF = (coef, {P: int exponent})  ; zero is (0, {})
    def primitive(self, p):
        """p = c * prod(gen^e) * q  with q primitive without monomial factor; returns (c, {P:e})"""
        if p.iszero():
            return 0, {}
        f = {}
        t = p.t
        # common monomial
        if len(t) == 1:
            (m, c), = t.items()
            for i, e in gens_of_mono(m):
                f[pgen(i)] = e
            return c, f
        if 0 not in t:
            common = None
            for m in t:
                g = dict(gens_of_mono(m))
                if common is None:
                    common = g
                else:
                    common = {i: min(e, g[i]) for i, e in common.items() if i in g}
                if not common:
                    break
            if common:
                mm = sum(e << (SH * i) for i, e in common.items())
                t = {m - mm: c for m, c in t.items()}
                for i, e in common.items():
                    f[pgen(i)] = e
        # content
        den = 1
        for c in t.values():
            if type(c) is Fraction:
                den = den * c.denominator // gcd(den, c.denominator)
        num = 0
        for c in t.values():
            num = gcd(num, int(c * den))
            if num == 1:
                break
        lead = t[max(t)]
        cont = Fraction(num, den)
        if lead < 0:
            cont = -cont
        cont = _norm(cont)
        if cont != 1:
            t = {m: _norm(Fraction(c) / cont) for m, c in t.items()}
        f[P(t)] = f.get(P(t), 0) + 1
        return cont, f

    def rf_from_poly(self, p):
        c, f = self.primitive(p)
        return self.rf_norm(c, f)

    def rf_norm(self, c, f):
        """normalise exponents of single ruled generators to {0,1}"""
        if c == 0:
            return (0, {})
        out = {}
        for p, e in f.items():
            if e == 0:
                continue
            if len(p.t) == 1:
                (m, cc), = p.t.items()
                i = (m.bit_length() - 1) // SH
                if i in self.rules and e not in (0, 1):
                    q, r = divmod(e, 2)
                    rc, rf = self.rf_from_poly(self.rules[i])
                    c = _norm(c * (Fraction(rc) ** q))
                    for p2, e2 in rf.items():
                        out[p2] = out.get(p2, 0) + e2 * q
                    if r:
                        out[p] = out.get(p, 0) + r
                    continue
            out[p] = out.get(p, 0) + e
        out = {p: e for p, e in out.items() if e}
        # a second pass may be needed when nested ruled generators got out of range
        for p, e in out.items():
            if len(p.t) == 1 and e not in (0, 1):
                (m, cc), = p.t.items()
                if ((m.bit_length() - 1) // SH) in self.rules:
                    return self.rf_norm(c, out)
        return (_norm(c), out)

    def rf_mul(self, a, b):
        if a[0] == 0 or b[0] == 0:
            return (0, {})
        f = dict(a[1])
        for p, e in b[1].items():
            f[p] = f.get(p, 0) + e
        return self.rf_norm(_norm(a[0] * b[0]), f)

    def rf_pow(self, a, n):
        if n == 0:
            return (1, {})
        if a[0] == 0:
            if n < 0:
                raise ZeroDivisionError
            return a
        return self.rf_norm(_norm(Fraction(a[0]) ** n), {p: e * n for p, e in a[1].items()})

    def expand(self, f):
        r = PONE
        for p, e in sorted(f.items(), key=lambda x: len(x[0].t)):
            r = self.pmul(r, self.ppow(p, e))
        return r

    def split_common(self, rfs):
        """common factor dict (min exponents) of nonzero RFs and the remaining numerators dicts"""
        keys = set()
        for a in rfs:
            keys |= set(a[1])
        com = {}
        for p in keys:
            e = min(a[1].get(p, 0) for a in rfs)
            if e:
                com[p] = e
        rem = []
        for a in rfs:
            d = {}
            for p in keys:
                e = a[1].get(p, 0) - com.get(p, 0)
                if e:
                    d[p] = e
            rem.append((a[0], d))
        return com, rem

    def rf_sum(self, rfs):
        rfs = [a for a in rfs if a[0] != 0]
        if not rfs:
            return (0, {})
        if len(rfs) == 1:
            return rfs[0]
        com, rem = self.split_common(rfs)
        tot = PZERO
        for c, d in rem:
            tot = padd(tot, self.expand(d), c)
        if tot.iszero():
            return (0, {})
        c, f = self.primitive(tot)
        # cancel denominators that divide the numerator exactly
        big = [p for p in f if len(p.t) > 1]
        if big:
            p = big[0]
            for q in [q for q, e in com.items() if e < 0 and 1 < len(q.t) <= len(p.t) and len(p.t) <= 400]:
                while com.get(q, 0) < 0:
                    r = self.divide(p, q)
                    if r is None:
                        break
                    com[q] += 1
                    if com[q] == 0:
                        del com[q]
                    e = f.pop(p)
                    c2, f2 = self.primitive(r)
                    c = _norm(c * c2)
                    for k, v in f2.items():
                        f[k] = f.get(k, 0) + v
                    nb = [k for k in f2 if len(k.t) > 1]
                    if not nb:
                        p = None
                        break
                    p = nb[0]
                if p is None:
                    break
        for k, v in com.items():
            f[k] = f.get(k, 0) + v
        return self.rf_norm(c, f)

    def divide(self, a, b):
        """exact quotient in the polynomial ring or None"""
        lb = max(b.t)
        cb = b.t[lb]
        lbg = gens_of_mono(lb)
        r = dict(a.t)
        q = {}
        n = 0
        bt = list(b.t.items())
        while r:
            m = max(r)
            for i, e in lbg:
                if ((m >> (SH * i)) & M1) < e:
                    return None
            mq = m - lb
            c = _norm(Fraction(r[m]) / cb)
            q[mq] = c
            for m2, c2 in bt:
                k = mq + m2
                v = r.get(k, 0) - c * c2
                if v == 0:
                    r.pop(k, None)
                else:
                    r[k] = _norm(v)
            n += 1
            if n > 600:
                return None
        return P(q)
