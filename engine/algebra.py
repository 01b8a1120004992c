"""Exact real algebra for the symbolic executor.

Values of the executed program are DAG nodes (class R).  On demand a node is turned into a Laurent
polynomial over *atoms* (inputs, and algebraic/transcendental quantities introduced by division, sqrt,
fabs, sin, cos, ...), which is what is handed to the SMT solver.  Divisions and square roots whose operand
contains a free input linearly are removed by an invertible change of variables (x := u - rest), so that
elimination-style algorithms become polynomial problems.
"""
from fractions import Fraction
import hp
import math
import numpy as np
import z3

SH = 16
HALF = 1 << (SH - 1)
MASK = (1 << SH) - 1


class TooBig(Exception):
    pass


class Unsupported(Exception):
    pass


MAXTERMS = 60000
_bias = {}


def bias(n):
    b = _bias.get(n)
    if b is None:
        b = 0
        for i in range(n):
            b |= HALF << (SH * i)
        _bias[n] = b
    return b


def decode(m, n):
    """packed monomial -> list of (atom, exp)"""
    m += bias(n)
    out = []
    i = 0
    while m:
        e = (m & MASK) - HALF
        if e:
            out.append((i, e))
        m >>= SH
        i += 1
    return out


FPI = Fraction(math.pi)     # the double nearest to pi stands for pi


class Poly:
    __slots__ = ('d', 'sup')

    def __init__(self, d, sup):
        self.d = d
        self.sup = sup

    def __len__(self):
        return len(self.d)


ZERO = Poly({}, 0)


def const(c):
    if c == 0:
        return ZERO
    if isinstance(c, Fraction) and c.denominator == 1:
        c = c.numerator
    return Poly({0: c}, 0)


ONE = const(1)


def padd(a, b, sb=1):
    if not b.d:
        return a
    if not a.d and sb == 1:
        return b
    if len(a.d) < len(b.d) and sb == 1:
        a, b = b, a
    d = dict(a.d)
    for m, c in b.d.items():
        if sb != 1:
            c = -c
        o = d.get(m)
        if o is None:
            d[m] = c
        else:
            o = o + c
            if o == 0:
                del d[m]
            else:
                d[m] = o
    return Poly(d, a.sup | b.sup)


def psub(a, b):
    return padd(a, b, -1)


def pscale(a, c):
    if c == 0:
        return ZERO
    if c == 1:
        return a
    d = {}
    for m, x in a.d.items():
        y = x * c
        if type(y) is Fraction and y.denominator == 1:
            y = y.numerator
        d[m] = y
    return Poly(d, a.sup)


def pmulraw(a, b):
    if not a.d or not b.d:
        return ZERO
    if len(a.d) * len(b.d) > 20 * MAXTERMS:
        raise TooBig()
    if len(a.d) > len(b.d):
        a, b = b, a
    d = {}
    get = d.get
    bi = list(b.d.items())
    for m1, c1 in a.d.items():
        for m2, c2 in bi:
            m = m1 + m2
            o = get(m)
            if o is None:
                d[m] = c1 * c2
            else:
                d[m] = o + c1 * c2
    if len(a.d) > 1:
        d = {m: c for m, c in d.items() if c != 0}
    if len(d) > MAXTERMS:
        raise TooBig()
    return Poly(d, a.sup | b.sup)


class Atom:
    __slots__ = ('i', 'kind', 'name', 'p', 'fn', 'vals', 'unit', 'nonneg', 'elim', 'z', 'zi', 'dom', 'sub', 'other', 'depth')

    def __init__(self, i, kind, name, vals):
        self.i = i
        self.kind = kind
        self.name = name
        self.vals = vals
        self.p = None
        self.fn = None
        self.unit = False       # known nonzero; negative exponents allowed
        self.nonneg = False
        self.elim = False       # eliminated by substitution
        self.z = None
        self.zi = None
        self.sub = None
        self.other = None


class R:
    """symbolic/concrete real value"""
    __slots__ = ('op', 'a', 'b', 'c', 'v', 'pc', 'pv', 'cf')

    def __init__(self, op, a, b, c, v):
        # no input below: the value is a constant (perhaps an irrational one)
        self.cf = op == 'k' or op != 'atom' and (a is None or type(a) is R and a.cf) and (b is None or type(b) is R and b.cf)
        self.op = op
        self.a = a
        self.b = b
        self.c = c
        self.v = v
        self.pc = None
        self.pv = -1

    def __repr__(self):
        return '<R %s %s>' % (self.op, self.c if self.c is not None else '')


def isqrt_exact(f):
    f = Fraction(f)
    if f < 0:
        return None
    a = math.isqrt(f.numerator)
    b = math.isqrt(f.denominator)
    if a * a == f.numerator and b * b == f.denominator:
        return Fraction(a, b)
    return None


class Alg:
    def __init__(self, engine=None):
        self.atoms = []
        self.cvals = {}
        self.subs = []      # list of (idx, Poly)
        self.redmask = 0    # bitmask of atoms with an s^2 -> p rule
        self.E = engine
        self.fnatoms = {}
        self.nonzero_assumed = []

    # ---------- atoms
    def atom(self, kind, name, vals):
        a = Atom(len(self.atoms), kind, name, vals)
        self.atoms.append(a)
        return a

    def var(self, a):
        return Poly({1 << (SH * a.i): 1}, 1 << a.i)

    def exps(self, p, i):
        n = len(self.atoms)
        bb = bias(n)
        s = SH * i
        return {m: (((m + bb) >> s) & MASK) - HALF for m in p.d}

    # ---------- reductions
    def reduce(self, p, mask):
        todo = p.sup & mask
        while todo:
            i = todo.bit_length() - 1
            todo &= ~(1 << i)
            a = self.atoms[i]
            p2 = self.reduce1(p, a)
            if p2 is not p:
                p = p2
                todo |= p.sup & mask & ((1 << len(self.atoms)) - 1) & ~(1 << i)
        return p

    def reduce1(self, p, a):
        i = a.i
        n = len(self.atoms)
        bb = bias(n)
        s = SH * i
        hit = False
        for m in p.d:
            if (((m + bb) >> s) & MASK) - HALF >= 2:
                hit = True
                break
        if not hit:
            return p
        groups = {}
        for m, c in p.d.items():
            e = (((m + bb) >> s) & MASK) - HALF
            if e >= 2:
                k = e // 2
                m -= (2 * k) << s
            else:
                k = 0
            groups.setdefault(k, {})[m] = c
        res = Poly(groups.pop(0, {}), p.sup)
        sq = self.cur(a.p)
        # group by power, Horner like
        pw = ONE
        kk = 0
        for k in sorted(groups):
            while kk < k:
                pw = self.mul(pw, sq)
                kk += 1
            res = padd(res, self.mul(Poly(groups[k], p.sup), pw))
        return res

    def mul(self, a, b):
        r = pmulraw(a, b)
        m = a.sup & b.sup & self.redmask
        if m:
            r = self.reduce(r, m)
        return r

    def pow(self, p, e):
        r = ONE
        while e:
            if e & 1:
                r = self.mul(r, p)
            e >>= 1
            if e:
                p = self.mul(p, p)
        return r

    # ---------- substitution
    def cur(self, p, frm=0):
        """apply all substitutions"""
        if isinstance(p, list):
            pass
        for k in range(frm, len(self.subs)):
            i, q = self.subs[k]
            if p.sup >> i & 1:
                p = self.subst(p, i, q)
        return p

    def subst(self, p, i, q):
        ex = self.exps(p, i)
        groups = {}
        s = SH * i
        any_ = False
        for m, c in p.d.items():
            e = ex[m]
            if e:
                any_ = True
                if e < 0:
                    raise Unsupported('negative power of eliminated atom')
            groups.setdefault(e, {})[m - (e << s)] = c
        sup = p.sup & ~(1 << i)
        if not any_:
            return Poly(p.d, sup)
        res = Poly(groups.pop(0, {}), sup)
        pw = ONE
        kk = 0
        for k in sorted(groups):
            while kk < k:
                pw = self.mul(pw, q)
                kk += 1
            res = padd(res, self.mul(Poly(groups[k], sup), pw))
        return res

    def supatoms(self, p):
        s = p.sup
        out = []
        while s:
            i = s.bit_length() - 1
            out.append(i)
            s &= ~(1 << i)
        return out

    def realsup(self, p):
        """exact support"""
        n = len(self.atoms)
        bb = bias(n)
        s = 0
        for i in self.supatoms(p):
            sh = SH * i
            for m in p.d:
                if (((m + bb) >> sh) & MASK) != HALF:
                    s |= 1 << i
                    break
        return s

    def defpoly(self, a):
        """current defining polynomial of a derived atom"""
        if a.p is None:
            return None
        if a.sub is not None and a.sub[0] == len(self.subs):
            return a.sub[1]
        q = self.cur(a.p)
        a.sub = (len(self.subs), q)
        return q

    def deps(self, mask, seen=None):
        """transitive dependency closure (bitmask) of atoms in mask"""
        seen = 0
        todo = mask
        while todo:
            i = todo.bit_length() - 1
            todo &= ~(1 << i)
            if seen >> i & 1:
                continue
            seen |= 1 << i
            a = self.atoms[i]
            q = self.defpoly(a)
            if q is not None:
                todo |= q.sup & ~seen
            if a.other is not None:
                for o in a.other:
                    todo |= self.cur(o).sup & ~seen
        return seen

    # ---------- node -> poly
    def poly(self, node):
        if node.pc is not None:
            if node.pv != len(self.subs):
                node.pc = self.cur(node.pc, node.pv)
                node.pv = len(self.subs)
            return node.pc
        stack = [node]
        while stack:
            nd = stack[-1]
            if nd.pc is not None:
                stack.pop()
                continue
            ch = []
            if isinstance(nd.a, R) and nd.a.pc is None:
                ch.append(nd.a)
            if isinstance(nd.b, R) and nd.b.pc is None:
                ch.append(nd.b)
            if ch:
                stack.extend(ch)
                continue
            p = self._poly1(nd)
            nd.pc = p
            nd.pv = len(self.subs)
            stack.pop()
        return self.poly(node)

    def _poly1(self, nd):
        op = nd.op
        if op == 'k':
            if isinstance(nd.c, float):
                raise Unsupported('non-finite constant in algebra')
            return const(nd.c)
        if op == 'atom':
            return self.var(nd.a)
        a = self.poly(nd.a)
        if op == '+':
            return padd(a, self.poly(nd.b))
        if op == '-':
            b = self.poly(nd.b)
            a = self.poly(nd.a)
            return psub(a, b)
        if op == '*':
            return self.mul(a, self.poly(nd.b))
        if op == 'neg':
            return pscale(a, -1)
        if op == '/':
            inv = self.inverse(self.poly(nd.b), nd.b.v)
            return self.mul(self.poly(nd.a), inv)
        if op == 'sqrt':
            return self.sqrt(a, nd.v)
        if op == 'abs':
            return self.abs(a, nd.v)
        if op == 'fn':
            return self.fn(nd)
        raise Unsupported(op)

    # content: monomial gcd of all terms
    def content(self, p):
        n = len(self.atoms)
        ms = list(p.d)
        if len(ms) == 1:
            return ms[0]
        g = dict(decode(ms[0], n))
        for m in ms[1:]:
            e = dict(decode(m, n))
            for i in list(set(g) | set(e)):
                v = min(g.get(i, 0), e.get(i, 0))
                if v:
                    g[i] = v
                else:
                    g.pop(i, None)
        r = 0
        for i, e in g.items():
            r += e << (SH * i)
        return r

    def mark_unit(self, m):
        """the monomial is inverted -> its atoms are nonzero"""
        n = len(self.atoms)
        for i, e in decode(m, n):
            self.atoms[i].unit = True

    def find_linear(self, p):
        """free atom occurring linearly with invertible (single-term) coefficient; returns (i, coefmono, coef)"""
        n = len(self.atoms)
        sup = self.realsup(p)
        cands = []
        for i in range(n):
            if not (sup >> i & 1):
                continue
            a = self.atoms[i]
            if a.kind not in ('in', 'u') or a.unit or a.elim or a.fn == 'nosub':
                continue
            ex = self.exps(p, i)
            lin = [m for m, e in ex.items() if e == 1]
            if len(lin) != 1 or any(e not in (0, 1) for e in ex.values()):
                continue
            m = lin[0]
            cm = m - (1 << (SH * i))
            if all(self.atoms[j].unit for j, e in decode(cm, n)):
                cands.append((0 if cm == 0 else 1, -i, i, cm, p.d[m]))
        cands.sort()
        for _, _, i, cm, c in cands:
            # cyclic dependency check
            others = sup & ~(1 << i)
            if self.deps(others) >> i & 1:
                continue
            # any function atom depending on i forbids elimination
            bad = False
            for a in self.atoms:
                if a.kind == 'fn' and a.other is not None:
                    for o in a.other:
                        if self.deps(self.cur(o).sup) >> i & 1:
                            bad = True
                if bad:
                    break
            if bad:
                continue
            return i, cm, c
        return None

    def eliminate(self, p, i, cm, c, new):
        """substitute x_i := (new - rest)/coef ; new is Poly"""
        n = len(self.atoms)
        m1 = cm + (1 << (SH * i))
        d = dict(p.d)
        del d[m1]
        rest = Poly(d, p.sup & ~(1 << i))
        q = psub(new, rest)
        inv = Poly({-cm: Fraction(1) / c if c not in (1, -1) else c}, p.sup)
        q = self.mul(q, inv)
        q = Poly(q.d, self.realsup(q))
        self.atoms[i].elim = True
        self.subs.append((i, q))

    def numer(self, p, even=False):
        """p = N * prod t_i^k over the inverse atoms in p; returns (N, [(i, k)])"""
        p = Poly(p.d, self.realsup(p))
        out = []
        memo = {}
        for _ in range(8):
            inv = [i for i in self.supatoms(p) if self.atoms[i].kind == 'inv']
            inv = [i for i in inv if max(self.exps(p, i).values()) > 0]
            if not inv:
                return p, out
            inv.sort(key=lambda i: (self.depth(i, memo), i))
            i = inv[-1]
            s = SH * i
            ex = self.exps(p, i)
            k = max(ex.values())
            k += even and k & 1
            q = self.defpoly(self.atoms[i])
            res, pw, kk = ZERO, ONE, 0
            groups = {}
            for m, c in p.d.items():
                groups.setdefault(k - ex[m], {})[m - (ex[m] << s)] = c
            for g in sorted(groups):
                if g * max(1, len(q.d)) > 60:
                    return None, out
                while kk < g:
                    pw = self.mul(pw, q)
                    kk += 1
                res = padd(res, self.mul(Poly(groups[g], p.sup), pw))
                if len(res.d) > 240:
                    return None, out
            out.append((i, k))
            p = Poly(res.d, self.realsup(res))
        return None, out

    def divexact(self, p, q):
        """p / q as polynomials (negative exponents allowed in p through its content), or None"""
        if len(q.d) < 2 or not p.d:
            return None
        n = len(self.atoms)
        m0 = 0
        for i in self.supatoms(Poly(p.d, self.realsup(p))):
            lo = min(self.exps(p, i).values())
            if lo < 0:
                m0 += lo << (SH * i)
        rem = {m - m0: c for m, c in p.d.items()}
        ql = max(q.d)
        qc = Fraction(q.d[ql])
        out = {}
        for _ in range(60):
            if not rem:
                return Poly({m + m0: (c.numerator if c.denominator == 1 else c) for m, c in out.items()}, p.sup | q.sup)
            l = max(rem)
            t = l - ql
            if t < 0 or any(e < 0 for _, e in decode(t, n)):
                return None
            c = Fraction(rem[l]) / qc
            out[t] = c
            for m, cc in q.d.items():
                v = rem.get(m + t, 0) - c * cc
                if v:
                    rem[m + t] = v
                else:
                    rem.pop(m + t, None)
        return None

    def tidy(self, p):
        """cancel inverse atoms of p against its numerator"""
        for i in self.supatoms(p):
            a = self.atoms[i]
            if a.kind == 'sqrt' and self.redmask >> i & 1 and list(a.p.d) == [0]:
                ex = self.exps(p, i)
                if ex and (max(ex.values()) >= 2 or min(ex.values()) <= -2):
                    c = Fraction(a.p.d[0])
                    r = ZERO
                    for m, k in p.d.items():
                        e = ex[m]
                        h = e // 2 if e >= 0 else -(-e // 2)
                        r = padd(r, Poly({m - (2 * h << (SH * i)): k * c ** h}, p.sup))
                    p = r
                    if not p.d:
                        return p
        sup = self.realsup(p)
        if not any(self.atoms[i].kind == 'inv' for i in self.supatoms(Poly(p.d, sup))) or not 1 <= len(p.d) <= 160:
            return p
        for i in self.supatoms(Poly(p.d, sup)):
            a = self.atoms[i]
            if a.kind == 'inv':
                ex = self.exps(p, i)
                if min(ex.values()) < 0:
                    r = ZERO
                    q = self.defpoly(a)
                    if len(q.d) * -min(ex.values()) > 12:
                        continue
                    for m, c in p.d.items():
                        e = ex[m]
                        t = Poly({m - (e << (SH * i)) + (max(e, 0) << (SH * i)): c}, p.sup)
                        r = padd(r, self.mul(t, self.pow(q, -e)) if e < 0 else t)
                    p = r
        N, ts = self.numer(p)
        if N is None:
            return p
        if not N.d:
            return N
        out = []
        hit = False
        for i, k in ts:
            q = self.defpoly(self.atoms[i])
            while k > 0:
                d = self.divexact(N, q)
                if d is None:
                    break
                N = d
                k -= 1
                hit = True
            out.append((i, k))
        if not hit and len(N.d) >= len(p.d):
            return p
        for i, k in out:
            if k:
                N = self.mul(N, self.pow(self.var(self.atoms[i]), k))
        return Poly(N.d, self.realsup(N))

    def inverse(self, p, vals):
        if not p.d:
            raise Unsupported('division by identically zero')
        n = len(self.atoms)
        p = self.tidy(p)
        if not p.d:
            raise Unsupported('division by identically zero')
        if 1 < len(p.d) <= 160 and any(self.atoms[i].kind == 'inv' for i in self.supatoms(p)):
            N, ts = self.numer(p)
            if N is not None and ts and N.d and len(N.d) < len(p.d):
                v = self.polyvals(N)
                r = self.inverse(N, v)
                for i, k in ts:
                    r = self.mul(r, self.pow(self.defpoly(self.atoms[i]), k))
                return r
        m = self.content(p)
        if m:
            self.mark_unit(m)
            p = Poly({k - m: c for k, c in p.d.items()}, p.sup)
        mono = Poly({-m: 1}, p.sup)
        if len(p.d) == 1:
            (k, c), = p.d.items()
            return pscale(mono, Fraction(1) / c)
        p = Poly(p.d, self.realsup(p))
        # known inverse?
        lead = max(p.d)
        lc = p.d[lead]
        pn = pscale(p, Fraction(1) / lc)
        for a in self.atoms:
            if a.kind == 'inv':
                q = self.defpoly(a)
                if len(q.d) == len(pn.d) and q.d == pn.d:
                    return self.mul(mono, pscale(self.var(a), Fraction(1) / lc))
        # also equality modulo algebraic relations is handled by the zero test
        lin = self.find_linear(p)
        pv = None
        if vals is not None:
            with np.errstate(all='ignore'):
                pv = vals / self.monovals(m)
        if lin:
            u = self.atom('u', 'u%d' % n, pv)
            u.unit = True
            i, cm, c = lin
            uv = self.var(u)
            self.eliminate(p, i, cm, c, uv)
            return self.mul(self.cur(mono), Poly({-(1 << (SH * u.i)): 1}, 1 << u.i))
        t = self.atom('inv', 't%d' % n, None if pv is None else float(lc) / np.where(pv == 0, np.nan, pv))
        t.p = pn
        t.unit = True
        t.nonneg = all(c > 0 and all(self.atoms[i].nonneg or e % 2 == 0 for i, e in decode(m, n)) for m, c in pn.d.items())
        return self.mul(mono, pscale(self.var(t), Fraction(1) / lc))

    def monovals(self, m):
        r = 1.0
        with np.errstate(all='ignore'):
            for i, e in decode(m, len(self.atoms)):
                r = r * np.power(np.asarray(self.atoms[i].vals, dtype=float), e)
        return r

    def sqrt(self, p, vals):
        if not p.d:
            return ZERO
        n = len(self.atoms)
        p = self.tidy(p)
        if not p.d:
            return ZERO
        if 1 < len(p.d) <= 160 and any(self.atoms[i].kind == 'inv' for i in self.supatoms(p)):
            N, ts = self.numer(p, even=True)
            if N is not None and ts and N.d and (len(N.d) < len(p.d) or self.psqrt(N) is not None):
                v = self.polyvals(N)
                r = self.sqrt(N, v if v is None else np.sqrt(np.abs(v)))
                for i, k in ts:
                    a = self.atoms[i]
                    r = self.mul(r, self.pow(self.abs(self.var(a), None if a.vals is None else np.abs(a.vals)), k // 2))
                return r
        # pull out even powers of units / rational square content
        m = self.content(p)
        pull = 0
        sgn = ONE
        for i, e in decode(m, n):
            k = e // 2 if e > 0 else -((-e + 1) // 2)
            if k:
                a = self.atoms[i]
                pull += (2 * k) << (SH * i)
                if a.nonneg or k % 2 == 0:
                    sgn = self.mul(sgn, Poly({k << (SH * i): 1}, 1 << i))
                else:
                    ab = self.abs(self.var(a), None if a.vals is None else np.abs(a.vals))
                    if k > 0:
                        sgn = self.mul(sgn, self.pow(ab, k))
                    else:
                        sgn = self.mul(sgn, self.pow(self.inverse(ab, None if a.vals is None else np.abs(a.vals)), -k))
        if pull:
            p = Poly({k - pull: c for k, c in p.d.items()}, p.sup)
            p = self.cur(p)
            sgn = self.cur(sgn)
        # rational content
        g = None
        for c in p.d.values():
            c = Fraction(c)
            if g is None:
                g = abs(c)
            else:
                g = Fraction(math.gcd(g.numerator * c.denominator, abs(c.numerator) * g.denominator), g.denominator * c.denominator)
        num, den = g.numerator, g.denominator
        sq = isqrt_exact(g)
        if sq is None and len(p.d) == 1 and 0 in p.d and p.d[0] > 0 and num * den < 10 ** 24:
            # a number: root of a square free integer
            q, f, pr = num * den, 1, 2
            while pr < 2000 and pr * pr <= q:
                while q % (pr * pr) == 0:
                    q //= pr * pr
                    f *= pr
                pr += 1
            sq = Fraction(f, den)
        elif sq is None:
            # pull the largest easy square
            f = Fraction(1)
            for pr in (2, 3, 5, 7, 10):
                while num % (pr * pr) == 0:
                    num //= pr * pr
                    f *= pr
                while den % (pr * pr) == 0:
                    den //= pr * pr
                    f /= pr
            sq = f
        if sq != 1:
            p = pscale(p, 1 / (sq * sq))
            sgn = pscale(sgn, sq)
        if len(p.d) == 1 and 0 in p.d and p.d[0] == 1:
            return sgn
        # existing sqrt with same radicand
        for a in self.atoms:
            if a.kind == 'sqrt':
                q = self.defpoly(a)
                if q.d == p.d:
                    return self.mul(sgn, self.var(a))
        sv = None
        if vals is not None:
            with np.errstate(all='ignore'):
                sv = vals / self.polyvals(sgn)
        if sv is not None:
            for a in self.atoms:
                if a.kind == 'sqrt' and a.vals is not None and close(a.vals, sv) and self.is_zero(psub(self.defpoly(a), p)):
                    return self.mul(sgn, self.var(a))
        # perfect square polynomial
        r = self.psqrt(p)
        if r is not None:
            rv = self.polyvals(r)
            return self.mul(sgn, self.abs(r, None if rv is None else np.abs(rv)))
        lin = self.find_linear(p)
        s = self.atom('sqrt', 's%d' % n, sv)
        s.nonneg = True
        if lin:
            # change of variables: x := (s^2 - rest)/coef ; s becomes a free non-negative atom
            i, cm, c = lin
            s.kind = 'u'
            s.fn = 'nosub'
            s2 = Poly({2 << (SH * s.i): 1}, 1 << s.i)
            self.eliminate(p, i, cm, c, s2)
            return self.mul(self.cur(sgn), self.var(s))
        s.p = p
        self.redmask |= 1 << s.i
        return self.mul(sgn, self.var(s))

    def polyvals(self, p):
        r = 0.0
        n = len(self.atoms)
        with np.errstate(all='ignore'):
            for m, c in p.d.items():
                t = float(c)
                for i, e in decode(m, n):
                    v = self.atoms[i].vals
                    if v is None:
                        return None
                    t = t * np.power(np.asarray(v, dtype=float), e)
                r = r + t
        return r

    def psqrt(self, p):
        """polynomial square root or None"""
        if len(p.d) > 400:
            return None
        n = len(self.atoms)
        # clear negative exponents with even powers
        for i in self.supatoms(p):
            ex = min(self.exps(p, i).values())
            if ex < 0:
                return None
        lead = max(p.d)
        e = decode(lead, n)
        if any(x % 2 for _, x in e):
            return None
        lc = isqrt_exact(p.d[lead])
        if lc is None:
            return None
        rm = 0
        for i, x in e:
            rm += (x // 2) << (SH * i)
        root = {rm: lc}
        rem = psub(p, Poly({2 * rm: lc * lc}, p.sup))
        it = 0
        while rem.d:
            it += 1
            if it > 60:
                return None
            l = max(rem.d)
            t = l - rm
            if any(x < 0 for _, x in decode(t, n)):
                return None
            c = Fraction(rem.d[l]) / (2 * lc)
            if t >= rm:
                return None
            # rem -= (2*root + t)*t
            sub = {}
            for m0, c0 in root.items():
                sub[m0 + t] = sub.get(m0 + t, 0) + 2 * c0 * c
            sub[2 * t] = sub.get(2 * t, 0) + c * c
            rem = psub(rem, Poly(sub, p.sup))
            root[t] = c
        return Poly({m0: (c.numerator if isinstance(c, Fraction) and c.denominator == 1 else c) for m0, c in root.items()}, p.sup)

    def abs(self, p, vals):
        if not p.d:
            return ZERO
        n = len(self.atoms)
        if len(p.d) == 1:
            (m, c), = p.d.items()
            if all(self.atoms[i].nonneg or e % 2 == 0 for i, e in decode(m, n)):
                return pscale(p, 1 if c > 0 else -1)
        # all terms positive?
        if all(c > 0 and all(self.atoms[i].nonneg or e % 2 == 0 for i, e in decode(m, n)) for m, c in p.d.items()):
            return p
        if all(c < 0 and all(self.atoms[i].nonneg or e % 2 == 0 for i, e in decode(m, n)) for m, c in p.d.items()):
            return pscale(p, -1)
        if len(p.d) in (3, 6, 10):
            if self.psqrt(p) is not None:
                return p
            if self.psqrt(pscale(p, -1)) is not None:
                return pscale(p, -1)
        lead = max(p.d)
        if p.d[lead] != 1:
            c = Fraction(p.d[lead])
            return pscale(self.abs(pscale(p, 1 / c), None if vals is None else vals / float(abs(c))), abs(c))
        for a in self.atoms:
            if a.kind == 'abs':
                q = self.cur(a.other[0])
                if q.d == p.d or self.negeq(q, p):
                    return self.var(a)
        if vals is not None:
            for a in self.atoms:
                if a.kind == 'abs' and a.vals is not None and close(a.vals, vals):
                    q = self.cur(a.other[0])
                    if self.is_zero(psub(q, p)) or self.is_zero(padd(q, p)):
                        return self.var(a)
        if vals is not None and len(vals) and np.nanmax(np.abs(vals)) < 1e-9 and self.is_zero(p):
            return ZERO
        if self.E is not None:
            s = self.E.sign_of(self, p)
            if s:
                return pscale(p, s)
        a = self.atom('abs', 'a%d' % n, vals)
        a.other = [p]
        a.p = self.mul(p, p)
        a.nonneg = True
        self.redmask |= 1 << a.i
        return self.var(a)

    def negeq(self, a, b):
        return len(a.d) == len(b.d) and all(b.d.get(m) == -c for m, c in a.d.items())

    # ---------- transcendental functions
    def fnatom(self, fn, args, vals, nonneg=False, unit=False):
        for a in self.fnatoms.get(fn, ()):
            cur = [self.cur(o) for o in a.other]
            if all(x.d == y.d for x, y in zip(cur, args)):
                return a
        if vals is not None:
            for a in self.fnatoms.get(fn, ()):
                if a.vals is not None and close(a.vals, vals):
                    cur = [self.cur(o) for o in a.other]
                    if all(self.is_zero(psub(x, y)) for x, y in zip(cur, args)):
                        return a
        a = self.atom('fn', '%s%d' % (fn, len(self.atoms)), vals)
        a.fn = fn
        a.other = list(args)
        a.nonneg = nonneg
        a.unit = unit
        self.fnatoms.setdefault(fn, []).append(a)
        return a

    def fn(self, nd):
        name = nd.c
        args = [self.tidy(self.poly(nd.a))]
        if isinstance(nd.b, R):
            args.append(self.tidy(self.poly(nd.b)))
            args[0] = self.poly(nd.a)
        return self.fncall(name, args, nd.v)

    def split_angle(self, p):
        """p -> list of (Poly base, int multiplicity)"""
        out = []
        for m, c in sorted(p.d.items()):
            c = Fraction(c)
            if m == 0 and (2 * c / FPI).denominator == 1:
                out.append((None, int(2 * c / FPI)))        # quarter turns
            elif m != 0 and self.E is not None and self.E.half and (2 * c).denominator == 1 and abs(2 * c) <= 8:
                out.append((Poly({m: Fraction(1, 2)}, p.sup), int(2 * c)))
            elif c.denominator == 1 and m != 0 and abs(c.numerator) <= 8:
                out.append((Poly({m: 1}, p.sup), c.numerator))
            else:
                s = 1 if c > 0 else -1
                out.append((Poly({m: abs(c) if abs(c).denominator != 1 else abs(c).numerator}, p.sup), s))
        return out

    def sincos(self, p):
        if not p.d:
            return ZERO, ONE
        n = len(self.atoms)
        S, C = ZERO, ONE
        for base, k in self.split_angle(p):
            if base is None:
                s, c = Poly({0: (0, 1, 0, -1)[k % 4]}, 0), Poly({0: (1, 0, -1, 0)[k % 4]}, 0)
                s.d = {m: v for m, v in s.d.items() if v}
                c.d = {m: v for m, v in c.d.items() if v}
                k = 1
            else:
                s, c = self.sincos1(base)
            if k < 0:
                s = pscale(s, -1)
                k = -k
            for _ in range(k):
                S, C = padd(self.mul(S, c), self.mul(C, s)), psub(self.mul(C, c), self.mul(S, s))
        return S, C

    def sincos1(self, base):
        n = len(self.atoms)
        # inverse functions
        if len(base.d) == 1:
            (m, c), = base.d.items()
            dd = decode(m, n)
            if len(dd) == 1 and dd[0][1] == 1 and c == Fraction(1, 2) and self.atoms[dd[0][0]].fn in ('atan2', 'acos', 'asin', 'atan'):
                # half of an angle in [-pi, pi]: its cosine is not negative (and not zero, as divisors are taken to be)
                s1, c1 = self.sincos1(Poly({m: 1}, base.sup))
                h = pscale(padd(ONE, c1), Fraction(1, 2))
                v = self.polyvals(h)
                ch = self.sqrt(h, None if v is None else np.sqrt(np.abs(v)))
                return self.mul(pscale(s1, Fraction(1, 2)), self.inverse(ch, self.polyvals(ch))), ch
            if len(dd) == 1 and dd[0][1] == 1 and c == 1:
                a = self.atoms[dd[0][0]]
                if a.kind == 'fn' and a.fn == 'atan2':
                    y, x = [self.cur(o) for o in a.other]
                    r2 = padd(self.mul(x, x), self.mul(y, y))
                    v = self.polyvals(r2)
                    r = self.sqrt(r2, None if v is None else np.sqrt(np.abs(v)))
                    ri = self.inverse(r, self.polyvals(r))
                    return self.mul(self.cur(y), ri), self.mul(self.cur(x), ri)
                if a.kind == 'fn' and a.fn in ('acos', 'asin'):
                    x = self.cur(a.other[0])
                    r2 = psub(ONE, self.mul(x, x))
                    v = self.polyvals(r2)
                    r = self.sqrt(r2, None if v is None else np.sqrt(np.abs(v)))
                    return (r, self.cur(x)) if a.fn == 'acos' else (self.cur(x), r)
                if a.kind == 'fn' and a.fn == 'atan':
                    x = self.cur(a.other[0])
                    r2 = padd(ONE, self.mul(x, x))
                    v = self.polyvals(r2)
                    r = self.sqrt(r2, None if v is None else np.sqrt(np.abs(v)))
                    ri = self.inverse(r, self.polyvals(r))
                    return self.mul(self.cur(x), ri), ri
        v = self.polyvals(base)
        # canonical sign for function atoms on odd/even
        c = self.fnatom('cos', [base], None if v is None else np.cos(v))
        s = self.fnatom('sin', [base], None if v is None else np.sin(v))
        if s.p is None:
            s.p = psub(ONE, Poly({2 << (SH * c.i): 1}, 1 << c.i))
            self.redmask |= 1 << s.i
        return self.var(s), self.var(c)

    def fncall(self, name, args, vals):
        n = len(self.atoms)
        if name == 'sin':
            return self.sincos(args[0])[0]
        if name == 'cos':
            return self.sincos(args[0])[1]
        if name == 'tan':
            s, c = self.sincos(args[0])
            return self.mul(s, self.inverse(c, self.polyvals(c)))
        if name == 'exp':
            r = ONE
            logs = [i for i in self.supatoms(Poly(args[0].d, self.realsup(args[0]))) if self.atoms[i].fn == 'log']
            if logs:
                # coefficients of the logarithms in lowest terms, so that exp and log cancel
                out = ZERO
                rest = dict(args[0].d)
                for i in logs:
                    g = {m - (1 << (SH * i)): c for m, c in rest.items() if dict(decode(m, n)).get(i) == 1}
                    if g:
                        for m in g:
                            del rest[m + (1 << (SH * i))]
                        out = padd(out, self.mul(self.tidy(Poly(g, args[0].sup)), self.var(self.atoms[i])))
                args = [padd(out, self.tidy(Poly(rest, args[0].sup)))]
                n = len(self.atoms)
            for m, c in sorted(args[0].d.items()):
                dd = decode(m, n)
                if len(dd) == 1 and dd[0][1] == 1 and Fraction(c).denominator == 1:
                    a = self.atoms[dd[0][0]]
                    if a.kind == 'fn' and a.fn == 'log':
                        arg = self.cur(a.other[0])
                        k = int(c)
                        r = self.mul(r, self.pow(arg, k) if k > 0 else self.pow(self.inverse(arg, self.polyvals(arg)), -k))
                        continue
                k = 1
                cc = Fraction(c)
                if cc.denominator == 1 and m != 0 and abs(cc.numerator) <= 8:
                    k = cc.numerator
                    base = Poly({m: 1}, args[0].sup)
                elif cc < 0:
                    k = -1
                    base = Poly({m: -c}, args[0].sup)
                else:
                    base = Poly({m: c}, args[0].sup)
                v = self.polyvals(base)
                e = self.fnatom('exp', [base], None if v is None else np.exp(v), nonneg=True, unit=True)
                r = self.mul(r, Poly({k << (SH * e.i): 1}, 1 << e.i))
            return r
        if name in ('asin', 'atan', 'sinh', 'tanh') and not args[0].d:
            return ZERO
        if name == 'log':
            # log(exp(x)) = x
            p = args[0]
            if len(p.d) == 1 and p.d.get(0) == 1:
                return ZERO
            if len(p.d) == 1:
                (m, c), = p.d.items()
                dd = decode(m, n)
                if c == 1 and dd and all(self.atoms[i].fn == 'exp' for i, e in dd):
                    r = ZERO
                    for i, e in dd:
                        r = padd(r, pscale(self.cur(self.atoms[i].other[0]), e))
                    return r
        if name in ('asin', 'atan') and len(args[0].d) == 1 and 0 in args[0].d and args[0].d[0] < 0:
            return pscale(self.fncall(name, [pscale(args[0], -1)], None if vals is None else -vals), -1)
        # asin, atan, atan2 of a first argument known to be at least zero
        nn = name in ('asin', 'atan', 'atan2') and len(args[0].d) == 1 and 0 in args[0].d and args[0].d[0] > 0
        a = self.fnatom(name, args, vals, nonneg=nn or name == 'acos')
        return self.var(a)

    # ---------- decision: is p identically zero (modulo the algebraic relations)?
    def depth(self, i, memo):
        if i in memo:
            return memo[i]
        memo[i] = 0
        a = self.atoms[i]
        q = self.defpoly(a)
        r = 0
        if q is not None and a.kind != 'fn' or (q is not None and a.fn == 'sin'):
            for j in self.supatoms(q):
                r = max(r, 1 + self.depth(j, memo))
        memo[i] = r
        return r

    def clear(self, p):
        """normal form of a numerator of p: zero iff p is zero (generically)."""
        p = Poly(p.d, self.realsup(p))
        memo = {}
        for _ in range(200):
            if not p.d:
                return p
            work = []
            for i in self.supatoms(p):
                a = self.atoms[i]
                ex = self.exps(p, i).values()
                lo, hi = min(ex), max(ex)
                if a.kind == 'inv':
                    if lo or hi:
                        work.append((self.depth(i, memo), i))
                elif lo < 0:
                    work.append((self.depth(i, memo), i))
                elif hi >= 2 and self.redmask >> i & 1:
                    work.append((self.depth(i, memo), i))
            if not work:
                return p
            work.sort(reverse=True)
            i = work[0][1]
            a = self.atoms[i]
            s = SH * i
            ex = self.exps(p, i)
            if a.kind == 'inv':
                k = max(ex.values())
                q = self.defpoly(a)
                groups = {}
                for m, c in p.d.items():
                    e = ex[m]
                    groups.setdefault(k - e, {})[m - (e << s)] = c
                res = ZERO
                pw = ONE
                kk = 0
                for g in sorted(groups):
                    while kk < g:
                        pw = self.mul(pw, q)
                        kk += 1
                    res = padd(res, self.mul(Poly(groups[g], p.sup), pw))
                p = res
            else:
                lo = min(ex.values())
                if lo < 0:
                    # keep parity of sqrt-like atoms irrelevant: multiply by s^-lo
                    p = Poly({m + ((-lo) << s): c for m, c in p.d.items()}, p.sup)
                if self.redmask >> i & 1:
                    p = self.reduce1(p, a)
            p = Poly(p.d, self.realsup(p))
        raise TooBig()

    def is_zero(self, p):
        p = self.cur(p)
        if not p.d:
            return True
        return not self.clear(p).d

    # ---------- z3
    def show(self, p):
        n = len(self.atoms)
        return ' + '.join(['%s*%s' % (c, '*'.join('%s%d^%d' % (self.atoms[i].fn or self.atoms[i].name or self.atoms[i].kind, i, e) for i, e in decode(m, n))) for m, c in list(p.d.items())[:12]])

    def dump(self, p, label):
        import sys
        sys.stderr.write('DEBUG %s: %s\n' % (label, self.show(p)))
        for i in sorted(self.supatoms(p)):
            a = self.atoms[i]
            sys.stderr.write('   atom %d kind %s name %s fn %s p: %s args: %s\n' % (i, a.kind, a.name, a.fn, self.show(a.p) if a.p is not None else None, [self.show(self.cur(o)) for o in a.other] if a.other and a.kind == 'fn' else ''))

    def zatom(self, i):
        a = self.atoms[i]
        if a.z is None:
            a.z = z3.Real('%s_%d' % (a.name, i))
        return a.z

    def constatom(self, i):
        a = self.atoms[i]
        if a.kind in ('in', 'u'):
            return None
        if i in self.cvals:
            return self.cvals[i]
        v = None
        self.cvals[i] = None
        try:
            if a.kind == 'fn':
                args = [self.constval(self.cur(x)) for x in a.other]
                if None not in args and a.fn in hp.FN:
                    v = hp.FN[a.fn](*args)
            elif a.p is not None:
                x = self.constval(a.p)
                if x is not None:
                    v = 1 / x if a.kind == 'inv' else abs(hp.mpmath.sqrt(x))
            if v is not None and not isinstance(v, hp.mpmath.mpf):
                v = None
        except (ZeroDivisionError, ValueError, OverflowError, TypeError):
            v = None
        self.cvals[i] = v
        return v

    def constval(self, p):
        """60 digit value of a polynomial that depends on no input, else None"""
        if len(p.d) > 60:
            return None
        n = len(self.atoms)
        s = hp.mpmath.mpf(0)
        for m, c in p.d.items():
            t = hp.mpq(c)
            for i, e in decode(m, n):
                v = self.constatom(i)
                if v is None:
                    return None
                if not v and e < 0:
                    return None
                t *= v ** e
            s += t
        return s

    def zpoly(self, p):
        n = len(self.atoms)
        terms = []
        for m, c in p.d.items():
            f = []
            for i, e in decode(m, n):
                if e > 0:
                    z = self.zatom(i)
                else:
                    a = self.atoms[i]
                    if a.zi is None:
                        a.zi = z3.Real('inv_%s_%d' % (a.name, i))
                    z = a.zi
                f.extend([z] * abs(e))
            c = Fraction(c)
            if c != 1 or not f:
                f.insert(0, z3.RealVal(c))
            t = f[0]
            for x in f[1:]:
                t = t * x
            terms.append(t)
        if not terms:
            return z3.RealVal(0)
        return z3.Sum(terms) if len(terms) > 1 else terms[0]

    def zcons(self, mask):
        """defining constraints of all atoms in the dependency closure of mask"""
        out = []
        mask = self.deps(mask)
        for i in range(len(self.atoms)):
            if not mask >> i & 1:
                continue
            a = self.atoms[i]
            if a.elim:
                continue
            z = self.zatom(i)
            if a.unit:
                out.append(z != 0)
            if a.zi is not None:
                out.append(z * a.zi == 1)
            if a.nonneg:
                out.append(z >= 0)
            q = self.defpoly(a)
            if a.kind == 'inv':
                out.append(z * self.zpoly(q) == 1)
            elif a.kind == 'sqrt':
                out.append(z * z == self.zpoly(q))
            elif a.kind == 'abs':
                o = self.zpoly(self.cur(a.other[0]))
                out.append(z == z3.If(o >= 0, o, -o))
            elif a.kind == 'fn':
                if a.fn == 'sin':
                    out.append(z * z == self.zpoly(q))
                    out.append(z <= 1)
                    out.append(z >= -1)
                if a.fn == 'cos':
                    out.append(z <= 1)
                    out.append(z >= -1)
                out.extend(self.fnaxioms(a))
            if a.kind == 'in' and a.dom is not None:
                lo, hi = a.dom
                if lo is not None:
                    out.append(z >= z3.RealVal(Fraction(lo)))
                if hi is not None:
                    out.append(z <= z3.RealVal(Fraction(hi)))
        # inverse variables created while printing definitions
        for i in range(len(self.atoms)):
            a = self.atoms[i]
            if a.zi is not None and mask >> i & 1:
                out.append(self.zatom(i) * a.zi == 1)
        return out

    def fnaxioms(self, a):
        out = []
        z = self.zatom(a.i)
        if not a.other:
            return out
        x = self.zpoly(self.cur(a.other[0]))
        if a.fn == 'sin':
            # Taylor bounds x - x^3/6 <= sin x <= x - x^3/6 + x^5/120 for x >= 0 (odd)
            s3 = x - x*x*x/6
            s5 = s3 + x*x*x*x*x/120
            out.append(z3.Implies(x >= 0, z3.And(z <= s5, z >= s3)))
            out.append(z3.Implies(x <= 0, z3.And(z >= s5, z <= s3)))
        elif a.fn == 'cos':
            c2 = 1 - x*x/2
            c4 = c2 + x*x*x*x/24
            out.append(z3.And(z <= c4, z >= c2))
        elif a.fn == 'exp':
            out.append(z > 0)
            out.append(z >= 1 + x)
            out.append(z3.Implies(x >= 0, z >= 1 + x + x*x/2))
            out.append(z3.Implies(z3.And(x <= 1, x >= -1), z3.And(z >= 1 + x + x*x/2 + x*x*x/6 - x*x*x*x/12,
                                                              z <= 1 + x + x*x/2 + x*x*x/6 + x*x*x*x/12)))
        elif a.fn == 'atan2':
            pi = z3.RealVal(FPI)
            out.append(z <= pi)
            out.append(z >= -pi)
            y = x
            x = self.zpoly(self.cur(a.other[1]))
            out.append(z3.Implies(y > 0, z > 0))
            out.append(z3.Implies(y < 0, z < 0))
            out.append(z3.Implies(z3.And(y == 0, x > 0), z == 0))
            out.append(z3.Implies(x > 0, z3.And(z < pi / 2, z > -pi / 2)))
            out.append(z3.Implies(z3.And(x < 0, y > 0), z > pi / 2))
            out.append(z3.Implies(z3.And(x < 0, y < 0), z < -pi / 2))
            r2 = padd(self.mul(self.cur(a.other[1]), self.cur(a.other[1])), self.mul(self.cur(a.other[0]), self.cur(a.other[0])))
            N, ts = self.numer(r2)
            if not (N is None or not ts):
                r2 = self.tidy(r2)
            out.append(z * z * self.zpoly(r2) >= y * y)
            out.append(z3.Implies(z3.And(x > 0, y >= 0), z * x <= y))
            out.append(z3.Implies(z3.And(x > 0, y <= 0), z * x >= y))
        elif a.fn == 'acos':
            pi = z3.RealVal(FPI)
            out.append(z <= pi)
            out.append(z >= 0)
            out.append(z3.Implies(x > 0, z < pi / 2))
            out.append(z3.Implies(x < 0, z > pi / 2))
            out.append(z3.Implies(x < 1, z > 0))
            out.append(z * z >= 2 - 2 * x)
            out.append(z * z * z3.RealVal('1/5') <= 1 - x)
        elif a.fn == 'asin':
            pi = z3.RealVal(FPI)
            out.append(z <= pi / 2)
            out.append(z >= -pi / 2)
            out.append(z3.Implies(x > 0, z >= x))
            out.append(z3.Implies(x < 0, z <= x))
            out.append(z3.Implies(x == 0, z == 0))
            small = z3.RealVal('1/400')
            out.append(z3.Implies(z3.And(x >= 0, x <= small), z <= x * z3.RealVal('1.000004')))
            out.append(z3.Implies(z3.And(x <= 0, x >= -small), z >= x * z3.RealVal('1.000004')))
        return out


def close(a, b):
    with np.errstate(all='ignore'):
        a = np.asarray(a, dtype=float)
        b = np.asarray(b, dtype=float)
        ok = np.isfinite(a) & np.isfinite(b)
        if not ok.any():
            return False
        return bool((np.abs(a - b)[ok] <= 1e-7 * (1e-30 + np.abs(a)[ok] + np.abs(b)[ok])).all()) if ok.shape else abs(a - b) <= 1e-7 * (abs(a) + abs(b))
