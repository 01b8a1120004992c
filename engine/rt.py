"""Run-time of the symbolic executor: values, memory, path state, checks."""
from fractions import Fraction
import struct, math, time, zlib, sys, os
NARROWDBG = os.environ.get("VS_NARROW")
import numpy as np
import z3
import hp
from algebra import R, Alg, Atom, decode, Unsupported, TooBig, Poly, psub, const as pconst

M64 = (1 << 64) - 1
NS = 24                 # concrete shadow samples per input


class PathEnd(Exception):
    def __init__(self, kind, msg=''):
        self.kind = kind
        self.msg = msg


class Undef:
    def __repr__(self):
        return 'UNDEF'


UNDEF = Undef()


class SI:
    """symbolic integer (bit-vector)"""
    __slots__ = ('w', 'z', 'v')

    def __init__(self, w, z, v=None):
        self.w = w
        self.z = z
        self.v = v


class SB:
    """symbolic boolean; k in cmp/z/not/and/or/xor"""
    __slots__ = ('k', 'a', 'b', 'p', 'v', 'zc', 'zv')

    def __init__(self, k, a, b, p, v):
        self.k = k
        self.a = a
        self.b = b
        self.p = p
        self.v = v
        self.zc = None
        self.zv = -1


class Obj:
    __slots__ = ('id', 'size', 'cells', 'gran', 'kind', 'alive', 'ro', 'name', 'extern')

    def __init__(self, id, size, kind, name=''):
        self.id = id
        self.size = size
        self.cells = {}
        self.gran = 0
        self.kind = kind
        self.alive = True
        self.ro = False
        self.name = name
        self.extern = False


_konst = {}


def K(c):
    """constant real"""
    if isinstance(c, float):
        if math.isfinite(c):
            c = rational(c)
        else:
            return R('k', None, None, c, c)
    r = _konst.get(c)
    if r is None:
        r = _konst[c] = R('k', None, None, Fraction(c), float(c))
    return r


def rational(x):
    """floating literal -> the simple rational it denotes"""
    if x == int(x):
        return Fraction(int(x))
    f = Fraction(x)
    if f.denominator <= 4096:
        return f
    g = f.limit_denominator(6000)
    if float(g) == x:
        return g
    s = repr(x)
    if len(s.replace('-', '').replace('.', '').lstrip('0').split('e')[0]) <= 12:
        return Fraction(s)
    return f


K0 = K(0)
K1 = K(1)


class State:
    pass


S = State()      # current engine


# ------------------------------------------------------------------ real arithmetic
def isk(x):
    return x.op == 'k'


def kbad(x):
    return x.op == 'k' and type(x.c) is float


def fadd(a, b):
    if a is UNDEF or b is UNDEF:
        return UNDEF
    S.nfp += 1
    try:
        if a.op == 'k':
            if b.op == 'k':
                return K(a.c + b.c)
            if type(a.c) is float:
                return a
            if a.c == 0:
                return b
        elif b.op == 'k':
            if type(b.c) is float:
                return b
            if b.c == 0:
                return a
    except AttributeError:
        return fadd(asreal(a), asreal(b))
    return R('+', a, b, None, a.v + b.v)


def fsub(a, b):
    if a is UNDEF or b is UNDEF:
        return UNDEF
    S.nfp += 1
    try:
        if b.op == 'k':
            if a.op == 'k':
                return K(a.c - b.c)
            if type(b.c) is float:
                return K(-b.c)
            if b.c == 0:
                return a
        elif a.op == 'k':
            if type(a.c) is float:
                return a
            if a.c == 0:
                return fneg(b)
    except AttributeError:
        return fsub(asreal(a), asreal(b))
    if a is b:
        return K0
    return R('-', a, b, None, a.v - b.v)


def fmul(a, b):
    if a is UNDEF or b is UNDEF:
        return UNDEF
    S.nfp += 1
    try:
        if a.op == 'k':
            if b.op == 'k':
                return K(a.c * b.c)
            if type(a.c) is float:
                return infmul(a, b)
            if a.c == 0:
                return K0
            if a.c == 1:
                return b
            if a.c == -1:
                return fneg(b)
        elif b.op == 'k':
            if type(b.c) is float:
                return infmul(b, a)
            if b.c == 0:
                return K0
            if b.c == 1:
                return a
            if b.c == -1:
                return fneg(a)
    except AttributeError:
        return fmul(asreal(a), asreal(b))
    return R('*', a, b, None, a.v * b.v)


def infmul(k, x):
    if math.isnan(k.c):
        return k
    if branch(fcmp('gt', x, K0)):
        return k
    if branch(fcmp('lt', x, K0)):
        return K(-k.c)
    return K(float('nan'))


def fdiv(a, b):
    if a is UNDEF or b is UNDEF:
        return UNDEF
    S.nfp += 1
    try:
        if b.op == 'k':
            if type(b.c) is float:
                if math.isnan(b.c) or kbad(a):
                    return K(float('nan'))
                return K0
            if b.c == 0:
                S.divzero += 1
                if a.op == 'k':
                    if type(a.c) is float and math.isnan(a.c) or a.c == 0:
                        return K(float('nan'))
                    return K(float('inf') if a.c > 0 else float('-inf'))
                return K(float('nan'))
            if a.op == 'k':
                return K(a.c / b.c)
            if b.c == 1:
                return a
            return fmul(a, K(1 / b.c))
        if a.op == 'k':
            if type(a.c) is float:
                return infmul(a, b)
    except AttributeError:
        return fdiv(asreal(a), asreal(b))
    if S.div_strict:
        # fork on a zero divisor (IEEE result is inf/nan, represented by nan)
        if branch(fcmp('eq', b, K0)):
            S.divzero += 1
            return K(float('nan'))
    if a.op == 'k' and a.c == 0:
        S.div_assumed.append(b)
        return K0
    S.div_assumed.append(b)
    return R('/', a, b, None, a.v / b.v)


def fneg(a):
    if a is UNDEF:
        return UNDEF
    if type(a) is not R:
        a = asreal(a)
    if a.op == 'k':
        return K(-a.c)
    if a.op == 'neg':
        return a.a
    return R('neg', a, None, None, -a.v)


def fabs_(a):
    if a is UNDEF:
        return UNDEF
    if type(a) is not R:
        a = asreal(a)
    if a.op == 'k':
        return K(abs(a.c))
    if a.op in ('abs', 'sqrt'):
        return a
    if a.op == 'neg':
        a = a.a
    return R('abs', a, None, None, np.abs(a.v))


def constnum(a):
    """the constant that a value reduces to, if it does"""
    if a.op != 'k':
        p = S.alg.poly(a)
        if not p.d or len(p.d) == 1 and 0 in p.d:
            return K(Fraction(p.d.get(0, 0)))
    return a


def fsqrt(a):
    if a is UNDEF:
        return UNDEF
    if type(a) is not R:
        a = asreal(a)
    if S.const_num:
        a = constnum(a)
    if a.op == 'k':
        if type(a.c) is float:
            return K(math.sqrt(a.c)) if a.c > 0 else K(float('nan'))
        if a.c < 0:
            return K(float('nan'))
        n, d = math.isqrt(a.c.numerator), math.isqrt(a.c.denominator)
        if n * n == a.c.numerator and d * d == a.c.denominator:
            return K(Fraction(n, d))
        if S.const_num:
            return K(Fraction(math.sqrt(a.c)))
        return R('sqrt', a, None, None, np.full(S.ns, math.sqrt(a.c)))
    if S.sqrt_strict:
        if branch(fcmp('lt', a, K0)):
            return K(float('nan'))
    with np.errstate(all='ignore'):
        return R('sqrt', a, None, None, np.sqrt(a.v))


NPF = {'sin': np.sin, 'cos': np.cos, 'tan': np.tan, 'exp': np.exp, 'log': np.log, 'asin': np.arcsin, 'acos': np.arccos,
       'atan': np.arctan, 'sinh': np.sinh, 'cosh': np.cosh, 'tanh': np.tanh, 'floor': np.floor, 'ceil': np.ceil,
       'rint': np.rint, 'trunc': np.trunc, 'log2': np.log2, 'log10': np.log10}


def cuberoot(a):
    """of a constant times the cube of a value, guessed from the samples and confirmed exactly; the rounded 1.0 / 3 stands for a third"""
    p = S.alg.poly(a)
    if not S.interval(p)[0] and not branch(fcmp('gt', a, K0)):
        return None
    v = np.asarray(a.v)
    for x in [None] + [x for x in S.alg.atoms if x.kind == 'in']:
        b = K1 if x is None else R('atom', x, None, None, x.vals)
        with np.errstate(all='ignore'):
            q = v / b.v ** 3
        q = q[np.isfinite(q)]
        if not len(q) or np.ptp(q) > 1e-9 * abs(q[0]):
            continue
        c = Fraction(float(np.cbrt(q[0]))).limit_denominator(1000)
        if c and S.alg.is_zero(S.alg.poly(fsub(a, fmul(K(c ** 3), fmul(b, fmul(b, b)))))):
            return fabs_(fmul(K(c), b))
    return None


def ffn(name, *args):
    if any(a is UNDEF for a in args):
        return UNDEF
    args = [a if type(a) is R else asreal(a) for a in args]
    if S.const_num:
        args = [constnum(a) for a in args]
    a = args[0]
    if len(args) == 1 and a.op == 'k' and type(a.c) is not float:
        if name in ('sin', 'tan', 'asin', 'atan', 'sinh', 'tanh') and a.c == 0:
            return K0
        if name in ('cos', 'exp', 'cosh') and a.c == 0:
            return K1
        if name == 'log' and a.c == 1:
            return K0
        if name in ('floor', 'ceil', 'trunc'):
            return K(Fraction({'floor': math.floor, 'ceil': math.ceil, 'trunc': math.trunc}[name](a.c)))
        if name == 'log2' and a.c > 0 and a.c.numerator & (a.c.numerator - 1) == 0 and a.c.denominator & (a.c.denominator - 1) == 0:
            return K(Fraction(a.c.numerator.bit_length() - a.c.denominator.bit_length()))
        if name == 'log2' and a.c <= 0:
            return K(float('-inf') if a.c == 0 else float('nan'))
        if name == 'acos' and a.c in (0, 1, -1):
            return K(rational(math.pi) / 2 * (1 - a.c))
        if name == 'asin' and a.c in (1, -1):
            return K(rational(math.pi) / 2 * a.c)
        if name == 'log' and a.c == 0:
            return K(float('-inf'))
        if name == 'log' and a.c < 0:
            return K(float('nan'))
    if name == 'log2' and a.op != 'k':
        if fbranch(fcmp('le', a, K0)):
            return K(float('-inf') if fbranch(fcmp('eq', a, K0)) else float('nan'))
    if any(kbad(x) for x in args):
        if len(args) == 1:
            with np.errstate(all='ignore'):
                r = float(NPF[name](a.c))
            return K(r) if not math.isfinite(r) else K(rational(r))
        raise Unsupported('non-finite argument to ' + name)
    with np.errstate(all='ignore'):
        if name == 'atan2':
            b = args[1]
            if a.op == 'k' and b.op == 'k' and not kbad(a) and not kbad(b):
                if a.c == 0 and b.c:
                    return K0 if b.c > 0 else K(rational(math.pi))
                if b.c == 0 and a.c:
                    return K(rational(math.pi) / 2 * (1 if a.c > 0 else -1))
            v = np.arctan2(args[0].v, args[1].v)
        elif name == 'hypot':
            return fsqrt(fadd(fmul(args[0], args[0]), fmul(args[1], args[1])))
        elif name == 'pow':
            b = args[1]
            if b.op == 'k' and type(b.c) is not float:
                if a.op == 'k' and type(a.c) is not float and b.c.denominator == 1 and abs(b.c) <= 1000 and (a.c or b.c >= 0) and a.c.numerator.bit_length() + a.c.denominator.bit_length() < 64:
                    return K(a.c ** int(b.c))
                if b.c.denominator == 1 and abs(b.c) <= 16:
                    n = abs(b.c.numerator)
                    r = K1
                    for _ in range(n):
                        r = fmul(r, a)
                    return r if b.c >= 0 else fdiv(K1, r)
                if b.c == Fraction(1, 2):
                    return fsqrt(a)
                if b.c == Fraction(1, 4):
                    return fsqrt(fsqrt(a))
                if b.c in (Fraction(1, 3), Fraction(1.0 / 3)):
                    r = cuberoot(a)
                    if r is not None:
                        return r
            v = np.power(a.v, b.v)
        elif name == 'fmod':
            v = np.fmod(args[0].v, args[1].v)
        elif name == 'ilogb' or name == 'ldexp':
            raise Unsupported(name)
        else:
            v = NPF[name](a.v)
    v = np.asarray(v, dtype=float)
    if S.const_num and all(x.op == 'k' for x in args) and np.all(np.isfinite(v)):
        return K(Fraction(float(v.flat[0])))
    if v.shape == ():
        v = np.full(S.ns, float(v))
    return R('fn', a, args[1] if len(args) > 1 else None, name, v)


def asreal(x):
    """bits or pass-through values -> R"""
    if type(x) is R:
        return x
    if type(x) is int:
        return K(struct.unpack('<d', struct.pack('<Q', x & M64))[0])
    if x is UNDEF:
        return x
    raise Unsupported('not a real: %r' % (x,))


def asreal32(x):
    if type(x) is int:
        return K(struct.unpack('<f', struct.pack('<I', x & 0xffffffff))[0])
    return asreal(x)


NEGP = {'lt': 'ge', 'ge': 'lt', 'le': 'gt', 'gt': 'le', 'eq': 'ne', 'ne': 'eq'}
FP = {'olt': 'lt', 'ult': 'lt', 'ogt': 'gt', 'ugt': 'gt', 'ole': 'le', 'ule': 'le', 'oge': 'ge', 'uge': 'ge',
      'oeq': 'eq', 'ueq': 'eq', 'one': 'ne', 'une': 'ne'}
CMPF = {'lt': lambda x, y: x < y, 'gt': lambda x, y: x > y, 'le': lambda x, y: x <= y, 'ge': lambda x, y: x >= y,
        'eq': lambda x, y: x == y, 'ne': lambda x, y: x != y}


def fcmpi(pred, a, b):
    """LLVM fcmp"""
    if a is UNDEF or b is UNDEF:
        return UNDEF
    if type(a) is not R:
        a = asreal(a)
    if type(b) is not R:
        b = asreal(b)
    an = kbad(a) and math.isnan(a.c)
    bn = kbad(b) and math.isnan(b.c)
    if pred == 'ord':
        return 0 if an or bn else 1
    if pred == 'uno':
        return 1 if an or bn else 0
    if pred == 'true':
        return 1
    if pred == 'false':
        return 0
    if an or bn:
        return 1 if pred[0] == 'u' else 0
    return fcmp(FP[pred], a, b)


SWAP = {'lt': 'gt', 'gt': 'lt', 'le': 'ge', 'ge': 'le', 'eq': 'eq', 'ne': 'ne'}


def fncmp(p, a, k):
    """a rounding or a binary logarithm compared with a constant: compare its argument instead"""
    if p in ('eq', 'ne'):
        return None
    if a.c == 'ceil':
        return fcmp('gt' if p in ('ge', 'gt') else 'le', a.a, K(Fraction(math.ceil(k) - 1 if p in ('ge', 'lt') else math.floor(k))))
    if a.c == 'floor':
        return fcmp('ge' if p in ('ge', 'gt') else 'lt', a.a, K(Fraction(math.ceil(k) if p in ('ge', 'lt') else math.floor(k) + 1)))
    if a.c == 'log2' and k.denominator == 1 and abs(k) < 2000:
        return fcmp(p, a.a, K(Fraction(2) ** int(k)))
    return None


def fbranch(c):
    return c if type(c) is int else branch(c)


def fcmp(p, a, b):
    if a.op == 'k' and b.op == 'k':
        return 1 if CMPF[p](a.c, b.c) else 0
    if kbad(a):
        return 1 if CMPF[p](a.c, 0.0) else 0
    if kbad(b):
        return 1 if CMPF[p](0.0, b.c) else 0
    if a is b:
        return 1 if p in ('le', 'ge', 'eq') else 0
    if a.op == 'fn' and b.op == 'k':
        q = fncmp(p, a, b.c)
        if q is not None:
            return q
    elif b.op == 'fn' and a.op == 'k':
        q = fncmp(SWAP[p], b, a.c)
        if q is not None:
            return q
    S.ncmp += 1
    if a.cf and b.cf:
        r = hp.constcmp(p, a, b)
        if r is None:
            try:
                if not S.alg.clear(S.alg.poly(R('-', a, b, None, a.v - b.v))).d:
                    r = 1 if p in ('le', 'ge', 'eq') else 0
            except (Unsupported, TooBig):
                pass
        if r is not None:
            return r
    with np.errstate(all='ignore'):
        v = CMPF[p](a.v, b.v)
    return SB('cmp', a, b, p, np.broadcast_to(v, (S.ns,)))


# ------------------------------------------------------------------ booleans
def bnot(x):
    if x is UNDEF:
        return UNDEF
    if type(x) is int:
        return 1 - x
    if x.k == 'not':
        return x.a
    if x.k == 'cmp':
        return SB('cmp', x.a, x.b, NEGP[x.p], None if x.v is None else ~x.v)
    return SB('not', x, None, None, None if x.v is None else ~x.v)


def b2(k, a, b):
    if a is UNDEF or b is UNDEF:
        if k == 'and' and (type(a) is int and a == 0 or type(b) is int and b == 0):
            return 0
        if k == "or" and (type(a) is int and a == 1 or type(b) is int and b == 1):
            return 1
        return UNDEF
    a = tobool(a)
    b = tobool(b)
    ta, tb = type(a) is int, type(b) is int
    if ta and tb:
        return (a & b) if k == 'and' else (a | b) if k == 'or' else (a ^ b)
    if tb:
        a, b = b, a
        ta = True
    if ta:
        if k == 'and':
            return b if a else 0
        if k == 'or':
            return 1 if a else b
        return bnot(b) if a else b
    v = None
    if a.v is not None and b.v is not None:
        v = (a.v & b.v) if k == 'and' else (a.v | b.v) if k == 'or' else (a.v ^ b.v)
    return SB(k, a, b, None, v)


def tobool(x):
    if type(x) is SI:
        if x.w == 1:
            return SB('z', x.z == 1, None, None, None if x.v is None else (x.v & 1) == 1)
        raise Unsupported('bool of wide int')
    return x


def isreal_cond(c):
    if c.k == 'cmp':
        return True
    if c.k == 'z':
        return False
    if c.k == 'not':
        return isreal_cond(c.a)
    return isreal_cond(c.a) or isreal_cond(c.b)


def vanishing(p):
    """identically zero, in a form that does not show it: cheap look at the samples first"""
    if not 1 < len(p.d) <= 200:
        return False
    v = S.alg.polyvals(p)
    if v is None:
        return False
    v = np.asarray(v)
    v = v[np.isfinite(v)]
    if not len(v) or np.max(np.abs(v)) > 1e-9 * max(abs(float(c)) for c in p.d.values()):
        return False
    try:
        return S.alg.is_zero(p)
    except TooBig:
        return False


def zbool(c):
    """SB -> z3 formula (+ collects atom mask)"""
    if type(c) is int:
        return z3.BoolVal(bool(c)), 0
    if c.zc is not None and c.zv == len(S.alg.subs):
        return c.zc
    if c.k == 'cmp':
        p = psub(S.alg.poly(c.a), S.alg.poly(c.b))
        k = None
        if not p.d:
            r = (z3.BoolVal(c.p in ('le', 'ge', 'eq')), 0)
        elif len(p.d) == 1 and 0 in p.d:
            r = (z3.BoolVal(bool(CMPF[c.p](p.d[0], 0))), 0)
        elif (k := S.alg.constval(p)) is not None and abs(k) > 1e-30:
            r = (z3.BoolVal(bool(CMPF[c.p](k, 0))), 0)
        elif vanishing(p):
            r = (z3.BoolVal(c.p in ('le', 'ge', 'eq')), 0)
        else:
            z = S.alg.zpoly(p)
            r = ({'lt': z < 0, 'le': z <= 0, 'gt': z > 0, 'ge': z >= 0, 'eq': z == 0, 'ne': z != 0}[c.p], p.sup)
    elif c.k == 'z':
        r = (c.a, 0)
    elif c.k == 'not':
        z, m = zbool(c.a)
        r = (z3.Not(z), m)
    else:
        # one side may decide alone, the other was computed ahead of its guard
        stop = {'and': z3.is_false, 'or': z3.is_true}.get(c.k)
        z1, m1 = zbool(c.a)
        if stop and stop(z1):
            c.zc = (z1, 0)
            c.zv = len(S.alg.subs)
            return c.zc
        z2, m2 = zbool(c.b)
        r = ({'and': z3.And, 'or': z3.Or, 'xor': z3.Xor}[c.k](z1, z2), m1 | m2)
    c.zc = r
    c.zv = len(S.alg.subs)
    return r


# ------------------------------------------------------------------ integers
def sgn(x, w):
    return x - (1 << w) if x >> (w - 1) else x


def zi(x, w):
    if type(x) is int:
        return z3.BitVecVal(x, w)
    if type(x) is SB:
        z, m = zbool(x)
        return z3.If(z, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
    return x.z


def iv(x, w):
    """sample array of int value (signed)"""
    if type(x) is int:
        return sgn(x, w)
    if type(x) is SB:
        return None if x.v is None else x.v.astype(np.int64)
    return x.v


def wrapv(v, w):
    if v is None:
        return None
    if w >= 64:
        return v
    v = v & ((1 << w) - 1)
    return np.where(v >> (w - 1), v - (1 << w), v)


IOPS = {'add': lambda a, b: a + b, 'sub': lambda a, b: a - b, 'mul': lambda a, b: a * b, 'and': lambda a, b: a & b,
        'or': lambda a, b: a | b, 'xor': lambda a, b: a ^ b}


def iop(op, w, a, b):
    if a is UNDEF or b is UNDEF:
        if op == 'and' and (a is not UNDEF and type(a) is int and a == 0 or b is not UNDEF and type(b) is int and b == 0):
            return 0
        return UNDEF
    ta, tb = type(a), type(b)
    if w == 1 and op in ('and', 'or', 'xor'):
        return b2(op, a, b)
    if ta is int and tb is int:
        m = (1 << w) - 1
        if op in IOPS:
            return IOPS[op](a, b) & m
        if op == 'shl':
            return (a << b) & m
        if op == 'lshr':
            return a >> b
        if op == 'ashr':
            return (sgn(a, w) >> b) & m
        if b == 0:
            raise PathEnd('violation', 'integer division by zero')
        if op == 'udiv':
            return a // b
        if op == 'urem':
            return a % b
        sa, sb = sgn(a, w), sgn(b, w)
        q = abs(sa) // abs(sb)
        if (sa < 0) != (sb < 0):
            q = -q
        if op == 'sdiv':
            return q & m
        if op == 'srem':
            return (sa - q * sb) & m
        raise Unsupported(op)
    if ta is R or tb is R:
        if op == 'xor' and w == 64 and b == 1 << 63:
            return fneg(a)
        if op == 'and' and w == 64 and b == (1 << 63) - 1:
            return fabs_(a)
        raise Unsupported('int op on real ' + op)
    if op in ('and', 'or', 'xor') and (ta is SB or ta is int and a < 2) and (tb is SB or tb is int and b < 2):
        return b2(op, a, b)
    a, b = settle(a), settle(b)
    if type(a) is int and type(b) is int:
        return iop(op, w, a, b)
    za, zb = zi(a, w), zi(b, w)
    va, vb = iv(a, w), iv(b, w)
    z = None
    v = None
    with np.errstate(all='ignore'):
        if op in IOPS:
            z = IOPS[op](za, zb)
            if va is not None and vb is not None:
                v = wrapv(IOPS[op](va, vb), w)
        elif op == 'shl':
            z = za << zb
        elif op == 'lshr':
            z = z3.LShR(za, zb)
        elif op == 'ashr':
            z = za >> zb
            if va is not None and type(b) is int:
                v = va >> b
        else:
            if branch(icmp('eq', w, b, 0)):
                raise PathEnd('violation', 'integer division by zero')
            z = {'sdiv': za / zb, 'srem': z3.SRem(za, zb), 'udiv': z3.UDiv(za, zb), 'urem': z3.URem(za, zb)}[op]
    z = z3.simplify(z)
    if z3.is_bv_value(z):
        return z.as_long()
    return SI(w, z, v)


ZC = {'eq': lambda a, b: a == b, 'ne': lambda a, b: a != b, 'slt': lambda a, b: a < b, 'sle': lambda a, b: a <= b,
      'sgt': lambda a, b: a > b, 'sge': lambda a, b: a >= b, 'ult': z3.ULT, 'ule': z3.ULE, 'ugt': z3.UGT, 'uge': z3.UGE}
PC = {'eq': lambda a, b: a == b, 'ne': lambda a, b: a != b, 'lt': lambda a, b: a < b, 'le': lambda a, b: a <= b,
      'gt': lambda a, b: a > b, 'ge': lambda a, b: a >= b}


def icmp(p, w, a, b):
    if a is UNDEF or b is UNDEF:
        return UNDEF
    if type(a) is int and type(b) is int:
        if p in ('eq', 'ne'):
            return 1 if PC[p](a, b) else 0
        if p[0] == 's':
            return 1 if PC[p[1:]](sgn(a, w), sgn(b, w)) else 0
        return 1 if PC[p[1:]](a, b) else 0
    if type(a) is R or type(b) is R:
        raise Unsupported('icmp on real')
    if w == 1:
        x = b2('xor', a, b)
        return x if p == 'ne' else bnot(x) if p == 'eq' else _bad('icmp i1 ' + p)
    if type(a) is SB and type(b) is SB and p in ('eq', 'ne'):
        x = b2('xor', a, b)
        return x if p == 'ne' else bnot(x)
    if type(a) is SB or type(b) is SB:
        # zext'ed boolean compared with a constant
        if type(a) is int and p in ('eq', 'ne'):
            a, b = b, a
        if type(b) is int and p in ('eq', 'ne') and type(a) is SB:
            if b == 0:
                return bnot(a) if p == 'eq' else a
            if b == 1:
                return a if p == 'eq' else bnot(a)
            return 0 if p == 'eq' else 1
        a, b = settle(a), settle(b)
        if type(a) is int and type(b) is int:
            return icmp(p, w, a, b)
    z = z3.simplify(ZC[p](zi(a, w), zi(b, w)))
    if z3.is_true(z):
        return 1
    if z3.is_false(z):
        return 0
    v = None
    va, vb = iv(a, w), iv(b, w)
    if va is not None and vb is not None:
        pp = p[-2:] if p in ('eq', 'ne') else p[1:]
        if p[0] != 'u':
            v = PC[pp](va, vb)
            v = np.broadcast_to(v, (S.ns,))
    return SB('z', z, None, None, v)


def _bad(m):
    raise Unsupported(m)


def settle(x):
    """a comparison of reals used as a number: decide it by a branch, so that what follows stays tied to the reals"""
    if type(x) is SB and isreal_cond(x):
        return int(bool(branch(x)))
    return x


def ext(x, w0, w1, signed):
    if x is UNDEF:
        return UNDEF
    if type(x) is int:
        return sgn(x, w0) & ((1 << w1) - 1) if signed else x
    if type(x) is SB:
        if signed:
            x = settle(x)
            if type(x) is int:
                return (1 << w1) - 1 if x else 0
            z, m = zbool(x)
            return SI(w1, z3.If(z, z3.BitVecVal(-1, w1), z3.BitVecVal(0, w1)), None)
        return x    # boolean carried in a wide register
    if type(x) is R:
        raise Unsupported('ext real')
    if w0 == 1:
        return ext(tobool(x), w0, w1, signed)
    z = z3.SignExt(w1 - w0, x.z) if signed else z3.ZeroExt(w1 - w0, x.z)
    v = x.v
    if v is not None and not signed:
        v = v & ((1 << w0) - 1)
    return SI(w1, z3.simplify(z), v)


def trunc(x, w0, w1):
    if x is UNDEF:
        return UNDEF
    if type(x) is int:
        return x & ((1 << w1) - 1)
    if type(x) is SB:
        return x
    if type(x) is R:
        raise Unsupported('trunc real')
    z = z3.simplify(z3.Extract(w1 - 1, 0, x.z))
    if w1 == 1:
        return SB('z', z == 1, None, None, None if x.v is None else (x.v & 1) == 1)
    if z3.is_bv_value(z):
        return z.as_long()
    return SI(w1, z, wrapv(x.v, w1))


def sitofp(x, w, signed=True):
    if x is UNDEF:
        return UNDEF
    if type(x) is int:
        return K(Fraction(sgn(x, w) if signed else x))
    if type(x) is SB:
        return K1 if branch(x) else K0
    if type(x) is R:
        raise Unsupported('sitofp real')
    u = unique_int(x)
    if u is None and (x.v is None or S.dpos < 100000 and int_range_small(x)):
        u = concretize(x, w)
    if u is not None:
        return K(Fraction(sgn(u, w) if signed else u))
    # opaque integer-valued atom
    key = ('i2f', x.z.get_id(), signed)
    r = S.i2f.get(key)
    if r is None:
        if x.v is None:
            raise Unsupported('sitofp without shadow')
        at = S.alg.atom('in', 'i2f%d' % len(S.i2f), x.v.astype(float))
        at.dom = (None, None)
        at.fn = 'nosub'
        r = R('atom', at, None, None, at.vals)
        S.i2f[key] = r
        S.i2f_src[at.i] = x
        S.keep.append(x)
    return r


def unique_int(x):
    """the value of a symbolic integer when the path determines it"""
    s = S.isolver
    if S.dpos < len(S.prefix) and S.prefix[S.dpos][0] == 'u':
        d = S.prefix[S.dpos]
        S.dpos += 1
        S.decisions.append(d)
        return d[1]
    u = None
    S.nq += 1
    if s.check() == z3.sat:
        v = s.model().eval(x.z, model_completion=True)
        S.nq += 1
        s.push()
        s.add(x.z != v)
        if s.check() == z3.unsat:
            u = v.as_long()
        s.pop()
    S.decisions.append(('u', u))
    S.dpos += 1
    return u


def int_range_small(x, lim=12):
    s = S.isolver
    s.push()
    n = 0
    while n <= lim and s.check() == z3.sat:
        S.nq += 1
        s.add(x.z != s.model().eval(x.z, model_completion=True))
        n += 1
    s.pop()
    return n <= lim


def fptosi(x, w):
    if x is UNDEF:
        return UNDEF
    if type(x) is not R:
        x = asreal(x)
    if x.op == 'k':
        if type(x.c) is float:
            raise PathEnd('violation', 'conversion of non-finite value to integer')
        return int(math.trunc(x.c)) & ((1 << w) - 1)
    key = ('f2i', id(x), w)
    r = S.i2f.get(key)
    if r is None:
        # whatever values it can be found to have, one after the other
        for t in range(40):
            k = np.nonzero(S.alive)[0]
            g = float(np.broadcast_to(x.v, (S.ns,))[int(k[0])]) if len(k) else t - 2
            if not math.isfinite(g) or abs(g) > 1e9:
                break
            g = math.trunc(g)
            if fbranch(fcmp('gt' if g <= 0 else 'ge', x, K(Fraction(g - 1 if g <= 0 else g)))) and fbranch(fcmp('lt' if g >= 0 else 'le', x, K(Fraction(g + 1 if g >= 0 else g)))):
                r = g & ((1 << w) - 1)
                S.i2f[key] = r
                S.keep.append(x)
                return r
        # opaque integer
        z = z3.BitVec('f2i%d' % len(S.i2f), w)
        with np.errstate(all='ignore'):
            v = np.nan_to_num(np.clip(np.trunc(x.v), -2.0**31, 2.0**31 - 1)).astype(np.int64)
        r = SI(w, z, np.broadcast_to(v, (S.ns,)))
        S.i2f[key] = r
        S.keep.append(x)
    return r


def fptrunc(x):
    if x is UNDEF:
        return UNDEF
    if type(x) is not R:
        x = asreal(x)
    if not S.f32round:
        # a harness in which single precision has no business: the loss is modelled and looked at closely
        if not S.nofloat or S.isf32.get(id(x)):
            return x
        if x.op == 'k' and (type(x.c) is float or Fraction(float(np.float32(float(x.c)))) == x.c):
            return x
        if NARROWDBG and not S.lostprec:
            sys.stderr.write('NARROW %s %s\n' % (S.entry, x.op))
        S.lostprec = True
    if x.op == 'k':
        if type(x.c) is float:
            return x
        f = float(np.float32(float(x.c)))
        return K(Fraction(f)) if Fraction(f) != x.c else x
    if S.isf32.get(id(x)):
        return x
    return rnd32(x)


def rnd32(x):
    """opaque rounding to float precision"""
    if x is UNDEF or x.op == 'k' or S.isf32.get(id(x)):
        return x
    if x.op == 'neg':
        r = fneg(rnd32(x.a))
        S.isf32[id(r)] = r
        return r
    with np.errstate(all='ignore'):
        v = np.asarray(x.v).astype(np.float32).astype(float)
    r = R('fn', x, None, 'rnd32', v)
    S.isf32[id(r)] = r
    return r


# float (single precision) arithmetic: exact unless f32round
def f32(x):
    return rnd32(x) if S.f32round and type(x) is R else x


def fadd32(a, b):
    return f32(fadd(a, b))


def fsub32(a, b):
    return f32(fsub(a, b))


def fmul32(a, b):
    return f32(fmul(a, b))


def fdiv32(a, b):
    return f32(fdiv(a, b))


# ------------------------------------------------------------------ memory
def newobj(size, kind, name=''):
    o = Obj(len(S.objs), size, kind, name)
    S.objs.append(o)
    return o.id << 32


def violation(msg):
    raise PathEnd('violation', msg)


def getobj(addr, n, what):
    if type(addr) is not int:
        if addr is UNDEF:
            violation('%s through uninitialised pointer' % what)
        if type(addr) is R:
            raise Unsupported('real used as pointer')
        addr = resolve_ptr(addr, n, what)
    i = addr >> 32
    off = addr & 0xffffffff
    if i == 0 or i >= len(S.objs):
        if i == 0:
            violation('%s through null pointer' % what)
        violation('%s through wild pointer' % what)
    o = S.objs[i]
    if not o.alive:
        violation('%s of dead %s object %s' % (what, o.kind, o.name))
    if off + n > o.size:
        violation('%s out of bounds: offset %d size %d of %s object %s (%d bytes)' % (
            what, off if off < 1 << 31 else off - (1 << 32), n, o.kind, o.name, o.size))
    return o, off


def resolve_ptr(addr, n, what):
    """symbolic address: first make sure it cannot leave its object, then fork over its values"""
    v = int_model(addr)
    if v is None:
        raise PathEnd('infeasible')
    base = (v >> 32) << 32
    i = v >> 32
    if i == 0 or i >= len(S.objs):
        # nearest real object by taking the minimum
        violation('%s through wild symbolic pointer' % what)
    o = S.objs[i]
    lim = max(o.size - n, 0)
    ok = z3.And(z3.ULE(addr.z, z3.BitVecVal(base + lim, 64)), z3.UGE(addr.z, z3.BitVecVal(base, 64)))
    if o.size < n or branch(SB('z', z3.Not(ok), None, None, None)):
        violation('%s out of bounds (symbolic index) of %s object %s (%d bytes)' % (what, o.kind, o.name, o.size))
    return concretize(addr, 64)


def concretize(x, w):
    """fork over the feasible values of a symbolic integer"""
    if type(x) is int:
        return x
    if x is UNDEF:
        violation('uninitialised value used as size or index')
    if type(x) is SB:
        return 1 if branch(x) else 0
    if S.dpos < len(S.prefix):
        d = S.prefix[S.dpos]
        S.dpos += 1
        S.decisions.append(d)
        v = d[1]
        S.ipush(x.z == z3.BitVecVal(v, w))
        return v
    # enumerate feasible values
    vals = []
    s = S.isolver
    s.push()
    t0 = time.time()
    while len(vals) < S.max_concretize:
        r = s.check()
        S.nq += 1
        if r != z3.sat:
            break
        m = s.model()
        v = m.eval(x.z, model_completion=True).as_long()
        vals.append(v)
        s.add(x.z != z3.BitVecVal(v, w))
    else:
        if s.check() == z3.sat:
            s.pop()
            raise Unsupported('too many values in concretize')
    s.pop()
    S.tq += time.time() - t0
    if not vals:
        raise PathEnd('infeasible')
    vals.sort()
    for v in vals[1:]:
        S.fork(('c', v))
    d = ('c', vals[0])
    S.decisions.append(d)
    S.dpos += 1
    S.ipush(x.z == z3.BitVecVal(vals[0], w))
    return vals[0]


def int_model(x):
    s = S.isolver
    r = s.check()
    S.nq += 1
    if r != z3.sat:
        return None
    return s.model().eval(x.z, model_completion=True).as_long()


def mload(addr, n):
    if type(addr) is int:
        i = addr >> 32
        if 0 < i < len(S.objs):
            o = S.objs[i]
            if o.alive:
                c = o.cells.get(addr & 0xffffffff)
                if c is not None and c[0] == n:
                    return c[1]
    o, off = getobj(addr, n, 'read')
    c = o.cells.get(off)
    if c is not None and c[0] == n:
        return c[1]
    if o.gran == n and off % n == 0:
        if c is None:
            return zero_or_undef(o)
    return load_slow(o, off, n)


def zero_or_undef(o):
    if o.extern:
        raise Unsupported('read of external object ' + o.name)
    return UNDEF


def load_slow(o, off, n):
    # gather bytes
    res = 0
    have = 0
    covered = None
    for k in range(n):
        b = get_byte(o, off + k)
        if b is UNDEF:
            continue
        if type(b) is tuple:
            # part of a symbolic cell
            v, sz, idx = b
            if covered is None:
                covered = (v, sz, idx, k)
            continue
        res |= b << (8 * k)
        have += 1
    if covered is not None:
        v, sz, idx, k = covered
        if type(v) is SI:
            parts = []
            sv = np.zeros(S.ns, dtype=np.int64)
            for k in range(n):
                b = get_byte(o, off + k)
                if b is UNDEF:
                    if n < 8:
                        return UNDEF
                    b = 0
                if type(b) is int:
                    parts.append(z3.BitVecVal(b, 8))
                    if sv is not None:
                        sv = sv | np.int64(b if k < 7 else sgn(b, 8)) << np.int64(8 * k)
                elif type(b[0]) is SI:
                    if sv is not None and b[0].v is not None:
                        sv = sv | ((b[0].v.astype(np.int64) >> (8 * b[2])) & 255) << np.int64(8 * k)
                    else:
                        sv = None
                    parts.append(z3.Extract(8 * b[2] + 7, 8 * b[2], b[0].z))
                else:
                    raise Unsupported('partial read of symbolic value')
            z = parts[0] if len(parts) == 1 else z3.Concat(*reversed(parts))
            z = z3.simplify(z)
            return z.as_long() if z3.is_bv_value(z) else SI(8 * n, z, wrapv(sv, 8 * n))
        if type(v) is SB and n == 1 and idx == 0:
            return v
        raise Unsupported('partial read of symbolic value')
    if have == 0:
        return zero_or_undef(o)
    if have < n and n < 8:
        return UNDEF
    # 8-byte loads of partly initialised memory: structures with padding passed in registers
    return res


def get_byte(o, off):
    for st in range(off, off - 17, -1):
        c = o.cells.get(st)
        if c is not None:
            if st + c[0] > off:
                v = c[1]
                if type(v) is int:
                    return (v >> (8 * (off - st))) & 255
                if v is UNDEF:
                    return UNDEF
                if type(v) is R and v.op == 'k' and c[0] == 8:
                    return struct.pack('<d', float(v.c))[off - st]
                if type(v) is R and v.op == 'k' and c[0] == 4:
                    return struct.pack('<f', float(v.c))[off - st]
                return (v, c[0], off - st)
            return UNDEF
    return UNDEF


def mstore(addr, n, val):
    if type(addr) is int:
        i = addr >> 32
        off = addr & 0xffffffff
        if 0 < i < len(S.objs):
            o = S.objs[i]
            if o.alive and o.gran == n and not o.ro and off % n == 0 and off + n <= o.size:
                o.cells[off] = (n, val)
                return
    o, off = getobj(addr, n, 'write')
    if o.ro:
        violation('write to read-only object ' + o.name)
    store_slow(o, off, n, val)


def store_slow(o, off, n, val):
    if o.gran == 0:
        o.gran = n if off % n == 0 else -1
        o.cells[off] = (n, val)
        return
    if o.gran == n and off % n == 0:
        o.cells[off] = (n, val)
        return
    o.gran = -1
    clear_range(o, off, n)
    o.cells[off] = (n, val)


def si_byte(x, j):
    v = None if x.v is None else (((x.v >> (8 * j)) & 255) ^ 128) - 128
    return SI(8, z3.Extract(8 * j + 7, 8 * j, x.z), v)


def clear_range(o, off, n):
    """remove bytes [off,off+n); split partially overlapped integer cells"""
    cells = o.cells
    if n > 64 and len(cells) < n:
        offs = [k for k in cells if k + cells[k][0] > off and k < off + n]
    else:
        offs = [k for k in range(off - 16, off + n) if k in cells and k + cells[k][0] > off]
    for k in offs:
        sz, v = cells.pop(k)
        if k >= off and k + sz <= off + n:
            continue
        # split into bytes outside
        for j in range(sz):
            if k + j < off or k + j >= off + n:
                if v is UNDEF:
                    continue
                if type(v) is int:
                    cells[k + j] = (1, (v >> (8 * j)) & 255)
                elif type(v) is SI:
                    cells[k + j] = (1, si_byte(v, j))
                elif type(v) is R and v.op == 'k' and sz == 8:
                    cells[k + j] = (1, struct.pack('<d', float(v.c))[j])
                else:
                    raise Unsupported('partial overwrite of symbolic value')
        o.gran = -1


def mcopy(dst, src, n):
    if type(n) is not int:
        n = concretize(n, 64)
    if n == 0:
        return
    so, soff = getobj(src, n, 'read (memcpy)')
    do, doff = getobj(dst, n, 'write (memcpy)')
    if do.ro:
        violation('write to read-only object ' + do.name)
    if so.extern:
        raise Unsupported('copy of external object ' + so.name)
    if so.gran == -1:
        # make sure that cells straddling the ends are split
        items = []
        for k in sorted(so.cells):
            sz, v = so.cells[k]
            if k + sz <= soff or k >= soff + n:
                continue
            if k >= soff and k + sz <= soff + n:
                items.append((k - soff, sz, v))
            else:
                for j in range(sz):
                    if soff <= k + j < soff + n:
                        b = get_byte(so, k + j)
                        if type(b) is tuple:
                            if b[0] is not None and type(b[0]) is SI:
                                b = si_byte(b[0], b[2])
                            else:
                                raise Unsupported('partial copy')
                        items.append((k + j - soff, 1, b))
    else:
        g = so.gran
        items = []
        if g:
            st = soff - soff % g
            cs = so.cells
            if soff % g or n % g:
                for k in range(st, soff + n, g):
                    if k in cs:
                        sz, v = cs[k]
                        if k >= soff and k + sz <= soff + n:
                            items.append((k - soff, sz, v))
                        else:
                            for j in range(sz):
                                if soff <= k + j < soff + n:
                                    b = get_byte(so, k + j)
                                    if type(b) is tuple:
                                        raise Unsupported('partial copy')
                                    items.append((k + j - soff, 1, b))
            else:
                if n // g > len(cs):
                    for k in cs:
                        if soff <= k < soff + n:
                            items.append((k - soff, g, cs[k][1]))
                else:
                    for k in range(soff, soff + n, g):
                        c = cs.get(k)
                        if c is not None:
                            items.append((k - soff, g, c[1]))
    clear_range(do, doff, n)
    for k, sz, v in items:
        if do.gran == 0:
            do.gran = sz if (doff + k) % sz == 0 else -1
        elif do.gran != sz or (doff + k) % sz:
            do.gran = -1
        do.cells[doff + k] = (sz, v)


def mset(dst, val, n):
    if type(n) is not int:
        n = concretize(n, 64)
    if n == 0:
        return
    o, off = getobj(dst, n, 'write (memset)')
    if o.ro:
        violation('write to read-only object')
    clear_range(o, off, n)
    if val is UNDEF:
        return
    if type(val) is not int:
        raise Unsupported('symbolic memset')
    g = o.gran if o.gran in (1, 2, 4, 8) else 8
    if off % g or n % g:
        g = 4 if off % 4 == 0 and n % 4 == 0 else 1
    if o.gran == 0:
        o.gran = g
    elif o.gran != g:
        o.gran = -1
    v = int.from_bytes(bytes([val & 255]) * g, 'little')
    for k in range(off, off + n, g):
        o.cells[k] = (g, v)


def free_obj(addr, kind):
    if type(addr) is not int:
        if addr is UNDEF:
            violation('free of uninitialised pointer')
        addr = concretize(addr, 64)
    if addr == 0:
        return
    i = addr >> 32
    if i >= len(S.objs) or addr & 0xffffffff:
        violation('free of invalid pointer')
    o = S.objs[i]
    if o.kind not in ('new', 'new[]', 'malloc'):
        violation('free of %s object' % o.kind)
    if not o.alive:
        violation('double free')
    if o.kind != kind:
        violation('mismatched deallocation: %s object freed with %s' % (o.kind, kind))
    o.alive = False
    S.nheap -= 1


def cstr(addr):
    o, off = getobj(addr, 1, 'read')
    out = []
    while True:
        b = get_byte(o, off)
        if type(b) is not int or b == 0:
            break
        out.append(chr(b))
        off += 1
    return ''.join(out)


# ------------------------------------------------------------------ branching
def branch(c):
    if type(c) is int:
        return c != 0
    if c is UNDEF:
        violation('branch on uninitialised value')
    if type(c) is SI:
        c = tobool(c)
    return S.branch(c)
