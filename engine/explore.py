"""Path exploration, checks and external-function models."""
import os, time, math, random, zlib, traceback
import numpy as np
import z3
import rt
from rt import *
import algebra
from algebra import *
import codegen
import hp
np.seterr(all='ignore')

ABORTS = {'@abort': 'abort', '@__assert_fail': 'assert', '@_ZSt9terminatev': 'terminate', '@__cxa_throw': 'throw',
          '@__cxa_pure_virtual': 'abort', '@exit': 'exit', '@_ZSt17__throw_bad_allocv': 'throw',
          '@__cxa_throw_bad_array_new_length': 'throw', '@_ZSt20__throw_length_errorPKc': 'throw',
          '@_ZSt28__throw_bad_array_new_lengthv': 'throw', '@_Exit': 'exit', '@_ZSt20__throw_out_of_rangePKc': 'throw',
          '@_ZSt24__throw_out_of_range_fmtPKcz': 'throw', '@_ZSt19__throw_logic_errorPKc': 'throw', '@__clang_call_terminate': 'terminate'}
MATH1 = ('sin', 'cos', 'tan', 'exp', 'log', 'asin', 'acos', 'atan', 'sinh', 'cosh', 'tanh', 'floor', 'ceil', 'rint', 'trunc', 'log2', 'log10')


SIGNS = {}


def put(s, fs):
    """assert a list of z3 formulas without the conversions of the Python interface"""
    c = s.ctx.ref()
    for f in fs:
        z3.z3core.Z3_solver_assert(c, s.solver, f.as_ast())


class Engine(State):
    pass


def setup(engine_opts=None):
    S.__class__ = Engine
    S.opts = {'query_ms': 4000, 'check_ms': 15000, 'max_paths': 3000, 'time': 200.0, 'ni_max': 6_000_000}
    if engine_opts:
        S.opts.update(engine_opts)
    S.stats = {'paths': 0, 'queries': 0, 'qtime': 0.0, 'checks': 0, 'instr': 0, 'fp': 0, 'forks': 0}


class Result:
    def __init__(self):
        self.paths = {}
        self.checks = {}        # label -> dict(proved, refuted, unknown)
        self.cands = []
        self.unknown = []
        self.notes = []
        self.samples = []
        self.validate = []
        self.incomplete = None


class Requeue(Exception):
    pass


class Engine(State):
    # ------------------------------------------------------------------ exploration
    def explore(self, cg, entry, seed=1):
        self.cg = cg
        self.entry = entry
        self.seed = seed
        self.res = Result()
        self.queue = [([], [])]
        self.nq = 0
        self.tq = 0.0
        self.t0 = time.time()
        self.tlimit = self.t0 + self.opts['time'] + 20
        self.max_concretize = 160
        self.ni_max = self.opts['ni_max']
        self.inputs_cache = {}
        self.tot_ni = 0
        self.tot_fp = 0
        self.ncmp = 0
        self.candcount = {}
        while self.queue:
            if time.time() - self.t0 > self.opts['time']:
                self.res.incomplete = 'time budget (%ds): %d paths left' % (self.opts['time'], len(self.queue))
                break
            if sum(self.res.paths.values()) >= self.opts['max_paths']:
                self.res.incomplete = 'path budget: %d paths left' % len(self.queue)
                break
            prefix, extra = self.queue.pop()
            self.run_path(prefix, extra)
        self.res.nq = self.nq
        self.res.tq = self.tq
        self.res.ni = self.tot_ni
        self.res.fp = self.tot_fp
        self.res.wall = time.time() - self.t0
        self.res.funcs = sorted(f[1:] for f in cg.executed)
        return self.res

    def reset(self, prefix, extra):
        self.prefix = prefix
        self.extra = extra
        self.dpos = 0
        self.decisions = []
        self.ns = NS + len(extra)
        self.alive = np.ones(self.ns, dtype=bool)
        self.rconds = []
        self.bounds = {}
        self.bpos = 0
        self.iconds = []
        self.isolver = z3.Solver()
        self.isolver.set('timeout', 20000)
        self.alg = Alg(self)
        self.inputs = []        # (name, kind, payload)
        self.ni = 0
        self.nfp = 0
        self.divzero = 0
        self.div_strict = False
        self.sqrt_strict = False
        self.const_num = False  # functions of constants are evaluated (rounded to double) instead of kept as exact algebraic numbers
        self.half = False
        self.div_assumed = []
        self.f32round = False
        self.nofloat = bool(self.opts.get('nofloat'))
        self.lostprec = False   # something was rounded to single precision although the harness has double precision only
        self.isf32 = {}
        self.i2f = {}
        self.i2f_src = {}
        self.keep = []
        self.nheap = 0
        self.abort_ok = None
        self.leakcheck = True
        self.ended = False
        self.uninit_ok = False
        self.tolscale = 1.0
        self.nosolve = False
        self.trace = []
        self.stub_inputs = False
        self.cg.setup_globals()

    def run_path(self, prefix, extra):
        self.reset(prefix, extra)
        kind, msg = 'done', ''
        try:
            ctors = self.cg.mod.globals.get('@llvm.global_ctors')
            if ctors:
                for c in ctors[1]:
                    self.cg.func(c)()
            self.cg.func(self.entry)()
            if self.leakcheck and self.nheap > 0:
                raise PathEnd('violation', 'memory leak: %d heap blocks not released at end' % self.nheap)
        except PathEnd as e:
            kind, msg = e.kind, e.msg
        except (Unsupported, TooBig) as e:
            kind, msg = 'unsupported', '%s %s' % (type(e).__name__, e)
        except RecursionError:
            kind, msg = 'unsupported', 'recursion'
        except Requeue:
            kind = 'requeue'
        self.tot_ni += self.ni
        self.tot_fp += self.nfp
        if kind == 'violation':
            ok = self.path_feasible()
            if ok is False:
                kind = 'infeasible'
            else:
                self.candidate('memory/abort', msg)
        elif kind in ('unsupported', 'steps'):
            if self.path_feasible() is False:
                kind = 'infeasible'
            else:
                self.res.notes.append('%s: %s' % (kind, msg))
                self.record('path:' + kind, 'unknown')
                # a path that goes on and on: the real code decides whether it ever ends
                if kind == 'steps' or msg == 'recursion':
                    self.candidate('termination', 'the real code does not come to an end')
        elif kind in ('done', 'abort'):
            self.validate_sample()
        if kind != 'requeue':
            self.res.paths[kind] = self.res.paths.get(kind, 0) + 1
        if len(self.res.samples) < 8:
            self.res.samples.append({'decisions': len(self.decisions), 'end': kind, 'msg': msg[:120],
                                     'real_conds': len(self.rconds), 'int_conds': len(self.iconds),
                                     'witness': self.witness(0)})

    def int_model(self, prefer):
        """values for the symbolic integers: the preferred ones where the path allows them"""
        s = self.isolver
        s.push()
        try:
            if prefer:
                s.push()
                for z, v in prefer:
                    s.add(z == v)
                if s.check() == z3.sat:
                    m = s.model()
                    s.pop()
                    return m, True
                s.pop()
            if s.check() == z3.sat:
                return s.model(), not self.i2f
            return None, False
        finally:
            s.pop()

    def witness(self, col):
        """concrete inputs for sample column, list of [name, value]"""
        pref = [(x.z, int(x.v[col])) for _, k, x in self.inputs if k == 'i' and type(x) is not int and x.v is not None and col < len(x.v)]
        im, ok = self.int_model(pref)
        self.int_exact = ok
        return self.witness_with(lambda pl: float(pl.vals[col]), im)

    def witness_from(self, m):
        pref = []
        for i, x in self.i2f_src.items():
            v = m.get(i)
            if v is not None and float(v) == int(v):
                pref.append((x.z, int(v)))
        im, ok = self.int_model(pref)
        return self.witness_with(lambda pl: m.get(pl.i, 0.0), im)

    def witness_with(self, f, im):
        out = []
        for name, kind, pl in self.inputs:
            if name.startswith('%'):
                continue
            if kind == 'r':
                out.append([name, f(pl)])
            elif kind == 'i' and type(pl) is not int:
                v = im.eval(pl.z, model_completion=True).as_long() if im is not None else 0
                out.append([name, sgn(v, pl.w)])
            else:
                out.append([name, pl])
        return out

    def pick_cols(self, mask=None, n=2):
        a = self.alive if mask is None else (self.alive & mask)
        idx = np.nonzero(a)[0]
        return [int(i) for i in idx[:n]]

    def validate_sample(self):
        if len(self.res.validate) >= 12:
            return
        cols = self.pick_cols(n=NS)
        col = None
        for c in cols:
            try:
                m = {}
                if all(hp.truth(x, c, m) for x in self.rconds):
                    col = c
                    break
            except (hp.Undecided, OverflowError, ValueError, ZeroDivisionError):
                continue
        if col is None:
            if self.inputs_real() and (self.rconds or not cols):
                return
            col = 0
        tr = []
        if not self.stub_inputs:
            for label, a, b in self.trace[:60]:
                tr.append([label, at_col(a, col), at_col(b, col)])
        w = self.witness(col)
        if self.i2f and not self.int_exact:
            return
        self.res.validate.append({'inputs': w, 'trace': tr})

    def inputs_real(self):
        return any(k == 'r' for _, k, _ in self.inputs)

    def candidate(self, label, msg, mask=None, inputs=None):
        key = label + msg[:40]
        c = self.candcount.get(key, 0)
        if c >= 6:
            return
        self.candcount[key] = c + 1
        if inputs is not None:
            self.res.cands.append({'label': label, 'msg': msg, 'inputs': inputs, 'prec': self.lostprec})
            return
        cols = self.pick_cols(mask, 2)
        if not cols:
            if self.inputs_real() and self.rconds:
                w = self.model_inputs()
                if w is not None:
                    self.res.cands.append({'label': label, 'msg': msg, 'inputs': w, 'prec': self.lostprec})
                return
            cols = [0]
        for c in cols:
            self.res.cands.append({'label': label, 'msg': msg, 'inputs': self.witness(c), 'prec': self.lostprec})

    def model_inputs(self):
        r, m = self.solve_real([], self.opts['query_ms'])
        if m is None:
            return None
        return self.witness_from(m)

    # ------------------------------------------------------------------ decisions
    def fork(self, d, extra=None):
        self.stats['forks'] += 1
        self.queue.append((self.decisions + [d], self.extra + (extra or [])))

    def ipush(self, z):
        self.iconds.append(z)
        self.isolver.add(z)

    def icheck(self, z):
        t = time.time()
        self.isolver.push()
        self.isolver.add(z)
        r = self.isolver.check()
        self.isolver.pop()
        self.nq += 1
        self.tq += time.time() - t
        return r

    def add_cond(self, c, val):
        if type(c) is int:
            return
        cc = c if val else bnot(c)
        if type(cc) is int:
            return
        if cc.v is not None:
            self.alive = self.alive & cc.v
        if isreal_cond(cc):
            self.rconds.append(cc)
        else:
            self.ipush(zbool(cc)[0])

    def branch(self, c):
        if self.dpos < len(self.prefix):
            d = self.prefix[self.dpos]
            self.dpos += 1
            self.decisions.append(d)
            self.add_cond(c, d[1])
            return d[1]
        known = None
        if not isreal_cond(c):
            z = zbool(c)[0]
            t = self.icheck(z) != z3.unsat
            f = self.icheck(z3.Not(z)) != z3.unsat
            mt = mf = None
        elif (known := self.known(c)) is not None:
            t, f = known, not known
            mt = mf = None
        else:
            t, mt = self.feasible(c, True)
            f, mf = self.feasible(c, False)
        if not t and not f:
            raise PathEnd('infeasible')
        if t and f:
            # prefer continuing on a side with samples
            first = True
            if mt is not None and mf is None:
                first = False
            other_m = mf if first else mt
            self.fork(('b', not first), [other_m] if other_m is not None else None)
            this_m = mt if first else mf
            if this_m is not None:
                self.fork(('b', first), [this_m])
                raise Requeue()
            val = first
        else:
            val = bool(t)
            m = mt if t else mf
            if m is not None:
                self.fork(('b', val), [m])
                raise Requeue()
        self.decisions.append(('b', val))
        self.dpos += 1
        self.add_cond(c, val)
        return val

    def known(self, c):
        """truth of a condition that is constant or already decided on this path"""
        try:
            z = zbool(c)[0]
            n = bnot(c)
            zn = zbool(n)[0] if type(n) is not int else z3.BoolVal(bool(n))
        except TooBig:
            return None
        if z3.is_true(z) or z3.is_false(zn):
            return True
        if z3.is_false(z) or z3.is_true(zn):
            return False
        if c.k == 'cmp':
            r = self.ranged(c)
            if r is not None:
                return r
        for x in reversed(self.rconds):
            if x.zc is not None and x.zv == len(self.alg.subs):
                i = x.zc[0].get_id()
                if i == z.get_id():
                    return True
                if i == zn.get_id():
                    return False
        return None

    def learn(self, c):
        """interval of an input implied by a condition linear in it"""
        if c.k == 'and':
            self.learn(c.a)
            self.learn(c.b)
        if c.k != 'cmp' or c.p == 'ne' or not plain(c):
            return
        try:
            d = psub(self.alg.poly(c.a), self.alg.poly(c.b)).d
        except TooBig:
            return
        if not 0 < len(d) <= 2:
            return
        n = len(self.alg.atoms)
        v = None
        k = 0
        for m, q in d.items():
            e = decode(m, n)
            if not e:
                k = q
            elif len(e) == 1 and e[0][1] == 1:
                v, s = e[0][0], q
            else:
                return
        if v is None or len(d) == 2 and 0 not in d:
            return
        x = Fraction(-k) / s
        lo, hi = self.bounds.get(v, (None, None))
        p = c.p if s > 0 else SWAP[c.p]
        if p in ('gt', 'ge', 'eq') and (lo is None or x > lo[0] or x == lo[0] and p == 'gt'):
            lo = (x, p == 'gt')
        if p in ('lt', 'le', 'eq') and (hi is None or x < hi[0] or x == hi[0] and p == 'lt'):
            hi = (x, p == 'lt')
        self.bounds[v] = (lo, hi)

    def ranged(self, c):
        """truth of a polynomial comparison by interval arithmetic over the bounds of its inputs"""
        pos, neg, nn, np_ = self.interval(psub(self.alg.poly(c.a), self.alg.poly(c.b)))
        t = {'gt': (pos, np_), 'ge': (nn, neg), 'lt': (neg, nn), 'le': (np_, pos), 'eq': (False, pos or neg), 'ne': (pos or neg, False)}[c.p]
        return True if t[0] else False if t[1] else None

    def interval(self, p):
        """(positive, negative, not negative, not positive) where the bounds of the inputs show it"""
        none = False, False, False, False
        while self.bpos < len(self.rconds):
            self.bpos += 1
            self.learn(self.rconds[self.bpos - 1])
        if not self.bounds or len(p.d) > 600:
            return none
        n = len(self.alg.atoms)
        lo = hi = Fraction(0)
        slo = shi = False       # bound not attained
        for m, q in p.d.items():
            a = b = Fraction(q)
            sa = sb = False
            for i, e in decode(m, n):
                B = self.bounds.get(i)
                if B is None or B[0] is None or B[1] is None:
                    t = self.alg.atoms[i]
                    if B is not None and B[0] is not None and B[0][0] >= 0:
                        B = (B[0], None)
                    elif t.nonneg:
                        B = ((Fraction(0), False), B[1] if B else None)
                    elif e > 0 and e % 2 == 0:
                        B = None
                    else:
                        return none
                if e < 0:
                    return none
                if B is None:
                    l, u, sl, su = Fraction(0), None, False, True
                else:
                    l, sl = B[0]
                    u, su = B[1] if B[1] is not None else (None, True)
                    if l < 0 and e % 2 == 0:
                        if u <= 0:
                            l, u, sl, su = u ** e, l ** e, su, sl
                        else:
                            l, u, sl, su = Fraction(0), max(l ** e, u ** e), False, False
                    else:
                        l = l ** e
                        u = None if u is None else u ** e
                # [a, b] * [l, u]; None is infinite
                if l >= 0:
                    na = None if a is None else a * l if a >= 0 else None if u is None else a * u
                    nb = None if b is None else b * l if b <= 0 else None if u is None else b * u
                    if a is not None and a >= 0:
                        sa = na > 0 and (sa or sl) or na == 0 and (sa if l > 0 else sl if a > 0 else sa and sl)
                    else:
                        sa = False
                    if b is not None and b <= 0:
                        sb = nb < 0 and (sb or sl) or nb == 0 and (sb if l > 0 else sl if b < 0 else sb and sl)
                    else:
                        sb = False
                    a, b = na, nb
                elif u is not None and a is not None and b is not None:
                    w = (a * l, a * u, b * l, b * u)
                    a, b, sa, sb = min(w), max(w), False, False
                else:
                    a = b = None
                if a is None and b is None:
                    return none
            lo = None if lo is None or a is None else lo + a
            hi = None if hi is None or b is None else hi + b
            slo = slo or sa
            shi = shi or sb
            if lo is None and hi is None:
                return none
        pos = lo is not None and (lo > 0 or lo == 0 and slo)
        neg = hi is not None and (hi < 0 or hi == 0 and shi)
        nn = lo is not None and lo >= 0
        np_ = hi is not None and hi <= 0
        return pos, neg, nn, np_

    def feasible(self, c, val):
        """(possible?, model for a new sample column or None)"""
        cc = c if val else bnot(c)
        if cc.v is not None and bool((self.alive & cc.v).any()):
            return True, None
        if self.nosolve:
            return True, None
        try:
            z, m = zbool(cc)
        except (TooBig,):
            return True, None
        except Unsupported:
            raise
        if z3.is_false(z):
            return False, None
        r, mod = self.solve_real([cc], self.opts['query_ms'])
        if r == 'unsat':
            return False, None
        if r == 'sat' and mod is not None and len(self.extra) < 40:
            col = [mod.get(pl.i, 0.0) for _, k, pl in self.inputs if k == 'r']
            # only useful if it really follows this side
            return True, col
        return True, None

    def zpath(self, conds):
        fs = []
        mask = 0
        allc = self.rconds + conds
        # force polynomial forms first: later conversions may introduce substitutions
        for _ in range(3):
            n = len(self.alg.subs)
            for c in allc:
                zbool(c)
            if len(self.alg.subs) == n:
                break
        seen = set()
        for c in allc:
            z, m = zbool(c)
            i = z.get_id()
            if i not in seen:
                seen.add(i)
                if not z3.is_true(z):
                    fs.append(z)
                    mask |= m
        return fs, mask

    def relevant(self, conds):
        """cone of influence: keep only the path conditions sharing atoms with the goal"""
        return self.rconds

    def solve_real(self, conds, ms, extra=None, mask0=0, box=False):
        t = time.time()
        try:
            fs, mask = self.zpath(conds)
            mask |= mask0
            cons = self.alg.zcons(mask)
            cons = self.alg.zcons(mask)
        except TooBig:
            return 'unknown', None
        r = 'unknown'
        m = None
        try:
            s = z3.SolverFor('QF_NRA')
            s.set('timeout', int(ms))
            put(s, fs)
            put(s, cons)
            if extra is not None:
                s.add(extra)
            rr = s.check()
            r = str(rr)
            if rr == z3.sat:
                mod = s.model()
                lim = []
                for a in self.alg.atoms if box else ():
                    if a.kind == 'in' and a.z is not None:
                        lim += [a.z <= 100, a.z >= -100]
                if lim:
                    # moderate inputs show the difference without rounding
                    s.set('timeout', min(int(ms), 1000))
                    s.add(lim)
                    if s.check() == z3.sat:
                        mod = s.model()
                m = self.model_values(mod, mask)
        except z3.Z3Exception:
            r = 'unknown'
        self.nq += 1
        self.tq += time.time() - t
        if os.environ.get('VS_DEBUG'):
            print('SOLVE %s %.1fs %s' % (r, time.time() - t, [str(c)[:150] for c in conds]))
        return r, m

    def model_values(self, model, mask):
        """values (floats) for the input atoms from a z3 model; eliminated inputs are back-substituted"""
        vals = {}
        for a in self.alg.atoms:
            if a.z is not None:
                v = model.eval(a.z, model_completion=True)
                vals[a.i] = zfloat(v)
        rng = random.Random(7)
        # defaults
        for a in self.alg.atoms:
            if a.i not in vals:
                if a.vals is not None:
                    k = np.nonzero(self.alive)[0]
                    j = int(k[0]) if len(k) else 0
                    x = float(np.broadcast_to(a.vals, (self.ns,))[j])
                    vals[a.i] = x if math.isfinite(x) else 1.0
                else:
                    vals[a.i] = rng.uniform(-1, 1)
        for i, q in reversed(self.alg.subs):
            q = self.alg.cur(q)
            r = 0.0
            try:
                for m, c in q.d.items():
                    t = float(c)
                    for j, e in decode(m, len(self.alg.atoms)):
                        t *= vals.get(j, 0.0) ** e
                    r += t
            except (ZeroDivisionError, OverflowError):
                r = 1.0
            vals[i] = r
        for k, v in list(vals.items()):
            if not math.isfinite(v):
                vals[k] = 1.0
        return vals

    def path_feasible(self):
        """True/False/None for the current path"""
        if self.isolver.check() == z3.unsat:
            return False
        if not self.rconds:
            return True
        if self.alive.any():
            return True
        try:
            r, m = self.solve_real([], self.opts['check_ms'])
        except (Unsupported, TooBig):
            return None
        if r == 'unsat':
            return False
        return True if r == 'sat' else None

    def sign_of(self, alg, p):
        """+1/-1 if the solver proves the sign of p on the current path, else 0 (p compared weakly)"""
        pos, neg, nn, np_ = self.interval(p)
        if nn or np_:
            return 1 if nn else -1
        v = alg.polyvals(p)
        if v is None:
            return 0
        v = np.broadcast_to(v, (self.ns,))
        a = v[self.alive]
        if not len(a):
            # no sample follows this path: ask for the likelier sign
            s = 1 if (v > 0).sum() >= (v < 0).sum() else -1
        elif (a > 0).all():
            s = 1
        elif (a < 0).all():
            s = -1
        else:
            return 0
        if len(p.d) > 60:
            return 0
        try:
            z = alg.zpoly(p)
            fs, mask = [], p.sup
            for c in self.rconds:
                if (c.zc is None or c.zv != len(alg.subs)) and plain(c):
                    zbool(c)
                if c.zc is not None and c.zv == len(alg.subs):
                    fs.append(c.zc[0])
                    mask |= c.zc[1]
            cons = alg.zcons(mask)
            cons = alg.zcons(mask)
            sv = z3.SolverFor('QF_NRA')
            sv.set('timeout', 300)
            sv.add(cons)
            sv.add(z < 0 if s > 0 else z > 0)
            # the same question comes back on every path with this prefix
            key = hash((sv.sexpr(), tuple(f.sexpr() for f in fs)))
            r = SIGNS.get(key)
            if r is None:
                self.nq += 1
                t = time.time()
                r = sv.check()
                if r != z3.unsat and fs:
                    a = sv.assertions()
                    sv = z3.SolverFor('QF_NRA')
                    sv.set('timeout', 1200)
                    sv.add(a)
                    sv.add(fs)
                    r = sv.check()
                    self.nq += 1
                self.tq += time.time() - t
                SIGNS[key] = r
            if os.environ.get('VS_DEBUG'): print('SIGN', alg.show(p), s, r, len(fs), [c.zc is not None for c in self.rconds])
            return s if r == z3.unsat else 0
        except z3.Z3Exception:
            return 0

    # ------------------------------------------------------------------ assumptions and checks
    def record(self, label, what):
        d = self.res.checks.setdefault(label, {'proved': 0, 'refuted': 0, 'unknown': 0})
        d[what] += 1

    def assume(self, c):
        if c is UNDEF:
            violation('assumption on uninitialised value')
        c = tobool(c)
        if type(c) is int:
            if not c:
                raise PathEnd('assume')
            return
        if not isreal_cond(c):
            z = zbool(c)[0]
            if self.icheck(z) == z3.unsat:
                raise PathEnd('assume')
            self.add_cond(c, True)
            return
        if c.v is not None and (self.alive & c.v).any():
            self.add_cond(c, True)
            return
        had = bool(self.alive.any())
        if self.dpos < len(self.prefix) or not had and len(self.extra) > 6:
            self.add_cond(c, True)
            return
        r, m = self.solve_real([c], self.opts['query_ms'])
        if r == 'unsat':
            raise PathEnd('assume')
        if r == 'sat' and m is not None and len(self.extra) < 8:
            col = [m.get(pl.i, 0.0) for _, k, pl in self.inputs if k == 'r']
            if not any(np.allclose(col[:len(e)], e[:len(col)]) for e in self.extra if len(e) >= 1):
                self.queue.append((self.decisions, self.extra + [col]))
                raise Requeue()
        self.add_cond(c, True)

    def hp_filter(self, mask, pred, limit=4):
        """keep the samples on which the path conditions hold and pred is true in high precision"""
        out = np.zeros(self.ns, dtype=bool)
        n = 0
        for k in np.nonzero(mask)[0]:
            k = int(k)
            n += 1
            if n > 8 or out.sum() >= limit:
                break
            try:
                m = {}
                if all(hp.truth(c, k, m) for c in self.rconds) and pred(k, m):
                    out[k] = True
            except (hp.Undecided, OverflowError, ValueError, ZeroDivisionError):
                continue
        return out

    def check_bool(self, c, label):
        if c is UNDEF:
            self.record(label, 'refuted')
            self.candidate(label, 'checked value is uninitialised')
            return
        c = tobool(c)
        if type(c) is int:
            if c:
                self.record(label, 'proved')
            else:
                pf = self.path_feasible()
                if pf is False:
                    raise PathEnd('infeasible')
                self.record(label, 'refuted')
                self.candidate(label, 'check fails: ' + label)
            return
        if not isreal_cond(c):
            z = zbool(c)[0]
            r = self.icheck(z3.Not(z))
            if r == z3.unsat:
                self.record(label, 'proved')
            elif r == z3.sat:
                self.record(label, 'refuted')
                self.isolver.push()
                self.isolver.add(z3.Not(z))
                try:
                    self.candidate(label, 'check fails: ' + label)
                finally:
                    self.isolver.pop()
                if self.icheck(z) == z3.unsat:
                    raise PathEnd('refuted')
                self.add_cond(c, True)
            else:
                self.record(label, 'unknown')
            return
        bad = None
        if c.v is not None:
            bad = self.alive & ~c.v & margin(c, 1e-7)
            bad = self.hp_filter(bad, lambda k, m: not hp.truth(c, k, m)) if bad.any() else bad
            if bad.any():
                self.record(label, 'refuted')
                self.candidate(label, 'check fails: ' + label, mask=bad)
                self.add_cond(c, True)
                return
        nc = bnot(c)
        try:
            r, m = self.solve_real([nc], self.opts['check_ms'], box=True)
        except (Unsupported, TooBig):
            r, m = 'unknown', None
        if r == 'unsat':
            self.record(label, 'proved')
        elif r == 'sat' and m is not None:
            self.record(label, 'unknown')
            self.res.unknown.append(label)
            self.candidate(label, 'solver model: ' + label, inputs=self.witness_from(m))
        else:
            self.record(label, 'unknown')
            self.res.unknown.append(label)

    def check_eq(self, a, b, label, tol):
        if a is UNDEF or b is UNDEF:
            self.record(label, 'refuted')
            self.candidate(label, 'compared value is uninitialised')
            return
        a = asreal(a)
        b = asreal(b)
        if self.lostprec:
            tol = min(tol, 1e-9)
        if not label.startswith('%'):      # checks inside a library model have no native counterpart
            self.trace.append((label, a, b))
        ka, kb = kbad(a), kbad(b)
        if ka or kb:
            if ka and kb and (a.c == b.c or (math.isnan(a.c) and math.isnan(b.c))):
                self.record(label, 'proved')
                return
            if self.path_feasible() is False:
                raise PathEnd('infeasible')
            self.record(label, 'refuted')
            self.candidate(label, 'non-finite value %s vs %s' % (a.c if ka else '.', b.c if kb else '.'))
            return
        if a is b:
            self.record(label, 'proved')
            self.nq += 0
            return
        p = None
        err = ''
        try:
            p = psub(self.alg.poly(a), self.alg.poly(b))
            p = psub(self.alg.poly(a), self.alg.poly(b))
            if self.alg.is_zero(p):
                self.certify(a, b, label)
                return
        except (TooBig, Unsupported) as e:
            err = str(e)
            p = None
        # not an identity: look for a robust disagreement on this path
        with np.errstate(all='ignore'):
            av = np.broadcast_to(a.v, (self.ns,))
            bv = np.broadcast_to(b.v, (self.ns,))
            d = np.abs(av - bv)
            sc = np.maximum(1.0, np.maximum(np.abs(av), np.abs(bv)))
            bad = self.alive & np.isfinite(d) & (d > tol * sc)

        def differs(k, m):
            x, y = hp.value(a, k, m), hp.value(b, k, m)
            return abs(x - y) > tol * max(1, abs(x), abs(y))
        if bad.any():
            bad = self.hp_filter(bad, differs)
        if bad.any():
            self.record(label, 'refuted')
            self.candidate(label, 'values differ: ' + label, mask=bad)
            return
        if p is None:
            self.record(label, 'unknown')
            self.res.notes.append('check %s: %s' % (label, err))
            self.res.unknown.append(label)
            return
        if len(p.d) == 1 and 0 in p.d and abs(float(p.d[0])) < 1e-13:
            # constants that differ only by floating-point rounding of literals
            self.record(label, 'proved')
            return
        try:
            self.zpath([])
            p = self.alg.cur(p)
            if self.alg.is_zero(p):
                self.certify(a, b, label)
                return
            z = self.alg.zpoly(p)
            r, m = self.solve_real([], self.opts['check_ms'], extra=[z3.Or(z > z3.RealVal(str(tol)), z < -z3.RealVal(str(tol)))], mask0=p.sup, box=True)
        except (TooBig, Unsupported):
            r, m = 'unknown', None
        if r == 'unsat':
            self.record(label, 'proved')
        else:
            if os.environ.get('VS_DEBUG'):
                self.alg.dump(p, label)
            self.record(label, 'unknown')
            self.res.unknown.append(label)
            if r == 'sat' and m is not None:
                self.candidate(label, 'solver model: ' + label, inputs=self.witness_from(m))

    def certify(self, a, b, label):
        """the algebra says a == b: have the solver confirm the negation is unsatisfiable"""
        pa, pb = self.alg.poly(a), self.alg.poly(b)
        pa = self.alg.poly(a)
        if pa.d == pb.d:
            # syntactically equal normal forms
            n = 1
        lhs, rhs = pa, pb
        t = time.time()
        ok = True
        if len(pa.d) + len(pb.d) <= 400:
            diff = self.alg.clear(psub(pa, pb))
            s = z3.Solver()
            s.set('timeout', 3000)
            if pa.d != pb.d:
                # numerators after clearing denominators / algebraic reduction
                s.add(self.alg.zpoly(diff) != 0)
            else:
                s.add(self.alg.zpoly(lhs) != self.alg.zpoly(rhs))
            r = s.check()
            ok = r == z3.unsat
        self.nq += 1
        self.tq += time.time() - t
        with np.errstate(all='ignore'):
            av = np.broadcast_to(a.v, (self.ns,))
            bv = np.broadcast_to(b.v, (self.ns,))
            d = np.abs(av - bv)
            sc = np.maximum(1.0, np.maximum(np.abs(av), np.abs(bv)))
            bad = self.alive & np.isfinite(d) & (d > 1e-3 * sc)
        if bad.sum() > max(1, self.alive.sum() // 2):
            self.res.notes.append('ENCODER: %s proved but shadow values disagree' % label)
            ok = False
        self.record(label, 'proved' if ok else 'unknown')

    def check_le(self, a, b, label, tol):
        """a <= b (+tol*scale)"""
        if a is UNDEF or b is UNDEF:
            self.record(label, 'refuted')
            self.candidate(label, 'compared value is uninitialised')
            return
        a = asreal(a)
        b = asreal(b)
        self.trace.append((label, a, b))
        c = fcmp('le', a, b)
        if type(c) is int:
            self.check_bool(c, label)
            return
        with np.errstate(all='ignore'):
            av = np.broadcast_to(a.v, (self.ns,))
            bv = np.broadcast_to(b.v, (self.ns,))
            sc = np.maximum(1.0, np.maximum(np.abs(av), np.abs(bv)))
            bad = self.alive & np.isfinite(av) & np.isfinite(bv) & (av - bv > max(tol, 1e-9) * sc)
        def fails(k, m):
            x, y = hp.value(a, k, m), hp.value(b, k, m)
            return x - y > max(tol, 1e-9) * max(1, abs(x), abs(y))
        if bad.any():
            bad = self.hp_filter(bad, fails)
        if bad.any():
            self.record(label, 'refuted')
            self.candidate(label, 'inequality fails: ' + label, mask=bad)
            return
        try:
            r, m = self.solve_real([bnot(c)], self.opts['check_ms'], box=True)
        except (TooBig, Unsupported):
            r, m = 'unknown', None
        if r == 'unsat':
            self.record(label, 'proved')
        else:
            self.record(label, 'unknown')
            self.res.unknown.append(label)
            if r == 'sat' and m is not None:
                self.candidate(label, 'solver model: ' + label, inputs=self.witness_from(m))

    def on_abort(self, kind):
        if self.abort_ok is None:
            raise PathEnd('violation', kind + ' reached')
        c = self.abort_ok
        lab = 'abort only when the contract is broken'
        if type(c) is int:
            if c:
                self.record(lab, 'proved')
                raise PathEnd('abort')
            raise PathEnd('violation', kind + ' although the arguments are valid')
        self.check_bool(c, lab)
        raise PathEnd('abort')

    # ------------------------------------------------------------------ inputs
    def samples_for(self, name, idx, lo, hi):
        key = (idx, name, lo, hi)
        v = self.inputs_cache.get(key)
        if v is None:
            rng = np.random.RandomState(zlib.crc32(('%s|%s|%d|%d' % (self.entry, name, idx, self.seed)).encode()) & 0x7fffffff)
            v = np.zeros(NS)
            l = -2.0 if lo is None else lo
            h = 2.0 if hi is None else hi
            if lo is not None and hi is None:
                h = max(lo + 2.0, 2.0)
            if hi is not None and lo is None:
                l = min(hi - 2.0, -2.0)
            for j in range(NS):
                if j < NS // 2:
                    x = rng.uniform(l, h)
                    x = round(x * 1024) / 1024.0 if h - l > 0.25 else x
                elif j < NS - 6:
                    x = float(rng.choice([-2, -1, 1, 2, 3, 0.5]))
                elif j < NS - 2:
                    x = float(rng.choice([0, 0, 1, -1, 2]))
                elif j == NS - 2:
                    x = 1.0
                else:
                    x = float(rng.choice([0, 1]))
                if x < l or x > h:
                    x = rng.uniform(l, h)
                v[j] = x
            self.inputs_cache[key] = v
        return v

    def real_input(self, name, lo=None, hi=None):
        nr = sum(1 for _, k, _ in self.inputs if k == 'r')
        if name.startswith('%'):
            self.stub_inputs = True
        v = self.samples_for(name, nr, lo, hi)
        if self.extra:
            ex = [e[nr] if nr < len(e) else 0.5 for e in self.extra]
            v = np.concatenate([v, np.array(ex)])
            if lo is not None or hi is not None:
                pass
        a = self.alg.atom('in', 'x_' + name, v)
        a.dom = (lo, hi)
        if lo is not None or hi is not None:
            a.fn = 'nosub'
            with np.errstate(all='ignore'):
                ok = np.ones(self.ns, dtype=bool)
                if lo is not None:
                    ok &= v >= lo
                if hi is not None:
                    ok &= v <= hi
            self.alive = self.alive & ok
        self.inputs.append((name, 'r', a))
        return R('atom', a, None, None, v)

    def int_input(self, name, lo, hi, w=32):
        z = z3.BitVec('i%d_%s' % (len(self.inputs), name), w)
        rng = np.random.RandomState(zlib.crc32(('%s|%s|%d|%d' % (self.entry, name, len(self.inputs), self.seed)).encode()) & 0x7fffffff)
        l, h = max(lo, -50), min(hi, 50)
        if l > h:
            l, h = lo, hi
        v = rng.randint(l, h + 1, size=self.ns).astype(np.int64)
        if lo > -(1 << (w - 1)):
            self.ipush(z >= z3.BitVecVal(lo, w))
        if hi < (1 << (w - 1)) - 1:
            self.ipush(z <= z3.BitVecVal(hi, w))
        x = SI(w, z, None if (hi - lo) > 1000000 else v)
        self.inputs.append((name, 'i', x))
        return x

    def choose(self, name, lo, hi):
        if self.dpos < len(self.prefix):
            d = self.prefix[self.dpos]
            v = d[1]
        else:
            for k in range(hi, lo, -1):
                self.fork(('k', k))
            v = lo
        self.dpos += 1
        self.decisions.append(('k', v))
        self.inputs.append((name, 'c', v))
        return v & 0xffffffff


def plain(c, n=40):
    """condition without divisions, roots or functions: encoding it introduces no atoms"""
    if type(c) is int:
        return True
    if c.k == 'not':
        return plain(c.a)
    if c.k in ('and', 'or', 'xor'):
        return plain(c.a) and plain(c.b)
    if c.k != 'cmp':
        return False
    st = [c.a, c.b]
    while st:
        n -= 1
        x = st.pop()
        if n < 0 or not isinstance(x, R):
            return False
        if x.op in ('k', 'atom'):
            if isinstance(x.c, float) and x.op == 'k':
                return False
            continue
        if x.pc is not None and len(x.pc.d) < 20:
            continue
        if x.op not in ('+', '-', '*', 'neg'):
            return False
        st.append(x.a)
        if isinstance(x.b, R):
            st.append(x.b)
    return True


def at_col(x, k):
    v = x.v
    try:
        return float(v[k])
    except (IndexError, TypeError):
        return float(v)


def zfloat(v):
    try:
        if z3.is_rational_value(v):
            return v.numerator_as_long() / v.denominator_as_long()
        if z3.is_algebraic_value(v):
            a = v.approx(20)
            return a.numerator_as_long() / a.denominator_as_long()
    except (OverflowError, z3.Z3Exception):
        pass
    return 0.5


def margin(c, eps):
    """samples on which every comparison inside c is decided by more than eps"""
    if type(c) is int:
        return np.ones(S.ns, dtype=bool)
    if c.k == 'cmp':
        with np.errstate(all='ignore'):
            a = np.broadcast_to(c.a.v, (S.ns,))
            b = np.broadcast_to(c.b.v, (S.ns,))
            d = np.abs(a - b)
            m = np.isfinite(d) & (d > eps * np.maximum(1.0, np.maximum(np.abs(a), np.abs(b))))
            if c.p in ('eq', 'ne'):
                # eq failing needs a margin; ne failing (values equal) is exact on dyadic samples
                m = m | (np.isfinite(d) & (d == 0))
            return m
    if c.k == 'z':
        return np.ones(S.ns, dtype=bool)
    if c.k == 'not':
        return margin(c.a, eps)
    return margin(c.a, eps) & margin(c.b, eps)


# ---------------------------------------------------------------------- external functions
def dbl(x):
    return float(x.c) if type(x) is R else x


def ext_table():
    T = {}
    T['@vs_real'] = lambda n: S.real_input(cstr(n))
    T['@vs_real_in'] = lambda n, lo, hi: S.real_input(cstr(n), dbl(lo), dbl(hi))

    def vs_float(n):
        r = S.real_input(cstr(n))
        S.nofloat = False
        # shadow values must be representable
        r.a.vals = r.v = r.v.astype(np.float32).astype(float)
        S.isf32[id(r)] = r
        return r
    T['@vs_float'] = vs_float
    T['@vs_int'] = lambda n, lo, hi: S.int_input(cstr(n), sgn(lo, 32), sgn(hi, 32))
    T['@vs_choose'] = lambda n, lo, hi: S.choose(cstr(n), sgn(lo, 32), sgn(hi, 32))
    T['@vs_assume'] = lambda c: S.assume(ne0(c))
    T['@vs_check'] = lambda c, l: S.check_bool(ne0(c), cstr(l))
    T['@vs_eq'] = lambda a, b, l, t: S.check_eq(a, b, cstr(l), dbl(t))
    T['@vs_le'] = lambda a, b, l, t: S.check_le(a, b, cstr(l), dbl(t))

    def vs_eqi(a, b, l):
        S.check_bool(icmp('eq', 32, a, b), cstr(l))
    T['@vs_eqi'] = vs_eqi

    def vs_abort_ok(c):
        S.abort_ok = tobool(ne0(c))
    T['@vs_abort_ok'] = vs_abort_ok

    def vs_opt(n, v):
        setattr(S, cstr(n), bool(v))
    T['@vs_opt'] = vs_opt

    def vs_nan():
        return K(float('nan'))
    T['@vs_nan'] = vs_nan
    T['@vs_inf'] = lambda: K(float('inf'))
    T['@vs_isnan'] = lambda x: 1 if kbad(asreal(x)) and math.isnan(asreal(x).c) else 0
    T['@vs_isinf'] = lambda x: 1 if kbad(asreal(x)) and math.isinf(asreal(x).c) else 0
    T['@vs_init'] = lambda x, l: S.record(cstr(l), 'proved') if x is not UNDEF else S.check_bool(UNDEF, cstr(l))

    def vs_symbolic():
        return 1
    T['@vs_symbolic'] = vs_symbolic

    def vs_nheap():
        return S.nheap & 0xffffffff
    T['@vs_nheap'] = vs_nheap

    def vs_sign_ge0(x):
        """tell the algebra that this (fresh) input is non-negative"""
        x.a.nonneg = True
        S.assume(fcmp('ge', x, K0))
    T['@vs_nonneg'] = vs_sign_ge0

    def mknew(kind):
        def f(n, *a):
            if n is UNDEF:
                violation('allocation of uninitialised size')
            if type(n) is not int:
                n = concretize(n, 64)
            if n > 1 << 31:
                return S.on_abort('bad_alloc')
            S.nheap += 1
            return newobj(n, kind, kind)
        return f
    T['@_Znwm'] = mknew('new')
    T['@_Znam'] = mknew('new[]')
    T['@_ZnwmSt11align_val_t'] = mknew('new')
    T['@_ZnamSt11align_val_t'] = mknew('new[]')
    T['@malloc'] = mknew('malloc')

    def calloc(n, m):
        a = T['@malloc'](iop('mul', 64, n, m))
        mset(a, 0, S.objs[a >> 32].size)
        return a
    T['@calloc'] = calloc

    def mkdel(kind):
        def f(p, *a):
            free_obj(p, kind)
        return f
    for s in ('', 'm', 'St11align_val_t', 'mSt11align_val_t'):
        T['@_ZdlPv' + s] = mkdel('new')
        T['@_ZdaPv' + s] = mkdel('new[]')
    T['@free'] = mkdel('malloc')
    for n in ABORTS:
        T[n] = (lambda k: lambda *a: S.on_abort(k))(ABORTS[n])
    for n in MATH1:
        T['@' + n] = (lambda n: lambda x: ffn(n, x))(n)
        T['@' + n + 'f'] = (lambda n: lambda x: f32(ffn(n, x)))(n)
        T['@' + n + 'l'] = T['@' + n]
    for n in ('atan2', 'pow', 'hypot', 'fmod'):
        T['@' + n] = (lambda n: lambda x, y: ffn(n, x, y))(n)
        T['@' + n + 'f'] = (lambda n: lambda x, y: f32(ffn(n, x, y)))(n)
    T['@sqrt'] = fsqrt
    T['@sqrtf'] = lambda x: f32(fsqrt(x))
    T['@fabs'] = fabs_
    T['@fabsf'] = fabs_
    T['@memcpy'] = lambda d, s, n: (mcopy(d, s, n), d)[1]
    T['@memmove'] = T['@memcpy']
    T['@memset'] = lambda d, v, n: (mset(d, v & 255, n), d)[1]
    T['@memcmp'] = lambda a, b, n: unsupported('memcmp')
    T['@strlen'] = lambda a: len(cstr(a))
    T['@__cxa_guard_acquire'] = guard_acquire
    T['@__cxa_guard_release'] = lambda a: mstore(a, 1, 1)
    T['@__cxa_guard_abort'] = lambda a: None
    T['@__cxa_atexit'] = lambda *a: 0
    T['@__cxa_allocate_exception'] = lambda n: newobj(n + 8, 'exc')
    T['@__cxa_free_exception'] = lambda a: None
    T['@__cxa_begin_catch'] = lambda a: unsupported('catch')
    T['@_ZNSt8ios_base4InitC1Ev'] = lambda a: None
    T['@_ZNSt8ios_base4InitD1Ev'] = lambda a: None
    T['@__muldc3'] = lambda a, b, c, d: (fsub(fmul(a, c), fmul(b, d)), fadd(fmul(a, d), fmul(b, c)))
    T['@__mulsc3'] = T['@__muldc3']

    def divdc3(a, b, c, d):
        den = fadd(fmul(c, c), fmul(d, d))
        return (fdiv(fadd(fmul(a, c), fmul(b, d)), den), fdiv(fsub(fmul(b, c), fmul(a, d)), den))
    T['@__divdc3'] = divdc3
    T['@time'] = lambda *a: S.int_input('%time', 0, 1 << 40, 64)
    T['@puts'] = lambda *a: 0
    T['@printf'] = lambda *a: 0
    T['@fprintf'] = lambda *a: 0
    return T


def unsupported(m):
    raise Unsupported(m)


def ne0(c):
    """i32 argument -> boolean"""
    if type(c) is int:
        return 1 if c & 0xffffffff else 0
    if type(c) is SI:
        return icmp('ne', c.w, c, 0)
    return c


def guard_acquire(a):
    o, off = getobj(a, 1, 'read')
    b = get_byte(o, off)
    return 0 if b == 1 else 1


OSTREAM = ('@_ZStls', '@_ZNSo', '@_ZSt4endl', '@_ZSt16__ostream_insert', '@_ZN4TooNls', '@_ZNSolsE', '@_ZSt5flush')


class Externs:
    def __init__(self, extra=None):
        self.T = ext_table()
        if extra:
            self.T.update(extra)

    def __call__(self, name, cg):
        f = self.T.get(name)
        if f is not None:
            return f
        if name.startswith(OSTREAM) and '@_ZNSo9_M_insertIdEERSoT_' not in cg.mod.funcs:
            # diagnostics only (a harness about output brings a model of the stream)
            return lambda *a: a[0]
        return None


S.__class__ = Engine
