"""LLVM IR function -> Python function (executed symbolically through rt)."""
import re
import time
import irparse
from irparse import P, tokenize
import rt
from rt import *

FLAGS = {'nsw', 'nuw', 'exact', 'inbounds', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc',
         'nneg', 'disjoint', 'tail', 'musttail', 'notail', 'volatile', 'samesign', 'nusw'}
RETATTR = {'noundef', 'nonnull', 'signext', 'zeroext', 'noalias', 'inreg', 'fastcc', 'ccc', 'coldcc'}


class CG:
    def __init__(self, mod, externs):
        self.mod = mod
        self.externs = externs
        self.ns = dict(vars(rt))
        self.ns['CALL'] = {}
        self.executed = set()
        self.gaddr = {}
        self.cache = {}

    # ------------------------------------------------------------ globals
    def setup_globals(self):
        """(re)create global objects in S.objs; stable ids"""
        if not self.gaddr:
            S.objs = [None]
            self.consts = []
            self.muts = []
            for nm, (ty, init, cst) in self.mod.globals.items():
                if ty is None:
                    continue
                self.gaddr[nm] = newobj(self.mod.sizeof(ty), 'global', nm)
            for nm in list(self.mod.funcs) + list(self.mod.decls):
                self.gaddr[nm] = newobj(0, 'fn', nm)
            for nm, tgt in self.mod.aliases.items():
                self.gaddr[nm] = self.gaddr[tgt]
            for nm, (ty, init, cst) in self.mod.globals.items():
                if ty is None:
                    continue
                o = S.objs[self.gaddr[nm] >> 32]
                if init is None:
                    o.extern = True
                else:
                    self.initmem(self.gaddr[nm], ty, init)
                o.ro = bool(cst)
                o.gran = o.gran
            self.ngl = len(S.objs)
            self.template = list(S.objs)
        S.objs = []
        for o in self.template:
            if o is not None and o.kind == 'global' and not o.ro and not o.extern:
                n = Obj(o.id, o.size, o.kind, o.name)
                n.cells = dict(o.cells)
                n.gran = o.gran
                n.extern = o.extern
                S.objs.append(n)
            else:
                S.objs.append(o)

    def initmem(self, addr, ty, v):
        m = self.mod
        t = m.resolve(ty)
        if v[0] == 'z':
            n = m.sizeof(t)
            mset(addr, 0, n)
            return
        if v[0] == 'u':
            return
        if v[0] == 's':
            for i, b in enumerate(v[1]):
                mstore(addr + i, 1, b)
            return
        if v[0] == 'a':
            if t[0] == 'arr':
                sz = m.sizeof(t[2])
                for i, (et, ev) in enumerate(v[1]):
                    self.initmem(addr + i * sz, et, ev)
            elif t[0] == 'vec':
                sz = m.sizeof(t[2])
                for i, (et, ev) in enumerate(v[1]):
                    self.initmem(addr + i * sz, et, ev)
            else:
                for i, (et, ev) in enumerate(v[1]):
                    off, _ = m.field_off(t, i)
                    self.initmem(addr + off, et, ev)
            return
        mstore(addr, m.sizeof(t), self.constval(t, v))

    def constval(self, ty, v):
        k = v[0]
        t = self.mod.resolve(ty)
        if k == 'k':
            if t[0] == 'i':
                return v[1] & ((1 << t[1]) - 1)
            return v[1]
        if k == 'fk':
            return K(v[1])
        if k == 'g':
            return self.gaddr[v[1]]
        if k == 'u':
            if t[0] in ('st', 'arr', 'vec'):
                return self.zeroagg(t, UNDEF)
            return UNDEF
        if k == 'z':
            if t[0] in ('st', 'arr', 'vec'):
                return self.zeroagg(t, None)
            return K0 if t[0] in ('d', 'f', 'x') else 0
        if k == 'ge':
            base = self.constval(*v[2][0])
            off = 0
            cur = v[1]
            for n, (it, ivv) in enumerate(v[2][1:]):
                idx = sgn(self.constval(it, ivv), it[1])
                if n == 0:
                    off += idx * self.mod.sizeof(cur)
                else:
                    c = self.mod.resolve(cur)
                    if c[0] == 'st':
                        o, cur = self.mod.field_off(c, idx)
                        off += o
                    else:
                        cur = c[2]
                        off += idx * self.mod.sizeof(cur)
            return (base + off) & M64
        if k == 'cast':
            return self.constval(('i', 64), v[2]) if v[2][0] == 'k' else self.constval(irparse.PTR, v[2])
        if k == 'bin':
            a = self.constval(*v[2][0])
            b = self.constval(*v[2][1])
            return (a - b if v[1] == 'sub' else a + b) & M64
        if k == 'a':
            return tuple(self.constval(et, ev) for et, ev in v[1])
        raise NotImplementedError(v)

    def zeroagg(self, t, val):
        t = self.mod.resolve(t)
        if t[0] == 'st':
            return tuple(self.zeroagg(f, val) for f in t[1])
        if t[0] in ('arr', 'vec'):
            return tuple(self.zeroagg(t[2], val) for _ in range(t[1]))
        if val is UNDEF:
            return UNDEF
        return K0 if t[0] in ('d', 'f', 'x') else 0

    # ------------------------------------------------------------ functions
    def func(self, name):
        f = self.cache.get(name)
        if f is None:
            f = self.externs(name, self)
            if f is None:
                fn = self.mod.funcs.get(name)
                if fn is None:
                    tgt = self.mod.aliases.get(name)
                    if tgt:
                        f = self.func(tgt)
                    else:
                        f = self.missing(name)
                else:
                    f = self.compile(fn)
                    self.executed.add(name)
            self.cache[name] = f
        return f

    def missing(self, name):
        def f(*a):
            raise Unsupported('call of undefined function ' + name)
        return f

    def lname(self, x):
        n = self.names.get(x)
        if n is None:
            n = self.names[x] = 'v%d' % len(self.names)
        return n

    def val(self, ty, v):
        """python expression for operand"""
        if v[0] == 'l':
            return self.lname(v[1])
        c = self.constval(ty, v)
        if type(c) is int:
            return str(c)
        if c is UNDEF:
            return 'UNDEF'
        n = 'k%d' % len(self.kn)
        self.kn[n] = c
        return n

    def compile(self, f):
        self_names = getattr(self, 'names', None)
        self_kn = getattr(self, 'kn', None)
        self.names = {}
        self.kn = {}
        src = self.gen(f)
        ns = dict(self.ns)
        ns.update(self.kn)
        ns['FUNC'] = self.lazy
        ns['time'] = time.time
        exec(compile(src, f.name, 'exec'), ns)
        f.py = src
        r = ns['f']
        self.names = self_names
        self.kn = self_kn
        return r

    def lazy(self, name):
        return self.func(name)

    def gen(self, f):
        m = self.mod
        out = []
        params = [self.lname(nm) for _, nm in f.params]
        nblocks = len(f.order)
        bid = {b: i for i, b in enumerate(f.order)}
        # phi table
        phis = {}
        parsed = {}
        for b in f.order:
            ph = []
            ins = []
            for s in f.blocks[b]:
                mm = re.match(r'(%"[^"]*"|%\S+) = phi ', s)
                if mm:
                    p = P(tokenize(s[mm.end():]), m)
                    while p.peek() in FLAGS:
                        p.next()
                    ty = p.type()
                    inc = {}
                    while True:
                        p.expect('[')
                        v = p.value(ty)
                        p.expect(',')
                        lb = p.next()
                        p.expect(']')
                        inc[lb] = v
                        if not p.accept(','):
                            break
                    ph.append((mm.group(1), ty, inc))
                else:
                    ins.append(s)
            phis[b] = ph
            parsed[b] = ins
        hasalloca = any('= alloca ' in s for b in f.order for s in parsed[b])
        out.append('def f(%s):' % ', '.join(params))
        W = out.append
        if hasalloca:
            W(' al = []')
        for i, ty in f.byval.items():
            W(' _o = newobj(%d, "stack", "byval"); mcopy(_o, %s, %d); %s = _o' % (m.sizeof(ty), params[i], m.sizeof(ty), params[i]))
        if nblocks > 1:
            W(' bb = 0')
            W(' while True:')
            base = '  '
        else:
            base = ' '

        def edge(src, dst, ind):
            ls = []
            rs = []
            for nm, ty, inc in phis[dst]:
                l = self.lname(nm)
                r = self.val(ty, inc[src])
                if l != r:
                    ls.append(l)
                    rs.append(r)
            if ls:
                W(ind + '%s = %s' % (', '.join(ls), ', '.join(rs)))
            W(ind + 'bb = %d' % bid[dst])
        for bi, b in enumerate(f.order):
            if nblocks > 1:
                W(base + ('if' if bi == 0 else 'elif') + ' bb == %d:' % bi)
                ind = base + ' '
            else:
                ind = base
            W(ind + 'S.ni += %d' % (len(parsed[b]) + len(phis[b])))
            if nblocks > 1:
                W(ind + 'if S.ni > S.ni_max or time() > S.tlimit: raise PathEnd("steps")')
            for s in parsed[b]:
                self.instr(s, W, ind, b, edge, f, hasalloca)
        return '\n'.join(out) + '\n'

    def instr(self, s, W, ind, blk, edge, f, hasalloca):
        m = self.mod
        p = P(tokenize(s), m)
        dst = None
        if p.peek2() == '=':
            dst = self.lname(p.next())
            p.next()
        op = p.next()
        while p.peek() in FLAGS and op != 'call':
            p.next()

        def ret():
            if hasalloca:
                W(ind + 'killstack(al)')
        if op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'sdiv', 'udiv', 'srem', 'urem'):
            ty = p.type()
            a = self.val(ty, p.value(ty))
            p.expect(',')
            b = self.val(ty, p.value(ty))
            w = ty[1]
            sym = {'add': '+', 'sub': '-', 'mul': '*', 'and': '&', 'or': '|', 'xor': '^'}.get(op)
            if sym and ty[0] == 'i':
                conds = ['type(%s) is int' % x for x in (a, b) if not x.isdigit()]
                mk = ' & %d' % ((1 << w) - 1) if op in ('add', 'sub', 'mul') else ''
                W(ind + '%s = (%s %s %s)%s if %s else iop(%r, %d, %s, %s)' % (
                    dst, a, sym, b, mk, ' and '.join(conds) or 'True', op, w, a, b))
            else:
                W(ind + '%s = iop(%r, %d, %s, %s)' % (dst, op, w, a, b))
        elif op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            ty = p.type()
            a = self.val(ty, p.value(ty))
            p.expect(',')
            b = self.val(ty, p.value(ty))
            if ty[0] == 'vec':
                W(ind + '%s = tuple(%s(x, y) for x, y in zip(%s, %s))' % (dst, op + ('32' if ty[2][0] == 'f' else ''), a, b))
            elif op == 'frem':
                W(ind + '%s = ffn("fmod", %s, %s)' % (dst, a, b))
            else:
                W(ind + '%s = %s%s(%s, %s)' % (dst, op, '32' if ty[0] == 'f' else '', a, b))
        elif op == 'fneg':
            ty = p.type()
            a = self.val(ty, p.value(ty))
            W(ind + '%s = fneg(%s)' % (dst, a))
        elif op == 'icmp':
            while p.peek() == 'samesign':
                p.next()
            pred = p.next()
            ty = p.type()
            a = self.val(ty, p.value(ty))
            p.expect(',')
            b = self.val(ty, p.value(ty))
            w = 64 if ty[0] == 'p' else ty[1]
            W(ind + '%s = icmp(%r, %d, %s, %s)' % (dst, pred, w, a, b))
        elif op == 'fcmp':
            pred = p.next()
            ty = p.type()
            a = self.val(ty, p.value(ty))
            p.expect(',')
            b = self.val(ty, p.value(ty))
            W(ind + '%s = fcmpi(%r, %s, %s)' % (dst, pred, a, b))
        elif op == 'alloca':
            if p.peek() == 'inalloca':
                p.next()
            ty = p.type()
            sz = m.sizeof(ty)
            if p.accept(','):
                if p.peek() != 'align':
                    nt = p.type()
                    nv = self.val(nt, p.value(nt))
                    W(ind + '%s = newobj(%d * concretize(%s, 64), "stack", %r); al.append(%s)' % (dst, sz, nv, s.split(' ')[0], dst))
                    return
            W(ind + '%s = newobj(%d, "stack", %r); al.append(%s)' % (dst, sz, s.split(' ')[0], dst))
        elif op == 'load':
            if p.peek() == 'atomic':
                p.next()
            if p.peek() == 'volatile':
                p.next()
            ty = p.type()
            p.expect(',')
            pt = p.type()
            a = self.val(pt, p.value(pt))
            t = m.resolve(ty)
            self.genload(W, ind, dst, t, a)
        elif op == 'store':
            if p.peek() == 'atomic':
                p.next()
            if p.peek() == 'volatile':
                p.next()
            ty = p.type()
            v = self.val(ty, p.value(ty))
            p.expect(',')
            pt = p.type()
            a = self.val(pt, p.value(pt))
            t = m.resolve(ty)
            self.genstore(W, ind, t, v, a)
        elif op == 'getelementptr':
            while p.peek() in FLAGS:
                p.next()
            bt = p.type()
            p.expect(',')
            pt = p.type()
            base = self.val(pt, p.value(pt))
            off = 0
            terms = []
            cur = bt
            n = 0
            while p.accept(','):
                it = p.type()
                ivv = p.value(it)
                if n == 0:
                    sz = m.sizeof(cur)
                else:
                    c = m.resolve(cur)
                    if c[0] == 'st':
                        o, cur = m.field_off(c, ivv[1])
                        off += o
                        n += 1
                        continue
                    cur = c[2]
                    sz = m.sizeof(cur)
                n += 1
                if ivv[0] == 'k':
                    off += ivv[1] * sz
                else:
                    terms.append((self.val(it, ivv), sz, it[1]))
            if not terms:
                if off == 0:
                    W(ind + '%s = %s' % (dst, base))
                else:
                    W(ind + '%s = %s + %d if type(%s) is int else padd_(%s, %d)' % (dst, base, off, base, base, off))
            else:
                W(ind + '%s = gep(%s, %d, %s)' % (dst, base, off, ', '.join('%s, %d, %d' % t for t in terms)))
        elif op in ('sext', 'zext', 'trunc', 'fptrunc', 'fpext', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'bitcast', 'ptrtoint', 'inttoptr'):
            ft = p.type()
            a = self.val(ft, p.value(ft))
            p.expect('to')
            tt = p.type()
            if op == 'sext':
                W(ind + '%s = ext(%s, %d, %d, True)' % (dst, a, ft[1], tt[1]))
            elif op == 'zext':
                W(ind + '%s = ext(%s, %d, %d, False)' % (dst, a, ft[1], tt[1]))
            elif op == 'trunc':
                W(ind + '%s = trunc(%s, %d, %d)' % (dst, a, ft[1], tt[1]))
            elif op == 'fptrunc':
                W(ind + '%s = %s(%s)' % (dst, 'fptrunc' if tt[0] == 'f' else 'ident', a))
            elif op == 'fpext':
                W(ind + '%s = %s' % (dst, a))
            elif op == 'sitofp':
                W(ind + '%s = %s(sitofp(%s, %d, True))' % (dst, 'fptrunc' if tt[0] == 'f' else '', a, ft[1]))
            elif op == 'uitofp':
                W(ind + '%s = %s(sitofp(%s, %d, False))' % (dst, 'fptrunc' if tt[0] == 'f' else '', a, ft[1]))
            elif op in ('fptosi', 'fptoui'):
                W(ind + '%s = fptosi(%s, %d)' % (dst, a, tt[1]))
            elif op == 'bitcast' and (ft[0] == 'vec' or tt[0] == 'vec'):
                raise Unsupported('vector bitcast')
            elif op == 'bitcast' and tt[0] == 'd':
                W(ind + '%s = asreal(%s)' % (dst, a))
            elif op == 'bitcast' and tt[0] == 'f':
                W(ind + '%s = asreal32(%s)' % (dst, a))
            else:
                W(ind + '%s = %s' % (dst, a))
        elif op == 'freeze':
            ft = p.type()
            a = self.val(ft, p.value(ft))
            W(ind + '%s = %s' % (dst, a))
        elif op == 'select':
            ct = p.type()
            c = self.val(ct, p.value(ct))
            p.expect(',')
            ta = p.type()
            a = self.val(ta, p.value(ta))
            p.expect(',')
            tb = p.type()
            b = self.val(tb, p.value(tb))
            w = ta[1] if ta[0] == 'i' else 0
            W(ind + '%s = select(%s, %s, %s, %d)' % (dst, c, a, b, w))
        elif op == 'br':
            if p.peek() == 'label':
                p.next()
                d = p.next()
                edge(blk, d, ind)
                W(ind + 'continue')
            else:
                ct = p.type()
                c = self.val(ct, p.value(ct))
                p.expect(',')
                p.expect('label')
                d1 = p.next()
                p.expect(',')
                p.expect('label')
                d2 = p.next()
                if c.isdigit():
                    edge(blk, d1 if int(c) else d2, ind)
                    W(ind + 'continue')
                else:
                    W(ind + 'if (%s if type(%s) is int else branch(%s)):' % (c, c, c))
                    edge(blk, d1, ind + ' ')
                    W(ind + 'else:')
                    edge(blk, d2, ind + ' ')
                    W(ind + 'continue')
        elif op == 'switch':
            ty = p.type()
            v = self.val(ty, p.value(ty))
            p.expect(',')
            p.expect('label')
            dd = p.next()
            p.expect('[')
            first = True
            while not p.accept(']'):
                ct = p.type()
                cv = self.constval(ct, p.value(ct))
                p.expect(',')
                p.expect('label')
                d = p.next()
                W(ind + '%s branch(icmp("eq", %d, %s, %d)):' % ('if' if first else 'elif', ty[1], v, cv))
                edge(blk, d, ind + ' ')
                first = False
            if first:
                edge(blk, dd, ind)
            else:
                W(ind + 'else:')
                edge(blk, dd, ind + ' ')
            W(ind + 'continue')
        elif op == 'ret':
            ty = p.type()
            if ty[0] == 'void':
                ret()
                W(ind + 'return None')
            else:
                v = self.val(ty, p.value(ty))
                ret()
                W(ind + 'return %s' % v)
        elif op == 'unreachable':
            W(ind + 'violation("unreachable code reached")')
        elif op in ('call', 'invoke', 'tail', 'musttail', 'notail'):
            if op in ('tail', 'musttail', 'notail'):
                p.expect('call')
            self.gencall(p, W, ind, dst, op == 'invoke', blk, edge)
        elif op == 'extractvalue':
            ty = p.type()
            a = self.val(ty, p.value(ty))
            e = a
            while p.accept(','):
                e += '[%s]' % p.next()
            W(ind + '%s = %s' % (dst, e))
        elif op == 'insertvalue':
            ty = p.type()
            a = self.val(ty, p.value(ty))
            p.expect(',')
            vt = p.type()
            v = self.val(vt, p.value(vt))
            idx = []
            while p.accept(','):
                idx.append(int(p.next()))
            W(ind + '%s = insertval(%s, %s, %r)' % (dst, a if a != 'UNDEF' else 'UNDEF', v, idx))
        elif op == 'extractelement':
            ty = p.type()
            a = self.val(ty, p.value(ty))
            p.expect(',')
            it = p.type()
            i = self.val(it, p.value(it))
            W(ind + '%s = %s[%s]' % (dst, a, i))
        elif op == 'insertelement':
            ty = p.type()
            a = self.val(ty, p.value(ty))
            p.expect(',')
            vt = p.type()
            v = self.val(vt, p.value(vt))
            p.expect(',')
            it = p.type()
            i = self.val(it, p.value(it))
            W(ind + '%s = insertval(%s, %s, [%s])' % (dst, a, v, i))
        elif op in ('landingpad', 'resume'):
            W(ind + 'raise Unsupported("exception path")')
        elif op == 'fence':
            pass
        else:
            raise NotImplementedError('instr ' + s)

    def genload(self, W, ind, dst, t, a):
        m = self.mod
        k = t[0]
        if k == 'd':
            W(ind + '%s = mload(%s, 8)' % (dst, a))
            W(ind + 'if type(%s) is int: %s = asreal(%s)' % (dst, dst, dst))
        elif k == 'f':
            W(ind + '%s = mload(%s, 4)' % (dst, a))
            W(ind + 'if type(%s) is int: %s = asreal32(%s)' % (dst, dst, dst))
        elif k == 'x':
            W(ind + '%s = mload(%s, 16)' % (dst, a))
        elif k == 'p':
            W(ind + '%s = mload(%s, 8)' % (dst, a))
        elif k == 'i':
            n = m.sizeof(t)
            if n * 8 != t[1]:
                W(ind + '%s = trunc(mload(%s, %d), %d, %d)' % (dst, a, n, n * 8, t[1]))
            else:
                W(ind + '%s = mload(%s, %d)' % (dst, a, n))
        elif k in ('st', 'arr', 'vec'):
            parts = []
            n = len(t[1]) if k == 'st' else t[1]
            for i in range(n):
                if k == 'st':
                    off, ft = m.field_off(t, i)
                else:
                    ft = t[2]
                    off = i * m.sizeof(ft)
                x = '%s_%d' % (dst, i)
                self.genload(W, ind, x, m.resolve(ft), 'padd_(%s, %d)' % (a, off))
                parts.append(x)
            W(ind + '%s = (%s,)' % (dst, ', '.join(parts)))
        else:
            raise NotImplementedError(t)

    def genstore(self, W, ind, t, v, a):
        m = self.mod
        k = t[0]
        if k in ('st', 'arr', 'vec'):
            n = len(t[1]) if k == 'st' else t[1]
            for i in range(n):
                if k == 'st':
                    off, ft = m.field_off(t, i)
                else:
                    ft = t[2]
                    off = i * m.sizeof(ft)
                self.genstore(W, ind, m.resolve(ft), '%s[%d]' % (v, i), 'padd_(%s, %d)' % (a, off))
            return
        n = m.sizeof(t)
        if k == 'i' and n * 8 != t[1]:
            v = 'ext(%s, %d, %d, False)' % (v, t[1], n * 8)
        W(ind + 'mstore(%s, %d, %s)' % (a, n, v))

    def gencall(self, p, W, ind, dst, invoke, blk, edge):
        m = self.mod
        while True:
            t = p.peek()
            if t in RETATTR or t in FLAGS:
                p.next()
            elif t == 'align':
                p.next()
                p.next()
            elif t in ('dereferenceable', 'dereferenceable_or_null', 'range', 'nofpclass'):
                p.next()
                p.skip_parens()
            else:
                break
        rty = p.type()
        if p.peek() == '(':     # function type given explicitly (varargs)
            p.skip_parens()
        callee = p.next()
        if callee == 'asm':
            raise Unsupported('inline asm')
        p.expect('(')
        args = []
        if not p.accept(')'):
            while True:
                ty = p.type()
                if ty[0] == 'metadata':
                    # skip
                    d = 0
                    while not (d == 0 and p.peek() in (',', ')')):
                        x = p.next()
                        if x in '({[':
                            d += 1
                        elif x in ')}]':
                            d -= 1
                    args.append('0')
                else:
                    p.attrs()
                    args.append(self.val(ty, p.value(ty)))
                if p.accept(')'):
                    break
                p.expect(',')
        asg = '%s = ' % dst if dst else ''
        if callee[0] == '@':
            base = callee[1:]
            if base.startswith('llvm.'):
                self.intrinsic(base, args, W, ind, asg, rty)
            else:
                n = 'c%d' % len(self.kn)
                self.kn[n] = Lazy(self, callee)
                W(ind + '%s%s.f(%s)' % (asg, n, ', '.join(args)))
        else:
            n = 'c%d' % len(self.kn)
            self.kn[n] = self
            W(ind + '%sindirect(%s, %s)(%s)' % (asg, n, self.lname(callee), ', '.join(args)))
        if invoke:
            while p.next() != 'to':
                pass
            p.expect('label')
            d = p.next()
            edge(blk, d, ind)
            W(ind + 'continue')

    def intrinsic(self, n, args, W, ind, asg, rty):
        A = ', '.join(args)
        if n.startswith(('llvm.memcpy', 'llvm.memmove')):
            W(ind + 'mcopy(%s, %s, %s)' % tuple(args[:3]))
        elif n.startswith('llvm.memset'):
            W(ind + 'mset(%s, %s, %s)' % tuple(args[:3]))
        elif n.startswith('llvm.lifetime.start'):
            W(ind + 'lifestart(%s)' % args[1])
        elif n.startswith('llvm.lifetime.end'):
            W(ind + 'lifeend(%s)' % args[1])
        elif n.startswith(('llvm.invariant', 'llvm.assume', 'llvm.dbg', 'llvm.experimental.noalias', 'llvm.prefetch',
                           'llvm.stackrestore', 'llvm.donothing')):
            if asg:
                W(ind + asg + '0')
        elif n.startswith('llvm.stacksave'):
            W(ind + asg + '0')
        elif n.startswith('llvm.fabs'):
            W(ind + asg + 'fabs_(%s)' % A)
        elif n.startswith('llvm.sqrt'):
            W(ind + asg + 'f32(fsqrt(%s))' % A if '32' in n else ind + asg + 'fsqrt(%s)' % A)
        elif n.startswith('llvm.fmuladd') or n.startswith('llvm.fma'):
            W(ind + asg + 'fadd(fmul(%s, %s), %s)' % tuple(args))
        elif n.split('.')[1] in ('sin', 'cos', 'exp', 'log', 'floor', 'ceil', 'trunc', 'rint', 'log2', 'log10'):
            W(ind + asg + 'ffn(%r, %s)' % (n.split('.')[1], A))
        elif n.startswith('llvm.pow'):
            W(ind + asg + 'ffn("pow", %s)' % A)
        elif n.startswith(('llvm.maxnum', 'llvm.minnum')):
            W(ind + asg + 'fmaxmin(%r, %s)' % ('gt' if 'max' in n else 'lt', A))
        elif n.startswith('llvm.copysign'):
            W(ind + asg + 'copysign_(%s)' % A)
        elif n.startswith('llvm.is.fpclass'):
            W(ind + asg + 'fpclass(%s)' % A)
        elif 'with.overflow' in n:
            o = n.split('.')[1]
            w = int(n.split('.i')[-1])
            W(ind + asg + 'overflow(%r, %d, %s)' % (o, w, A))
        elif n.startswith(('llvm.smax', 'llvm.smin', 'llvm.umax', 'llvm.umin')):
            w = int(n.split('.i')[-1])
            o = n[5:9]
            W(ind + asg + 'iminmax(%r, %d, %s)' % (o, w, A))
        elif n.startswith(('llvm.ctlz', 'llvm.cttz', 'llvm.ctpop')):
            w = int(n.split('.i')[-1])
            W(ind + asg + 'bitcount(%r, %d, %s)' % (n[5:9], w, args[0]))
        elif n.startswith('llvm.abs'):
            w = int(n.split('.i')[-1])
            W(ind + asg + 'iabs(%d, %s)' % (w, args[0]))
        elif n.startswith('llvm.expect'):
            W(ind + asg + args[0])
        elif n.startswith('llvm.is.constant'):
            W(ind + asg + '0')
        elif n.startswith('llvm.objectsize'):
            W(ind + asg + '0xffffffffffffffff')
        elif n.startswith('llvm.trap') or n.startswith('llvm.ubsantrap'):
            W(ind + 'violation("trap")')
        elif n.startswith('llvm.eh.typeid'):
            W(ind + asg + '0')
        else:
            W(ind + 'raise Unsupported(%r)' % n)


class Lazy:
    __slots__ = ('cg', 'name', 'f')

    def __init__(self, cg, name):
        self.cg = cg
        self.name = name

    def __getattr__(self, k):
        if k == 'f':
            f = self.cg.func(self.name)
            self.f = f
            return f
        raise AttributeError(k)


# ---- helpers visible to generated code
def killstack(al):
    objs = S.objs
    for a in al:
        o = objs[a >> 32]
        o.alive = False
        o.cells = {}


def padd_(a, off):
    if type(a) is int:
        return a + off
    if a is UNDEF:
        return UNDEF
    return iop('add', 64, a, off & M64)


def gep(base, off, *t):
    i = 0
    n = len(t)
    if type(base) is int:
        r = base + off
        ok = True
        while i < n:
            x = t[i]
            if type(x) is not int:
                ok = False
                break
            w = t[i + 2]
            if x >> (w - 1):
                x -= 1 << w
            r += x * t[i + 1]
            i += 3
        if ok:
            return r & M64
    if base is UNDEF:
        return UNDEF
    r = iop('add', 64, base, off & M64)
    for i in range(0, n, 3):
        x, sz, w = t[i:i + 3]
        if x is UNDEF:
            return UNDEF
        if w < 64:
            x = ext(x, w, 64, True)
        if type(x) is SB:
            x = 1 if branch(x) else 0
        r = iop('add', 64, r, iop('mul', 64, x, sz & M64))
    return r


def select(c, a, b, w):
    if type(c) is int:
        return a if c else b
    if c is UNDEF:
        violation('select on uninitialised value')
    if a is b:
        return a
    if type(c) is SI:
        c = tobool(c)
    if w and not isreal_cond(c) and a is not UNDEF and b is not UNDEF and type(a) in (int, SI) and type(b) in (int, SI) and w > 1:
        z = z3.simplify(z3.If(zbool(c)[0], zi(a, w), zi(b, w)))
        va, vb = iv(a, w), iv(b, w)
        v = None
        if c.v is not None and va is not None and vb is not None:
            v = np.where(c.v, va, vb)
        return SI(w, z, v)
    if w == 1 and type(a) in (int, SB) and type(b) in (int, SB):
        return b2('or', b2('and', c, a), b2('and', bnot(c), b))
    return a if branch(c) else b


def insertval(a, v, idx):
    if a is UNDEF:
        a = ()
    l = list(a)
    i = idx[0]
    while len(l) <= i:
        l.append(UNDEF)
    l[i] = v if len(idx) == 1 else insertval(l[i], v, idx[1:])
    return tuple(l)


def ident(x):
    return x


def lifestart(a):
    o = S.objs[a >> 32]
    o.cells = {}
    o.gran = 0
    o.alive = True


def lifeend(a):
    o = S.objs[a >> 32]
    o.alive = False
    o.cells = {}


def fmaxmin(p, a, b):
    if a is UNDEF or b is UNDEF:
        return UNDEF
    return a if branch(fcmp(p, asreal(a), asreal(b))) else b


def copysign_(a, b):
    m = fabs_(a)
    return m if branch(fcmp('ge', asreal(b), K0)) else fneg(m)


def fpclass(a, mask):
    if a is UNDEF:
        return UNDEF
    if a.op == 'k':
        if type(a.c) is float:
            if math.isnan(a.c):
                return 1 if mask & 3 else 0
            return 1 if mask & (0x200 if a.c > 0 else 0x4) else 0
        cl = 0x100 if a.c > 0 else 0x8 if a.c < 0 else 0x60
        return 1 if mask & cl else 0
    # symbolic reals are finite
    pos, neg, zero = mask & 0x180, mask & 0x18, mask & 0x60
    if (pos and neg and zero) or not (pos or neg or zero):
        return 1 if pos else 0
    raise Unsupported('is.fpclass')


def overflow(o, w, a, b):
    if type(a) is int and type(b) is int:
        if o[0] == 's':
            sa, sb = sgn(a, w), sgn(b, w)
            r = {'add': sa + sb, 'sub': sa - sb, 'mul': sa * sb}[o[1:]]
            return (r & ((1 << w) - 1), 0 if -(1 << (w - 1)) <= r < 1 << (w - 1) else 1)
        r = {'add': a + b, 'sub': a - b, 'mul': a * b}[o[1:]]
        return (r & ((1 << w) - 1), 0 if 0 <= r < 1 << w else 1)
    z = {'add': lambda x, y: x + y, 'sub': lambda x, y: x - y, 'mul': lambda x, y: x * y}[o[1:]]
    a, b = settle(a), settle(b)
    if type(a) is int and type(b) is int:
        return overflow(o, w, a, b)
    za, zb = zi(a, w), zi(b, w)
    e = z3.SignExt if o[0] == 's' else z3.ZeroExt
    wide = z(e(w, za), e(w, zb))
    r = z3.simplify(z3.Extract(w - 1, 0, wide))
    ov = z3.simplify(e(w, r) != wide)
    va, vb = iv(a, w), iv(b, w)
    rv = wrapv({'add': lambda: va + vb, 'sub': lambda: va - vb, 'mul': lambda: va * vb}[o[1:]](), w) if va is not None and vb is not None else None
    return (r.as_long() if z3.is_bv_value(r) else SI(w, r, rv), SB('z', ov, None, None, None))


def iminmax(o, w, a, b):
    c = icmp({'smax': 'sgt', 'smin': 'slt', 'umax': 'ugt', 'umin': 'ult'}[o], w, a, b)
    return select(c, a, b, w)


def bitcount(o, w, x):
    if type(x) is not int:
        raise rt.Unsupported('bit count of a symbolic integer')
    x &= (1 << w) - 1
    if o == 'ctlz':
        return w - x.bit_length()
    if o == 'cttz':
        return w if x == 0 else (x & -x).bit_length() - 1
    return bin(x).count('1')


def iabs(w, a):
    return select(icmp('slt', w, a, 0), iop('sub', w, 0, a), a, w)


def indirect(cg, addr):
    if type(addr) is not int:
        raise Unsupported('symbolic function pointer')
    o = S.objs[addr >> 32]
    if o is None or o.kind != 'fn':
        violation('call through bad function pointer')
    return cg.func(o.name)


for _n in ('killstack', 'padd_', 'gep', 'select', 'insertval', 'ident', 'lifestart', 'lifeend', 'fmaxmin', 'copysign_',
           'fpclass', 'overflow', 'iminmax', 'iabs', 'bitcount', 'indirect'):
    setattr(rt, _n, globals()[_n])
