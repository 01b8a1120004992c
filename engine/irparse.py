"""Parser for the textual LLVM IR that clang-18 produces for the harnesses."""
import re, struct

TOK = re.compile(r'''\s+|;[^\n]*|
 (?P<cstr>c"(?:[^"\\]|\\.)*")|
 (?P<name>[%@!](?:"[^"]*"|[-a-zA-Z$._0-9]+))|
 (?P<num>0x[KLMHR]?[0-9A-Fa-f]+|-?\d+\.\d*(?:[eE][-+]?\d+)?|-?\d+)|
 (?P<str>"[^"]*")|
 (?P<dots>\.\.\.)|
 (?P<word>[a-zA-Z_$.][-a-zA-Z0-9_$.]*)|
 (?P<hash>\#\d+)|
 (?P<p>[()\[\]{}<>,=*!:|])''', re.X)


def tokenize(s):
    out = []
    i, n = 0, len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            raise SyntaxError('tok: ' + s[i:i+60])
        i = m.end()
        k = m.lastgroup
        if k:
            out.append(m.group())
    return out


VOID = ('void',)
DBL = ('d',)
FLT = ('f',)
PTR = ('p',)
F80 = ('x',)


class Mod:
    def __init__(self):
        self.types = {}
        self.globals = {}   # name -> (type, initializer tokens or None, constant)
        self.funcs = {}
        self.decls = {}
        self.aliases = {}

    # ---- layout
    def resolve(self, t):
        while t[0] == 'named':
            t = self.types[t[1]]
        return t

    def size_align(self, t):
        c = self._sa.get(t)
        if c is None:
            c = self._sa[t] = self._size_align(t)
        return c

    _sa = None

    def _size_align(self, t):
        k = t[0]
        if k == 'i':
            b = (t[1] + 7) // 8
            a = 1
            while a < b:
                a *= 2
            return (a, min(a, 16))
        if k == 'd' or k == 'p':
            return (8, 8)
        if k == 'f':
            return (4, 4)
        if k == 'x':
            return (16, 16)
        if k == 'arr':
            s, a = self.size_align(t[2])
            return (s * t[1], a)
        if k == 'vec':
            s, a = self.size_align(t[2])
            return (s * t[1], s * t[1])
        if k == 'st':
            off = 0
            al = 1
            for f in t[1]:
                s, a = self.size_align(f)
                if t[2]:
                    a = 1
                al = max(al, a)
                off = (off + a - 1) // a * a + s
            return ((off + al - 1) // al * al, al)
        if k == 'named':
            return self.size_align(self.types[t[1]])
        raise NotImplementedError(t)

    def sizeof(self, t):
        return self.size_align(t)[0]

    def field_off(self, t, i):
        t = self.resolve(t)
        off = 0
        for j, f in enumerate(t[1]):
            s, a = self.size_align(f)
            if t[2]:
                a = 1
            off = (off + a - 1) // a * a
            if j == i:
                return off, f
            off += s
        raise IndexError


class P:
    """token cursor"""
    __slots__ = ('t', 'i', 'm')

    def __init__(self, toks, mod):
        self.t = toks
        self.i = 0
        self.m = mod

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else None

    def peek2(self):
        return self.t[self.i + 1] if self.i + 1 < len(self.t) else None

    def next(self):
        r = self.t[self.i]
        self.i += 1
        return r

    def accept(self, x):
        if self.i < len(self.t) and self.t[self.i] == x:
            self.i += 1
            return True
        return False

    def expect(self, x):
        r = self.next()
        if r != x:
            raise SyntaxError('expected %s got %s in %s' % (x, r, ' '.join(self.t)))

    def type(self):
        t = self.next()
        if t == 'void':
            r = VOID
        elif t == 'double':
            r = DBL
        elif t == 'float':
            r = FLT
        elif t == 'ptr':
            r = PTR
        elif t == 'x86_fp80':
            r = F80
        elif t in ('metadata', 'label', 'token', 'half', 'fp128', 'bfloat'):
            r = (t,)
        elif t == 'opaque':
            r = ('st', (), False)
        elif t[0] == 'i' and t[1:].isdigit():
            r = ('i', int(t[1:]))
        elif t[0] == '%':
            r = ('named', t)
        elif t == '[':
            n = int(self.next())
            self.expect('x')
            e = self.type()
            self.expect(']')
            r = ('arr', n, e)
        elif t == '<':
            if self.peek() == '{':
                self.next()
                fs = self._fields('}')
                self.expect('>')
                r = ('st', fs, True)
            else:
                n = int(self.next())
                self.expect('x')
                e = self.type()
                self.expect('>')
                r = ('vec', n, e)
        elif t == '{':
            r = ('st', self._fields('}'), False)
        else:
            raise SyntaxError('type? %s in %s' % (t, ' '.join(self.t[:40])))
        # function types: T (args)
        if self.peek() == '(' and self._isfnty():
            self._skip_parens()
            r = ('fn', r)
        return r

    def _isfnty(self):
        # called only where a function type may appear (call instr)
        return False

    def _fields(self, close):
        fs = []
        if self.accept(close):
            return tuple(fs)
        while True:
            fs.append(self.type())
            if self.accept(close):
                return tuple(fs)
            self.expect(',')

    def skip_parens(self):
        self.expect('(')
        d = 1
        while d:
            t = self.next()
            if t == '(':
                d += 1
            elif t == ')':
                d -= 1

    # parameter attributes; returns dict
    def attrs(self):
        a = {}
        while True:
            t = self.peek()
            if t is None:
                return a
            if t in ('byval', 'sret', 'byref', 'inalloca', 'preallocated', 'elementtype'):
                self.next()
                self.expect('(')
                ty = self.type()
                self.expect(')')
                a[t] = ty
            elif t == 'align':
                self.next()
                if self.peek() == '(':
                    self.skip_parens()
                else:
                    self.next()
            elif re.fullmatch(r'[a-z_0-9]+', t) and t not in (
                    'null', 'undef', 'poison', 'true', 'false', 'zeroinitializer', 'getelementptr',
                    'inttoptr', 'ptrtoint', 'bitcast', 'c', 'none', 'to', 'trunc', 'sub', 'add', 'x', 'void',
                    'double', 'float', 'ptr', 'metadata', 'label', 'icmp', 'select', 'and') \
                    and not re.fullmatch(r'i\d+|\d+', t):
                self.next()
                if self.peek() == '(':
                    self.skip_parens()
            else:
                return a

    # value of given type -> ('l',name) local, ('c',const)
    def value(self, ty):
        t = self.next()
        if t[0] == '%':
            return ('l', t)
        if t[0] == '@':
            return ('g', t)
        if t == 'null' or t == 'none':
            return ('k', 0)
        if t == 'true':
            return ('k', 1)
        if t == 'false':
            return ('k', 0)
        if t in ('undef', 'poison'):
            return ('u',)
        if t == 'zeroinitializer':
            return ('z',)
        if t[:2] == 'c"':
            return ('s', unescape(t[2:-1]))
        if t == '[' or t == '{' or (t == '<' and True):
            close = {'[': ']', '{': '}', '<': '>'}[t]
            if t == '<' and self.peek() == '{':
                self.next()
                vals = self._vals('}')
                self.expect('>')
                return ('a', vals)
            return ('a', self._vals(close))
        if t == 'getelementptr':
            self.accept('inbounds')
            self.expect('(')
            bt = self.type()
            self.expect(',')
            vals = self._vals(')')
            return ('ge', bt, vals)
        if t in ('inttoptr', 'ptrtoint', 'bitcast', 'addrspacecast', 'trunc'):
            self.expect('(')
            ft = self.type()
            v = self.value(ft)
            self.expect('to')
            tt = self.type()
            self.expect(')')
            return ('cast', t, v, tt)
        if t in ('sub', 'add'):
            while self.peek() != '(':
                self.next()
            self.expect('(')
            vals = self._vals(')')
            return ('bin', t, vals)
        if ty[0] in ('d', 'f', 'x'):
            return ('fk', parse_float(t, ty))
        return ('k', int(t))

    def _vals(self, close):
        out = []
        if self.accept(close):
            return out
        while True:
            ty = self.type()
            self.attrs()
            v = self.value(ty)
            out.append((ty, v))
            if self.accept(close):
                return out
            self.expect(',')


def parse_float(t, ty):
    if t.startswith('0x'):
        if t[2] in 'KLMHR':
            h = int(t[3:], 16)
            # x86_fp80
            if t[2] == 'K':
                se = h >> 64
                man = h & ((1 << 64) - 1)
                s = -1.0 if se >> 15 else 1.0
                e = se & 0x7fff
                if e == 0 and man == 0:
                    return 0.0
                if e == 0x7fff:
                    return s * float('inf') if (man << 1) & ((1 << 64) - 1) == 0 else float('nan')
                import math
                return s * math.ldexp(man, e - 16383 - 63)
            raise NotImplementedError(t)
        return struct.unpack('<d', struct.pack('<Q', int(t, 16)))[0]
    return float(t)


def unescape(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i+1] == '\\':
                out.append(92)
                i += 2
            else:
                out.append(int(s[i+1:i+3], 16))
                i += 3
        else:
            out.append(ord(s[i]))
            i += 1
    return bytes(out)


class Func:
    __slots__ = ('name', 'params', 'ret', 'blocks', 'order', 'py', 'code', 'ninstr', 'byval')


def parse(text):
    m = Mod()
    m._sa = {}
    lines = text.split('\n')
    i = 0
    n = len(lines)
    while i < n:
        ln = lines[i]
        i += 1
        if not ln or ln[0] in ';!':
            continue
        if ln.startswith('define '):
            body = []
            head = ln
            while True:
                l2 = lines[i]
                i += 1
                if l2 == '}':
                    break
                body.append(l2)
            f = parse_func(head, body, m)
            m.funcs[f.name] = f
        elif ln[0] == '%':
            p = P(tokenize(ln), m)
            nm = p.next()
            p.expect('=')
            p.expect('type')
            m.types[nm] = p.type()
        elif ln[0] == '@':
            parse_global(ln, m)
        elif ln.startswith('declare '):
            mm = re.search(r'@("[^"]*"|[-\w$.]+)\(', ln)
            m.decls['@' + mm.group(1)] = ln
    return m


def parse_global(ln, m):
    # strip metadata/trailing attrs handled naturally
    p = P(tokenize(ln), m)
    name = p.next()
    p.expect('=')
    const = None
    external = False
    while True:
        t = p.next()
        if t in ('global', 'constant'):
            const = (t == 'constant')
            break
        if t in ('external', 'extern_weak', 'available_externally'):
            external = True
        if t == 'alias':
            # @x = alias T, ptr @y
            p.type()
            p.expect(',')
            p.type()
            m.aliases[name] = p.next()
            return
        if t == 'ifunc':
            return
        if p.peek() == '(':
            p.skip_parens()
    if name in ('@llvm.global_ctors', '@llvm.used', '@llvm.compiler.used'):
        if name == '@llvm.global_ctors':
            m.globals[name] = (None, re.findall(r'ptr (@[-\w$.]+|@"[^"]*"), ptr', ln), True)
        return
    ty = p.type()
    init = None
    if not external:
        init = p.value(ty)
    m.globals[name] = (ty, init, const)


HEADRE = re.compile(r'(@"[^"]*"|@[-\w$.]+)\(')


def parse_func(head, body, m):
    mm = HEADRE.search(head)
    f = Func()
    f.name = mm.group(1)
    f.py = None
    f.byval = {}
    # return type: tokens before name, after linkage etc.
    pre = tokenize(head[:mm.start()])
    # find type at the end: walk from the start skipping words which are attributes
    p = P(pre, m)
    p.next()  # define
    SK = {'dso_local', 'internal', 'private', 'linkonce_odr', 'linkonce', 'weak', 'weak_odr', 'hidden', 'protected',
          'noundef', 'nonnull', 'signext', 'zeroext', 'noalias', 'external', 'available_externally', 'fastcc', 'ccc',
          'local_unnamed_addr', 'unnamed_addr', 'inreg', 'coldcc', 'mustprogress', 'dso_preemptable'}
    while True:
        t = p.peek()
        if t in SK:
            p.next()
        elif t in ('align',):
            p.next()
            p.next()
        elif t in ('dereferenceable', 'dereferenceable_or_null', 'range', 'nofpclass'):
            p.next()
            p.skip_parens()
        else:
            break
    f.ret = p.type()
    p = P(tokenize(head[mm.end() - 1:]), m)
    p.expect('(')
    f.params = []
    if not p.accept(')'):
        while True:
            if p.accept('...'):
                p.expect(')')
                break
            ty = p.type()
            a = p.attrs()
            nm = p.next() if p.peek() and p.peek()[0] == '%' else '%%%d' % len(f.params)
            if 'byval' in a:
                f.byval[len(f.params)] = a['byval']
            f.params.append((ty, nm))
            if p.accept(')'):
                break
            p.expect(',')
    # blocks
    f.blocks = {}
    f.order = []
    nun = [0]
    cur = None
    # first block label: next unnamed number = count of unnamed params
    first = '%%%d' % sum(1 for _, nm in f.params if re.fullmatch(r'%\d+', nm))
    j = 0
    ninstr = 0
    while j < len(body):
        ln = body[j]
        j += 1
        if not ln.strip() or ln.lstrip().startswith(';'):
            continue
        if ln[0] != ' ':
            lm = re.match(r'("[^"]*"|[-\w$.]+):', ln)
            cur = []
            nm = '%' + lm.group(1)
            f.blocks[nm] = cur
            f.order.append(nm)
            continue
        if cur is None:
            cur = []
            f.blocks[first] = cur
            f.order.append(first)
        # multi-line instructions
        s = ln
        st = s.strip()
        if re.match(r'(%\S+ = )?invoke ', st):
            s += ' ' + body[j]
            j += 1
        elif re.match(r'%\S+ = landingpad ', st):
            while j < len(body) and re.match(r'\s+(cleanup|catch|filter)', body[j]):
                s += ' ' + body[j]
                j += 1
        elif st.startswith('switch '):
            while not s.rstrip().endswith(']'):
                s += ' ' + body[j]
                j += 1
        # drop metadata attachments
        s = re.sub(r', ![a-zA-Z_.]+ ![0-9]+', '', s)
        s = re.sub(r', !srcloc ![0-9]+', '', s)
        cur.append(s.strip())
        ninstr += 1
    f.ninstr = ninstr
    return f
