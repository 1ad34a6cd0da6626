"""Evaluates the conditions of the Natvis file over enumerated object representations.

Only what the debugger would see matters: for each visualizer of a type with unused bits, a sentinel or a separate flag, every listed
object state is laid out in a byte buffer and the Natvis C expressions are evaluated on it. An expression this little evaluator cannot
understand (Unsupported) is not judged.
"""
import functools, re


class Unsupported(Exception):
    pass


TOK = re.compile(r'\s*(0[xX][0-9a-fA-F\']+[uUlL]*|\d[\d\']*[uUlL]*|\$T\d+|[A-Za-z_]\w*|::|->|==|!=|<=|>=|<<|>>|&&|\|\||[-+*/%&|^!~<>?:().,\[\]])')
BASIC = {'char': (1, True), 'signed char': (1, True), 'unsigned char': (1, False), 'bool': (1, False), 'short': (2, True), 'unsigned short': (2, False),
         'int': (4, True), 'unsigned int': (4, False), 'unsigned': (4, False), 'long long': (8, True), 'unsigned long long': (8, False), '__int64': (8, True),
         'unsigned __int64': (8, False), 'uint8_t': (1, False), 'uint16_t': (2, False), 'uint32_t': (4, False), 'uint64_t': (8, False),
         'float': (4, None), 'double': (8, None)}
KW = {'char', 'signed', 'unsigned', 'bool', 'short', 'int', 'long', '__int64', 'uint8_t', 'uint16_t', 'uint32_t', 'uint64_t', 'void', 'const', 'volatile', 'float', 'double'}


@functools.lru_cache(maxsize=None)
def tokens(text):
    toks, p = [], 0
    text = text.strip()
    while p < len(text):
        m = TOK.match(text, p)
        if not m:
            raise Unsupported('token in ' + text)
        toks.append(m.group(1))
        p = m.end()
    return toks


class Mem:
    def __init__(self, base, data, psize):
        self.base, self.data, self.psize = base, data, psize

    def load(self, addr, n):
        o = addr - self.base
        if o < 0 or o + n > len(self.data):
            raise Unsupported('outside of the object')
        return self.data[o:o + n]


class V:
    """A value or lvalue: ty is ('i', size, signed) | ('f', size) | ('p', ty) | ('v',) | ('o', name)."""
    def __init__(self, ty, val=None, addr=None):
        self.ty, self.val, self.addr = ty, val, addr


class Eval:
    def __init__(self, text, mem, env, calls):
        self.toks = tokens(text)
        self.i, self.mem, self.env, self.calls = 0, mem, env, calls

    def peek(self, k=0):
        return self.toks[self.i + k] if self.i + k < len(self.toks) else None

    def take(self, t=None):
        x = self.peek()
        if x is None or (t is not None and x != t):
            raise Unsupported('expected %s, got %s' % (t, x))
        self.i += 1
        return x

    def run(self):
        v = self.ternary(True)
        if self.peek() is not None:
            raise Unsupported('trailing ' + self.peek())
        return self.rv(v)

    # -- types
    def is_type(self, k=0):
        t = self.peek(k)
        return t in KW or (t in self.env and isinstance(self.env[t], tuple))

    def type(self):
        words = []
        base = None
        while self.is_type():
            t = self.take()
            if t in ('const', 'volatile'):
                continue
            if t in self.env:
                base = self.env[t]
            else:
                words.append(t)
        if base is None:
            n = ' '.join(words)
            if n == 'void':
                base = ('v',)
            elif n in ('long', 'unsigned long'):
                raise Unsupported('long')
            elif n in BASIC:
                s, sg = BASIC[n]
                base = ('f', s) if sg is None else ('i', s, sg)
            else:
                raise Unsupported('type ' + n)
        while self.peek() in ('*', 'const'):
            if self.take() == '*':
                base = ('p', base)
        return base

    def size(self, ty):
        if ty[0] in 'if':
            return ty[1]
        if ty[0] == 'p':
            return self.mem.psize
        raise Unsupported('sizeof')

    # -- values
    def rv(self, v):
        if v.val is not None:
            return v
        if v.addr is None:
            raise Unsupported('no value')
        n = self.size(v.ty)
        raw = self.mem.load(v.addr, n)
        if v.ty[0] == 'f':
            import struct
            return V(v.ty, struct.unpack('<f' if n == 4 else '<d', raw)[0])
        return V(v.ty, int.from_bytes(raw, 'little', signed=v.ty[0] == 'i' and v.ty[2]))

    def wrap(self, ty, x):
        if ty[0] == 'f':
            return float(x)
        n = self.size(ty) * 8
        x = int(x) & ((1 << n) - 1)
        if ty[0] == 'i' and ty[2] and x >> (n - 1):
            x -= 1 << n
        return x

    def arith(self, a, b):
        """Usual arithmetic conversions."""
        if a.ty[0] == 'p' or b.ty[0] == 'p':
            return ('i', self.mem.psize, False)
        if a.ty[0] == 'f' or b.ty[0] == 'f':
            return ('f', 8)
        s = max(4, a.ty[1], b.ty[1])
        uns = any(t.ty[1] == s and not t.ty[2] for t in (a, b))
        return ('i', s, not uns)

    BOOL = ('i', 1, False)

    def ternary(self, ev):
        c = self.lor(ev)
        if self.peek() == '?':
            self.take()
            cond = bool(self.rv(c).val) if ev else False
            a = self.ternary(ev and cond)
            self.take(':')
            b = self.ternary(ev and not cond)
            return a if cond else b
        return c

    def lor(self, ev):
        a = self.land(ev)
        while self.peek() == '||':
            self.take()
            x = bool(self.rv(a).val) if ev else False
            b = self.land(ev and not x)
            a = V(self.BOOL, int(x or (bool(self.rv(b).val) if ev else False)))
        return a

    def land(self, ev):
        a = self.binary(0, ev)
        while self.peek() == '&&':
            self.take()
            x = bool(self.rv(a).val) if ev else False
            b = self.binary(0, ev and x)
            a = V(self.BOOL, int(x and bool(self.rv(b).val)))
        return a

    LEVELS = [('|',), ('^',), ('&',), ('==', '!='), ('<', '>', '<=', '>='), ('<<', '>>'), ('+', '-'), ('*', '/', '%')]

    def binary(self, l, ev):
        if l == len(self.LEVELS):
            return self.unary(ev)
        a = self.binary(l + 1, ev)
        while self.peek() in self.LEVELS[l]:
            op = self.take()
            b = self.binary(l + 1, ev)
            if not ev:
                a = V(('i', 4, True), 0)
                continue
            a, b = self.rv(a), self.rv(b)
            if op in '+-' and a.ty[0] == 'p' and b.ty[0] == 'i':
                d = b.val * self.size(a.ty[1])
                a = V(a.ty, self.wrap(('i', self.mem.psize, False), a.val + d if op == '+' else a.val - d))
                continue
            ty = self.arith(a, b)
            x, y = self.wrap(ty, a.val), self.wrap(ty, b.val)
            if op in ('==', '!=', '<', '>', '<=', '>='):
                r = {'==': x == y, '!=': x != y, '<': x < y, '>': x > y, '<=': x <= y, '>=': x >= y}[op]
                a = V(self.BOOL, int(r))
            else:
                if op in ('/', '%') and not y:
                    raise Unsupported('division')
                r = {'|': lambda: x | y, '^': lambda: x ^ y, '&': lambda: x & y, '<<': lambda: x << y, '>>': lambda: x >> y, '+': lambda: x + y, '-': lambda: x - y, '*': lambda: x * y, '/': lambda: x // y, '%': lambda: x % y}[op]()
                a = V(ty, self.wrap(ty, r))
        return a

    def unary(self, ev):
        t = self.peek()
        if t == '(' and self.is_type(1):
            self.take()
            ty = self.type()
            self.take(')')
            v = self.unary(ev)
            if not ev:
                return V(ty, 0)
            v = self.rv(v)
            return V(ty, self.wrap(ty, v.val))
        if t == 'sizeof':
            self.take()
            self.take('(')
            if self.is_type():
                ty = self.type()
            else:
                ty = self.ternary(True).ty
            self.take(')')
            return V(('i', self.mem.psize, False), self.size(ty))
        if t in ('*', '&', '!', '~', '-', '+'):
            self.take()
            v = self.unary(ev)
            if t == '&':
                if v.addr is None:
                    if not ev:
                        return V(('p', v.ty), 0)
                    raise Unsupported('& of a value')
                return V(('p', v.ty), v.addr)
            if t == '*':
                if v.ty[0] != 'p':
                    raise Unsupported('* of a non-pointer')
                if not ev:
                    return V(v.ty[1], None, 0)
                return V(v.ty[1], None, self.rv(v).val)
            if not ev:
                return V(('i', 4, True), 0)
            v = self.rv(v)
            if t == '!':
                return V(self.BOOL, int(not v.val))
            ty = v.ty if v.ty[0] == 'f' or v.ty[1] >= 4 else ('i', 4, True)
            return V(ty, self.wrap(ty, {'~': lambda: ~v.val, '-': lambda: -v.val, '+': lambda: v.val}[t]()))
        return self.postfix(ev)

    def postfix(self, ev):
        v = self.primary(ev)
        while self.peek() in ('.', '->', '['):
            op = self.take()
            if op == '[':
                ix = self.rv(self.ternary(ev))
                self.take(']')
                v = self.rv(v)
                if v.ty[0] != 'p':
                    raise Unsupported('[]')
                v = V(v.ty[1], None, v.val + ix.val * self.size(v.ty[1]))
                continue
            if op == '->':
                v = self.rv(v)
                v = V(v.ty[1], None, v.val)
            name = self.take()
            m = self.env.get(('member', v.ty[-1] if v.ty[0] == 'o' else None, name))
            if m is None:
                raise Unsupported('member ' + name)
            ty, off = m
            v = V(ty, None, v.addr + off)
        return v

    def primary(self, ev):
        t = self.take()
        if t == '(':
            v = self.ternary(ev)
            self.take(')')
            return v
        if re.match(r'\d', t):
            suf = re.search(r'[uUlL]*$', t).group(0).lower() if not t.lower().startswith('0x') else re.search(r'[uUlL]*$', t).group(0).lower()
            n = int(t[:len(t) - len(suf)].replace("'", ''), 0)
            uns, ll = 'u' in suf, 'll' in suf
            hexa = t.lower().startswith('0x')
            for ty in (('i', 4, True), ('i', 4, False), ('i', 8, True), ('i', 8, False)):
                if ll and ty[1] == 4 or uns and ty[2] or (not uns and not hexa and not ty[2]):
                    continue
                if n < 1 << (8 * ty[1] - (1 if ty[2] else 0)):
                    return V(ty, n)
            raise Unsupported('literal')
        if t in ('true', 'false'):
            return V(self.BOOL, int(t == 'true'))
        if t == 'this':
            return V(('p', ('o', 'this')), self.mem.base)
        if self.peek() == '::' and t.startswith('$T'):
            self.take()
            k = (t, self.take())
            if k not in self.env:
                raise Unsupported('%s::%s' % k)
            return self.env[k]
        if self.peek() == '(' and t in self.calls:
            self.take()
            self.take(')')
            if not ev:
                return V(self.BOOL, 0)
            return Eval(self.calls[t], self.mem, self.env, self.calls).run()
        if t in self.env and isinstance(self.env[t], V):
            return self.env[t]
        if ('member', 'this', t) in self.env:
            ty, off = self.env[('member', 'this', t)]
            return V(ty, None, self.mem.base + off)
        raise Unsupported('name ' + t)


U8, U32, U64 = ('i', 1, False), ('i', 4, False), ('i', 8, False)
PTR = ('p', ('o', 'x'))
# kind -> (flag type, size, {psize: pattern of emptiness})
KINDS = {'bool': (U8, {4: 0xfe, 8: 0xfe}), 'float': (('f', 4), {4: 0x7fedcba9, 8: 0x7fedcba9}),
         'double': (('f', 8), {4: 0x7ff8fedcba987654, 8: 0x7ff8fedcba987654}),
         'pointer': (PTR, {4: 0xffffffff - 8, 8: 0xffff800000000000 - 1})}


def flips(p, n):
    """All patterns within Hamming distance 1, the neighbourhood, and the usual suspects."""
    s = {p ^ (1 << a) for a in range(n)} | {0, 1, (1 << n) - 1, 1 << (n - 1)}
    s |= {(p + d) & ((1 << n) - 1) for d in range(-9, 10)}
    return s - {p}


def states(kind, psize):
    """(pattern, empty) of the flag variable."""
    ty, pats = KINDS[kind]
    p = pats[psize]
    if kind == 'bool':
        return [(p, True), (0, False), (1, False)]
    n = 8 * (psize if kind == 'pointer' else ty[1])
    return [(p, True)] + [(x, False) for x in sorted(flips(p, n))]


def layouts(kind, psize, member):
    """(bytes, offset, empty)"""
    ty, _ = KINDS[kind]
    size = psize if kind == 'pointer' else ty[1]
    for pat, empty in states(kind, psize):
        b = pat.to_bytes(size, 'little')
        if not member:
            yield b, 0, empty
            continue
        empt = KINDS[kind][1][psize].to_bytes(size, 'little')
        for off in (0, size, 3 * size):
            for other in (b'\0' * size, empt):
                d = bytearray(other * 5)
                d[off:off + size] = b
                yield bytes(d), off, empty


def evaluate(root, check, count):
    """check(ok, what, text), count(n): number of evaluated states."""
    def local(e):
        return e.tag.split('}')[-1]
    types = [t for t in root.iter() if local(t) == 'Type']
    views = {t.get('IncludeView'): t for t in types if t.get('IncludeView')}

    def resolve(t):
        """The display strings/items of a type, following {*this,view(X)}."""
        calls = {c.get('Name'): c.get('Expression', '') for c in t if local(c) == 'Intrinsic'}
        strings = [(c.get('Condition'), c.text or '') for c in t if local(c) == 'DisplayString']
        items = []
        for e in t:
            if local(e) == 'Expand':
                items += [(c.get('Condition'), local(c), c.text or '') for c in e]
        return calls, strings, items

    def shown(t, mem, env, calls=None, depth=0):
        """(what the display string shows, what the items show): each 'value', 'nothing'; None: not judged."""
        own, strings, items = resolve(t)
        calls = dict(calls or {}, **own)

        def cond(c):
            return c is None or bool(Eval(c, mem, env, calls).run().val)

        def value(s):
            return bool(re.search(r'mStorage|payload|storage', s))
        ds = None
        for c, s in strings:
            if cond(c):
                m = re.search(r'this\s*,\s*view\((\w+)\)', s)
                if m and m.group(1) in views and depth < 3:
                    ds = shown(views[m.group(1)], mem, env, calls, depth + 1)[0]
                else:
                    ds = value(s)
                break
        it = False
        for c, tag, s in items:
            if tag not in ('Item', 'ExpandedItem') or 'Raw' in s:
                continue
            if cond(c):
                m = re.search(r'this\s*,\s*view\((\w+)\)', s)
                if m and m.group(1) in views and depth < 3:
                    it = it or shown(views[m.group(1)], mem, env, calls, depth + 1)[1]
                elif tag == 'Item' and depth:
                    it = it or value(s)
                elif tag == 'Item' and not any(re.search(r'view\(', x[2]) for x in items):
                    it = it or value(s)
        return ds, it

    judged = {}
    for t in types:
        name = t.get('Name', '')
        m = re.search(r'(InplaceStoredTypeDecomposition|InplaceDecompositionViaMemPtr).*optional_flag_manipulator<([\w*]+),', name)
        base = 0x10000
        todo = []
        if m:
            kind = {'*': 'pointer'}.get(m.group(2), m.group(2))
            if kind not in KINDS:
                continue
            member = m.group(1).endswith('MemPtr')
            ty = KINDS[kind][0]
            for psize in (4, 8):
                for data, off, empty in layouts(kind, psize, member):
                    env = {('member', 'this', 'mStorage'): (('o', 'S'), 0), ('member', 'S', 'storage'): (('o', 'C') if member else ty, 0),
                           'FlagType': ty, 'PayloadType': ('o', 'C') if member else ty}
                    if member:
                        env['$T2'] = V(('i', 4, True), off)
                    todo.append((Mem(base, data, psize), env, empty, '%s%s, bytes %s' % ('member ' if member else '', kind, data.hex())))
        elif 'SeparateFlagManipulator' in name:
            for flag in (0, 1):
                env = {('member', 'this', 'mStorage'): (('o', 'S'), 0), ('member', 'S', 'payload'): (('i', 4, True), 0), ('member', 'S', 'isEmptyFlag'): (U8, 4)}
                todo.append((Mem(base, b'\5\0\0\0' + bytes([flag]), 8), env, bool(flag), 'separate flag %d' % flag))
        elif re.search(r'InplaceStoredTypeDecomposition<\*>, \*>', name) or re.search(r'InplaceDecompositionViaMemPtr<\*, \*>, \*>', name):
            member = 'MemPtr' in name
            for ty, n in ((U8, 1), (U32, 4), (('i', 4, True), 4), (U64, 8), (('i', 1, True), 1)):
                top = 1 << (8 * n)
                for sent in (0, 1, top - 1, top >> 1, (top >> 1) - 1):
                    for val in {sent} | flips(sent, 8 * n):
                        for off in ((0, 8, 16) if member else (0,)):
                            sv = int.from_bytes(sent.to_bytes(n, 'little'), 'little', signed=ty[2])
                            d = bytearray((sent if val != sent else 0x55 ^ (sent & 0xff)).to_bytes(8, 'little') * 3) if member else bytearray(n)
                            d[off:off + n] = val.to_bytes(n, 'little')
                            tn = '$T3' if member else '$T2'
                            env = {('member', 'this', 'mStorage'): (('o', 'S'), 0), ('member', 'S', 'storage'): (('o', 'C') if member else ty, 0), 'FlagType': ty,
                                   (tn, 'valueToIndicateEmpty'): V(ty, sv)}
                            if member:
                                env['$T2'] = V(('i', 4, True), off)
                            todo.append((Mem(base, bytes(d), 8), env, val == sent, '%ssentinel %d value %d' % ('member ' if member else '', sent, val)))
        for mem, env, empty, what in todo:
            try:
                ds, it = shown(t, mem, env)
            except Unsupported as e:
                judged.setdefault('unsupported', set()).add('%s: %s' % (what.split(',')[0], e))
                continue
            judged['n'] = judged.get('n', 0) + 1
            check(ds == (not empty), what, 'the visualizer shows %s for %s optional (%d bit)' % ('a value' if ds else 'nullopt', 'an empty' if empty else 'an engaged', 8 * mem.psize))
            check(it == (not empty), what, 'the visualizer expands to %s for %s optional (%d bit)' % ('a value' if it else 'nullopt', 'an empty' if empty else 'an engaged', 8 * mem.psize))
    count(judged.get('n', 0))
    return sorted(judged.get('unsupported', ()))
