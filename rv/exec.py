"""Symbolic interpreter for rustc MIR (see mir.py) over the values of values.py.

Crate functions are executed from their MIR or, when their contract has been verified in
this run, replaced by the contract (specs.py).  Everything outside the crate is a contract
assumed by the library models registered in STD (std.py, urlm.py, mapm.py)."""
import re
import mir
from values import *

STD = {}
FIELD_RE = re.compile(r'for (\w+)>::deserialize::__Field::(__\w+)$')
INT_BITS = {'u8': (0, 2 ** 8 - 1), 'u16': (0, 2 ** 16 - 1), 'u32': (0, 2 ** 32 - 1), 'u64': (0, 2 ** 64 - 1),
            'usize': (0, 2 ** 64 - 1), 'u128': (0, 2 ** 128 - 1), 'i8': (-2 ** 7, 2 ** 7 - 1),
            'i16': (-2 ** 15, 2 ** 15 - 1), 'i32': (-2 ** 31, 2 ** 31 - 1), 'i64': (-2 ** 63, 2 ** 63 - 1),
            'isize': (-2 ** 63, 2 ** 63 - 1), 'i128': (-2 ** 127, 2 ** 127 - 1)}


def std(*keys):
    def deco(f):
        for k in keys:
            STD[k] = f
        return f
    return deco


class Frame:
    __slots__ = ('fn', 'cells', 'tsub')     # tsub: generic parameters of the function -> type names

    def __init__(self, fn, tsub=None):
        self.fn = fn
        self.cells = {}
        self.tsub = tsub or {}


class Stop(Exception):
    pass


class _Panicked(Exception):
    pass


def zb(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


def zn(x):
    return z3.IntVal(x) if isinstance(x, int) else x


def b_not(x):
    return (not x) if isinstance(x, bool) else z3.Not(x)


def b_and(*xs):
    ys = []
    for x in xs:
        if x is True:
            continue
        if x is False:
            return False
        ys.append(x)
    return True if not ys else ys[0] if len(ys) == 1 else z3.And(*ys)


def b_or(*xs):
    return b_not(b_and(*[b_not(x) for x in xs]))


def unref(v):
    while isinstance(v, Ref):
        v = read_path(v.cell.v, v.path)
    return v


def leaf_of(it):
    while it.kind in ('map', 'filter', 'inspect', 'filter_map', 'cloned', 'copied', 'refs'):
        it = it.data[0]
    return it


def within_char(it):
    """is this iterator in the middle of a multi-byte character?"""
    while it.kind != 'bytesp' and it.data and isinstance(it.data[0], It):
        it = it.data[0]
    return it.kind == 'bytesp'


# types without interior mutability
PLAIN_TYPE = re.compile(r"^(?:[&\[\](),;<>\s]|\d+|'static|\b(?:[ui](?:8|16|32|64|128|size)|char|bool|str|(?:\w+::)*"
                        r"(?:RangeInclusive|Range|Option))\b)*$")
# statics that are set once, to the value of a function without arguments
LAZY_TYPE = re.compile(r'^(?:std::sync::)?(?:OnceLock|LazyLock)<(.*)>$')


class Row:
    """a path through one or two iterations of a loop over characters: its conditions, the two
    characters and the verdicts on the loop state"""

    def __init__(self, ctx, c1, rest):
        self.ctx, self.c1, self.c2 = ctx, c1.z, None
        self.n = len(ctx.asserted)
        self.pc, self.verdict = None, set()
        self.rest, self.end = rest, False

    def second(self, rev):
        """the next character; at the end of the text there is nothing to compare"""
        h = (self.ctx.last if rev else self.ctx.head)((self.rest,))
        if h is None:
            self.verdict.update(('keep', 'set'))
            return None
        c = h[1] if rev else h[0]
        self.c2 = c.z if isinstance(c, CV) else None
        return c

    def close(self):
        self.pc = self.ctx.asserted[self.n:]
        self.end = not self.ctx.norm((self.rest,)) or 'same' not in self.verdict \
            and len(self.pc) > 1 and self.ctx.entails(_eq(self.ctx.clen((self.rest,)), 0))


class Executor:
    MAXDEPTH = 60
    loop_hooks = {}

    def __init__(self, prog, ctx, specs=None, use=frozenset(), shared=None):
        self.prog = prog
        self.ctx = ctx
        self.specs = specs or {}
        self.use = use                    # contract keys that may replace bodies
        self.shared = shared if shared is not None else {'pred': {}, 'loops': {}, 'live': {}, 'consts': {}, 'stateless': {}}
        self.depth = 0

    def sub(self, ctx):
        e = Executor(self.prog, ctx, self.specs, self.use, self.shared)
        e.depth = self.depth
        return e

    # ---------------------------------------------------------------- memory
    def new(self, v):
        return Cell(v, self.ctx.depth)

    def mkref(self, v):
        return Ref(self.new(v))

    def load(self, r):
        return read_path(r.cell.v, r.path)

    def store(self, r, x):
        if not isinstance(r, Ref):
            raise Unsupported('store through %r' % (r,))
        if r.cell.d < self.ctx.depth:
            raise Unsupported('mutation inside a summarised closure')
        r.cell.v = write_path(r.cell.v, r.path, x)

    def deref(self, v):
        return unref(v)

    def strip(self, r):
        """&..&T -> innermost reference to T (or the value itself)"""
        while isinstance(r, Ref):
            v = self.load(r)
            if isinstance(v, Ref):
                r = v
            else:
                return r
        return r

    def word(self, v):
        v = unref(v)
        if isinstance(v, (Str, Own)):
            return self.ctx.norm(v.w)
        if isinstance(v, Enum) and v.name == 'Cow':
            return self.word(v.fs[0])
        if isinstance(v, Struct) and v.name == 'Box':
            return self.word(v.fs[0])
        if isinstance(v, (Struct, Enum)) and '<%s as AsRef<str>>::as_ref' % v.name in self.prog.by_key:
            # a generic `S: AsRef<str>` argument of a contract
            return self.word(self.call('<%s as AsRef<str>>::as_ref' % v.name, self.mkref(v)))
        raise Unsupported('string expected, got %r' % (v,))

    # ---------------------------------------------------------------- places
    def place(self, fr, p):
        loc, projs = p
        c = fr.cells.get(loc)
        if c is None:
            # values of zero size are used without being assigned
            ty = fr.fn.locals.get(loc, '')
            v = None
            if ty.startswith('{closure@'):
                v = Closure(ty, ())
            elif ty.startswith('fn(') and ty.endswith('}'):
                v = FnPtr(ty[ty.rindex('{') + 1:-1])
            c = fr.cells[loc] = self.new(v)
        path = ()
        for pr in projs:
            k = pr[0]
            if k == 'deref':
                v = read_path(c.v, path)
                if isinstance(v, Ref):
                    c, path = v.cell, v.path
                elif isinstance(v, Struct) and v.name == 'Box':
                    path = path + (0,)
                elif isinstance(v, (Str, Arr, Val)) and v is not None:
                    c, path = Cell(v, -1), ()
                else:
                    raise Unsupported('deref of %r' % (v,))
            elif k == 'field':
                path = path + (pr[1],)
            elif k == 'as':
                pass
            elif k == 'index':
                i = fr.cells[pr[1]].v
                v = read_path(c.v, path)
                if isinstance(v, It) and v.kind == 'bytes_of':
                    c, path = Cell(STD['byte_at'](self, v.data[0], i, True), -1), ()
                    continue
                if isinstance(v, It) and v.kind == 'wordvec':
                    c, path = Cell(STD['cv_at'](self, v.data[0], i, True), -1), ()
                    continue
                i = self.concrete_index(i, v)
                path = path + (i,)
            elif k == 'cindex':
                v = read_path(c.v, path)
                if isinstance(v, It) and v.kind == 'bytes_of':
                    i = pr[1] if pr[1] >= 0 else _sub_(self.ctx.blen(v.data[0]), -pr[1])
                    c, path = Cell(STD['byte_at'](self, v.data[0], i, True), -1), ()
                    continue
                if isinstance(v, It) and v.kind == 'wordvec':
                    c, path = Cell(STD['cv_at'](self, v.data[0], pr[1], True), -1), ()
                    continue
                n = len(fields(v) or ())
                i = pr[1] if pr[1] >= 0 else n + pr[1]
                path = path + (i,)
            elif k == 'subslice':
                c, path = Cell(STD['subslice'](self, read_path(c.v, path), pr[1], pr[2]), -1), ()
            else:
                raise Unsupported('projection ' + k)
        return c, path

    def concrete_index(self, i, v):
        if isinstance(i, int):
            return i
        n = len(fields(v) or ())
        for k in range(n):
            if self.ctx.branch(i == k):
                return k
        raise RustPanic('index out of bounds')

    def read(self, fr, p):
        c, path = self.place(fr, p)
        v = c.v
        if v is None:
            raise Unsupported('read of uninitialised local _%d in %s' % (p[0], fr.fn.name))
        # Str / model objects behind a field path
        for k, i in enumerate(path):
            fs = fields(v)
            if fs is None or i >= len(fs):
                raise Unsupported('field %d of %r' % (i, v))
            v = fs[i]
        return v

    def write(self, fr, p, x):
        c, path = self.place(fr, p)
        if path and c.v is None:
            raise Unsupported('partial initialisation')
        if c.d == -1:
            raise Unsupported('write behind unsized reference')
        if c.d < self.ctx.depth and c is not fr.cells.get(p[0]):
            raise Unsupported('mutation inside a summarised closure')
        c.v = write_path(c.v, path, x) if path else x

    # ---------------------------------------------------------------- operands
    def operand(self, fr, o):
        if o[0] == 'use':
            return self.read(fr, o[1])
        return self.const(fr, o[1])

    def const(self, fr, c):
        k = c[0]
        if k == 'unit':
            return UNIT
        if k in ('bool',):
            return c[1]
        if k == 'int':
            return c[1]
        if k == 'str':
            self.ctx.stats.lits.add(c[1])
            return Str(c[1])
        if k == 'char':
            return Ch(c[1])
        if k == 'bytes':
            return Arr(c[1], 'bytes')
        if k == 'closure':
            m = re.search(r'\{closure@[^}]*\}', c[1])
            return Closure(m.group(0), ())
        if k == 'fn':
            return FnPtr(c[1])
        if k == 'zst':
            return self.zst(fr, c[1])
        if k == 'path':
            return self.path_const(fr, c[1])
        if k == 'other':
            m = re.match(r'^\{alloc(\d+): &(.*)\}$', c[1])
            if m and m.group(1) in self.prog.statics and PLAIN_TYPE.match(m.group(2)):
                return self.mkref(self.eval_item(self.prog.statics[m.group(1)]))
            if m and m.group(1) in self.prog.statics and LAZY_TYPE.match(m.group(2)):
                return self.mkref(It('static', m.group(1)))
        raise Unsupported('constant %r' % (c,))

    def zst(self, fr, t):
        n = mir.norm_type(t)
        if n.startswith('fn('):
            raise Unsupported('fn constant ' + t)
        return Struct(n.split('<')[0], ())

    def path_const(self, fr, text):
        P = self.prog
        if text.startswith('{closure@') or 'closure@' in text and text.startswith('ZeroSized'):
            return Closure(text, ())
        m = re.search(r'::promoted\[(\d+)\]$', text)
        if m:
            key = self.promoted(fr, text, m.group(1))
            return self.eval_item(key)
        m = FIELD_RE.search(text)
        if m:
            return Enum('__Field:' + m.group(1), m.group(2))
        if text.endswith(')') or text.endswith('}'):
            try:
                rv = mir.parse_rvalue(text)
            except mir.ParseError:
                raise Unsupported('constant ' + text)
            if rv[0] == 'adt':
                return self.adt(fr, rv[1], [self.operand(fr, x) for x in rv[2]])
            raise Unsupported('constant ' + text)
        cal = mir.parse_callee(text)
        if cal.owner and cal.owner in P.enums and cal.name in P.enums[cal.owner]:
            if self.variant_arity(cal.owner, cal.name):
                return FnPtr(text)
            return Enum(cal.owner, cal.name)
        if text in P.fns and P.fns[text].kind == 'const':
            return self.eval_item(text)
        last = text.split('::')[-1]
        cand = [nm for nm, f in P.fns.items() if f.kind == 'const' and last == cal.name
                and (nm == cal.name or nm.endswith('::' + cal.name))]
        if len(cand) > 1:
            # associated constants of several types: the impl says whose
            own = {cal.owner, cal.selfty} if ' for ' not in text else {P.const_owner(text)}
            cand = [nm for nm in cand if P.const_owner(nm) in own - {None}]
            if len(cand) != 1:
                raise Unsupported('constant ' + text)
        if cand:
            return self.eval_item(cand[0])
        if cal.key in ('usize::MAX', 'MAX'):
            return 2 ** 64 - 1
        if cal.owner in INT_BITS and cal.name in ('MIN', 'MAX'):
            return INT_BITS[cal.owner][cal.name == 'MAX']
        if cal.key in ('char::MAX', 'char::MIN'):
            return Ch(0x10FFFF if cal.name == 'MAX' else 0)
        if cal.key in ('String::new',):
            return FnPtr(text)
        if cal.name[:1].islower() or cal.trait:
            return FnPtr(text)
        if cal.key in P.by_key:
            return FnPtr(text)
        if re.match(r'^_*[A-Z]', cal.name):
            if cal.owner is None or cal.owner[:1].islower() or True:
                return Struct(cal.name, ())
        raise Unsupported('constant ' + text)

    def variant_arity(self, owner, var):
        if owner in ('Option', 'Result', 'ControlFlow', 'Cow', 'Bound'):
            return 0 if var in ('None', 'Unbounded') else 1
        return 1 if ('%s::%s' % (owner, var)) in self.prog.by_key or var in self.prog.by_key else 0

    def promoted(self, fr, text, n):
        # the promoted constant belongs to the function being executed
        nm, _, dup = fr.fn.uid.partition(mir.DUP)
        nm += '::promoted[%s]' % n + (mir.DUP + dup if dup else '')
        if nm in self.prog.fns:
            return nm
        if dup:
            raise Unsupported('promoted constant of a macro expansion')
        for k in self.prog.fns:
            if k.endswith('::promoted[%s]' % n):
                a = k[:k.rindex('::promoted')]
                if a == text[:text.rindex('::promoted')]:
                    return k
        # inlined by the compiler from another function
        t = text[:text.rindex('::promoted')]
        cal = mir.parse_callee(t)
        f = self.prog.by_key.get('<%s as %s>::%s' % (cal.selfty, cal.trait, cal.name) if cal.trait else cal.key)
        if f is not None and f.name + '::promoted[%s]' % n in self.prog.fns:
            return f.name + '::promoted[%s]' % n
        raise Unsupported('promoted constant ' + text)

    def eval_item(self, name):
        f = self.prog.ensure(self.prog.fns[name])
        fr = Frame(f)
        return self.run(fr)

    # ---------------------------------------------------------------- rvalues
    def adt(self, fr, name, args):
        if name.startswith('{closure@'):
            return Closure(name, args)
        m = FIELD_RE.search(name)
        if m:
            return Enum('__Field:' + m.group(1), m.group(2), args)
        cal = mir.parse_callee(name)
        P = self.prog
        if cal.owner and cal.owner in P.enums and cal.name in P.enums[cal.owner]:
            return Enum(cal.owner, cal.name, args)
        if cal.owner is None:
            hits = [e for e, vs in P.enums.items() if cal.name in vs]
            if hits and cal.name not in ('Iri', 'Name', 'Namespace', 'PrefixedName') and not self.is_struct(cal.name):
                return Enum(hits[0], cal.name, args)
        return Struct(cal.name, args)

    def is_struct(self, name):
        s = self.prog.__dict__.setdefault('_structs', None)
        if s is None:
            s = set()
            for fs in self.prog._src.values():
                for ln in fs:
                    m = re.match(r'^\s*(?:pub(?:\([^)]*\))?\s+)?struct\s+([A-Za-z_]\w*)', ln)
                    if m:
                        s.add(m.group(1))
            self.prog._structs = s
        return name in s

    def rvalue(self, fr, r, dest=None):
        k = r[0]
        if k == 'op':
            return self.operand(fr, r[1])
        if k == 'ref':
            c, path = self.place(fr, r[1])
            v = c.v
            if r[1][1] and r[1][1][-1][0] == 'deref' and c.d == -1 and not path:
                return v                       # reborrow of an unsized value
            return Ref(c, path)
        if k == 'adt':
            return self.adt(fr, r[1], [self.operand(fr, x) for x in r[2]])
        if k == 'tuple':
            return Struct('()', [self.operand(fr, x) for x in r[1]])
        if k == 'array':
            return Arr([self.operand(fr, x) for x in r[1]])
        if k == 'repeat':
            n = self.const_int(r[2])
            return Arr([self.operand(fr, r[1])] * n)
        if k == 'closure':
            return Closure(r[1], [self.operand(fr, x) for x in r[2]])
        if k == 'discr':
            v = self.read(fr, r[1])
            if isinstance(v, Enum):
                vs = self.prog.enums.get(v.name)
                if vs is None:
                    raise Unsupported('discriminant of ' + v.name)
                if v.name == 'Ordering':
                    return {'Less': -1, 'Equal': 0, 'Greater': 1}[v.var]
                return vs.index(v.var)
            raise Unsupported('discriminant of %r' % (v,))
        if k == 'un':
            v = self.operand(fr, r[2])
            if r[1] == 'Not':
                if isinstance(v, (bool, z3.BoolRef)):
                    return b_not(v)
                raise Unsupported('bitwise not')
            if r[1] == 'Neg':
                return -v
            if r[1] == 'PtrMetadata':
                v = unref(v)
                if isinstance(v, (Str, Own)):
                    return self.ctx.blen(v.w)
                if isinstance(v, Arr):
                    return len(v.items)
                if isinstance(v, It) and v.kind == 'bytes_of':
                    return self.ctx.blen(v.data[0])
                if isinstance(v, It) and v.kind == 'wordvec':
                    return self.ctx.clen(v.data[0])
            raise Unsupported('unary ' + r[1])
        if k == 'len':
            v = self.read(fr, r[1])
            return len(v.items)
        if k == 'bin':
            a, b = self.operand(fr, r[2]), self.operand(fr, r[3])
            ty = None
            if dest is not None and not dest[1]:
                ty = fr.fn.locals.get(dest[0])
            return self.binop(r[1], a, b, ty)
        if k == 'cast':
            if r[3].startswith('BoxDeref') and r[1][0] == 'use':
                # pointer to the contents of a box (`vec![..]` writes them in place)
                c, path = self.place(fr, r[1][1])
                return Ref(c, path)
            return self.cast(self.operand(fr, r[1]), r[2], r[3])
        raise Unsupported('rvalue ' + k)

    def const_int(self, s):
        m = re.match(r'^(?:const )?(\d+)(?:_usize)?$', s.strip())
        if not m:
            raise Unsupported('array length ' + s)
        return int(m.group(1))

    def binop(self, op, a, b, ty):
        a, b = unref(a), unref(b)
        if isinstance(a, Ch):
            a = cz(a.a)
        if isinstance(b, Ch):
            b = cz(b.a)
        if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
            if isinstance(a, (Val,)) or isinstance(b, (Val,)):
                raise Unsupported('comparison of %r and %r' % (a, b))
            if isinstance(a, (bool, z3.BoolRef)):
                if op == 'Eq':
                    r = zb(a) == zb(b)
                elif op == 'Ne':
                    r = zb(a) != zb(b)
                else:
                    a, b = (z3.If(zb(x), 1, 0) for x in (a, b))
                    return self.binop(op, a, b, None)
                if isinstance(a, bool) and isinstance(b, bool):
                    return (a == b) == (op == 'Eq')
                return r
            if isinstance(a, int) and isinstance(b, int):
                return {'Eq': a == b, 'Ne': a != b, 'Lt': a < b, 'Le': a <= b, 'Gt': a > b, 'Ge': a >= b}[op]
            return {'Eq': a == b, 'Ne': a != b, 'Lt': a < b, 'Le': a <= b, 'Gt': a > b, 'Ge': a >= b}[op]
        if op in ('BitAnd', 'BitOr', 'BitXor') and isinstance(a, (bool, z3.BoolRef)):
            if op == 'BitAnd':
                return b_and(a, b)
            if op == 'BitOr':
                return b_or(a, b)
            return b_not(self.binop('Eq', a, b, None))
        base = op.replace('WithOverflow', '').replace('Unchecked', '')
        if base in ('Add', 'Sub', 'Mul'):
            if base == 'Mul' and not (isinstance(a, int) or isinstance(b, int)):
                raise Unsupported('nonlinear arithmetic')
            v = a + b if base == 'Add' else a - b if base == 'Sub' else a * b
            if not isinstance(v, int):
                v = z3.simplify(v)
            if op.endswith('WithOverflow'):
                t = 'usize'
                if ty:
                    m = re.match(r'^\((\w+), bool\)$', ty)
                    if m:
                        t = m.group(1)
                lo, hi = INT_BITS.get(t, INT_BITS['usize'])
                o = (v < lo or v > hi) if isinstance(v, int) else z3.Or(v < lo, v > hi)
                return tup(v, o)
            return v
        if base in ('Div', 'Rem') and isinstance(b, int) and b > 0:
            if isinstance(a, int):
                return a // b if base == 'Div' else a % b
            return a / b if base == 'Div' else a % b
        if base == 'Cmp':
            return self.cmp_int(a, b)
        if base in ('BitAnd', 'BitOr', 'BitXor', 'Shl', 'Shr') and isinstance(a, int) and isinstance(b, int):
            return {'BitAnd': a & b, 'BitOr': a | b, 'BitXor': a ^ b, 'Shl': a << b, 'Shr': a >> b}[base]
        if base in ('BitAnd', 'BitOr', 'BitXor') and isinstance(a, int):
            a, b = b, a
        if isinstance(b, int) and b >= 0:
            if base == 'Shr' and b < 64:
                return a / (1 << b)
            if base in ('BitAnd', 'BitOr', 'BitXor'):
                # one bit at a time (runs of ones as one field)
                n, i = 0, 0
                while b >> i:
                    if b >> i & 1:
                        j = i
                        while b >> j & 1:
                            j += 1
                        n = n + (a / (1 << i) if i else a) % (1 << j - i) * (1 << i)
                        i = j
                    i += 1
                return n if base == 'BitAnd' else a + b - n if base == 'BitOr' else a + b - 2 * n
        raise Unsupported('binary ' + op)

    def cmp_int(self, a, b):
        if self.ctx.branch(zn(a) < zn(b) if not (isinstance(a, int) and isinstance(b, int)) else a < b):
            return ordering(-1)
        if self.ctx.branch(zn(a) == zn(b) if not (isinstance(a, int) and isinstance(b, int)) else a == b):
            return ordering(0)
        return ordering(1)

    def cast(self, v, ty, kind):
        if isinstance(v, Ch) and kind.startswith('IntToInt'):
            x = cz(v.a)
            if ty == 'u8':
                if isinstance(x, int):
                    return x & 255
                if self.ctx.entails(x < 256):
                    return x
                return x % 256
            return x
        if kind.startswith('IntToInt') and ty == 'char':
            return Ch(ch_atom(v))
        if kind.startswith('IntToInt') and isinstance(v, (bool, z3.BoolRef)):
            return (1 if v else 0) if isinstance(v, bool) else z3.If(v, 1, 0)
        if kind.startswith('IntToInt') and isinstance(v, Enum):
            return self.prog.enums[v.name].index(v.var)
        if kind.startswith('IntToInt'):
            lo, hi = INT_BITS.get(ty, (None, None))
            if isinstance(v, int) and lo is not None and lo <= v <= hi:
                return v
            if lo is not None and self.ctx.entails(z3.And(v >= lo, v <= hi)):
                return v
            if lo == 0 and ty in INT_BITS:
                return v % (hi + 1)
            raise Unsupported('narrowing cast')
        if kind.startswith('PointerCoercion') or kind.startswith('Transmute') or kind.startswith('PtrToPtr') \
                or kind.startswith('Subtype'):
            if kind.startswith('Transmute'):
                raise Unsupported('transmute')
            return v
        raise Unsupported('cast ' + kind)

    # ---------------------------------------------------------------- control
    def run(self, fr, start=0, stop=None, entry=None):
        f = fr.fn
        b = start
        ctx = self.ctx
        counters = self.counters(f)
        fresh = True
        while True:
            ctx.burn()
            if b not in f.blocks:
                raise Unsupported('missing block %r in %s' % (b, f.name))
            if not fresh and b == entry:
                raise Stop()
            if b in counters and not (fresh and b == entry):
                if not self.walk_loop(fr, b):
                    self.count_loop(fr, b)
            fresh = False
            stmts, term = f.blocks[b]
            for s in stmts:
                if s[0] == 'assign':
                    self.write(fr, s[1], self.rvalue(fr, s[2], s[1]))
                elif s[0] == 'unparsed':
                    raise Unsupported('MIR statement: ' + s[1][:80])
                elif s[0] == 'setdiscr':
                    raise Unsupported('set discriminant')
            k = term[0]
            if k == 'return':
                c = fr.cells.get(0)
                return c.v if c is not None and c.v is not None else UNIT
            if k == 'goto':
                b = term[1]
            elif k == 'switch':
                b = self.switch(self.operand(fr, term[1]), term[2], term[3])
            elif k == 'drop':
                b = term[2]
            elif k == 'assert':
                v = self.operand(fr, term[1])
                if term[2]:
                    v = b_not(v)
                if not ctx.branch(v):
                    raise RustPanic('assertion: ' + term[3])
                b = term[4]
            elif k == 'call':
                if stop == b:
                    raise Stop()
                dest, cal, args, tgt = term[1], term[2], term[3], term[4]
                avals = [self.operand(fr, x) for x in args]
                self.here = (fr, b)
                if cal[0] == 'dyn':
                    r = self.callv(self.operand(fr, cal[1]), avals)
                else:
                    if cal[1].endswith('::next') or cal[1].endswith('::next_back'):
                        self.accelerate(fr, b, cal[1], avals)
                    r = self.call_path(self.tysub(cal[1], fr), avals, fr)
                if tgt is None:
                    raise RustPanic('diverging call ' + str(cal[1])[:60])
                self.write(fr, dest, r)
                b = tgt
            elif k == 'unreachable':
                raise Infeasible()
            elif k == 'resume':
                raise Infeasible()
            else:
                raise Unsupported('terminator ' + str(term)[:80])

    def switch(self, v, targets, other):
        if isinstance(v, Ch):
            v = cz(v.a)
        if isinstance(v, bool):
            v = int(v)
        if isinstance(v, z3.BoolRef):
            t = dict(targets)
            if self.ctx.branch(v):
                return t.get(1, other)
            return t.get(0, other)
        if isinstance(v, int):
            for k, b in targets:
                if k == v or (v < 0 and k in (v + 2 ** 8, v + 2 ** 16, v + 2 ** 32, v + 2 ** 64, v + 2 ** 128)):
                    return b
            if other is None:
                raise Infeasible()
            return other
        if isinstance(v, Val):
            raise Unsupported('switch on %r' % (v,))
        # group the values per target
        groups = []
        for k, b in targets:
            for g in groups:
                if g[1] == b:
                    g[0].append(k)
                    break
            else:
                groups.append(([k], b))
        for ks, b in groups:
            if self.ctx.branch(z3.Or(*[v == k for k in ks]) if len(ks) > 1 else v == ks[0]):
                return b
        if other is None:
            raise Infeasible()
        return other

    # ---------------------------------------------------------------- calls
    def type_of(self, v):
        if isinstance(v, Str):
            return 'str'
        if isinstance(v, Own):
            return 'String'
        if isinstance(v, Ch):
            return 'char'
        if isinstance(v, (bool, z3.BoolRef)):
            return 'bool'
        if isinstance(v, (int, z3.ArithRef)):
            return 'usize'
        if isinstance(v, (Struct, Enum)):
            return v.name
        if isinstance(v, Opaque):
            return v.ty
        if isinstance(v, Arr):
            return {'vec': 'Vec'}.get(v.kind, 'slice')
        if isinstance(v, It):
            return {'map': 'BiBTreeMap'}.get(v.kind, v.kind)
        n = getattr(v, 'TY', None)
        return n or type(v).__name__

    def callv(self, f, args):
        """call a closure / fn value with a list of arguments"""
        fref = None
        while isinstance(f, Ref):
            fref = f
            f = self.load(f)
        if isinstance(f, FnPtr):
            return self.call_path(f.path, list(args), None)
        if isinstance(f, Closure):
            fn = self.prog.closures.get(f.span)
            if fn is None:
                raise Unsupported('closure body ' + f.span)
            self.prog.ensure(fn)
            p0 = fn.params[0][1]
            if p0.startswith('&'):
                selfv = fref if fref is not None else self.mkref(f)
            else:
                selfv = f
            return self.call_fn(fn, [selfv] + list(args))
        if callable(f):
            return f(self, *args)
        raise Unsupported('call of %r' % (f,))

    def call_fn(self, fn, args, tsub=None):
        self.prog.ensure(fn)
        if self.depth > self.MAXDEPTH - 12:
            self.deep_call(fn, args)
        fr = Frame(fn, tsub)
        if len(args) != len(fn.params):
            raise Unsupported('arity of ' + fn.name)
        for (l, t), a in zip(fn.params, args):
            fr.cells[l] = self.new(a)
        self.depth += 1
        try:
            return self.run(fr)
        finally:
            self.depth -= 1

    def deep_call(self, fn, args):
        """A call with the same arguments as one of its callers, which led to it without a
        choice left open, repeats forever: the stack overflows."""
        stack = self.shared.setdefault('deep', [])
        del stack[max(0, self.depth - (self.MAXDEPTH - 11)):]
        memo = {}
        cells = {i: Cell(clone_val(a, memo, 0), 0) for i, a in enumerate(args)}
        none = self.mkref(None)
        if self.depth > self.MAXDEPTH:
            for f, c in stack:
                if f is fn and self.state_same(self.ctx, c, cells, list(cells), none, none):
                    raise RustPanic('unbounded recursion')
            raise Unsupported('recursion')
        stack.append((fn, cells))

    TYPARAM = re.compile(r'\b([A-Z][A-Z0-9]?)(?= as |>::|>$|,)')

    def tysub(self, text, fr):
        """callee with the generic parameters of the running function replaced"""
        if not fr.tsub:
            return text
        return re.sub(r'\b(%s)\b' % '|'.join(fr.tsub), lambda m: fr.tsub[m.group(1)], text)

    def type_env(self, cal, fn, key, args):
        """types of the generic parameters of a function, as far as the call shows them"""
        env = {}
        if cal.trait and args and not key.startswith('<'):
            env['Self'] = self.type_of(self.inner(args[0]))
        gs = [g for g in cal.generics if not g.startswith("'")]
        if len(gs) == 1 and not re.match(r'^[{&]', gs[0]):
            self.prog.ensure(fn)
            names = fn.__dict__.get('_typarams') if hasattr(fn, '__dict__') else None
            if names is None:
                names = set()
                for st, t in fn.blocks.values():
                    if t[0] == 'call' and t[2][0] != 'dyn':
                        names.update(self.TYPARAM.findall(t[2][1]))
                names = {n for n in names if n not in self.prog.enums and not self.is_struct(n)}
                if hasattr(fn, '__dict__'):
                    fn._typarams = names
            if len(names) == 1:
                env[next(iter(names))] = gs[0]
        return env

    def inner(self, v):
        v = unref(v)
        while isinstance(v, Struct) and v.name == 'Box':
            v = unref(v.fs[0])
        return v

    STDMODS = frozenset('cmp mem iter ptr char str slice fmt ops convert hint process array option result string vec '
                        'hash any env thread num cell rc sync borrow boxed collections panic panicking intrinsics '
                        'alloc core std'.split())

    def find_local(self, cal, args):
        P = self.prog
        if cal.trait:
            st = cal.selfty
            k = '<%s as %s>::%s' % (st, cal.trait, cal.name)
            if k in P.by_key:
                return k
            tb = cal.trait.split('<')[0]
            # run-time dispatch
            cands = []
            base = st
            while base.startswith('&'):
                base = base[1:].strip()
                if base.startswith('mut '):
                    base = base[4:]
            k = '<%s as %s>::%s' % (base, cal.trait, cal.name)
            if k in P.by_key and tb not in ('From', 'TryFrom', 'FromStr', 'Default', 'Into', 'TryInto'):
                return k
            if args and tb not in ('From', 'TryFrom', 'FromStr', 'Default', 'Into', 'TryInto'):
                t = self.type_of(self.inner(args[0]))
                k = '<%s as %s>::%s' % (t, cal.trait, cal.name)
                if k in P.by_key:
                    return k
                pre = '<%s as %s' % (t, tb)
                for k in P.by_key:
                    if k.startswith(pre) and k.endswith('>::' + cal.name) and k[len(pre)] in '<>':
                        if cal.trait == tb or k.startswith('<%s as %s>' % (t, cal.trait)):
                            return k
                # an impl for all instances of a generic type
                for k in P.by_key:
                    if k.startswith('<%s<' % t) and k.endswith('> as %s>::%s' % (cal.trait, cal.name)):
                        return k
            k = '%s::%s' % (tb, cal.name)           # a method the trait itself defines
            return k if k in P.by_key and not self.is_struct(tb) and tb not in P.enums else None
        if cal.selfty and cal.owner:
            k = '%s::%s' % (cal.selfty.split('<')[0], cal.name)
            return k if k in P.by_key else None
        if cal.owner is None:
            if cal.name in P.by_key:
                return cal.name
            return None
        if cal.key in P.by_key:
            return cal.key
        if cal.owner and cal.owner[:1].islower():
            # module path
            if cal.name in P.by_key and cal.key not in STD and (
                    cal.owner not in self.STDMODS or cal.owner in P.by_key[cal.name].name.split('::')):
                return cal.name
        return None

    def call_local(self, key, args, cal=None):
        fn = self.prog.by_key[key]
        st = self.ctx.stats
        if key in self.use and key in self.specs:
            st.contracts_used.add(key)
            return self.specs[key](self, *args)
        st.inlined.add(key)
        self.prog.ensure(fn)
        # predicates over one character are summarised into a character set
        if len(fn.params) == 1 and fn.params[0][1] == 'char' and fn.ret == 'bool' and len(args) == 1 \
                and isinstance(args[0], Ch) and not isinstance(args[0].a, int):
            p = self.shared['pred'].get(key)
            if p is None:
                p = self.summarise(lambda e, c: e.call_fn(fn, [c]), True)
                if isinstance(p, CharSet):
                    self.shared['pred'][key] = p
            return p.at(args[0].a)
        return self.call_fn(fn, args, cal and self.type_env(cal, fn, key, args))

    def call(self, key, *args):
        """call a crate function by canonical key"""
        if key not in self.prog.by_key:
            raise Unsupported('no function ' + key)
        return self.call_local(key, list(args))

    def call_body(self, key, *args):
        if key not in self.prog.by_key:
            raise Unsupported('no function ' + key)
        return self.call_fn(self.prog.by_key[key], list(args))

    def call_path(self, text, args, fr=None):
        cal = mir.parse_callee(text)
        k = self.find_local(cal, args)
        if k is not None:
            if cal.selfty and cal.selfty.startswith('&') and not k.startswith('<&'):
                args = [self.strip(a) if isinstance(a, Ref) else a for a in args]
            if args and isinstance(unref(args[0]), Struct) and unref(args[0]).name == 'Box' and 'Box' not in k:
                a = self.strip(args[0])
                args = [Ref(a.cell, a.path + (0,)) if isinstance(a, Ref) else a.fs[0]] + list(args[1:])
            return self.call_local(k, args, cal)
        P = self.prog
        if cal.owner in P.enums and cal.name in P.enums[cal.owner]:
            return Enum(cal.owner, cal.name, args)
        if cal.owner is None and self.is_struct(cal.name):
            return Struct(cal.name, args)
        h = STD.get(cal.key)
        if h is None and cal.trait:
            h = STD.get(cal.trait.split('<')[0] + '::' + cal.name)
        if h is None:
            h = STD.get(cal.name) if cal.owner is None else None
        if h is None and args:
            # inherent method found by the run-time type
            t = self.type_of(unref(args[0]))
            h = STD.get(t + '::' + cal.name) if cal.trait else None
        if h is None:
            raise Unsupported('call ' + cal.key + ' (' + text[:80] + ')')
        self.ctx.stats.assumptions.add(cal.key)
        self.here_fr = fr
        r = h(self, cal, *args)
        if isinstance(r, Own):
            self.fits(r)
        elif cal.owner == 'String' and args and isinstance(args[0], Ref):
            x = unref(args[0])
            if isinstance(x, Own):
                self.fits(x)
        return r

    def fits(self, s):
        """a String that was built fits in memory (a failing allocation is not modelled)"""
        n = 0
        for a in self.ctx.norm(s.w):
            if isinstance(a, SV):
                n += 1
        if n:
            self.ctx.add(self.ctx.blen(s.w) <= 2 ** 63 - 1)

    # ---------------------------------------------------------------- summaries
    def summarise(self, f, closed=False):
        """CharSet (or OpenPred) of the characters on which f(executor, Ch) is true."""
        paths = []
        var = [None]

        def go(ctx):
            c = ctx.fresh_char()
            var[0] = c.z
            n0 = len(ctx.asserted)
            s0 = len(ctx.subst)
            e = self.sub(ctx)
            try:
                r = f(e, Ch(c))
            except RustPanic as p:
                paths.append((list(ctx.asserted[n0:]), 'panic', p.msg))
                return
            if len(ctx.subst) != s0:
                raise Unsupported('closure inspects strings')
            paths.append((list(ctx.asserted[n0:]), r, None))

        explore(go, self.ctx.stats, None if closed else self.ctx)
        v = var[0]
        if any(isinstance(p[1], str) for p in paths):
            raise Unsupported('panic inside predicate')
        fs = [z3.And(*(p[0] + [zb(p[1])])) for p in paths]
        formula = z3.simplify(z3.Or(*fs)) if fs else z3.BoolVal(False)
        return to_charset(v, formula)

    def pred_of(self, f, byref=False):
        """predicate value (closure / fn) over char -> CharSet / OpenPred"""
        key = None
        g = unref(f)
        if isinstance(g, FnPtr):
            key = ('fp', g.path, byref)
        elif isinstance(g, Closure) and not g.caps:
            key = ('cl', g.span, byref)
        if key and key in self.shared['pred']:
            return self.shared['pred'][key]
        p = self.summarise(lambda e, c: e.callv(f, [e.mkref(c) if byref else c]), key is not None)
        if key and isinstance(p, CharSet):
            self.shared['pred'][key] = p
        return p

    # ---------------------------------------------------------------- loops
    def loops_of(self, fn):
        r = self.shared['loops'].get(fn.name)
        if r is not None:
            return r
        succ = {}
        for b, (st, t) in fn.blocks.items():
            k = t[0]
            s = []
            if k == 'goto':
                s = [t[1]]
            elif k == 'switch':
                s = [x for _, x in t[2]] + ([t[3]] if t[3] is not None else [])
            elif k == 'drop':
                s = [t[2]]
            elif k == 'assert':
                s = [t[4]]
            elif k == 'call':
                s = [t[4]] if t[4] is not None else []
            succ[b] = [x for x in s if x is not None]
        inloop = set()
        for b in fn.blocks:
            seen = set()
            todo = list(succ[b])
            while todo:
                x = todo.pop()
                if x in seen or x not in succ:
                    continue
                seen.add(x)
                todo.extend(succ[x])
            if b in seen:
                inloop.add(b)
        # liveness
        def use_op(o, s):
            if o[0] == 'use':
                use_pl(o[1], s)

        def use_pl(p, s):
            s.add(p[0])
            for pr in p[1]:
                if pr[0] == 'index':
                    s.add(pr[1])

        def rv_uses(r, s):
            k = r[0]
            if k == 'op':
                use_op(r[1], s)
            elif k in ('ref', 'discr', 'len'):
                use_pl(r[1], s)
            elif k in ('tuple', 'array'):
                for x in r[1]:
                    use_op(x, s)
            elif k in ('adt', 'closure'):
                for x in r[2]:
                    use_op(x, s)
            elif k == 'repeat':
                use_op(r[1], s)
            elif k == 'bin':
                use_op(r[2], s); use_op(r[3], s)
            elif k == 'un':
                use_op(r[2], s)
            elif k == 'cast':
                use_op(r[1], s)

        live_in = {b: frozenset() for b in fn.blocks}

        def transfer(b, out):
            st, t = fn.blocks[b]
            live = set(out)
            term_in(t, live)
            for s in reversed(st):
                if s[0] == 'assign':
                    if not s[1][1]:
                        live.discard(s[1][0])
                    else:
                        use_pl(s[1], live)
                    rv_uses(s[2], live)
            return frozenset(live)

        def term_in(t, live):
            k = t[0]
            if k == 'return':
                live.add(0)
            elif k == 'switch':
                use_op(t[1], live)
            elif k == 'assert':
                use_op(t[1], live)
            elif k == 'call':
                if not t[1][1]:
                    live.discard(t[1][0])
                else:
                    use_pl(t[1], live)
                if t[2][0] == 'dyn':
                    use_op(t[2][1], live)
                for x in t[3]:
                    use_op(x, live)

        changed = True
        while changed:
            changed = False
            for b in fn.blocks:
                out = set()
                for x in succ[b]:
                    out |= live_in.get(x, frozenset())
                n = transfer(b, out)
                if n != live_in[b]:
                    live_in[b] = n
                    changed = True
        live_out = {}
        for b in fn.blocks:
            out = set()
            for x in succ[b]:
                out |= live_in.get(x, frozenset())
            t = fn.blocks[b][1]
            live = set(out)
            term_in(t, live)
            live_out[b] = frozenset(live)       # live just before the terminator
        r = (inloop, live_out)
        self.shared['loops'][fn.name] = r
        self.shared['loops'][('in', fn.name)] = live_in
        return r

    def loops_around(self, fn, b):
        """number of natural loops (headers) that contain block b"""
        key = ('around', fn.name)
        r = self.shared['loops'].get(key)
        if r is None:
            succ = {}
            for x, (_, t) in fn.blocks.items():
                k = t[0]
                s = [t[1]] if k == 'goto' else [y for _, y in t[2]] + [t[3]] if k == 'switch' else \
                    [t[2]] if k == 'drop' else [t[4]] if k in ('assert', 'call') else []
                succ[x] = [y for y in s if y is not None and y in fn.blocks]
            pred = {x: [] for x in fn.blocks}
            for x in succ:
                for y in succ[x]:
                    pred[y].append(x)
            entry = min(fn.blocks)
            dom = {x: set(fn.blocks) for x in fn.blocks}
            dom[entry] = {entry}
            todo = True
            while todo:
                todo = False
                for x in fn.blocks:
                    if x == entry:
                        continue
                    ps = [dom[p] for p in pred[x]]
                    n = (set.intersection(*ps) if ps else set()) | {x}
                    if n != dom[x]:
                        dom[x] = n
                        todo = True
            r = {}
            for u in succ:
                for h in succ[u]:
                    if h in dom[u]:
                        body = {h, u}
                        st = [u] if u != h else []
                        while st:
                            for p in pred[st.pop()]:
                                if p not in body:
                                    body.add(p)
                                    st.append(p)
                        r.setdefault(h, set()).update(body)
            self.shared['loops'][key] = r
        if b is None:
            return r
        return sum(b in body for body in r.values())

    def counters(self, fn):
        """loop headers -> integer locals that the loop assigns and that live across iterations"""
        r = self.shared['loops'].get(('count', fn.name))
        if r is None:
            r, w = {}, {}
            if any(t[0] == 'goto' and t[1] <= b or t[0] != 'goto' for b, (_, t) in fn.blocks.items()):
                for h, body in self.loops_around(fn, None).items():
                    ls, bs = set(), set()
                    for b in body:
                        st, t = fn.blocks[b]
                        for s in st:
                            if s[0] == 'assign' and not s[1][1]:
                                ls.add(s[1][0])
                            if s[0] == 'assign' and s[2][0] == 'ref' and not s[2][1][1]:
                                bs.add(s[2][1][0])
                        if t[0] == 'call' and not t[1][1]:
                            ls.add(t[1][0])
                    self.loops_of(fn)
                    live = self.shared['loops'][('in', fn.name)][h]
                    ty = {l: fn.locals.get(l, '').strip() for l in live & (ls | bs)}
                    r[h] = [l for l in sorted(live & ls) if ty[l] in INT_BITS]
                    w[h] = [l for l in sorted(ty) if l in ls and re.match(r"^&('\w+ )?str$", ty[l])
                            or l in bs and re.match(r'^([a-z]+::)*String$', ty[l])]
                    if not r[h] and not w[h]:
                        del r[h]
            self.shared['loops'][('walk', fn.name)] = w
            self.shared['loops'][('count', fn.name)] = r
        return r

    def count_loop(self, fr, b):
        """a `while` loop whose counter is a position in a text: see count_summary"""
        live = self.shared['loops'][('in', fr.fn.name)][b]
        for l in self.counters(fr.fn)[b]:
            c = fr.cells.get(l)
            if c is None or not isinstance(c.v, (int, z3.ArithRef)) or isinstance(c.v, bool):
                continue
            if self.count_summary(fr, b, live, Ref(c, ()), c.v, lambda v, x: x, lambda v: v,
                                  lambda e, f2: e.run(f2, b, entry=b)):
                return

    def walk_loop(self, fr, b):
        """a loop that takes a text apart from its front or its back, as an iterator would"""
        live = self.shared['loops'][('in', fr.fn.name)][b]
        n = 3
        for l in self.shared['loops'][('walk', fr.fn.name)][b]:
            c = fr.cells.get(l)
            if c is None or not isinstance(c.v, (Str, Own)):
                continue
            for rev in (False, True):
                w = self.ctx.norm(c.v.w)
                if not w or not isinstance(w[-1 if rev else 0], SV):
                    continue
                n = self.ctx.side.get(('walk', fr.fn.name, b, l, rev), 0) + 1
                self.ctx.side[('walk', fr.fn.name, b, l, rev)] = n
                if n > 6:
                    if n > 60:
                        raise Unsupported('loop without a character-class summary in ' + fr.fn.name)
                    continue
                done = set()
                for x in live:
                    self.decide_bools(fr.cells.get(x), done)
                kind = type(c.v)
                run = lambda e, f2: e.run(f2, b, entry=b)
                args = (fr, b, Ref(c, ()), lambda v: (v.w,), lambda e, w2, s: (kind(w2), None), rev, live, run, n)
                G, A, look, along = self.ctx.once(lambda: self.classes_along(*args))
                if G is None or G.empty() or n == 1 and not A.empty():
                    continue
                c.v = kind(self.skip(fr, w, G, A, look, rev, along))
                return True
        return n < 3

    def count_texts(self, fr, live):
        """(word, unit) of the texts, byte and character slices within reach"""
        out, seen = [], set()

        def go(v, d):
            if isinstance(v, Ref):
                if id(v.cell) not in seen:
                    seen.add(id(v.cell))
                    go(v.cell.v, d)
            elif isinstance(v, (Str, Own)):
                out.append((self.ctx.norm(v.w), 'b'))
            elif isinstance(v, It) and v.kind in ('wordvec', 'bytes_of'):
                out.append((self.ctx.norm(v.data[0]), 'c' if v.kind == 'wordvec' else 'b'))
            elif isinstance(v, (Struct, Enum, Closure, Arr)) and d < 6:
                for x in fields(v) or ():
                    go(x, d + 1)
        for l in sorted(live):
            c = fr.cells.get(l)
            if c is not None and c.v is not None:
                go(c.v, 0)
        # a text is scanned by position as a byte or character slice in the first place
        out.sort(key=lambda x: x[1] == 'b')
        return out

    def count_summary(self, fr, b, live, r, i, put, get, run):
        """Loop summary for a counter i that walks over a text w, forwards or backwards: as
        `accelerate`, for the characters at the position of the counter.  One iteration is taken
        at an arbitrary later position of the same unconstrained stretch of w."""
        ctx = self.ctx
        tried = set()
        n = None
        for w, unit in self.count_texts(fr, live):
            size = (lambda a: ctx.clen((a,))) if unit == 'c' else (lambda a: ctx.blen((a,)))
            pos, k = 0, None
            for j in range(len(w) + 1):
                x = _eq(pos, i)
                if x is True or x is not False and ctx.entails(x):
                    k = j
                    break
                if j < len(w):
                    pos = _add(pos, size(w[j]))
            if k is None:
                continue
            for rev in (False, True):
                a = w[k - 1] if rev and k else w[k] if not rev and k < len(w) else None
                if not isinstance(a, SV) or (a.id, unit, rev) in tried:
                    continue
                tried.add((a.id, unit, rev))
                if n is None:
                    n = ctx.side.get(('count', fr.fn.name, b), 0) + 1
                    ctx.side[('count', fr.fn.name, b)] = n
                    if n > (60 if isinstance(i, int) else 6):
                        raise Unsupported('loop without a character-class summary in ' + fr.fn.name)
                    done = set()
                    for l in live:
                        self.decide_bools(fr.cells.get(l), done)
                G, A, look = ctx.once(
                    lambda: self.count_classes(fr, live, r, i, put, get, run, a, unit, rev, n > 2))
                if G is None or G.empty():
                    continue
                if n == 1 and not A.empty():
                    return True
                part = (a,)         # what follows it was taken into account as it is
                x = (ctx.split_last if rev else ctx.split_first)(part, G.neg())
                p = part if x is None else x[2] if rev else x[0]
                if not A.empty():
                    y = (ctx.split_first if rev else ctx.split_last)(p, A)
                    if y is not None:
                        p = y[2] if rev else y[0]
                elif look:
                    y = (ctx.head if rev else ctx.last)(p)
                    p = () if y is None else y[1] if rev else y[0]
                d = ctx.clen(p) if unit == 'c' else ctx.blen(p)
                self.store(r, put(self.load(r), _sub_(i, d) if rev else _add(i, d)))
                return True
        return False

    def count_classes(self, fr, live, r, i, put, get, run, a, unit, rev, deep):
        rows = []

        def step(ctx, cells, itref, v, d):
            memo = {}
            f2 = Frame(fr.fn, fr.tsub)
            f2.cells = {l: clone_cell(c, memo, ctx.depth) for l, c in cells.items()}
            r2 = Ref(clone_cell(itref.cell, memo, ctx.depth), itref.path)
            r2.cell.v = write_path(r2.cell.v, r2.path, put(read_path(r2.cell.v, r2.path), v)) if r2.path \
                else put(r2.cell.v, v)
            e = self.sub(ctx)
            e.depth = self.depth
            end = _sub_(v, d) if rev else _add(v, d)
            try:
                for _ in range(4):
                    try:
                        run(e, f2)
                        return None
                    except Stop:
                        now = get(read_path(r2.cell.v, r2.path))
                        if ctx.branch(_eq(now, end)):
                            done = set()
                            for l in live:
                                e.decide_bools(f2.cells.get(l), done)
                            return f2.cells, r2, now
                        if unit == 'c' or not ctx.entails(_lt(end, now) if rev else _lt(now, end)):
                            return None
            except (RustPanic, Unsupported):
                return None
            return None

        def go(ctx):
            v, rest = ctx._sub(a, a.name), ctx._sub(a, a.name)
            c1 = ctx.fresh_char()
            ctx.assign(a, (rest, c1, v) if rev else (v, c1, rest))
            size = (lambda x: ctx.clen((x,))) if unit == 'c' else (lambda x: ctx.blen((x,)))
            j = _sub_(i, size(v)) if rev else _add(i, size(v))
            row = Row(ctx, c1, rest)
            rows.append(row)
            try:
                s1 = step(ctx, fr.cells, r, j, size(c1))
                if s1 is None:
                    return
                if self.state_same(ctx, fr.cells, s1[0], live, r, s1[1]):
                    row.verdict.add('same')
                    if not deep:
                        return
                c2 = row.second(rev)
                if c2 is None:
                    return
                s2 = step(ctx, s1[0], s1[1], s1[2], size(c2))
                if s2 is None:
                    return
                if self.state_same(ctx, s1[0], s2[0], live, s1[1], s2[1]):
                    row.verdict.add('keep')
                s3 = step(ctx, fr.cells, r, s1[2], size(c2))
                if s3 is not None and self.state_same(ctx, s3[0], s2[0], live, s3[1], s2[1]):
                    row.verdict.add('set')
            except Infeasible:
                rows.pop()
                raise
            finally:
                row.close()

        if self.ctx.depth > 5:
            raise Unsupported('deeply nested loops')
        explore(go, self.ctx.stats, self.ctx)
        G, A = self.classify(rows, deep)
        if any(row.end for row in rows):
            # does it look ahead?  The last character may be special
            G2, A2 = self.classify([row for row in rows if not row.end], deep)
            if G is not None and G2 is not None and A2.empty() and G2.size() > G.size():
                return G2, A2, True
        return G, A, False

    def accelerate(self, fr, b, text, avals):
        """Loop summary: skip, in one step, the longest prefix of the iterated string whose
        characters leave the loop state unchanged (state equality is proved per class)."""
        inloop, live = self.loops_of(fr.fn)
        if b not in inloop or not avals:
            return
        r = self.strip(avals[0])
        if not isinstance(r, Ref):
            return
        it = self.load(r)
        if not isinstance(it, It):
            return
        if not self.carried(fr, b, r.cell):
            return                  # an iterator of this iteration only
        back = text.endswith('next_back')
        src = self.char_source(it, back)
        if src is None and it.kind == 'range':
            self.count_summary(fr, b, live[b], r, it.data[0], lambda v, x: It('range', x, v.data[1]),
                               lambda v: v.data[0], lambda e, f2: e.run_from_call(f2, b))
            return
        if src is None:
            h = self.loop_hooks.get(leaf_of(it).kind)
            if h:
                h(self, fr, b, r, it, live[b])
            return
        w, rebuild, rev = src
        rev = rev != back
        w = self.ctx.norm(w)
        if not w:
            return
        a = w[-1] if rev else w[0]
        if not isinstance(a, SV):
            return
        n = self.ctx.side.get(('accel', fr.fn.name, b), 0) + 1
        self.ctx.side[('accel', fr.fn.name, b)] = n
        if n > 6:
            raise Unsupported('loop without a character-class summary in ' + fr.fn.name)
        done = set()
        for l in live[b]:
            self.decide_bools(fr.cells.get(l), done)
        run = lambda e, f2: e.run_from_call(f2, b)
        G, A, look, along = self.ctx.once(
            lambda: self.classes_along(fr, b, r, self.char_source, rebuild, rev, live[b], run, n))
        if G is None or G.empty() or n == 1 and not A.empty():
            return                  # run one iteration: its state is usually the general one
        rest = self.skip(fr, w, G, A, look, rev, along)
        it3, _ = rebuild(self, rest, False)
        self.store(r, it3)

    def classes_along(self, fr, b, r, source, rebuild, rev, live, run, n):
        along = {}
        G, A, look = self.loop_classes(fr, r, source, rebuild, rev, live, n > 2, run)
        if (G is None or G.empty()) and n > 1:
            along = self.counted(fr, b, r, source, rebuild, rev, live, run)
            if along:
                G, A, look = self.loop_classes(fr, r, source, rebuild, rev, live, n > 2, run, along)
        return G, A, look, along

    def skip(self, fr, w, G, A, look, rev, along):
        """what is left of w after the loop's steps over the characters of G (counters set)"""
        first = self.ctx.split_last if rev else self.ctx.split_first
        x = first(w, G.neg())
        if rev:
            p, rest = (w, ()) if x is None else (x[2], x[0] + (x[1],))
        else:
            p, rest = (w, ()) if x is None else (x[0], (x[1],) + x[2])
        if not A.empty():
            # the last character of the prefix that sets the state decides it
            y = (self.ctx.split_first if rev else self.ctx.split_last)(p, A)
            if y is not None:
                pre, c, post = y
                rest = rest + pre + (c,) if rev else (c,) + post + rest
                p = post if rev else pre
        elif look:
            y = (self.ctx.head if rev else self.ctx.last)(p)
            if y is not None:
                rest = rest + (y[0],) if rev else (y[1],) + rest
                p = y[1] if rev else y[0]
        for l, size in along.items():
            fr.cells[l].v = _add(fr.cells[l].v, size(self.ctx, p))
        return rest

    def counted(self, fr, b, r, source, rebuild, rev, live, run):
        """integer locals of the loop that each step advances by the length of its character"""
        self.counters(fr.fn)
        around = self.loops_around(fr.fn, None)
        ls = sorted({l for h, body in around.items() if b in body for l in self.counters(fr.fn).get(h, ())
                     if l in live and l in fr.cells and isinstance(fr.cells[l].v, (int, z3.ArithRef))
                     and not isinstance(fr.cells[l].v, bool)})
        if not ls:
            return {}
        sizes = {'c': lambda ctx, w: ctx.clen(w), 'b': lambda ctx, w: ctx.blen(w)}
        seen = {l: [] for l in ls}

        def note(ctx, cells, c):
            for l in ls:
                if l in cells and isinstance(cells[l].v, (int, z3.ArithRef)):
                    seen[l].append({k for k, z in sizes.items()
                                    if ctx.entails(_eq(cells[l].v, _add(fr.cells[l].v, z(ctx, (c,)))))})
                else:
                    seen[l].append(set())
        self.loop_classes(fr, r, source, rebuild, rev, live, False, run, {}, note)
        out = {}
        for l in ls:
            for k in ('c', 'b'):
                # the steps that leave it otherwise have no verdict
                if any(k in s for s in seen[l]) and not any(s and k not in s for s in seen[l]):
                    out[l] = sizes[k]
                    break
        return out

    def carried(self, fr, b, cell):
        """is the cell within reach after the call that ends block b?"""
        if not any(c is cell for c in fr.cells.values()):
            return True
        seen = set()

        def go(v, d):
            if isinstance(v, Ref):
                return reach(v.cell, d)
            if isinstance(v, It):
                return any(isinstance(x, Val) and go(x, d + 1) for x in v.data)
            return d < 8 and any(isinstance(x, Val) and go(x, d + 1) for x in fields(v) or ())

        def reach(c, d):
            if c is cell:
                return True
            if id(c) in seen:
                return False
            seen.add(id(c))
            return isinstance(c.v, Val) and go(c.v, d)
        live = self.shared['loops'][('in', fr.fn.name)]
        return any(reach(fr.cells[l], 0) for l in live.get(fr.fn.blocks[b][1][4], ()) if l in fr.cells)

    def decide_bools(self, c, done):
        """case split on the symbolic booleans of the loop state"""
        if c is None or id(c) in done:
            return
        done.add(id(c))

        def go(v):
            if isinstance(v, z3.BoolRef):
                return self.ctx.branch(v)
            if isinstance(v, Ref):
                self.decide_bools(v.cell, done)
            elif isinstance(v, Struct):
                if any(isinstance(x, (z3.BoolRef, Val)) for x in v.fs):
                    return Struct(v.name, [go(x) for x in v.fs])
            elif isinstance(v, Closure):
                return Closure(v.span, [go(x) for x in v.caps])
            return v
        c.v = go(c.v)

    def loop_classes(self, fr, r, source, rebuild, rev, live, deep, run, along={}, note=None):
        """(G, A): characters G = N + A such that, from the loop state S here, a step on n in N
        leaves S and every S1(a) unchanged, and a step on a in A gives the same S1(a) from S and
        from every S1(a') (S1(a) may be S: `deep`) -- so after any word over G the state is S1(its last A character), or S
        when it has none (by induction on the word).  The counters `along` are advanced by the
        length of what has been read: the step is taken at an arbitrary later position, and the
        rest of the state compared."""
        rows = []
        live = [l for l in live if l not in along]

        def step(ctx, cells, itref, itval, at):
            """one iteration on a copy of `cells`, iterator state `itval`
            -> (cells, iterator ref, iterator) at the next call; None if the loop is left"""
            memo = {}
            f2 = Frame(fr.fn, fr.tsub)
            f2.cells = {l: clone_cell(c, memo, ctx.depth) for l, c in cells.items()}
            r2 = Ref(clone_cell(itref.cell, memo, ctx.depth), itref.path)
            e = self.sub(ctx)
            w = source(itval)[0]
            r2.cell.v = write_path(r2.cell.v, r2.path, itval)
            for l in along:
                f2.cells[l].v = at[l]
            e.depth = self.depth
            try:
                for _ in range(4):
                    try:
                        run(e, f2)
                        return None
                    except Stop:
                        now = read_path(r2.cell.v, r2.path)
                        if not isinstance(now, It) or not within_char(now):
                            raise
            except Stop:
                src = source(now) if type(now) is type(itval) and (not isinstance(now, It) or now.kind == itval.kind) \
                    else None
                w = ctx.norm(w)
                if src is None or ctx.norm(src[0]) != (w[:-1] if rev else w[1:]):
                    return None
                c = w[-1] if rev else w[0]
                for l, size in along.items():
                    v = f2.cells[l].v
                    if not isinstance(v, (int, z3.ArithRef)) or not ctx.branch(_eq(v, _add(at[l], size(ctx, (c,))))):
                        return None
                if note and cells is fr.cells:
                    note(ctx, f2.cells, c)
                done = set()
                for l in live:
                    e.decide_bools(f2.cells.get(l), done)
                return f2.cells, r2, now
            except (RustPanic, Unsupported):
                return None
            return None

        def go(ctx):
            rest = ctx.fresh_sv('rest')
            c1 = ctx.fresh_char()
            it1, _ = rebuild(self.sub(ctx), (rest, c1) if rev else (c1, rest), True)
            before = ctx.fresh_sv('before') if along else None      # read of the text before this step
            if along or not isinstance(it1, It):
                ctx.add(_le(ctx.blen((before, c1, rest) if along else (c1, rest)), ctx.blen(source(self.load(r))[0])))
            row = Row(ctx, c1, rest)
            rows.append(row)
            at = {}
            if along:
                at = {l: _add(fr.cells[l].v, size(ctx, (before,))) for l, size in along.items()}
            try:
                a = step(ctx, fr.cells, r, it1, at)
                if a is None:
                    return
                if self.state_same(ctx, fr.cells, a[0], live, r, a[1]):
                    row.verdict.add('same')
                    if not deep:        # a character that leaves S may also count as setting it
                        return
                if row.second(rev) is None:
                    return
                at = {l: a[0][l].v for l in along}
                ab = step(ctx, a[0], a[1], a[2], at)
                if ab is None:
                    return
                if self.state_same(ctx, a[0], ab[0], live, a[1], ab[1]):
                    row.verdict.add('keep')
                bb = None if note else step(ctx, fr.cells, r, a[2], at)
                if bb is not None and self.state_same(ctx, bb[0], ab[0], live, bb[1], ab[1]):
                    row.verdict.add('set')
            except Infeasible:
                rows.pop()
                raise
            finally:
                row.close()

        if self.ctx.depth > 5:
            raise Unsupported('deeply nested loops')
        explore(go, self.ctx.stats, self.ctx)
        G, A = self.classify(rows, deep)
        if any(row.end for row in rows):
            # does it look ahead?  The last character may be special
            G2, A2 = self.classify([row for row in rows if not row.end], deep)
            if G is not None and G2 is not None and A2.empty() and G2.size() > G.size():
                return G2, A2, True
        return G, A, False

    def classify(self, rows, deep=False):
        # conditions on anything but the characters are taken to hold: a class has a verdict only
        # if every path that its characters might take has it
        paths, sets = [], []
        for row in rows:
            s1 = s2 = ANY
            for x in row.pc:
                k1 = to_charset(row.c1, x)
                if isinstance(k1, CharSet):
                    s1 = s1 & k1
                    continue
                k2 = to_charset(row.c2, x) if row.c2 is not None else None
                if isinstance(k2, CharSet):
                    s2 = s2 & k2
            if s1.empty() or s2.empty():
                continue
            paths.append((s1, s2, row.verdict))
            for s in (s1, s2):
                if s not in sets:
                    sets.append(s)
        atoms = [ANY]
        for s in sets:
            atoms = [q for a in atoms for q in (a & s, a - s) if not q.empty()]
            if len(atoms) > 64:
                return None, None

        def has(a, b, verdict):
            vs = [v for x, y, v in paths if not (x & a).empty() and not (y & b).empty()]
            return vs and all(verdict in v for v in vs)
        N = [a for a in atoms if has(a, ANY, 'same')]
        best = (sum(a.size() for a in N), N, [])
        A2 = []
        for a in sorted((a for a in atoms if deep or a not in N), key=lambda a: (a in N, -a.size())):
            if has(a, a, 'set') and all(has(x, a, 'set') and has(a, x, 'set') for x in A2):
                A2.append(a)
                N2 = [m for m in N if m not in A2 and all(has(x, m, 'keep') for x in A2)]
                z = sum(q.size() for q in N2 + A2)
                if z > best[0]:
                    best = (z, N2, list(A2))
        G, A = CharSet(()), CharSet(())
        for a in best[1] + best[2]:
            G = G | a
        for a in best[2]:
            A = A | a
        return G, A

    def run_from_call(self, fr, b):
        stmts, term = fr.fn.blocks[b]
        # statements of block b have already run; redo only the call
        dest, cal, args, tgt = term[1], term[2], term[3], term[4]
        avals = [self.operand(fr, x) for x in args]
        r = self.call_path(self.tysub(cal[1], fr), avals, fr)
        self.write(fr, dest, r)
        return self.run(fr, tgt, stop=b)

    def stateless(self, f):
        f = unref(f)
        if isinstance(f, FnPtr):
            return True
        if not isinstance(f, Closure):
            return False
        if not f.caps:
            return True
        r = self.shared['stateless'].get(f.span)
        if r is None:
            fn = self.prog.closures.get(f.span)
            r = self.shared['stateless'][f.span] = fn is not None and not self.writes_captures(fn)
        return r

    def writes_captures(self, fn):
        self.prog.ensure(fn)
        n = fn.params[0][0]
        own = {n}

        def root(p):
            return p[0] in own and any(x[0] == 'field' for x in p[1])
        bad = False
        for _ in range(2):              # copies of captured references count as captures
            for st, term in fn.blocks.values():
                for s in st:
                    if s[0] != 'assign':
                        continue
                    d, r = s[1], s[2]
                    if d[0] in own and d[1]:
                        bad = True
                    src = r[1] if r[0] == 'ref' else r[1][1] if r[0] == 'op' and r[1][0] == 'use' else None
                    if src is not None and src[0] in own:
                        own.add(d[0])
                        if any(x[0] == 'field' and str(x[2]).startswith('&mut') for x in src[1]):
                            bad = True
                        if r[0] == 'ref' and 'mut' in str(r[2:]):
                            bad = True
                if term[0] == 'call' and term[1][0] in own and term[1][1]:
                    bad = True
        return bad

    def char_source(self, it, back=False):
        """(word, rebuild(e, word, symbolic) -> (iterator, index var), reversed), for calls of
        next (back: next_back)"""
        if it.kind == 'chars':
            return it.data[0], (lambda e, w, s: (It('chars', w), None)), False
        if it.kind == 'bytes':
            return it.data[0], (lambda e, w, s: (It('bytes', w), None)), False
        if it.kind == 'char_indices':
            w, off, total = it.data

            def rb(e, w2, s):
                if back:                # the front stays where it is
                    return It('char_indices', w2, off, total), None
                # new offset = total length - remaining
                if s:
                    e.ctx.add(_le(e.ctx.blen(w2), e.ctx.blen(w)))
                return It('char_indices', w2, _sub_(_add(off, e.ctx.blen(w)), e.ctx.blen(w2)), total), None
            return w, rb, False
        if it.kind == 'enumerate':
            inner = it.data[0]
            n = it.data[1]
            s0 = self.char_source(inner, back) if isinstance(inner, It) else None
            leaf = leaf_of(inner).kind
            if s0 is None or s0[2] or back or leaf not in ('chars', 'bytes'):
                return None
            w, rb0, _ = s0
            ln = (lambda e, w: e.ctx.clen(w)) if leaf == 'chars' else (lambda e, w: e.ctx.blen(w))

            def rb(e, w2, s):
                if s:
                    e.ctx.add(_le(ln(e, w2), ln(e, w)))
                i, x = rb0(e, w2, s)
                return It('enumerate', i, _sub_(_add(n, ln(e, w)), ln(e, w2))), x
            return w, rb, False
        if it.kind == 'rev':
            s0 = self.char_source(it.data[0], not back) if isinstance(it.data[0], It) else None
            if s0 is None:
                return None
            w, rb0, rev = s0

            def rb(e, w2, s):
                i, x = rb0(e, w2, s)
                return It('rev', i), x
            return w, rb, not rev
        if it.kind in ('map', 'inspect') and isinstance(it.data[0], It) and self.stateless(it.data[1]) \
                or it.kind in ('copied', 'cloned', 'refs') and isinstance(it.data[0], It):
            s0 = self.char_source(it.data[0], back)
            if s0 is None:
                return None
            w, rb0, rev = s0

            def rb(e, w2, s):
                i, x = rb0(e, w2, s)
                return It(it.kind, i, *it.data[1:]), x
            return w, rb, rev
        if it.kind == 'peekable' and it.data[1] is None:
            s0 = self.char_source(it.data[0], back) if isinstance(it.data[0], It) else None
            if s0 is None:
                return None
            w, rb0, rev = s0

            def rb(e, w2, s):
                i, x = rb0(e, w2, s)
                return It('peekable', i, None), x
            return w, rb, rev
        return None

    def state_same(self, ctx, cells, cells2, live, r, r2):
        """are the live values equal, the iterators r / r2 apart?"""
        seen = {}

        def same(a, b):
            if a is b:
                return True
            if isinstance(a, Ref) and isinstance(b, Ref):
                if a.path != b.path:
                    return False
                return same_cell(a.cell, b.cell)
            if type(a) is not type(b):
                if isinstance(a, (int, bool, z3.ExprRef)) and isinstance(b, (int, bool, z3.ExprRef)):
                    return same_num(a, b)
                return False
            if isinstance(a, (Str, Own)):
                x, y = ctx.norm(a.w), ctx.norm(b.w)
                return len(x) == len(y) and all(same_atom(p, q) for p, q in zip(x, y))
            if isinstance(a, Ch):
                return same_atom(a.a, b.a)
            if isinstance(a, (int, z3.ExprRef)):
                return same_num(a, b)
            if isinstance(a, Enum) and a.var != b.var:
                return False
            fa, fb = fields(a), fields(b)
            if fa is not None:
                return len(fa) == len(fb) and all(same(x, y) for x, y in zip(fa, fb))
            if isinstance(a, It):
                return a.kind == b.kind and len(a.data) == len(b.data) and all(same_d(x, y) for x, y in zip(a.data, b.data))
            if isinstance(a, FnPtr):
                return a.path == b.path
            return a == b

        def same_d(x, y):
            if isinstance(x, tuple) and isinstance(y, tuple):
                x, y = ctx.norm(x), ctx.norm(y)
                return len(x) == len(y) and all(same_atom(p, q) for p, q in zip(x, y))
            if isinstance(x, (Val, int, z3.ExprRef)):
                return same(x, y)
            return x == y

        def same_num(a, b):
            if isinstance(a, (int, bool)) and isinstance(b, (int, bool)):
                return a == b
            if z3.is_expr(a) and z3.is_expr(b) and a.eq(b):
                return True
            return ctx.branch(a == b)

        def same_cell(c, d):
            if c is d:
                return True
            if id(c) in seen:
                return seen[id(c)] is d
            seen[id(c)] = d
            if c is r.cell and d is r2.cell:
                if not r.path:
                    return True
                # compare everything except the iterator itself
                blank = UNIT
                return same(write_path(c.v, r.path, blank), write_path(d.v, r.path, blank))
            if c.v is None or d.v is None:
                return c.v is d.v
            return same(c.v, d.v)

        for l in live:
            c, d = cells.get(l), cells2.get(l)
            if c is None or c.v is None:
                continue
            if d is None or not same_cell(c, d):
                return False
        return True


def clone_cell(c, memo, d):
    if id(c) in memo:
        return memo[id(c)]
    n = Cell(None, d)
    memo[id(c)] = n
    memo[('keep', id(c))] = c
    n.v = clone_val(c.v, memo, d)
    return n


def clone_val(v, memo, d):
    if isinstance(v, Ref):
        return Ref(clone_cell(v.cell, memo, d), v.path)
    if isinstance(v, Struct):
        return Struct(v.name, [clone_val(x, memo, d) for x in v.fs])
    if isinstance(v, Enum):
        return Enum(v.name, v.var, [clone_val(x, memo, d) for x in v.fs])
    if isinstance(v, Closure):
        return Closure(v.span, [clone_val(x, memo, d) for x in v.caps])
    if isinstance(v, Arr):
        return Arr([clone_val(x, memo, d) for x in v.items], v.kind)
    if isinstance(v, It):
        return It(v.kind, *[clone_val(x, memo, d) if isinstance(x, Val) else x for x in v.data])
    return v

__all__ = [n for n in globals() if not n.startswith('__')]
