"""Assumed contracts of core / alloc / std, stated on the values of values.py."""
from exec import *
import json
import os

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'unicode.json')) as _f:
    UNI = {k: CharSet([tuple(x) for x in v]) for k, v in json.load(_f).items()}

A_DIGIT = cs((48, 57))
A_UPPER = cs((65, 90))
A_LOWER = cs((97, 122))
A_ALPHA = A_UPPER | A_LOWER
A_ALNUM = A_ALPHA | A_DIGIT
CHAR_CLASS = {
    'is_ascii': ASCII, 'is_ascii_digit': A_DIGIT, 'is_ascii_uppercase': A_UPPER, 'is_ascii_lowercase': A_LOWER,
    'is_ascii_alphabetic': A_ALPHA, 'is_ascii_alphanumeric': A_ALNUM,
    'is_ascii_hexdigit': A_DIGIT | cs((65, 70), (97, 102)),
    'is_ascii_punctuation': cs((33, 47), (58, 64), (91, 96), (123, 126)),
    'is_ascii_graphic': cs((33, 126)), 'is_ascii_whitespace': cs(9, 10, 12, 13, 32),
    'is_ascii_control': cs((0, 31), 127),
    'is_alphabetic': UNI['alphabetic'], 'is_numeric': UNI['numeric'],
    'is_alphanumeric': UNI['alphabetic'] | UNI['numeric'], 'is_whitespace': UNI['whitespace'],
    'is_control': UNI['control'], 'is_lowercase': UNI['lowercase'], 'is_uppercase': UNI['uppercase'],
}
WS = UNI['whitespace']


def _mk_class(name, setv):
    def f(ex, cal, c, *rest):
        c = unref(c)
        if isinstance(c, Ch):
            return setv.at(c.a)
        if isinstance(c, (int, z3.ArithRef)):
            return (setv & ASCII).at(c)
        if isinstance(c, (Str, Own)):
            return ex.ctx.all_chars(ex.word(c), setv)
        raise Unsupported(name)
    STD['char::' + name] = f
    STD['u8::' + name] = f


for _n, _s in CHAR_CLASS.items():
    _mk_class(_n, _s)
STD['str::is_ascii'] = STD['char::is_ascii']
STD['String::is_ascii'] = STD['char::is_ascii']


def opt(x):
    return NONE if x is None else some(x)


# ------------------------------------------------------------------ equality / order
def as_text(v):
    """the word a byte slice is the encoding of"""
    if isinstance(v, It) and v.kind == 'bytes_of':
        return v.data[0]
    if isinstance(v, Arr) and v.kind == 'bytes' and all(isinstance(x, int) and x < 0x80 for x in v.items):
        return tuple(v.items)
    return None


def text_eq(ex, a, b):
    """equality of two texts; texts of two Urls are equal exactly when the Urls are"""
    h = STD.get('text_eq')
    r = h(ex, a, b) if h else None
    return ex.ctx.word_eq(a, b) if r is None else r


def eq(ex, a, b):
    """Rust equality of two values (PartialEq::eq), forking as needed."""
    a, b = unref(a), unref(b)
    ctx = ex.ctx
    if isinstance(a, (Str, Own)) or isinstance(b, (Str, Own)):
        if isinstance(a, (Struct, Enum)) and not (a.name in ('Cow', 'Box')):
            k = '<%s as PartialEq<%s>>::eq' % (a.name, 'str' if isinstance(b, Str) else 'String')
            if k in ex.prog.by_key:
                return ctx.branch(ex.call(k, ex.mkref(a), b if isinstance(b, Str) else ex.mkref(b)))
        return text_eq(ex, ex.word(a), ex.word(b))
    wa, wb = as_text(a), as_text(b)
    if wa is not None and wb is not None:
        return text_eq(ex, wa, wb)
    if isinstance(a, Ch) and isinstance(b, Ch):
        return ctx.branch(_ceq(a.a, b.a))
    if isinstance(a, (bool, z3.BoolRef)) and isinstance(b, (bool, z3.BoolRef)):
        return ctx.branch((a == b) if isinstance(a, bool) and isinstance(b, bool) else zb(a) == zb(b))
    if isinstance(a, (int, z3.ArithRef)) and isinstance(b, (int, z3.ArithRef)):
        return ctx.branch(_eq(a, b))
    if isinstance(a, (Struct, Enum)):
        k = '<%s as PartialEq>::eq' % a.name
        if k in ex.prog.by_key:
            return ctx.branch(ex.call(k, ex.mkref(a), ex.mkref(b)))
    return seq(ex, a, b)


def seq(ex, a, b):
    """structural equality (used by specifications)"""
    a, b = unref(a), unref(b)
    ctx = ex.ctx
    if a is b:
        return True
    if isinstance(a, (Str, Own)) and isinstance(b, (Str, Own)):
        return text_eq(ex, a.w, b.w)
    if isinstance(a, Ch) and isinstance(b, Ch):
        return ctx.branch(_ceq(a.a, b.a))
    if isinstance(a, (bool, z3.BoolRef)) and isinstance(b, (bool, z3.BoolRef)):
        return ctx.branch((a == b) if isinstance(a, bool) and isinstance(b, bool) else zb(a) == zb(b))
    if isinstance(a, (int, z3.ArithRef)) and isinstance(b, (int, z3.ArithRef)):
        return ctx.branch(_eq(a, b))
    if isinstance(a, Struct) and isinstance(b, Struct):
        if a.name != b.name or len(a.fs) != len(b.fs):
            return False
        return all(seq(ex, x, y) for x, y in zip(a.fs, b.fs))
    if isinstance(a, Enum) and isinstance(b, Enum):
        if a.name != b.name or a.var != b.var:
            return False
        return all(seq(ex, x, y) for x, y in zip(a.fs, b.fs))
    if isinstance(a, Arr) and isinstance(b, Arr):
        return len(a.items) == len(b.items) and all(seq(ex, x, y) for x, y in zip(a.items, b.items))
    if isinstance(a, Opaque) and isinstance(b, Opaque):
        return a.ty == b.ty and a.key == b.key
    h = getattr(a, 'seq', None)
    if h:
        return h(ex, b)
    if isinstance(a, It) and isinstance(b, It):
        h = STD.get('seq_iter')
        r = h(ex, a, b) if h else None
        if r is not None:
            return r
        if a.kind != b.kind or len(a.data) != len(b.data):
            raise Unsupported('equality of iterators %r and %r' % (a, b))
        for x, y in zip(a.data, b.data):
            if isinstance(x, tuple) and isinstance(y, tuple):
                same = ctx.word_eq(x, y)
            elif isinstance(x, (Val, int, z3.ExprRef)):
                same = seq(ex, x, y)
            else:
                same = x == y
            if not same:
                if a.kind in ('mapiter', 'hasher'):
                    return False
                raise Unsupported('equality of iterators %r and %r' % (a, b))
        return True
    raise Unsupported('equality of %r and %r' % (a, b))


def rank(ex, w):
    """an uninterpreted strict order embedding of strings"""
    ctx = ex.ctx
    L = ctx.side.get('rank', ())
    w = ctx.norm(w)
    for w2, r in L:
        if ctx.norm(w2) == w:
            return r
    for w2, r in L:
        if ctx.word_eq(w2, w):
            return r
    r = z3.Real('rank!%d' % ctx.fresh_id())
    for w2, r2 in L:
        ctx.add(r != r2)
    ctx.side['rank'] = L + ((w, r),)
    return r


def str_cmp(ex, a, b):
    ctx = ex.ctx
    a, b = ctx.norm(a), ctx.norm(b)
    if all(isinstance(x, int) for x in a + b):
        return ordering((a > b) - (a < b))
    if a == b:
        return ordering(0)
    h = STD.get('text_cmp')
    r = h(ex, a, b) if h else None
    if r is not None:
        return r
    if ctx.word_eq(a, b):
        return ordering(0)
    ra, rb = rank(ex, a), rank(ex, b)
    return ordering(-1) if ctx.branch(ra < rb) else ordering(1)


def cmp(ex, a, b):
    a, b = unref(a), unref(b)
    if isinstance(a, (Struct, Enum)):
        k = '<%s as Ord>::cmp' % a.name
        if k in ex.prog.by_key:
            return ex.call(k, ex.mkref(a), ex.mkref(b))
    if isinstance(a, (Str, Own)):
        return str_cmp(ex, ex.word(a), ex.word(b))
    wa, wb = as_text(a), as_text(b)
    if wa is not None and wb is not None:
        return str_cmp(ex, wa, wb)          # UTF-8 preserves the order of scalar values
    if isinstance(a, Ch):
        return ex.cmp_int(cz(a.a), cz(b.a))
    if isinstance(a, (bool, z3.BoolRef)):
        return ex.cmp_int(z3.If(zb(a), 1, 0), z3.If(zb(b), 1, 0))
    if isinstance(a, (int, z3.ArithRef)):
        return ex.cmp_int(a, b)
    if isinstance(a, Enum):
        vs = ex.prog.enums[a.name]
        if a.var != b.var:
            i, j = vs.index(a.var), vs.index(b.var)
            return ordering((i > j) - (i < j))
        for x, y in zip(a.fs, b.fs):
            r = cmp(ex, x, y)
            if r.var != 'Equal':
                return r
        return ordering(0)
    if isinstance(a, (Struct, Arr)) and (not isinstance(a, Struct) or a.name == '()'):
        for x, y in zip(fields(a), fields(b)):
            r = cmp(ex, x, y)
            if r.var != 'Equal':
                return r
        n, m = len(fields(a)), len(fields(b))
        return ordering((n > m) - (n < m))
    h = getattr(a, 'cmp', None)
    if h:
        return h(ex, b)
    raise Unsupported('order of %r' % (a,))


@std('PartialEq::eq', 'str::eq', 'eq')
def _(ex, cal, a, b):
    return eq(ex, a, b)


@std('PartialEq::ne', 'ne')
def _(ex, cal, a, b):
    return not eq(ex, a, b)


@std('Ord::cmp', 'str::cmp', 'String::cmp')
def _(ex, cal, a, b):
    return cmp(ex, a, b)


def partial_cmp(ex, a, b):
    a, b = unref(a), unref(b)
    if isinstance(a, (Struct, Enum)):
        k = '<%s as PartialOrd>::partial_cmp' % a.name
        if k in ex.prog.by_key:
            return ex.call(k, ex.mkref(a), ex.mkref(b))
    if isinstance(a, Enum) and a.name == 'Option' or isinstance(a, (Struct, Arr)):
        if isinstance(a, Enum) and a.var == b.var == 'Some':
            return partial_cmp(ex, a.fs[0], b.fs[0])
        if isinstance(a, (Struct, Arr)):
            for x, y in zip(fields(a), fields(b)):
                r = partial_cmp(ex, x, y)
                if r.var == 'None' or r.fs[0].var != 'Equal':
                    return r
            n, m = len(fields(a)), len(fields(b))
            return some(ordering((n > m) - (n < m)))
    return some(cmp(ex, a, b))


@std('PartialOrd::partial_cmp')
def _(ex, cal, a, b):
    return partial_cmp(ex, a, b)


for _n, _vs in (('lt', ('Less',)), ('le', ('Less', 'Equal')), ('gt', ('Greater',)), ('ge', ('Greater', 'Equal'))):
    def _f(ex, cal, a, b, vs=_vs):
        r = partial_cmp(ex, a, b)
        return r.var == 'Some' and r.fs[0].var in vs
    STD['PartialOrd::' + _n] = _f


@std('Ord::max', 'Ord::min', 'max', 'min', 'cmp::max', 'cmp::min')
def _(ex, cal, a, b):
    r = cmp(ex, a, b)
    if cal.name == 'max':
        return a if r.var == 'Greater' else b
    return b if r.var == 'Greater' else a


@std('Ordering::then_with', 'Ordering::then')
def _(ex, cal, a, f):
    if a.var != 'Equal':
        return a
    return ex.callv(f, []) if cal.name == 'then_with' else f


@std('Ordering::reverse')
def _(ex, cal, a):
    return Enum('Ordering', {'Less': 'Greater', 'Greater': 'Less', 'Equal': 'Equal'}[a.var])


for _n, _vs in (('is_eq', ('Equal',)), ('is_ne', ('Less', 'Greater')), ('is_lt', ('Less',)), ('is_gt', ('Greater',)),
                ('is_le', ('Less', 'Equal')), ('is_ge', ('Greater', 'Equal'))):
    STD['Ordering::' + _n] = (lambda vs: (lambda ex, cal, a: a.var in vs))(_vs)


# ------------------------------------------------------------------ conversions, clone, refs
def clone(ex, v):
    v = unref(v)
    if isinstance(v, (Struct, Enum)):
        k = '<%s as Clone>::clone' % v.name
        if k in ex.prog.by_key:
            return ex.call(k, ex.mkref(v))
        if isinstance(v, Enum):
            return Enum(v.name, v.var, [x if isinstance(x, Ref) else clone(ex, x) for x in v.fs])
        return Struct(v.name, [x if isinstance(x, Ref) else clone(ex, x) for x in v.fs])
    return v


@std('Clone::clone')
def _(ex, cal, r):
    # clone of a reference copies the reference
    if cal.selfty and cal.selfty.startswith('&') and isinstance(r, Ref):
        return ex.load(r)
    return clone(ex, r)


@std('Option::cloned', 'Option::copied', 'Result::cloned', 'Result::copied')
def _(ex, cal, o):
    if o.var in ('Some', 'Ok'):
        return Enum(o.name, o.var, (clone(ex, o.fs[0]),))
    return o


@std('ToOwned::to_owned')
def _(ex, cal, v):
    x = unref(v)
    if isinstance(x, Str):
        return Own(x.w)
    return clone(ex, v)


def to_string(ex, v):
    v = unref(v)
    if isinstance(v, (Str, Own)):
        return Own(v.w)
    if isinstance(v, Ch):
        return Own((v.a,))
    buf = ex.new(Own(()))
    display(ex, v, Struct('Formatter', (Ref(buf), False, True)))
    return Own(buf.v.w)


@std('ToString::to_string')
def _(ex, cal, v):
    return to_string(ex, v)


@std('str::to_string', 'str::to_owned', 'str::into_string', 'String::from', 'String::as_string', 'str::into_boxed_str',
     'String::into_boxed_str', 'String::into_string')
def _(ex, cal, v):
    return Own(ex.word(v))


@std('String::as_str', 'Deref::deref', 'DerefMut::deref_mut', 'String::as_mut_str', 'Borrow::borrow', 'AsRef::as_ref',
     'AsMut::as_mut', 'String::deref', 'String::as_ref', 'BorrowMut::borrow_mut')
def _(ex, cal, v):
    x = unref(v)
    if isinstance(x, (Str, Own)):
        if 'bytes' in (cal.trait or '') or '[u8]' in (cal.trait or ''):
            return Arr_bytes(x.w)
        return Str(x.w)
    if isinstance(x, Enum) and x.name == 'Cow' and isinstance(x.fs[0], (Own, Str)):
        return Str(x.fs[0].w)
    if isinstance(x, Struct) and x.name == 'Box':
        r = ex.strip(v)
        return Ref(r.cell, r.path + (0,))
    if isinstance(x, Arr) or isinstance(x, It) and x.kind in ('wordvec', 'bytes_of'):
        return ex.strip(v)
    if isinstance(x, It) and x.kind == 'static' and cal.name == 'deref':
        return static_value(ex, x)
    if cal.trait and cal.trait.startswith('AsRef<str') or cal.trait and cal.trait.startswith('Borrow<str'):
        h = getattr(x, 'as_str', None)
        if h:
            return Str(h(ex))
    if cal.name in ('borrow', 'as_ref', 'as_mut', 'borrow_mut'):
        return ex.strip(v)
    raise Unsupported('%s of %r' % (cal.key, x))


def static_value(ex, x, init=None):
    """a static that is set once: the value of its initialiser, which has no arguments"""
    P = ex.prog
    if init is None:
        lazy = ex.eval_item(P.statics[x.data[0]])
        if not isinstance(lazy, It) or lazy.kind != 'lazy':
            raise Unsupported('static %r' % (lazy,))
        init = lazy.data[0]
    elif P.static_uses[x.data[0]] != 1:
        raise Unsupported('a OnceLock used in several places')
    if not (isinstance(init, FnPtr) or isinstance(init, Closure) and not init.caps):
        raise Unsupported('initialiser of a static')
    r = ex.callv(init, [])
    if not constant(r):
        raise Unsupported('value of a static')
    return ex.mkref(r)


def constant(v):
    if isinstance(v, (Str, Own)):
        return all(isinstance(a, int) for a in v.w)
    if isinstance(v, Ch):
        return isinstance(v.a, int)
    if isinstance(v, Ref):
        return constant(unref(v))
    if isinstance(v, (int, bool, FnPtr)):
        return True
    fs = fields(v)
    return fs is not None and all(constant(x) for x in fs)


@std('LazyLock::new')
def _(ex, cal, f):
    return It('lazy', f)


@std('LazyLock::force')
def _(ex, cal, v):
    return static_value(ex, unref(v))


@std('OnceLock::get_or_init')
def _(ex, cal, v, f):
    x = unref(v)
    if not isinstance(x, It) or x.kind != 'static':
        raise Unsupported('OnceLock')
    return static_value(ex, x, f)


def into(ex, v, target, srcty=None):
    """Into / From dispatch on the target type name"""
    x = unref(v)
    t = ex.type_of(x)
    tb = target.split('<')[0].strip() if target else None
    if tb is None:
        raise Unsupported('conversion without a target type')
    isref = isinstance(v, Ref) or isinstance(v, Str)
    for src in (('&' + t, t) if isref else (t, '&' + t)):
        k = '<%s as From<%s>>::from' % (tb, src)
        if k in ex.prog.by_key:
            return ex.call(k, v)
    if tb == 'String':
        if isinstance(x, (Str, Own)):
            return Own(x.w)
        if isinstance(x, Ch):
            return Own((x.a,))
        if isinstance(x, Enum) and x.name == 'Cow':
            return Own(ex.word(x))
        h = getattr(x, 'as_str', None)
        if h:
            return Own(h(ex))
    if tb == t:
        return v
    if isinstance(x, Ch) and tb in ('u32', 'u64', 'u128', 'i64'):
        return cz(x.a)
    if isinstance(x, (int, z3.ArithRef)) and not isinstance(x, bool) and t in INT_BITS and tb in INT_BITS \
            and INT_BITS[tb][0] <= INT_BITS[t][0] and INT_BITS[t][1] <= INT_BITS[tb][1]:
        return x
    if tb == 'char' and t == 'u8':
        return Ch(ch_atom(x))
    if tb in ('Box', 'Rc', 'Arc', 'Cow') and isinstance(x, (Str, Own)):
        return x
    if tb == 'Option':
        return some(v)
    raise Unsupported('conversion %s -> %s' % (t, target))


@std('Into::into')
def _(ex, cal, v):
    m = re.match(r'^Into<(.*)>$', cal.trait or '')
    return into(ex, v, m.group(1) if m else None)


@std('From::from')
def _(ex, cal, v):
    return into(ex, v, cal.selfty)


@std('TryInto::try_into')
def _(ex, cal, v):
    m = re.match(r'^TryInto<(.*)>$', cal.trait or '')
    return try_from(ex, m.group(1) if m else '', v)


def try_from(ex, target, v):
    x = unref(v)
    t = ex.type_of(x)
    tb = target.split('<')[0]
    for src in ('&' + t, t):
        k = '<%s as TryFrom<%s>>::try_from' % (tb, src)
        if k in ex.prog.by_key:
            return ex.call(k, v)
    return ok(into(ex, v, target))


@std('TryFrom::try_from')
def _(ex, cal, v):
    return try_from(ex, cal.selfty, v)


@std('str::parse')
def _(ex, cal, s):
    t = cal.generics[0].split('<')[0]
    return from_str(ex, t, s)


def from_str(ex, t, s):
    k = '<%s as FromStr>::from_str' % t
    if k in ex.prog.by_key:
        return ex.call(k, s)
    h = STD.get(t + '::from_str')
    if h:
        return h(ex, None, s)
    if t == 'String':
        return ok(Own(ex.word(s)))
    if t == 'char':
        h = ex.ctx.head(ex.word(s))
        if h is None:
            return err(Opaque('ParseCharError', ('parse-char', 'empty')))
        if not ex.ctx.branch(ex.ctx.is_empty(h[1])):
            return err(Opaque('ParseCharError', ('parse-char', 'many')))
        return ok(Ch(h[0]))
    raise Unsupported('parse into ' + t)


@std('FromStr::from_str')
def _(ex, cal, s):
    return from_str(ex, cal.selfty, s)


@std('mem::replace', 'replace')
def _(ex, cal, r, v):
    old = ex.load(r)
    ex.store(r, v)
    return old


@std('mem::take', 'take')
def _(ex, cal, r):
    old = ex.load(r)
    if isinstance(old, Own):
        ex.store(r, Own(()))
    elif isinstance(old, Enum) and old.name == 'Option':
        ex.store(r, NONE)
    elif isinstance(old, (int, z3.ArithRef)):
        ex.store(r, 0)
    else:
        ex.store(r, default_of(ex, ex.type_of(old)))
    return old


@std('mem::swap', 'swap')
def _(ex, cal, a, b):
    x, y = ex.load(a), ex.load(b)
    ex.store(a, y)
    ex.store(b, x)
    return UNIT


@std('mem::drop', 'drop', 'mem::forget', 'forget')
def _(ex, cal, a):
    return UNIT


@std('must_use', 'hint::must_use', 'black_box', 'identity', 'convert::identity', 'Box::new', 'Rc::new')
def _(ex, cal, a):
    return a


def default_of(ex, t):
    tb = t.split('<')[0]
    k = '<%s as Default>::default' % tb
    if k in ex.prog.by_key:
        return ex.call(k)
    if tb == 'String':
        return Own(())
    if tb in ('&str', 'str'):
        return Str(())
    if tb == 'bool':
        return False
    if tb in INT_BITS:
        return 0
    if tb == 'Option':
        return NONE
    if tb == 'Vec':
        return Arr((), 'vec')
    if t == '()':
        return UNIT
    h = STD.get(tb + '::default')
    if h:
        return h(ex, None)
    raise Unsupported('default of ' + t)


@std('Default::default')
def _(ex, cal):
    return default_of(ex, cal.selfty)


# ------------------------------------------------------------------ Option / Result
def arg1(ex, f, x):
    return ex.callv(f, [x])


@std('Option::map', 'Result::map')
def _(ex, cal, o, f):
    if o.var in ('Some', 'Ok'):
        return Enum(o.name, o.var, (arg1(ex, f, o.fs[0]),))
    return o


@std('Result::map_err')
def _(ex, cal, o, f):
    return err(arg1(ex, f, o.fs[0])) if o.var == 'Err' else o


@std('Option::and_then', 'Result::and_then')
def _(ex, cal, o, f):
    return arg1(ex, f, o.fs[0]) if o.var in ('Some', 'Ok') else o


@std('Option::and', 'Result::and')
def _(ex, cal, o, p):
    return p if o.var in ('Some', 'Ok') else o


@std('Option::or', 'Result::or')
def _(ex, cal, o, p):
    return o if o.var in ('Some', 'Ok') else p


@std('Option::xor')
def _(ex, cal, o, p):
    if o.var == 'Some' and p.var == 'None':
        return o
    return p if o.var == 'None' else NONE


@std('Option::or_else')
def _(ex, cal, o, f):
    return o if o.var == 'Some' else ex.callv(f, [])


@std('Result::or_else')
def _(ex, cal, o, f):
    return o if o.var == 'Ok' else arg1(ex, f, o.fs[0])


@std('Option::unwrap', 'Result::unwrap', 'Option::expect', 'Result::expect', 'Option::unwrap_unchecked')
def _(ex, cal, o, *msg):
    if o.var in ('Some', 'Ok'):
        return o.fs[0]
    raise RustPanic('%s on %s' % (cal.key, o.var))


@std('Result::unwrap_err', 'Result::expect_err')
def _(ex, cal, o, *msg):
    if o.var == 'Err':
        return o.fs[0]
    raise RustPanic('%s on Ok' % cal.key)


@std('Option::unwrap_or', 'Result::unwrap_or')
def _(ex, cal, o, d):
    return o.fs[0] if o.var in ('Some', 'Ok') else d


@std('Option::unwrap_or_else')
def _(ex, cal, o, f):
    return o.fs[0] if o.var == 'Some' else ex.callv(f, [])


@std('Result::unwrap_or_else')
def _(ex, cal, o, f):
    return o.fs[0] if o.var == 'Ok' else arg1(ex, f, o.fs[0])


@std('Option::unwrap_or_default', 'Result::unwrap_or_default')
def _(ex, cal, o):
    if o.var in ('Some', 'Ok'):
        return o.fs[0]
    return default_of(ex, (cal.generics or cal.owner_generics)[0])


@std('Option::map_or', 'Result::map_or')
def _(ex, cal, o, d, f):
    return arg1(ex, f, o.fs[0]) if o.var in ('Some', 'Ok') else d


@std('Option::map_or_else')
def _(ex, cal, o, d, f):
    return arg1(ex, f, o.fs[0]) if o.var == 'Some' else ex.callv(d, [])


@std('Result::map_or_else')
def _(ex, cal, o, d, f):
    return arg1(ex, f, o.fs[0]) if o.var == 'Ok' else arg1(ex, d, o.fs[0])


@std('Option::is_some', 'Result::is_ok', 'Option::is_none', 'Result::is_err')
def _(ex, cal, o):
    v = unref(o).var
    return v == {'is_some': 'Some', 'is_ok': 'Ok', 'is_none': 'None', 'is_err': 'Err'}[cal.name]


@std('Option::is_some_and', 'Result::is_ok_and')
def _(ex, cal, o, f):
    return arg1(ex, f, o.fs[0]) if o.var in ('Some', 'Ok') else False


@std('Option::is_none_or')
def _(ex, cal, o, f):
    return arg1(ex, f, o.fs[0]) if o.var == 'Some' else True


@std('Result::is_err_and')
def _(ex, cal, o, f):
    return arg1(ex, f, o.fs[0]) if o.var == 'Err' else False


@std('Option::filter')
def _(ex, cal, o, f):
    if o.var == 'None':
        return o
    return o if ex.ctx.branch(arg1(ex, f, ex.mkref(o.fs[0]))) else NONE


@std('Option::ok_or')
def _(ex, cal, o, e):
    return ok(o.fs[0]) if o.var == 'Some' else err(e)


@std('Option::ok_or_else')
def _(ex, cal, o, f):
    return ok(o.fs[0]) if o.var == 'Some' else err(ex.callv(f, []))


@std('Result::ok')
def _(ex, cal, o):
    return some(o.fs[0]) if o.var == 'Ok' else NONE


@std('Result::err')
def _(ex, cal, o):
    return some(o.fs[0]) if o.var == 'Err' else NONE


@std('Option::as_ref', 'Option::as_mut', 'Result::as_ref', 'Result::as_mut')
def _(ex, cal, r):
    r = ex.strip(r)
    o = ex.load(r)
    if o.fs:
        return Enum(o.name, o.var, (Ref(r.cell, r.path + (0,)),))
    return o


@std('Option::as_deref', 'Result::as_deref', 'Option::as_deref_mut')
def _(ex, cal, r):
    o = unref(r)
    if o.var in ('Some', 'Ok'):
        x = unref(o.fs[0])
        if isinstance(x, (Own, Str)):
            return Enum(o.name, o.var, (Str(x.w),))
        raise Unsupported('as_deref of %r' % (x,))
    return o


@std('Option::zip')
def _(ex, cal, a, b):
    return some(tup(a.fs[0], b.fs[0])) if a.var == b.var == 'Some' else NONE


@std('Option::flatten', 'Result::flatten')
def _(ex, cal, o):
    return o.fs[0] if o.var in ('Some', 'Ok') else o


@std('Option::transpose')
def _(ex, cal, o):
    if o.var == 'None':
        return ok(NONE)
    r = o.fs[0]
    return ok(some(r.fs[0])) if r.var == 'Ok' else r


@std('Result::transpose')
def _(ex, cal, o):
    if o.var == 'Err':
        return some(o)
    return some(ok(o.fs[0].fs[0])) if o.fs[0].var == 'Some' else NONE


@std('Option::take')
def _(ex, cal, r):
    o = ex.load(r)
    ex.store(r, NONE)
    return o


@std('Option::replace', 'Option::insert')
def _(ex, cal, r, v):
    o = ex.load(r)
    ex.store(r, some(v))
    if cal.name == 'insert':
        return Ref(r.cell, r.path + (0,))
    return o


@std('Option::get_or_insert_with', 'Option::get_or_insert')
def _(ex, cal, r, f):
    if ex.load(r).var == 'None':
        ex.store(r, some(ex.callv(f, []) if cal.name.endswith('with') else f))
    return Ref(r.cell, r.path + (0,))


@std('Option::inspect', 'Result::inspect')
def _(ex, cal, o, f):
    if o.var in ('Some', 'Ok'):
        arg1(ex, f, ex.mkref(o.fs[0]))
    return o


@std('Option::iter', 'Option::into_iter')
def _(ex, cal, o):
    o = unref(o)
    return It('list', tuple(o.fs), 0)


@std('Try::branch')
def _(ex, cal, o):
    if o.var in ('Ok', 'Some'):
        return Enum('ControlFlow', 'Continue', (o.fs[0],))
    return Enum('ControlFlow', 'Break', (Enum(o.name, o.var, o.fs),))


@std('FromResidual::from_residual')
def _(ex, cal, o):
    if o.name == 'Option':
        return o
    m = re.match(r'^Result<(.*)>$', cal.selfty or '')
    if m:
        p = mir.split_top(m.group(1))
        m2 = re.match(r'^FromResidual<Result<(.*)>>$', cal.trait or '')
        q = mir.split_top(m2.group(1)) if m2 else ()
        if len(q) == 2 and len(p) == 2 and q[1] == p[1]:
            return o
        if len(p) == 2:
            return err(into(ex, o.fs[0], mir.norm_type(p[1])) if not p[1].startswith('<') else o.fs[0])
        if cal.selfty.startswith('Result<'):
            return o
    return o


@std('Try::from_output')
def _(ex, cal, v):
    return ok(v) if (cal.selfty or '').startswith('Result') else some(v)


@std('bool::then')
def _(ex, cal, b, f):
    return some(ex.callv(f, [])) if ex.ctx.branch(b) else NONE


@std('bool::then_some')
def _(ex, cal, b, v):
    return some(v) if ex.ctx.branch(b) else NONE


@std('Not::not')
def _(ex, cal, b):
    return b_not(unref(b))


for _n in ('FnOnce::call_once', 'FnMut::call_mut', 'Fn::call'):
    STD[_n] = lambda ex, cal, f, t: ex.callv(f, list(t.fs))


# ------------------------------------------------------------------ panics
def _panic(ex, cal, *a):
    raise RustPanic(cal.key)


for _n in ('panic', 'panic_fmt', 'panicking::panic', 'panicking::panic_fmt', 'rt::panic_fmt', 'rt::begin_panic',
           'panicking::panic_explicit', 'begin_panic', 'panic_display', 'panicking::panic_display', 'unwrap_failed',
           'expect_failed', 'panicking::unreachable_display', 'panicking::assert_failed', 'assert_failed',
           'option::unwrap_failed', 'option::expect_failed', 'result::unwrap_failed', 'process::abort',
           'panicking::panic_nounwind', 'panic_const_div_by_zero', 'panicking::panic_bounds_check', 'unreachable_display',
           'panic_explicit'):
    STD[_n] = _panic


# ------------------------------------------------------------------ patterns
def const_pat(w):
    return w


def pattern(ex, p):
    """Pattern value -> ('set', predicate) | ('word', word)"""
    v = unref(p)
    if isinstance(v, Ch):
        return 'set', char_set(v.a)
    if isinstance(v, (Str, Own)):
        w = ex.ctx.norm(v.w)
        if len(w) == 1 and not isinstance(w[0], SV):
            return 'set', char_set(w[0])
        return 'word', w
    if isinstance(v, Arr):
        s = CharSet(())
        for c in v.items:
            c = unref(c)
            t = char_set(c.a)
            if not isinstance(t, CharSet):
                raise Unsupported('symbolic char pattern')
            s = s | t
        return 'set', s
    if isinstance(v, (Closure, FnPtr)):
        return 'set', ex.pred_of(p)
    raise Unsupported('pattern %r' % (v,))


_PV = z3.Int('pat!v')


def char_set(a):
    if isinstance(a, int):
        return CharSet([(a, a)])
    return OpenPred(_PV, _PV == a.z)


def strip_prefix(ex, w, p):
    """None or the rest"""
    ctx = ex.ctx
    kind, pv = pattern(ex, p)
    if kind == 'set':
        h = ctx.head(w)
        if h is None:
            return None
        return h[1] if ctx.char_sat(h[0], pv) else None
    return strip_prefix_word(ex, w, pv)


def strip_prefix_word(ex, w, pv):
    ctx = ex.ctx
    w, pv = ctx.norm(w), ctx.norm(pv)
    for _ in range(300):
        w, pv = ctx.norm(w), ctx.norm(pv)
        i = 0
        while i < len(w) and i < len(pv) and same_atom(w[i], pv[i]):
            i += 1
        w, pv = w[i:], pv[i:]
        if not pv:
            return w
        if isinstance(pv[0], SV):
            if ctx.sv_empty(pv[0]):
                continue
            if not w:
                return None
            if isinstance(w[0], SV) and ctx.sv_empty(w[0]):
                continue
            # is w == pv as a whole, or does it merely start the same?
            if ctx.branch(_lt(ctx.blen(w), ctx.blen(pv))):
                return None
            try:
                w, post = ctx.at_offset(w, ctx.blen(pv))
            except RustPanic:
                return None
            return ctx.norm(post) if ctx.word_eq(w, pv) else None
        h = ctx.head(w)
        if h is None:
            return None
        if not ctx.branch(_ceq(h[0], pv[0])):
            return None
        w, pv = h[1], pv[1:]
    raise Unsupported('prefix too long')


def strip_suffix(ex, w, p):
    ctx = ex.ctx
    kind, pv = pattern(ex, p)
    if kind == 'set':
        h = ctx.last(w)
        if h is None:
            return None
        return h[0] if ctx.char_sat(h[1], pv) else None
    for _ in range(300):
        w, pv = ctx.norm(w), ctx.norm(pv)
        while w and pv and same_atom(w[-1], pv[-1]):
            w, pv = w[:-1], pv[:-1]
        if not pv:
            return w
        if isinstance(pv[-1], SV):
            if ctx.sv_empty(pv[-1]):
                continue
            if not w:
                return None
            if isinstance(w[-1], SV) and ctx.sv_empty(w[-1]):
                continue
            if ctx.branch(_lt(ctx.blen(w), ctx.blen(pv))):
                return None
            try:
                pre, w = ctx.at_offset(w, _sub_(ctx.blen(w), ctx.blen(pv)))
            except RustPanic:
                return None
            return ctx.norm(pre) if ctx.word_eq(w, pv) else None
        h = ctx.last(w)
        if h is None:
            return None
        if not ctx.branch(_ceq(h[1], pv[-1])):
            return None
        w, pv = h[0], pv[:-1]
    raise Unsupported('suffix too long')


def find_split(ex, w, p, last=False):
    """(pre, matched word, post) at the first / last match of the pattern, or None"""
    ctx = ex.ctx
    kind, pv = pattern(ex, p)
    if kind == 'set':
        r = ctx.split_last(w, pv) if last else ctx.split_first(w, pv)
        return None if r is None else (r[0], (r[1],), r[2])
    if not pv:
        return ((), (), ctx.norm(w)) if not last else (ctx.norm(w), (), ())
    if all(isinstance(c, int) for c in pv):
        return find_word(ex, w, pv, last)
    raise Unsupported('search for a symbolic string')


def find_word(ex, w, pv, last):
    """search for a literal of several characters: walk over the occurrences of its first
    (last) character; unbounded occurrences exhaust the fuel and are unsupported"""
    ctx = ex.ctx
    if last:
        raise Unsupported('rfind of a multi-character literal')
    pre = ()
    w = ctx.norm(w)
    for _ in range(6):
        r = ctx.split_first(w, CharSet([(pv[0], pv[0])]))
        if r is None:
            return None
        pre = pre + r[0]
        rest = strip_prefix_word(ex, (r[1],) + r[2], pv)
        if rest is not None:
            return ctx.norm(pre), pv, rest
        pre = pre + (r[1],)
        w = ctx.norm(r[2])
    raise Unsupported('search for a multi-character literal')


# ------------------------------------------------------------------ str
def S(w):
    return Str(w)


@std('str::is_empty', 'String::is_empty')
def _(ex, cal, s):
    return ex.ctx.is_empty(ex.word(s))


@std('str::len', 'String::len')
def _(ex, cal, s):
    return ex.ctx.blen(ex.word(s))


@std('str::chars')
def _(ex, cal, s):
    return It('chars', ex.word(s))


@std('str::char_indices')
def _(ex, cal, s):
    w = ex.word(s)
    return It('char_indices', w, 0, None)


@std('str::starts_with', 'String::starts_with')
def _(ex, cal, s, p):
    return strip_prefix(ex, ex.word(s), p) is not None


@std('str::ends_with', 'String::ends_with')
def _(ex, cal, s, p):
    return strip_suffix(ex, ex.word(s), p) is not None


@std('str::strip_prefix')
def _(ex, cal, s, p):
    r = strip_prefix(ex, ex.word(s), p)
    return NONE if r is None else some(Str(r))


@std('str::strip_suffix')
def _(ex, cal, s, p):
    r = strip_suffix(ex, ex.word(s), p)
    return NONE if r is None else some(Str(r))


@std('str::contains', 'String::contains')
def _(ex, cal, s, p):
    return find_split(ex, ex.word(s), p) is not None


@std('str::find', 'str::rfind')
def _(ex, cal, s, p):
    r = find_split(ex, ex.word(s), p, cal.name == 'rfind')
    return NONE if r is None else some(ex.ctx.blen(r[0]))


@std('str::split_once', 'str::rsplit_once')
def _(ex, cal, s, p):
    r = find_split(ex, ex.word(s), p, cal.name == 'rsplit_once')
    return NONE if r is None else some(tup(Str(r[0]), Str(r[2])))


@std('str::split', 'str::rsplit', 'str::split_terminator', 'str::rsplit_terminator')
def _(ex, cal, s, p):
    w = ex.word(s)
    done = False
    if 'terminator' in cal.name:
        # split without an empty last piece
        if pattern(ex, p)[0] != 'set':
            raise Unsupported('split_terminator at a string')
        r = strip_suffix(ex, w, p)
        done = r is None and ex.ctx.branch(ex.ctx.is_empty(w))
        w = w if r is None else r
    k = It('split', w, p, done, None)
    return It('rev', k) if cal.name[0] == 'r' else k


@std('str::split_inclusive')
def _(ex, cal, s, p):
    return It('split_incl', ex.word(s), p, False)


@std('str::splitn', 'str::rsplitn')
def _(ex, cal, s, n, p):
    if not isinstance(n, int):
        raise Unsupported('splitn')
    return It(cal.name, ex.word(s), p, n)


@std('str::split_at')
def _(ex, cal, s, i):
    a, b = ex.ctx.at_offset(ex.word(s), i)
    return tup(Str(a), Str(b))


@std('str::split_at_checked')
def _(ex, cal, s, i):
    try:
        a, b = ex.ctx.at_offset(ex.word(s), i)
    except RustPanic:
        return NONE
    return some(tup(Str(a), Str(b)))


@std('str::is_char_boundary')
def _(ex, cal, s, i):
    try:
        ex.ctx.at_offset(ex.word(s), i)
        return True
    except RustPanic:
        return False


def trim_set(ex, w, p, start, end):
    ctx = ex.ctx
    np = p.neg()
    if start:
        r = ctx.split_first(w, np)
        if r is None:
            return ()
        w = (r[1],) + r[2]
    if end:
        r = ctx.split_last(w, np)
        if r is None:
            return ()
        w = r[0] + (r[1],)
    return ctx.norm(w)


@std('str::trim', 'str::trim_start', 'str::trim_end', 'str::trim_left', 'str::trim_right')
def _(ex, cal, s):
    return Str(trim_set(ex, ex.word(s), WS, cal.name in ('trim', 'trim_start', 'trim_left'),
                        cal.name in ('trim', 'trim_end', 'trim_right')))


@std('str::trim_ascii', 'str::trim_ascii_start', 'str::trim_ascii_end')
def _(ex, cal, s):
    return Str(trim_set(ex, ex.word(s), CHAR_CLASS['is_ascii_whitespace'], not cal.name.endswith('_end'),
                        not cal.name.endswith('_start')))


@std('str::trim_matches', 'str::trim_start_matches', 'str::trim_end_matches', 'str::trim_left_matches',
     'str::trim_right_matches')
def _(ex, cal, s, p):
    kind, pv = pattern(ex, p)
    if kind != 'set':
        raise Unsupported('trim_matches with a string')
    n = cal.name
    return Str(trim_set(ex, ex.word(s), pv, 'start' in n or 'left' in n or n == 'trim_matches',
                        'end' in n or 'right' in n or n == 'trim_matches'))


def slice_bounds(ex, r, w):
    """range value -> (pre, mid, post) words"""
    ctx = ex.ctx
    n = r.name
    if n == 'Range':
        lo, hi = r.fs
    elif n == 'RangeInclusive':
        lo, hi = r.fs[0], _add(r.fs[1], 1)
    elif n == 'RangeFrom':
        lo, hi = r.fs[0], None
    elif n == 'RangeTo':
        lo, hi = 0, r.fs[0]
    elif n == 'RangeToInclusive':
        lo, hi = 0, _add(r.fs[0], 1)
    elif n == 'RangeFull':
        lo, hi = 0, None
    else:
        raise Unsupported('index by ' + n)
    if hi is not None and not ctx.branch(_le(lo, hi)):
        raise RustPanic('slice start after end')
    post = ()
    if hi is not None:
        w, post = ctx.at_offset(w, hi)
    pre, mid = ctx.at_offset(w, lo)
    return pre, mid, post


@std('Index::index', 'SliceIndex::index', 'str::index', 'IndexMut::index_mut')
def _(ex, cal, s, r):
    x = unref(s)
    if isinstance(x, (Str, Own)):
        return Str(slice_bounds(ex, r, ex.word(x))[1])
    if isinstance(x, Arr):
        rr = ex.strip(s)
        if isinstance(r, (int, z3.ArithRef)):
            i = ex.concrete_index(r, x)
            if i >= len(x.items):
                raise RustPanic('index out of bounds')
            return Ref(rr.cell, rr.path + (i,)) if isinstance(rr, Ref) else ex.mkref(x.items[i])
        fs = [z if isinstance(z, int) else None for z in r.fs]
        if None in fs:
            raise Unsupported('symbolic slice of an array')
        n = len(x.items)
        lo, hi = {'Range': lambda: (fs[0], fs[1]), 'RangeFrom': lambda: (fs[0], n), 'RangeTo': lambda: (0, fs[0]),
                  'RangeFull': lambda: (0, n), 'RangeInclusive': lambda: (fs[0], fs[1] + 1),
                  'RangeToInclusive': lambda: (0, fs[0] + 1)}[r.name]()
        if lo > hi or hi > n:
            raise RustPanic('slice out of range')
        return ex.mkref(Arr(x.items[lo:hi], 'slice'))
    if isinstance(x, It) and x.kind in ('bytes_of', 'wordvec'):
        return seq_get(ex, x, r, True)
    h = getattr(x, 'index', None)
    if h:
        return h(ex, r)
    raise Unsupported('index of %r' % (x,))


@std('str::get', 'String::get')
def _(ex, cal, s, r):
    try:
        return some(Str(slice_bounds(ex, r, ex.word(s))[1]))
    except RustPanic:
        return NONE


@std('str::get_unchecked')
def _(ex, cal, s, r):
    return Str(slice_bounds(ex, r, ex.word(s))[1])


@std('RangeInclusive::new')
def _(ex, cal, a, b):
    return Struct('RangeInclusive', (a, b, False))


def num(v):
    v = unref(v)
    return cz(v.a) if isinstance(v, Ch) else v


@std('RangeInclusive::contains', 'Range::contains', 'RangeFrom::contains', 'RangeTo::contains', 'RangeToInclusive::contains',
     'RangeBounds::contains')
def _(ex, cal, r, x):
    r, x = unref(r), num(x)
    fs = [num(v) for v in r.fs[:2] if not isinstance(v, bool)]
    n = r.name
    if n == 'RangeInclusive':
        return b_and(_le(fs[0], x), _le(x, fs[1]))
    if n == 'Range':
        return b_and(_le(fs[0], x), _lt(x, fs[1]))
    if n == 'RangeFrom':
        return _le(fs[0], x)
    if n == 'RangeTo':
        return _lt(x, fs[0])
    if n == 'RangeToInclusive':
        return _le(x, fs[0])
    raise Unsupported('contains on ' + n)


@std('RangeInclusive::start', 'RangeInclusive::end')
def _(ex, cal, r):
    r = ex.strip(r)
    return Ref(r.cell, r.path + (0 if cal.name == 'start' else 1,))


@std('str::eq_ignore_ascii_case')
def _(ex, cal, a, b):
    return ex.ctx.word_eq(ascii_case(ex, ex.word(a), True), ascii_case(ex, ex.word(b), True))


def ascii_case(ex, w, lower):
    ctx = ex.ctx
    out = []
    src = A_UPPER if lower else A_LOWER
    d = 32 if lower else -32
    for a in ctx.norm(w):
        if isinstance(a, SV):
            if (ctx.sets[a.id] & src).empty():
                out.append(a)
                continue
            memo = ctx.side.get('case', ())
            hit = [m for m in memo if m[0] is a and m[1] == lower]
            if hit:
                out.append(hit[0][2])
                continue
            if ctx.all_chars((a,), src.neg()):
                out.extend(ctx.norm((a,)))
                continue
            # contains a cased character: the image is another string of the same length
            v = ctx.fresh_sv('case', src.neg())
            out.append(v)
            ctx.add(z3.And(v.bl == a.bl, v.cl == a.cl))
            n = ctx.norm((a,))
            ctx.diseqs.append((n, (v,)))
            ctx.side['case'] = memo + ((a, lower, v),)
        elif isinstance(a, int):
            out.append(a + d if src.has(a) else a)
        else:
            out.append(ch_atom(z3.If(src.at(a), a.z + d, a.z)))
    return tuple(out)


@std('str::to_ascii_lowercase', 'str::to_ascii_uppercase', 'String::to_ascii_lowercase')
def _(ex, cal, s):
    return Own(ascii_case(ex, ex.word(s), cal.name.endswith('lowercase')))


@std('str::to_lowercase', 'str::to_uppercase')
def _(ex, cal, s):
    w = ex.word(s)
    lower = cal.name == 'to_lowercase'
    if ex.ctx.all_chars(w, ASCII):
        return Own(ascii_case(ex, w, lower))
    fixed = UNI['lowercase'] | UNI['uppercase'] | UNI['titlecase'] | UNI['casemap']
    if ex.ctx.all_chars(w, fixed.neg()):
        return Own(w)
    # an arbitrary other string, the same for the same argument
    ctx = ex.ctx
    memo = ctx.side.get('ucase', ())
    w = ctx.norm(w)
    for a, l, v in memo:
        if l == lower and ctx.norm(a) == w:
            return Own(v)
    ctx.side['approx'] = True
    v = ctx.fresh_word('ucase')
    ctx.side['ucase'] = memo + ((w, lower, v),)
    return Own(v)


@std('str::make_ascii_lowercase', 'str::make_ascii_uppercase', 'String::make_ascii_lowercase')
def _(ex, cal, s):
    r = ex.strip(s)
    if not isinstance(r, Ref):
        raise Unsupported('make_ascii_case of a slice')
    ex.store(r, Own(ascii_case(ex, ex.word(r), cal.name.endswith('lowercase'))))
    return UNIT


@std('char::to_ascii_lowercase', 'char::to_ascii_uppercase')
def _(ex, cal, c):
    return Ch(ascii_case(ex, (unref(c).a,), cal.name.endswith('lowercase'))[0])


@std('char::eq_ignore_ascii_case')
def _(ex, cal, a, b):
    x = ascii_case(ex, (unref(a).a,), True)[0]
    y = ascii_case(ex, (unref(b).a,), True)[0]
    return _ceq(x, y)


@std('char::len_utf8')
def _(ex, cal, c):
    return u8len(unref(c).a)


@std('char::is_digit')
def _(ex, cal, c, radix):
    if radix == 10:
        return A_DIGIT.at(unref(c).a)
    if radix == 16:
        return CHAR_CLASS['is_ascii_hexdigit'].at(unref(c).a)
    raise Unsupported('is_digit')


@std('str::replace', 'str::replacen')
def _(ex, cal, s, p, to, *n):
    ctx = ex.ctx
    w = ex.word(s)
    tw = ex.word(to)
    kind, pv = pattern(ex, p)
    if kind == 'word':
        if len(pv) == 0:
            raise Unsupported('replace of the empty string')
    r = find_split(ex, w, p)
    if r is None:
        return Own(w)
    out = r[0] + tw
    rest = r[2]
    for _ in range(3):
        r = find_split(ex, rest, p) if not (n and n[0] == 1) else None
        if r is None:
            return Own(ctx.norm(out + rest))
        out = out + r[0] + tw
        rest = r[2]
    raise Unsupported('replace of many occurrences')


@std('str::matches', 'str::rmatches', 'str::match_indices', 'str::rmatch_indices')
def _(ex, cal, s, p):
    if cal.name.endswith('indices'):
        k = It('match_indices', ex.word(s), p, 0)
        return It('rev', k) if cal.name[0] == 'r' else k
    return It('matches', ex.word(s), p, cal.name)


@std('str::repeat')
def _(ex, cal, s, n):
    if isinstance(n, int):
        return Own(ex.word(s) * n)
    raise Unsupported('repeat')


@std('str::as_bytes', 'String::as_bytes', 'str::bytes', 'String::into_bytes')
def _(ex, cal, s):
    return It('bytes_of', ex.word(s))


Arr_bytes = lambda w: It('bytes_of', w)


def byte_of_head(ex, h, last=False):
    """first (or last) byte of the UTF-8 encoding of a character"""
    c = h
    if isinstance(c, int):
        b = chr(c).encode()
        return b[-1] if last else b[0]
    if ex.ctx.branch(c.z < 0x80):
        return c.z
    if last:
        return 0x80 + c.z % 64
    if ex.ctx.branch(c.z < 0x800):
        return 0xC0 + c.z / 64
    if ex.ctx.branch(c.z < 0x10000):
        return 0xE0 + c.z / 4096
    return 0xF0 + c.z / 262144


def utf8_bytes(ex, c):
    """the UTF-8 encoding of a character"""
    if isinstance(c, int):
        return tuple(chr(c).encode())
    z, br = c.z, ex.ctx.branch
    if br(z < 0x80):
        return (z,)
    k = lambda q: 0x80 + z / q % 64 if q > 1 else 0x80 + z % 64
    if br(z < 0x800):
        return 0xC0 + z / 64, k(1)
    if br(z < 0x10000):
        return 0xE0 + z / 4096, k(64), k(1)
    return 0xF0 + z / 262144, k(4096), k(64), k(1)


def byte_at(ex, w, i, must):
    """the i-th byte; None (or a panic) when out of range"""
    ctx = ex.ctx
    if not isinstance(i, int):
        # at the boundary of a known part?
        pos, v = 0, ctx.norm(w)
        for j in range(len(v) + 1):
            if ctx.entails(_eq(i, pos)):
                h = ctx.head(v[j:])
                if h is not None:
                    return byte_of_head(ex, h[0])
                if must:
                    raise RustPanic('index out of bounds')
                return None
            if j < len(v):
                n = ctx.blen((v[j],))
                if not isinstance(v[j], SV) and not ctx.entails(_le(n, 1)) \
                        and ctx.entails(_le(_add(pos, 1), i)) and ctx.entails(_lt(i, _add(pos, n))):
                    b = utf8_bytes(ex, v[j])
                    for m in range(1, len(b)):
                        if ctx.branch(_eq(i, _add(pos, m))):
                            return b[m]
                    raise Infeasible()
                pos = _add(pos, n)
    if isinstance(i, int):
        pos = 0
        while True:
            h = ctx.head(w)
            if h is None:
                if must:
                    raise RustPanic('index out of bounds')
                return None
            n = u8len(h[0])
            if pos == i:
                return byte_of_head(ex, h[0])
            if not isinstance(n, int):
                for m in (1, 2, 3, 4):
                    if ctx.branch(n == m):
                        n = m
                        break
                else:
                    raise Infeasible()
            if pos + n > i:
                return utf8_bytes(ex, h[0])[i - pos]
            pos += n
            w = h[1]
    # counted from the end
    for k in (1, 2, 3):
        if ctx.entails(_eq(i, _sub_(ctx.blen(w), k))):
            for j in range(k):
                h = ctx.last(w)
                if h is None:
                    if must:
                        raise RustPanic('index out of bounds')
                    return None
                if j < k - 1:
                    n = u8len(h[1])
                    if not (n == 1 if isinstance(n, int) else ctx.branch(n == 1)):
                        raise Unsupported('byte index into multi-byte text')
                    w = h[0]
            return byte_of_head(ex, h[1], True)
    raise Unsupported('symbolic byte index')


STD['byte_at'] = byte_at


# slices of characters (`Vec<char>`) and of bytes of a text
def cv_at(ex, w, i, panic):
    """the i-th character (from the end when negative)"""
    ctx = ex.ctx
    if isinstance(i, int) and i < 0:
        for _ in range(-i):
            h = ctx.last(w)
            if h is None:
                if panic:
                    raise RustPanic('index out of bounds')
                return None
            w, c = h
        return Ch(c)
    h = ctx.head(ctx.at_char(w, i)[1])
    if h is None:
        if panic:
            raise RustPanic('index out of bounds')
        return None
    return Ch(h[0])


STD['cv_at'] = cv_at


def at_byte(ex, w, i):
    try:
        return ex.ctx.at_offset(w, i)
    except RustPanic:
        if isinstance(i, int) and i == 0 or ex.ctx.branch(_le(i, ex.ctx.blen(w))):
            raise Unsupported('bytes inside a character')
        raise


def seq_split(ex, x, i):
    """split at position i; RustPanic when past the end"""
    w = x.data[0]
    if x.kind == 'bytes_of':
        a, b = at_byte(ex, w, i)
    else:
        if not ex.ctx.branch(_le(i, ex.ctx.clen(w))):
            raise RustPanic('slice out of range')
        a, b = ex.ctx.at_char(w, i)
    return It(x.kind, a), It(x.kind, b)


def seq_len(ex, x):
    return ex.ctx.blen(x.data[0]) if x.kind == 'bytes_of' else ex.ctx.clen(x.data[0])


def seq_get(ex, x, i, panic):
    """slice or element of a byte or character slice"""
    if not isinstance(i, Struct):
        return (byte_at if x.kind == 'bytes_of' else cv_at)(ex, x.data[0], i, panic)
    n = i.name
    lo, hi = {'Range': lambda f: (f[0], f[1]), 'RangeInclusive': lambda f: (f[0], _add(f[1], 1)),
              'RangeFrom': lambda f: (f[0], None), 'RangeTo': lambda f: (0, f[0]),
              'RangeToInclusive': lambda f: (0, _add(f[0], 1)), 'RangeFull': lambda f: (0, None)}[n](i.fs)
    try:
        if hi is not None:
            if not ex.ctx.branch(_le(lo, hi)):
                raise RustPanic('slice start after end')
            x = seq_split(ex, x, hi)[0]
        return seq_split(ex, x, lo)[1]
    except RustPanic:
        if panic:
            raise
        return None


def subslice(ex, v, lo, hi):
    """the `rest @ ..` of a slice pattern (its length has been tested)"""
    if isinstance(v, Arr):
        return Arr(v.items[lo:len(v.items) + hi if hi <= 0 else hi], 'slice')
    if isinstance(v, It) and v.kind in ('bytes_of', 'wordvec'):
        if hi > 0:
            raise Unsupported('subslice')
        w = v.data[0]
        for _ in range(-hi):
            h = ex.ctx.last(w)
            if h is None:
                raise Infeasible()
            if v.kind == 'bytes_of' and not ex.ctx.entails(_le(u8len(h[1]), 1)):
                raise Unsupported('bytes inside a character')
            w = h[0]
        for _ in range(lo):
            h = ex.ctx.head(w)
            if h is None:
                raise Infeasible()
            if v.kind == 'bytes_of' and not ex.ctx.entails(_le(u8len(h[0]), 1)):
                raise Unsupported('bytes inside a character')
            w = h[1]
        return It(v.kind, w)
    raise Unsupported('subslice of %r' % (v,))


STD['subslice'] = subslice


@std('slice::split_first', '[T]::split_first', '[u8]::split_first', 'slice::split_last', '[T]::split_last', '[u8]::split_last')
def _(ex, cal, s):
    x = unref(s)
    front = cal.name == 'split_first'
    if isinstance(x, Arr):
        if not x.items:
            return NONE
        return some(tup(ex.mkref(x.items[0 if front else -1]), ex.mkref(Arr(x.items[1:] if front else x.items[:-1], 'slice'))))
    if isinstance(x, It) and x.kind in ('bytes_of', 'wordvec'):
        h = ex.ctx.head(x.data[0]) if front else ex.ctx.last(x.data[0])
        if h is None:
            return NONE
        c, w = h if front else h[::-1]
        if x.kind == 'bytes_of' and not ex.ctx.branch(_le(u8len(c), 1)):
            raise Unsupported('bytes inside a character')
        return some(tup(ex.mkref(Ch(c) if x.kind == 'wordvec' else c), ex.mkref(It(x.kind, w))))
    raise Unsupported(cal.key)


@std('slice::split_at', '[T]::split_at', '[u8]::split_at')
def _(ex, cal, s, i):
    x = unref(s)
    if isinstance(x, Arr) and isinstance(i, int):
        if i > len(x.items):
            raise RustPanic('mid > len')
        return tup(ex.mkref(Arr(x.items[:i], 'slice')), ex.mkref(Arr(x.items[i:], 'slice')))
    if isinstance(x, It) and x.kind in ('bytes_of', 'wordvec'):
        a, b = seq_split(ex, x, i)
        return tup(ex.mkref(a), ex.mkref(b))
    raise Unsupported(cal.key)


@std('slice::first', '[u8]::first', '[T]::first', 'slice::last', '[u8]::last', '[T]::last')
def _(ex, cal, s):
    x = unref(s)
    if isinstance(x, It) and x.kind == 'bytes_of':
        h = ex.ctx.head(x.data[0]) if cal.name == 'first' else ex.ctx.last(x.data[0])
        if h is None:
            return NONE
        return some(ex.mkref(byte_of_head(ex, h[0] if cal.name == 'first' else h[1], cal.name == 'last')))
    if isinstance(x, It) and x.kind == 'wordvec':
        c = cv_at(ex, x.data[0], 0 if cal.name == 'first' else -1, False)
        return NONE if c is None else some(ex.mkref(c))
    if isinstance(x, Arr):
        if not x.items:
            return NONE
        r = ex.strip(s)
        i = 0 if cal.name == 'first' else len(x.items) - 1
        return some(Ref(r.cell, r.path + (i,)))
    raise Unsupported(cal.key)


@std('slice::len', '[u8]::len', '[T]::len', 'slice::is_empty', '[T]::is_empty', '[u8]::is_empty', 'Vec::len', 'Vec::is_empty')
def _(ex, cal, s):
    x = unref(s)
    if isinstance(x, It) and x.kind == 'bytes_of':
        return ex.ctx.blen(x.data[0]) if cal.name == 'len' else ex.ctx.is_empty(x.data[0])
    if isinstance(x, It) and x.kind == 'wordvec':
        return ex.ctx.clen(x.data[0]) if cal.name == 'len' else ex.ctx.is_empty(x.data[0])
    n = len(x.items)
    return n if cal.name == 'len' else n == 0


@std('slice::iter', '[T]::iter', 'Vec::iter', '[u8]::iter', 'slice::into_iter')
def _(ex, cal, s):
    x = unref(s)
    if isinstance(x, It) and x.kind == 'bytes_of':
        return It('refs', It('bytes', x.data[0]))
    if isinstance(x, It) and x.kind == 'wordvec':
        return It('refs', It('chars', x.data[0]))
    r = ex.strip(s)
    if not isinstance(r, Ref):
        r = ex.mkref(x)
    return It('list', tuple(Ref(r.cell, r.path + (i,)) for i in range(len(x.items))), 0)


@std('slice::binary_search_by', '[T]::binary_search_by', 'slice::partition_point', '[T]::partition_point',
     'slice::binary_search_by_key', '[T]::binary_search_by_key', 'slice::binary_search', '[T]::binary_search')
def _(ex, cal, s, *a):
    """on a table of known length, the verdicts on whose items must be in order (what core does
    otherwise is not specified)"""
    x = unref(s)
    if not isinstance(x, Arr):
        raise Unsupported(cal.key)
    r = ex.strip(s)
    items = [Ref(r.cell, r.path + (i,)) if isinstance(r, Ref) else ex.mkref(v) for i, v in enumerate(x.items)]
    if cal.name == 'partition_point':
        v = [ex.ctx.branch(ex.callv(a[0], [i])) for i in items]
        if v != sorted(v, reverse=True):
            raise Unsupported('table not partitioned')
        return sum(v)
    if cal.name == 'binary_search_by':
        v = [ex.callv(a[0], [i]) for i in items]
    elif cal.name == 'binary_search':
        v = [cmp(ex, i, a[0]) for i in items]
    else:
        v = [cmp(ex, ex.callv(a[1], [i]), a[0]) for i in items]
    v = ['LEG'.index(unref(o).var[0]) for o in v]
    if v != sorted(v):
        raise Unsupported('table not in order')
    if v.count(1) > 1:
        raise Unsupported('several equal items')
    return ok(v.index(1)) if 1 in v else err(v.count(0))


def byte_word(v):
    """the text of ASCII bytes, or None"""
    x = unref(v)
    if isinstance(x, It) and x.kind == 'bytes_of':
        return x.data[0]
    if isinstance(x, Arr):
        xs = [unref(i) for i in x.items]
        if all(isinstance(i, int) and i < 128 for i in xs):
            return tuple(xs)
    return None


@std('[u8]::starts_with', '[u8]::ends_with', '[u8]::strip_prefix', '[u8]::strip_suffix')
def _(ex, cal, s, v):
    x, p = unref(s), byte_word(v)
    if not (isinstance(x, It) and x.kind == 'bytes_of') or p is None:
        raise Unsupported(cal.key)
    if 'start' in cal.name or 'prefix' in cal.name:
        r = strip_prefix_word(ex, x.data[0], p)
    elif len(p) == 0:
        r = x.data[0]
    else:
        r = strip_suffix(ex, x.data[0], Str(p))
    if cal.name.endswith('with'):
        return r is not None
    return NONE if r is None else some(ex.mkref(It('bytes_of', r)))


@std('Iterator::rposition')
def _(ex, cal, r, f):
    rr = ex.strip(r)
    it = normalise(ex, as_iter(ex, rr))
    h = char_hit(ex, It('rev', it), f, ident) if over_bytes(stages(ex, It('rev', it))[0]) else 'no'
    if h == 'no':
        raise Unsupported('rposition over ' + it.kind)
    if isinstance(rr, Ref):
        ex.store(rr, It('unknown'))
    if h is None:
        return NONE
    (pre, c, post), rev, p = h
    if not rev or not (isinstance(c, int) and c < 128 or not isinstance(c, int) and ex.ctx.entails(c.z < 0x80)):
        raise Unsupported('rposition')
    return some(ex.ctx.blen(pre))


@std('Cow::into_owned', 'Cow::to_mut')
def _(ex, cal, v):
    x = unref(v)
    if cal.name == 'into_owned' and isinstance(x, Enum) and isinstance(unref(x.fs[0]), (Str, Own)):
        return Own(unref(x.fs[0]).w)
    raise Unsupported(cal.key)


@std('slice::contains', '[T]::contains')
def _(ex, cal, s, v):
    x = unref(s)
    c = unref(v)
    if isinstance(x, Arr) and isinstance(c, Ch):
        return b_or(*[_ceq(unref(i).a, c.a) for i in x.items])
    if isinstance(x, Arr):
        return any(eq(ex, i, v) for i in x.items)
    if isinstance(x, It) and x.kind == 'wordvec' and isinstance(c, Ch):
        return find_split(ex, x.data[0], c) is not None
    if isinstance(x, It) and x.kind == 'bytes_of' and isinstance(c, int) and c < 128:
        return find_split(ex, x.data[0], Ch(c)) is not None
    raise Unsupported('slice contains')


@std('slice::concat', '[T]::concat', 'slice::join', '[T]::join')
def _(ex, cal, s, *sep):
    out = ()
    items = unref(s).items
    for i, x in enumerate(items):
        if i and sep:
            out += ex.word(sep[0]) if not isinstance(unref(sep[0]), Ch) else (unref(sep[0]).a,)
        out += ex.word(x)
    return Own(out)


@std('Box::new_uninit')
def _(ex, cal):
    return Struct('Box', [Struct('MaybeUninit', [UNIT, Struct('ManuallyDrop', [Struct('MaybeDangling', [UNIT])])])])


@std('boxed::box_assume_init_into_vec_unsafe', 'box_assume_init_into_vec_unsafe')
def _(ex, cal, b):
    x = unref(b).fs[0].fs[1].fs[0].fs[0]
    if not isinstance(x, Arr):
        raise Unsupported('vec!')
    return Arr(x.items, 'vec')


@std('Vec::new', 'Vec::with_capacity')
def _(ex, cal, *a):
    return Arr((), 'vec')


@std('Vec::clear')
def _(ex, cal, r):
    x = ex.load(ex.strip(r))
    if not isinstance(x, Arr):
        raise Unsupported('clear of %r' % (x,))
    ex.store(ex.strip(r), Arr((), 'vec'))
    return UNIT


@std('Vec::retain')
def _(ex, cal, r, f):
    r = ex.strip(r)
    x = ex.load(r)
    if not isinstance(x, Arr):
        raise Unsupported('retain in %r' % (x,))
    ex.store(r, Arr([i for i in x.items if ex.ctx.branch(ex.callv(f, [ex.mkref(i)]))], 'vec'))
    return UNIT


@std('slice::map', 'array::map')
def _(ex, cal, x, f):
    if not isinstance(x, Arr):
        raise Unsupported(cal.key)
    return Arr([ex.callv(f, [i]) for i in x.items], x.kind)


@std('slice::windows', '[T]::windows')
def _(ex, cal, s, n):
    r = ex.strip(s)
    x = unref(s)
    if not isinstance(x, Arr) or not isinstance(n, int):
        raise Unsupported('windows')
    return It('list', tuple(ex.mkref(Arr(x.items[i:i + n], 'slice')) for i in range(len(x.items) - n + 1)), 0)


@std('Cell::new', 'RefCell::new')
def _(ex, cal, v):
    return Struct(cal.owner, [v])


@std('Cell::get')
def _(ex, cal, r):
    return unref(r).fs[0]


@std('Cell::set', 'Cell::replace', 'RefCell::replace')
def _(ex, cal, r, v):
    r = ex.strip(r)
    old = ex.load(r).fs[0]
    ex.store(Ref(r.cell, r.path + (0,)), v)
    return UNIT if cal.name == 'set' else old


@std('Cell::into_inner', 'RefCell::into_inner')
def _(ex, cal, v):
    return v.fs[0]


@std('Vec::push')
def _(ex, cal, r, v):
    x = ex.load(r)
    ex.store(r, Arr(x.items + (v,), 'vec'))
    return UNIT


@std('Vec::pop')
def _(ex, cal, r):
    x = ex.load(r)
    if not x.items:
        return NONE
    ex.store(r, Arr(x.items[:-1], 'vec'))
    return some(x.items[-1])


@std('slice::get', '[T]::get', 'Vec::get', '[u8]::get')
def _(ex, cal, s, i):
    x = unref(s)
    if isinstance(x, It) and x.kind in ('bytes_of', 'wordvec'):
        v = seq_get(ex, x, i, False)
        return NONE if v is None else some(ex.mkref(v))
    r = ex.strip(s)
    if not isinstance(i, int):
        raise Unsupported('symbolic index')
    return some(Ref(r.cell, r.path + (i,))) if i < len(x.items) else NONE


@std('Vec::as_slice', 'Vec::deref')
def _(ex, cal, s):
    return ex.strip(s)


# ------------------------------------------------------------------ String
@std('String::new', 'String::with_capacity')
def _(ex, cal, *a):
    return Own(())


@std('String::reserve', 'String::shrink_to_fit', 'String::reserve_exact')
def _(ex, cal, *a):
    return UNIT


@std('String::capacity')
def _(ex, cal, s):
    return ex.ctx.fresh_int('cap', 0, 2 ** 63 - 1)


@std('String::push')
def _(ex, cal, r, c):
    ex.store(r, Own(ex.word(r) + (c.a,)))
    return UNIT


@std('String::push_str')
def _(ex, cal, r, s):
    ex.store(r, Own(ex.word(r) + ex.word(s)))
    return UNIT


@std('String::pop')
def _(ex, cal, r):
    h = ex.ctx.last(ex.word(r))
    if h is None:
        return NONE
    ex.store(r, Own(h[0]))
    return some(Ch(h[1]))


@std('String::remove')
def _(ex, cal, r, i):
    a, b = ex.ctx.at_offset(ex.word(r), i)
    h = ex.ctx.head(b)
    if h is None:
        raise RustPanic('String::remove out of range')
    ex.store(r, Own(a + h[1]))
    return Ch(h[0])


@std('String::clear')
def _(ex, cal, r):
    ex.store(r, Own(()))
    return UNIT


@std('String::truncate')
def _(ex, cal, r, n):
    w = ex.word(r)
    if ex.ctx.branch(_le(n, ex.ctx.blen(w))):
        ex.store(r, Own(ex.ctx.at_offset(w, n)[0]))
    return UNIT


@std('String::insert', 'String::insert_str')
def _(ex, cal, r, i, s):
    a, b = ex.ctx.at_offset(ex.word(r), i)
    m = (s.a,) if isinstance(s, Ch) else ex.word(s)
    ex.store(r, Own(a + m + b))
    return UNIT


@std('String::drain', 'String::split_off')
def _(ex, cal, r, rng):
    w = ex.word(r)
    if cal.name == 'split_off':
        a, b = ex.ctx.at_offset(w, rng)
        ex.store(r, Own(a))
        return Own(b)
    pre, mid, post = slice_bounds(ex, rng, w)
    ex.store(r, Own(pre + post))
    return It('chars', mid)


@std('String::retain')
def _(ex, cal, r, f):
    raise Unsupported('String::retain')


@std('Add::add')
def _(ex, cal, a, b):
    if isinstance(a, Own):
        return Own(a.w + ex.word(b))
    a, b = unref(a), unref(b)
    return _checked(ex, 'Add', a, b, cal)


@std('Sub::sub')
def _(ex, cal, a, b):
    return _checked(ex, 'Sub', unref(a), unref(b), cal)


@std('Mul::mul')
def _(ex, cal, a, b):
    return _checked(ex, 'Mul', unref(a), unref(b), cal)


@std('BitAnd::bitand', 'BitOr::bitor', 'BitXor::bitxor')
def _(ex, cal, a, b):
    return ex.binop({'bitand': 'BitAnd', 'bitor': 'BitOr', 'bitxor': 'BitXor'}[cal.name], unref(a), unref(b), None)


def int_type(cal):
    t = re.sub(r'^[&\s]+', '', cal.selfty or '')
    if t not in INT_BITS:
        raise Unsupported('arithmetic on ' + (cal.selfty or '?'))
    return t


def _checked(ex, op, a, b, cal):
    t = ex.binop(op + 'WithOverflow', a, b, '(%s, bool)' % int_type(cal))
    if ex.ctx.branch(t.fs[1]):
        raise RustPanic('arithmetic overflow')
    return t.fs[0]


@std('AddAssign::add_assign')
def _(ex, cal, r, b):
    v = ex.load(r)
    if isinstance(v, Own):
        ex.store(r, Own(v.w + ex.word(b)))
    else:
        ex.store(r, _checked(ex, 'Add', v, unref(b)))
    return UNIT


for _t in ('usize', 'u32', 'u8', 'u64', 'i32'):
    def _f(ex, cal, a, b):
        d = _sub_(a, b) if cal.name.endswith('_sub') else _add(a, b)
        lo, hi = INT_BITS[cal.owner]
        okc = (lo <= d <= hi) if isinstance(d, int) else z3.And(d >= lo, d <= hi)
        if cal.name.startswith('checked'):
            return some(d) if ex.ctx.branch(okc) else NONE
        if cal.name.startswith('saturating'):
            return d if ex.ctx.branch(okc) else (lo if cal.name.endswith('_sub') else hi)
        if cal.name.startswith('wrapping'):
            return d if ex.ctx.branch(okc) else (d + (hi - lo + 1) if cal.name.endswith('_sub') else d - (hi - lo + 1))
    for _n in ('checked_sub', 'checked_add', 'saturating_sub', 'saturating_add', 'wrapping_sub', 'wrapping_add'):
        STD[_t + '::' + _n] = _f


# ------------------------------------------------------------------ iterators
def it_next(ex, it, back=False):
    """-> (item or None, iterator')"""
    ctx = ex.ctx
    k = it.kind
    if k == 'chars':
        w = it.data[0]
        h = ctx.last(w) if back else ctx.head(w)
        if h is None:
            return None, It('chars', ())
        return (Ch(h[1]), It('chars', h[0])) if back else (Ch(h[0]), It('chars', h[1]))
    if k == 'char_indices':
        w, off, tot = it.data
        h = ctx.last(w) if back else ctx.head(w)
        if h is None:
            return None, it
        if back:
            return tup(_add(off, ctx.blen(h[0])), Ch(h[1])), It('char_indices', h[0], off, tot)
        return tup(off, Ch(h[0])), It('char_indices', h[1], _add(off, u8len(h[0])), tot)
    if k in ('bytes', 'bytes_of', 'bytesp'):
        # 'bytesp': in the middle of a multi-byte character at either end
        fr, w, bk = it.data if k == 'bytesp' else ((), it.data[0], ())
        mid = lambda f, w, b: It('bytesp', f, w, b) if f or b else It('bytes', w)
        if back and bk:
            return bk[-1], mid(fr, w, bk[:-1])
        if not back and fr:
            return fr[0], mid(fr[1:], w, bk)
        h = ctx.last(w) if back else ctx.head(w)
        if h is None:
            if back and fr:
                return fr[-1], mid(fr[:-1], (), ())
            if not back and bk:
                return bk[0], mid((), (), bk[1:])
            return None, It('bytes', ())
        c, r = (h[1], h[0]) if back else (h[0], h[1])
        b = utf8_bytes(ex, c)
        if back:
            return b[-1], mid(fr, r, b[:-1])
        return b[0], mid(b[1:], r, bk)
    if k == 'user' and not back:
        r = ex.mkref(it.data[0])
        x = ex.call('<%s as Iterator>::next' % it.data[0].name, r)
        return x.fs[0] if x.var == 'Some' else None, It(k, ex.load(r))
    if k == 'range':
        lo, hi = it.data
        if not ctx.branch(_lt(lo, hi)):
            return None, it
        return (_sub_(hi, 1), It(k, lo, _sub_(hi, 1))) if back else (lo, It(k, _add(lo, 1), hi))
    if k == 'rev':
        x, i = it_next(ex, it.data[0], not back)
        return x, It('rev', i)
    if k == 'refs':
        x, i = it_next(ex, it.data[0], back)
        return (None if x is None else ex.mkref(x)), It('refs', i)
    if k in ('cloned', 'copied'):
        x, i = it_next(ex, it.data[0], back)
        return (None if x is None else clone(ex, x)), It(k, i)
    if k == 'list':
        items, i = it.data
        if i >= len(items):
            return None, it
        if back:
            return items[-1], It('list', items[:-1], i)
        return items[i], It('list', items, i + 1)
    if k == 'map':
        x, i = it_next(ex, it.data[0], back)
        if x is None:
            return None, It('map', i, it.data[1])
        return ex.callv(it.data[1], [x]), It('map', i, it.data[1])
    if k == 'filter':
        i = it.data[0]
        r = STD['search'](ex, i, 'find', it.data[1], back)
        if r is not None:
            return r[0], It('filter', r[1], it.data[1])
        if ex.char_source(i, back) is not None:
            tmp = ex.mkref(i)
            r = shim(ex, 'rfind' if back else 'find', tmp, it.data[1])
            return r.fs[0] if r.var == 'Some' else None, It('filter', ex.load(tmp), it.data[1])
        for _ in range(12):
            x, i = it_next(ex, i, back)
            if x is None:
                return None, It('filter', i, it.data[1])
            if ctx.branch(ex.callv(it.data[1], [ex.mkref(x)])):
                return x, It('filter', i, it.data[1])
        raise Unsupported('filter over an unbounded string')
    if k == 'enumerate':
        if back:
            raise Unsupported('enumerate from the back')
        x, i = it_next(ex, it.data[0])
        if x is None:
            return None, It('enumerate', i, it.data[1])
        return tup(it.data[1], x), It('enumerate', i, _add(it.data[1], 1))
    if k == 'peekable':
        if it.data[1] is not None and not back:
            return it.data[1][0], It('peekable', it.data[0], None)
        if back:
            raise Unsupported('peekable from the back')
        x, i = it_next(ex, it.data[0])
        return x, It('peekable', i, None)
    if k == 'skip':
        i, n = it.data
        if back:
            raise Unsupported('skip from the back')
        for _ in range(n):
            x, i = it_next(ex, i)
            if x is None:
                return None, It('skip', i, 0)
        x, i = it_next(ex, i)
        return x, It('skip', i, 0)
    if k == 'byref':
        x, i = it_next(ex, ex.load(it.data[0]), back)
        ex.store(it.data[0], i)
        return x, it
    if k == 'take':
        i, n = it.data
        if n == 0:
            return None, it
        x, i = it_next(ex, i)
        return x, It('take', i, n - 1)
    if k == 'chain':
        a, b = it.data
        order = (1, 0) if back else (0, 1)
        for j in order:
            d = [a, b]
            if d[j] is None:
                continue
            x, i = it_next(ex, d[j], back)
            if x is not None:
                d[j] = i
                return x, It('chain', *d)
            if j == order[0]:
                if back:
                    b = None
                else:
                    a = None
        return None, It('chain', a, b)
    if k == 'zip':
        x, i = it_next(ex, it.data[0])
        if x is None:
            return None, It('zip', i, it.data[1])
        y, j = it_next(ex, it.data[1])
        if y is None:
            return None, It('zip', i, j)
        return tup(x, y), It('zip', i, j)
    if k == 'split_incl':
        w, p, done = it.data
        if done or ctx.is_empty(w):
            return None, It(k, (), p, True)
        if back:
            if pattern(ex, p)[0] != 'set':
                raise Unsupported('split_inclusive from the back')
            h = ctx.last(w)
            if h is None:
                return None, It(k, (), p, True)
            r = find_split(ex, h[0], p, True)
            if r is None:
                return Str(w), It(k, (), p, True)
            return Str(r[2] + (h[1],)), It(k, r[0] + r[1], p, False)
        r = find_split(ex, w, p)
        if r is None:
            return Str(w), It(k, (), p, True)
        return Str(tuple(r[0]) + tuple(r[1] if isinstance(r[1], tuple) else (r[1],))), It(k, r[2], p, False)
    if k == 'split':
        w, p, done, _ = it.data
        if done:
            return None, it
        r = find_split(ex, w, p, back)
        if r is None:
            return Str(w), It('split', (), p, True, None)
        if back:
            return Str(r[2]), It('split', r[0], p, False, None)
        return Str(r[0]), It('split', r[2], p, False, None)
    if k in ('splitn', 'rsplitn'):
        w, p, n = it.data
        if n == 0:
            return None, it
        if n == 1:
            return Str(w), It(k, (), p, 0)
        r = find_split(ex, w, p, k == 'rsplitn')
        if r is None:
            return Str(w), It(k, (), p, 0)
        if k == 'rsplitn':
            return Str(r[2]), It(k, r[0], p, n - 1)
        return Str(r[0]), It(k, r[2], p, n - 1)
    if k == 'matches':
        w, p, how = it.data
        r = find_split(ex, w, p, how == 'rmatches')
        if r is None:
            return None, It(k, (), p, how)
        return Str(r[1]), It(k, r[0] if how == 'rmatches' else r[2], p, how)
    if k == 'match_indices':
        w, p, off = it.data
        if back and pattern(ex, p)[0] != 'set':
            raise Unsupported('match_indices from the back')
        r = find_split(ex, w, p, back)
        if r is None:
            return None, It(k, (), p, off)
        n = ctx.blen(r[0])
        x = tup(_add(off, n), Str(r[1]))
        return x, It(k, r[0], p, off) if back else It(k, r[2], p, _add(_add(off, n), ctx.blen(r[1])))
    if k == 'inspect':
        x, i = it_next(ex, it.data[0], back)
        if x is not None:
            ex.callv(it.data[1], [ex.mkref(x)])
        return x, It(k, i, it.data[1])
    if k in ('skip_while', 'take_while', 'map_while'):
        i, f, started = it.data
        if k == 'skip_while' and not started:
            if i.kind == 'chars' and not back:
                p = ex.pred_of(f, True)
                r = ctx.split_first(i.data[0], p.neg())
                w = () if r is None else (r[1],) + r[2]
                x, i2 = it_next(ex, It('chars', w))
                return x, It(k, i2, f, True)
            raise Unsupported('skip_while')
        x, i = it_next(ex, i, back)
        if k == 'skip_while':
            return x, It(k, i, f, True)
        if started or x is None:
            return None, It(k, i, f, True)
        if k == 'take_while':
            if ctx.branch(ex.callv(f, [ex.mkref(x)])):
                return x, It(k, i, f, False)
            return None, It(k, i, f, True)
        r = ex.callv(f, [x])
        if r.var == 'Some':
            return r.fs[0], It(k, i, f, False)
        return None, It(k, i, f, True)
    if k == 'once':
        return it.data[0], It('list', (), 0)
    if k == 'filter_map' or k == 'flat_map':
        i = it.data[0]
        r = STD['search'](ex, i, 'find_map', it.data[1], back) if k == 'filter_map' else None
        if r is not None:
            return r[0], It(k, r[1], it.data[1])
        if k == 'filter_map' and ex.char_source(i, back) is not None and not back:
            tmp = ex.mkref(i)
            r = shim(ex, 'find_map', tmp, it.data[1])
            return r.fs[0] if r.var == 'Some' else None, It(k, ex.load(tmp), it.data[1])
        for _ in range(12):
            x, i = it_next(ex, i, back)
            if x is None:
                return None, It(k, i, it.data[1])
            r = ex.callv(it.data[1], [x])
            if r.var == 'Some':
                return r.fs[0], It(k, i, it.data[1])
            STD['rejected'](ex, i)
        raise Unsupported('filter_map over an unbounded string')
    h = STD.get('next/' + k)
    if h:
        return h(ex, it, back)
    raise Unsupported('iteration over ' + k)


def as_iter(ex, v):
    x = unref(v)
    if isinstance(x, It) and x.kind == 'bytes_of':
        return It('bytes', x.data[0])
    if isinstance(x, It) and x.kind == 'wordvec':
        return It('refs', It('chars', x.data[0])) if isinstance(v, Ref) else It('chars', x.data[0])
    if isinstance(x, It):
        return x
    if isinstance(x, Arr):
        if isinstance(v, Ref):
            r = ex.strip(v)
            return It('list', tuple(Ref(r.cell, r.path + (i,)) for i in range(len(x.items))), 0)
        return It('list', x.items, 0)
    if isinstance(x, Enum) and x.name == 'Option':
        return It('list', x.fs, 0)
    if isinstance(x, Struct) and x.name in ('Range', 'RangeInclusive'):
        lo, hi = x.fs[:2]
        if isinstance(lo, int) and isinstance(hi, int):
            return It('list', tuple(range(lo, hi + (x.name == 'RangeInclusive'))), 0)
        return It('range', lo, hi if x.name == 'Range' else _add(hi, 1))
    h = getattr(x, 'as_iter', None)
    if h:
        return h(ex, v)
    if isinstance(x, Struct) and '<%s as Iterator>::next' % x.name in ex.prog.by_key:
        return It('user', x)
    raise Unsupported('iterator over %r' % (x,))


@std('IntoIterator::into_iter', 'Iterator::by_ref', 'Iterator::into_iter')
def _(ex, cal, v):
    if cal.name == 'by_ref':
        return v
    if isinstance(v, Ref) and isinstance(unref(v), It) and unref(v).kind not in ('map', 'bytes_of', 'wordvec'):
        return v
    return as_iter(ex, v)


def _next(ex, cal, r, back=False):
    r = ex.strip(r)
    it = as_iter(ex, r)
    x, i = it_next(ex, it, back)
    ex.store(r, i)
    return opt(x)


@std('Iterator::next', 'Chars::next', 'Peekable::next')
def _(ex, cal, r):
    return _next(ex, cal, r)


@std('DoubleEndedIterator::next_back')
def _(ex, cal, r):
    return _next(ex, cal, r, True)


@std('Chars::as_str', 'CharIndices::as_str', 'Split::as_str')
def _(ex, cal, r):
    return Str(unref(r).data[0])


def peek(ex, r):
    """the next item; kept when producing it again might give another one"""
    it = ex.load(r)
    if it.data[1] is None:
        x, i = it_next(ex, it.data[0])
        if ex.char_source(it.data[0]) is not None:
            return x, i
        it = It('peekable', i, (x,))
        ex.store(r, it)
    return it.data[1][0], it.data[0]


@std('from_utf8', 'str::from_utf8', 'String::from_utf8', 'converts::from_utf8')
def _(ex, cal, v):
    x = unref(v)
    if isinstance(x, It) and x.kind == 'bytes_of':
        # whole characters of a text are UTF-8
        return ok(Own(x.data[0]) if cal.owner == 'String' else Str(x.data[0]))
    raise Unsupported('from_utf8 of %r' % (x,))


@std('Peekable::peek')
def _(ex, cal, r):
    x, _ = peek(ex, ex.strip(r))
    return NONE if x is None else some(ex.mkref(x))


@std('Peekable::next_if', 'Peekable::next_if_eq')
def _(ex, cal, r, f):
    r = ex.strip(r)
    x, rest = peek(ex, r)
    if x is None:
        return NONE
    t = ex.callv(f, [ex.mkref(x)]) if cal.name == 'next_if' else eq(ex, x, f)
    if ex.ctx.branch(t):
        ex.store(r, It('peekable', rest, None))
        return some(x)
    return NONE


def own_iter(ex, v):
    """the iterator an adapter takes by value; `&mut I` (by_ref) keeps writing through"""
    if isinstance(v, Ref):
        r = ex.strip(v)
        if isinstance(r, Ref) and isinstance(ex.load(r), It) and ex.load(r).kind != 'bytes_of':
            return It('byref', r)
    return as_iter(ex, v)


_STACK = ('map', 'filter', 'cloned', 'copied', 'refs', 'inspect', 'rev', 'filter_map', 'take', 'take_while')


def borrowed(ex, it):
    """an adapter stack over a by_ref iterator, as a stack over the iterator itself:
    (stack, write-back after partial use, write-back after full use), or None"""
    i = it
    while i.kind in _STACK:
        i = i.data[0]
    if i.kind != 'byref':
        return None

    def go(it):
        if it.kind == 'byref':
            r = it.data[0]
            i = ex.load(r)
            b = borrowed(ex, i)
            if b is not None:
                return b
            return i, lambda n: ex.store(r, n), lambda: ex.store(r, It('chars', ()))
        i, back, drain = go(it.data[0])
        if it.kind == 'take':
            if i.kind != 'chars':
                raise Unsupported('take over a borrowed %s iterator' % i.kind)
            a, rest = ex.ctx.at_char(i.data[0], it.data[1])
            return (It('chars', a),
                    lambda m: back(It('chars', m.data[0] + rest) if m.kind == 'chars' else It('unknown')),
                    lambda: back(It('chars', rest)))
        if it.kind == 'take_while':
            if i.kind != 'chars' or it.data[2]:
                raise Unsupported('take_while over a borrowed %s iterator' % i.kind)
            h = ex.ctx.split_first(i.data[0], ex.pred_of(it.data[1], True).neg())
            a, c, rest = (i.data[0], (), ()) if h is None else (h[0], (h[1],), h[2])
            return (It('chars', a),
                    lambda m: back(It('chars', m.data[0] + c + rest) if m.kind == 'chars' else It('unknown')),
                    lambda: back(It('chars', rest)))
        return (It(it.kind, i, *it.data[1:]),
                lambda m: back(m.data[0] if m.kind == it.kind else It('unknown')), drain)
    return go(it)


def draining(full):
    """an operation that takes the iterator by value"""
    def deco(f):
        def g(ex, cal, it, *a):
            it = own_iter(ex, it)
            b = borrowed(ex, it)
            if b is None:
                return f(ex, cal, it, *a)
            r = f(ex, cal, b[0], *a)
            if full:
                b[2]()
            else:
                b[1](It('unknown'))
            return r
        return g
    return deco


_ADAPT1 = {'filter': 'filter', 'inspect': 'inspect', 'filter_map': 'filter_map'}
for _n in _ADAPT1:
    STD['Iterator::' + _n] = (lambda n: (lambda ex, cal, it, f: It(n, own_iter(ex, it), f)))(_n)
for _n in ('skip_while', 'take_while', 'map_while'):
    STD['Iterator::' + _n] = (lambda n: (lambda ex, cal, it, f: It(n, own_iter(ex, it), f, False)))(_n)
for _n in ('cloned', 'copied', 'rev'):
    STD['Iterator::' + _n] = (lambda n: (lambda ex, cal, it: It(n, own_iter(ex, it))))(_n)
STD['Iterator::fuse'] = lambda ex, cal, it: own_iter(ex, it)
STD['Iterator::enumerate'] = lambda ex, cal, it: It('enumerate', own_iter(ex, it), 0)
STD['Iterator::peekable'] = lambda ex, cal, it: It('peekable', own_iter(ex, it), None)
STD['Iterator::chain'] = lambda ex, cal, a, b: It('chain', own_iter(ex, a), own_iter(ex, b))
STD['Iterator::zip'] = lambda ex, cal, a, b: It('zip', own_iter(ex, a), own_iter(ex, b))
STD['once'] = STD['iter::once'] = lambda ex, cal, v: It('list', (v,), 0)
STD['empty'] = STD['iter::empty'] = lambda ex, cal: It('list', (), 0)


@std('Iterator::map')
def _(ex, cal, it, f):
    it = own_iter(ex, it)
    h = STD.get('map/' + it.kind)
    r = h(ex, it, f) if h else None
    return r if r is not None else It('map', it, f)


@std('Iterator::skip', 'Iterator::take')
def _(ex, cal, it, n):
    if not isinstance(n, int):
        raise Unsupported('symbolic ' + cal.name)
    it = own_iter(ex, it)
    if n > 4 and it.kind == 'skip':
        it = normalise(ex, it)
    if it.kind == 'chars' and n > 4:
        a, b = ex.ctx.at_char(it.data[0], n)
        return It('chars', a if cal.name == 'take' else b)
    return It(cal.name, it, n)


def stages(ex, it):
    """(source iterator over chars, [stage...]) when `it` is an adapter stack over a string"""
    st = []
    while it.kind in ('map', 'filter', 'cloned', 'copied', 'refs', 'inspect'):
        st.append(it)
        it = it.data[0]
    st.reverse()
    return it, st


def elem(e, st, x, sink):
    """push one element through the stages; sink(x) -> formula, filtered-out -> None"""
    for s in st:
        if s.kind == 'map':
            x = e.callv(s.data[1], [x])
        elif s.kind == 'filter':
            if not e.ctx.branch(e.callv(s.data[1], [e.mkref(x)])):
                return None
        elif s.kind in ('cloned', 'copied'):
            x = clone(e, x)
        elif s.kind == 'refs':
            x = e.mkref(x)
        elif s.kind == 'inspect':
            pass
    return sink(x)


def normalise(ex, it):
    """resolve skip / enumerate-free prefixes so that the source is a plain chars iterator"""
    if it.kind == 'skip':
        i, n = it.data
        i = normalise(ex, i)
        for _ in range(n):
            x, i = it_next(ex, i)
            if x is None:
                return It('chars', ())
        return i
    if it.kind == 'peekable':
        if it.data[1] is None:
            return it.data[0]
        if it.data[1][0] is None:
            return It('list', (), 0)
        return It('chain', It('list', (it.data[1][0],), 0), it.data[0])
    if it.kind == 'skip_while' and it.data[2] is False and it.data[0].kind == 'chars':
        p = ex.pred_of(it.data[1], True)
        r = ex.ctx.split_first(it.data[0].data[0], p.neg())
        return It('chars', () if r is None else (r[1],) + r[2])
    if it.kind == 'skip_while' and it.data[2]:
        return it.data[0]
    if it.kind == 'take_while' and it.data[2] is False:
        i = normalise(ex, it.data[0])
        if i.kind != 'chars':
            return it
        w = i.data[0]
        h = ex.ctx.split_first(w, ex.pred_of(it.data[1], True).neg())
        return It('chars', w if h is None else h[0])
    if it.kind == 'rev' and it.data[0].kind == 'rev':
        return normalise(ex, it.data[0].data[0])
    return it


def src_word(ex, src):
    """(word, reversed) for a plain character source"""
    if src.kind == 'chars':
        return src.data[0], False
    if src.kind == 'rev' and src.data[0].kind == 'chars':
        return src.data[0].data[0], True
    if src.kind == 'bytes':
        return src.data[0], False
    if src.kind == 'rev' and src.data[0].kind == 'bytes':
        return src.data[0].data[0], True
    return None


def over_bytes(src):
    return src.kind == 'bytes' or src.kind == 'rev' and src.data[0].kind == 'bytes'


def char_pred(ex, src, body):
    """the characters whose element (for bytes: whose first byte) satisfies body(e, element); over
    bytes a predicate must treat all bytes of multi-byte characters alike"""
    if not over_bytes(src):
        return ex.summarise(body)
    p = ex.summarise(lambda e, c: body(e, c.a.z))
    hi = CharSet(((0x80, 0xff),))
    if not isinstance(p, CharSet):
        raise Unsupported('predicate over bytes')
    if (p & hi).empty():
        return p & ASCII
    if (hi - p).empty():
        return (p & ASCII) | ASCII.neg()
    raise Unsupported('predicate over the bytes of non-ASCII characters')


def char_hit(ex, it, f, sink_arg):
    """First element for which the stack+f yields true.  Returns None or
    (pre, char, post, reversed); the predicate is summarised over all characters."""
    src, st = stages(ex, it)
    src = normalise(ex, src)
    w = src_word(ex, src)
    if w is None:
        return 'no'
    word, rev = w

    def body(e, c):
        r = elem(e, st, c, lambda x: e.callv(f, [sink_arg(e, x)]))
        return False if r is None else r
    key = None
    if all(isinstance(unref(s.data[1]), FnPtr) or isinstance(unref(s.data[1]), Closure) and not unref(s.data[1]).caps
           for s in st if len(s.data) > 1) and not st and not over_bytes(src):
        p = ex.pred_of(f, sink_arg is not ident)
    else:
        p = char_pred(ex, src, body)
    r = ex.ctx.split_last(word, p) if rev else ex.ctx.split_first(word, p)
    return None if r is None else (r, rev, p)


def ident(e, x):
    return x


def byref(e, x):
    return e.mkref(x)


def enum_stack(ex, it):
    return it.kind == 'enumerate'


def quantify(ex, cal, r, f, want):
    """all / any: does some element give `want`?"""
    rr = ex.strip(r)
    it = as_iter(ex, rr)
    b = borrowed(ex, it)
    if b is not None:
        tmp = ex.mkref(b[0])
        res = quantify(ex, cal, tmp, f, want)
        b[1](ex.load(tmp)) if res else b[2]()
        return res
    it = normalise(ex, it)
    if want:
        h = char_hit(ex, it, f, ident)
    else:
        neg = lambda e, *a: b_not(e.callv(f, list(a)))
        h = char_hit_neg(ex, it, f)
    if h != 'no':
        if isinstance(rr, Ref):
            src, st = stages(ex, it)
            src = normalise(ex, src)
            kind = 'bytes' if over_bytes(src) else 'chars'
            if h is None:
                ni = It(kind, ())
            else:
                (pre, c, post), rev, p = h
                if kind == 'bytes' and not isinstance(c, int) and not ex.ctx.entails(c.z < 0x80):
                    kind = 'half a character'
                ni = It('rev', It(kind, pre)) if rev else It(kind, post)
            for s in st:
                ni = It(s.kind, ni, *s.data[1:])
            ex.store(rr, ni)
        return h is not None
    if it.kind == 'enumerate' and it.data[0].kind == 'chars':
        return quantify_enum(ex, rr, it, f, want)
    if it.kind == 'char_indices':
        return quantify_ci(ex, rr, it, f, want)
    if ex.char_source(it) is not None:
        tmp = ex.mkref(it)
        res = ex.ctx.branch(shim(ex, 'any' if want else 'all', tmp, f)) == want
        if isinstance(rr, Ref):
            ex.store(rr, ex.load(tmp))
        return res
    for _ in range(40):
        x, it = it_next(ex, it)
        if x is None:
            if isinstance(rr, Ref):
                ex.store(rr, it)
            return False
        if ex.ctx.branch(ex.callv(f, [x])) == want:
            if isinstance(rr, Ref):
                ex.store(rr, it)
            return True
        it2 = normalise(ex, it)
        if it2.kind == 'chars' and it.kind != 'chars':
            it = it2
            return quantify(ex, cal, ex.mkref(it), f, want)
        if it.kind == 'chain' and it.data[0] is None and it.data[1] is not None:
            return quantify(ex, cal, ex.mkref(it.data[1]), f, want)
    raise Unsupported('quantifier over a long sequence')


def char_hit_neg(ex, it, f):
    src, st = stages(ex, it)
    src = normalise(ex, src)
    w = src_word(ex, src)
    if w is None:
        return 'no'
    word, rev = w
    if not st and not over_bytes(src):
        p = ex.pred_of(f).neg()
    else:
        def body(e, c):
            r = elem(e, st, c, lambda x: e.callv(f, [x]))
            return False if r is None else b_not(r)
        p = char_pred(ex, src, body)
    r = ex.ctx.split_last(word, p) if rev else ex.ctx.split_first(word, p)
    return None if r is None else (r, rev, p)


def indexed_pred(ex, f, lo, mk):
    """predicate of (index, char) that does not depend on index >= lo, as a CharSet; else None"""
    iv = [None]
    paths = []

    def go(ctx):
        i = ctx.fresh_int('ix', lo, 2 ** 62)
        c = ctx.fresh_char()
        iv[0] = (i, c.z)
        n0 = len(ctx.asserted)
        e = ex.sub(ctx)
        r = e.callv(f, [mk(e, i, Ch(c))])
        paths.append(z3.And(*(list(ctx.asserted[n0:]) + [zb(r)])))
    explore(go, ex.ctx.stats, ex.ctx)
    i, c = iv[0]
    F = z3.simplify(z3.Or(*paths)) if paths else z3.BoolVal(False)
    F1 = z3.substitute(F, (i, z3.IntVal(lo)))
    s = z3.Solver()
    s.set('timeout', 5000)
    s.add(i >= lo, i <= 2 ** 62, ANY.at(c), F != F1)
    ex.ctx.stats.queries += 1
    if s.check() != z3.unsat:
        return None
    p = to_charset(c, z3.simplify(F1))
    return p if isinstance(p, CharSet) else None


def quantify_enum(ex, rr, it, f, want):
    ctx = ex.ctx
    inner, n = it.data
    for _ in range(4):
        if isinstance(n, int):
            p = indexed_pred(ex, f, n, lambda e, i, c: tup(i, c))
            if p is not None:
                q = p if want else p.neg()
                r = ctx.split_first(inner.data[0], q)
                if isinstance(rr, Ref):
                    ex.store(rr, It('enumerate', It('chars', () if r is None else r[2]), 0))
                return r is not None
        x, inner = it_next(ex, inner)
        if x is None:
            return False
        if ctx.branch(ex.callv(f, [tup(n, x)])) == want:
            return True
        n = _add(n, 1)
    raise Unsupported('indexed quantifier')


def quantify_ci(ex, rr, it, f, want):
    ctx = ex.ctx
    w, off, tot = it.data
    for _ in range(4):
        if isinstance(off, int):
            p = indexed_pred(ex, f, off, lambda e, i, c: tup(i, c))
            if p is not None:
                return ctx.split_first(w, p if want else p.neg()) is not None
        h = ctx.head(w)
        if h is None:
            return False
        if ctx.branch(ex.callv(f, [tup(off, Ch(h[0]))])) == want:
            return True
        off = _add(off, u8len(h[0]))
        if not isinstance(off, int):
            if not ctx.branch(off == 1):
                p = indexed_pred(ex, f, 2, lambda e, i, c: tup(i, c))
                if p is None:
                    raise Unsupported('indexed quantifier')
                return ctx.split_first(h[1], p if want else p.neg()) is not None
            off = 1
        w = h[1]
    raise Unsupported('indexed quantifier')


def stateful(ex, *vs):
    """does a closure among these (or in an adapter stack) change what it captured?"""
    for v in vs:
        v = unref(v)
        if isinstance(v, Closure):
            if not ex.stateless(v):
                return True
        elif isinstance(v, It):
            if stateful(ex, *[x for x in v.data if isinstance(x, Val)]):
                return True
    return False


def shim(ex, name, *args):
    ex.ctx.stats.assumptions.add('shim ' + name)
    return ex.call_fn(ex.prog.by_key['shim_' + name], list(args))


def with_shim(name, f):
    def g(ex, cal, r, *a):
        if stateful(ex, r, a[-1]) and isinstance(r, Ref):
            rr = ex.strip(r)
            ex.store(rr, as_iter(ex, rr))
            return shim(ex, name, rr, *a)
        return f(ex, cal, r, *a)
    return g


@std('Iterator::find_map')
def _(ex, cal, r, f):
    rr = ex.strip(r)
    ex.store(rr, as_iter(ex, rr))
    return shim(ex, 'find_map', rr, f)


@std('Iterator::try_fold', 'Iterator::try_for_each')
def _(ex, cal, r, *a):
    rr = ex.strip(r)
    ex.store(rr, as_iter(ex, rr))
    t = (cal.generics[-1] if cal.generics else '').split('<')[0]
    if t not in ('Result', 'Option'):
        raise Unsupported(cal.key + ' into ' + t)
    return shim(ex, cal.name + '_' + t.lower(), rr, *a)


@std('Iterator::all')
def _(ex, cal, r, f):
    return not quantify(ex, cal, r, f, False)


@std('Iterator::any')
def _(ex, cal, r, f):
    return quantify(ex, cal, r, f, True)


@std('Iterator::find', 'Iterator::position', 'Iterator::rfind')
def _(ex, cal, r, f):
    rr = ex.strip(r)
    b = borrowed(ex, as_iter(ex, rr))
    if b is not None:
        tmp = ex.mkref(b[0])
        res = STD['Iterator::' + cal.name](ex, cal, tmp, f)
        b[1](ex.load(tmp)) if res.var == 'Some' else b[2]()
        return res
    it = normalise(ex, as_iter(ex, rr))
    if cal.name == 'rfind':
        it = It('rev', it)
    if it.kind in ('chars',) or it.kind == 'rev' and it.data[0].kind == 'chars':
        h = char_hit(ex, it, f, byref if 'find' in cal.name else ident)
        if h is None:
            if isinstance(rr, Ref):
                ex.store(rr, It('chars', ()))
            return NONE
        (pre, c, post), rev, p = h
        if isinstance(rr, Ref):
            ex.store(rr, It('rev', It('chars', pre)) if rev and cal.name != 'rfind' else It('chars', pre if rev else post))
        if 'find' in cal.name:
            return some(Ch(c))
        return some(ex.ctx.clen(post if rev else pre))
    src, st = stages(ex, it)
    src = normalise(ex, src)
    if over_bytes(src) and not any(s.kind == 'filter' for s in st):
        h = char_hit(ex, it, f, byref if 'find' in cal.name else ident)
        if isinstance(rr, Ref):
            ex.store(rr, It('half a character'))
        if h is None:
            return NONE
        (pre, c, post), rev, p = h
        if 'find' not in cal.name:
            if rev and not (isinstance(c, int) and c < 128 or ex.ctx.entails(c.z < 0x80)):
                raise Unsupported('position from the back over bytes')
            return some(ex.ctx.blen(post if rev else pre))
        if st and any(s.kind == 'map' for s in st):
            raise Unsupported('find over mapped bytes')
        z = c if isinstance(c, int) else c.z
        if not (isinstance(z, int) and z < 128 or ex.ctx.entails(z < 0x80)):
            raise Unsupported('find over the bytes of non-ASCII characters')
        for s in st:
            if s.kind == 'refs':
                z = ex.mkref(z)
            elif s.kind in ('cloned', 'copied'):
                z = unref(z)
        return some(z)
    if it.kind == 'char_indices' and cal.name != 'position':
        w, off, tot = it.data
        p = indexed_pred(ex, f, 0, lambda e, i, c: e.mkref(tup(i, c)))
        if p is None:
            raise Unsupported('find over char_indices')
        s = ex.ctx.split_first(w, p)
        if s is None:
            return NONE
        return some(tup(_add(off, ex.ctx.blen(s[0])), Ch(s[1])))
    if ex.char_source(it) is not None:
        tmp = ex.mkref(it)
        res = shim(ex, 'position' if cal.name == 'position' else 'find', tmp, f)
        if isinstance(rr, Ref):
            ex.store(rr, ex.load(tmp) if cal.name != 'rfind' else It('unknown'))
        return res
    n = 0
    for _ in range(40):
        x, it = it_next(ex, it)
        if x is None:
            if isinstance(rr, Ref):
                ex.store(rr, it)
            return NONE
        if ex.ctx.branch(ex.callv(f, [ex.mkref(x) if 'find' in cal.name else x])):
            if isinstance(rr, Ref):
                ex.store(rr, it)
            return some(x) if 'find' in cal.name else some(n)
        n += 1
    raise Unsupported('search over a long sequence')


def it_last(ex, it):
    if it.kind == 'chars':
        h = ex.ctx.last(it.data[0])
        return None if h is None else Ch(h[1])
    if it.kind == 'match_indices' and pattern(ex, it.data[1])[0] == 'set':
        return it_next(ex, it, True)[0]
    if it.kind in ('split', 'rev', 'list', 'char_indices', 'bytes', 'bytesp', 'refs'):
        return it_next(ex, it, True)[0]
    if it.kind == 'map':
        x = it_last(ex, it.data[0])
        return None if x is None else ex.callv(it.data[1], [x])
    if it.kind in ('cloned', 'copied'):
        x = it_last(ex, it.data[0])
        return None if x is None else clone(ex, x)
    if it.kind == 'filter' and ex.char_source(it.data[0]) is not None:
        r = shim(ex, 'last_filter', it.data[0], it.data[1])
        return r.fs[0] if r.var == 'Some' else None
    if ex.char_source(it) is not None:
        r = shim(ex, 'last', it)
        return r.fs[0] if r.var == 'Some' else None
    x = None
    for _ in range(20):
        y, it = it_next(ex, it)
        if y is None:
            return x
        x = y
    raise Unsupported('last of ' + it.kind)


@std('Iterator::last')
@draining(True)
def _(ex, cal, it):
    return opt(it_last(ex, as_iter(ex, it)))


@std('Iterator::count')
@draining(True)
def _(ex, cal, it):
    return it_count(ex, as_iter(ex, it))


def it_count(ex, it):
    ctx = ex.ctx
    it = normalise(ex, it)
    if it.kind in ('chars', 'char_indices'):
        return ctx.clen(it.data[0])
    if it.kind == 'bytes':
        return ctx.blen(it.data[0])
    if it.kind in ('map', 'cloned', 'copied', 'rev', 'enumerate', 'refs', 'inspect'):
        return it_count(ex, it.data[0])
    if it.kind == 'list':
        return len(it.data[0]) - it.data[1]
    if 'count/' + it.kind in STD:
        return STD['count/' + it.kind](ex, it)
    n = 0
    src, st = stages(ex, it.data[0]) if it.kind == 'filter' else (it, ())
    if it.kind == 'filter' and it.data[0].kind == 'chars':
        p = ex.pred_of(it.data[1], True)
        w = it.data[0].data[0]
        nxt = lambda w: (lambda r: None if r is None else r[2])(ctx.split_first(w, p))
    elif it.kind == 'filter' and over_bytes(src):
        f = it.data[1]

        def body(e, c):
            r = elem(e, st, c, lambda x: e.callv(f, [e.mkref(x)]))
            return False if r is None else r
        p = char_pred(ex, src, body)
        if not p.subset(CharSet([(0, 127)])):
            raise Unsupported('count of the bytes of non-ASCII characters')
        w = src_word(ex, src)[0]
        nxt = lambda w: (lambda r: None if r is None else r[2])(ctx.split_first(w, p))
    elif it.kind in ('matches', 'match_indices'):
        w = it.data[0]
        nxt = lambda w: (lambda r: None if r is None else r[2])(find_split(ex, w, it.data[1]))
    elif it.kind == 'split':
        w = it.data[0]
        n = 1
        nxt = lambda w: (lambda r: None if r is None else r[2])(find_split(ex, w, it.data[1]))
    else:
        for _ in range(20):
            x, it = it_next(ex, it)
            if x is None:
                return n
            n += 1
        raise Unsupported('count of ' + it.kind)
    for _ in range(3):
        r = nxt(w)
        if r is None:
            return n
        n += 1
        w = r
    # three or more: the exact number is left open
    k = ctx.fresh_int('more', 0, 2 ** 62)
    ctx.side['approx'] = True
    return n + k


@std('Iterator::nth')
def _(ex, cal, r, n):
    r = ex.strip(r)
    it = as_iter(ex, r)
    if not isinstance(n, int):
        raise Unsupported('symbolic nth')
    x = None
    for _ in range(n + 1):
        x, it = it_next(ex, it)
        if x is None:
            break
    ex.store(r, it)
    return opt(x)


@std('Iterator::fold')
@draining(True)
def _(ex, cal, it, acc, f):
    it = as_iter(ex, it)
    if it.kind != 'list':
        return shim(ex, 'fold', it, acc, f)
    for _ in range(20):
        x, it = it_next(ex, it)
        if x is None:
            return acc
        acc = ex.callv(f, [acc, x])
    raise Unsupported('fold over an unbounded sequence')


@std('DoubleEndedIterator::rfold')
@draining(True)
def _(ex, cal, it, acc, f):
    return shim(ex, 'rfold', as_iter(ex, it), acc, f)


@std('Iterator::for_each')
@draining(True)
def _(ex, cal, it, f):
    it = as_iter(ex, it)
    if it.kind != 'list':
        return shim(ex, 'for_each', it, f)
    for _ in range(20):
        x, it = it_next(ex, it)
        if x is None:
            return UNIT
        ex.callv(f, [x])
    raise Unsupported('for_each over an unbounded sequence')


@std('Iterator::eq', 'Iterator::ne', 'Iterator::cmp', 'Iterator::partial_cmp', 'Iterator::lt', 'Iterator::le',
     'Iterator::gt', 'Iterator::ge')
@draining(False)
def _(ex, cal, a, b):
    if own_iter(ex, b).kind == 'byref':
        raise Unsupported('comparison with a borrowed iterator')
    a, b = normalise(ex, as_iter(ex, a)), normalise(ex, as_iter(ex, b))
    if a.kind == b.kind == 'bytes_of' or a.kind == b.kind and a.kind in ('chars', 'bytes'):
        a, b = a.data[0], b.data[0]
        if cal.name in ('eq', 'ne'):
            return text_eq(ex, a, b) == (cal.name == 'eq')
        r = str_cmp(ex, a, b)
        if cal.name == 'cmp':
            return r
        if cal.name == 'partial_cmp':
            return some(r)
        return {'lt': r.var == 'Less', 'le': r.var != 'Greater', 'gt': r.var == 'Greater', 'ge': r.var != 'Less'}[cal.name]
    if cal.name in ('eq', 'ne'):
        r = STD['seq_iter'](ex, a, b)
        if r is not None:
            return r == (cal.name == 'eq')
    raise Unsupported('Iterator::' + cal.name)


def collect(ex, it, target):
    it = normalise(ex, it)
    tb = target.split('<')[0]
    if tb == 'String':
        if it.kind == 'chars':
            return Own(it.data[0])
        out = ()
        src, st = stages(ex, it)
        for _ in range(20):
            x, it = it_next(ex, it)
            if x is None:
                return Own(out)
            x = unref(x)
            out += (x.a,) if isinstance(x, Ch) else ex.word(x)
            it = normalise(ex, it)
            if it.kind == 'chars':
                return Own(out + it.data[0])
            if it.kind == 'chain' and it.data[0] is None and it.data[1] is not None and it.data[1].kind == 'chars':
                return Own(out + it.data[1].data[0])
        raise Unsupported('collect into String')
    if tb == 'Vec':
        if it.kind == 'chars':
            return It('wordvec', it.data[0])
        out = []
        for _ in range(20):
            x, it = it_next(ex, it)
            if x is None:
                return Arr(out, 'vec')
            out.append(x)
    if tb in ('Option', 'Result') and ex.char_source(it) is None:
        m = re.match(r'^(?:Option|Result)<(.*)>$', target)
        out = []
        for _ in range(20):
            x, it = it_next(ex, it)
            if x is None:
                return Enum(tb, 'Some' if tb == 'Option' else 'Ok',
                            (collect(ex, It('list', tuple(out), 0), mir.split_top(m.group(1))[0].strip()),))
            if x.var in ('None', 'Err'):
                return x
            out.append(x.fs[0])
    raise Unsupported('collect into ' + target)


def items_of(ex, it):
    """the items of a finite iterator"""
    out = []
    for _ in range(20):
        x, it = it_next(ex, it)
        if x is None:
            return out
        out.append(x)
    raise Unsupported('long sequence of ' + it.kind)


@std('Iterator::max', 'Iterator::min')
@draining(True)
def _(ex, cal, it):
    it = as_iter(ex, it)
    if ex.char_source(it) is not None:
        raise Unsupported('Iterator::' + cal.name)
    best = None
    for x in items_of(ex, it):
        if best is None:
            best = x
        else:
            r = cmp(ex, ex.mkref(best), ex.mkref(x)).var
            if r != 'Greater' and cal.name == 'max' or r == 'Greater' and cal.name == 'min':
                best = x
    return opt(best)


@std('Iterator::partition')
@draining(True)
def _(ex, cal, it, f):
    a, b = [], []
    for x in items_of(ex, as_iter(ex, it)):
        (a if ex.ctx.branch(ex.callv(f, [ex.mkref(x)])) else b).append(x)
    return tup(Arr(a, 'vec'), Arr(b, 'vec'))


@std('Iterator::unzip')
@draining(True)
def _(ex, cal, it):
    xs = items_of(ex, as_iter(ex, it))
    return tup(Arr([x.fs[0] for x in xs], 'vec'), Arr([x.fs[1] for x in xs], 'vec'))


@std('Iterator::collect', 'FromIterator::from_iter', 'String::from_iter')
@draining(False)
def _(ex, cal, it):
    t = cal.generics[0] if cal.generics else (cal.selfty or 'String')
    return collect(ex, as_iter(ex, it), t)


@std('Extend::extend')
def _(ex, cal, r, it):
    v = ex.load(r)
    if isinstance(v, Own):
        ex.store(r, Own(v.w + collect(ex, as_iter(ex, it), 'String').w))
        return UNIT
    raise Unsupported('extend')


# ------------------------------------------------------------------ formatting
# Formatter value: (reference to the sink String, alternate flag, default options)
def display(ex, v, fm):
    x = unref(v)
    if isinstance(x, (Str, Own)):
        if fm.fs[2] is not True:
            raise Unsupported('padding')
        return fwrite(ex, fm, x.w)
    if isinstance(x, Ch):
        return fwrite(ex, fm, (x.a,))
    if isinstance(x, (Struct, Enum)):
        k = '<%s as Display>::fmt' % x.name
        if k in ex.prog.by_key:
            return ex.call(k, ex.mkref(x), ex.mkref(fm))
        if x.name in ('Box',):
            return display(ex, x.fs[0], fm)
    if isinstance(x, bool):
        return fwrite(ex, fm, lit(str(x).lower()))
    if isinstance(x, int):
        return fwrite(ex, fm, lit(str(x)))
    if isinstance(x, Opaque):
        return fwrite(ex, fm, opaque_text(ex, x))
    if isinstance(x, Struct) and x.name == 'Arguments':
        return write_args(ex, fm.fs[0], x)
    h = getattr(x, 'as_str', None)
    if h:
        return fwrite(ex, fm, h(ex))
    raise Unsupported('Display of %r' % (x,))


def opaque_text(ex, x):
    m = ex.ctx.side.get('optext', ())
    for k, w in m:
        if k == (x.ty, x.key):
            return w
    w = ex.ctx.fresh_word('disp')
    ex.ctx.side['optext'] = m + (((x.ty, x.key), w),)
    return w


def fwrite(ex, fm, w):
    r = fm.fs[0]
    s = ex.load(r)
    if isinstance(s, Own):
        ex.store(r, Own(s.w + w))
        return ok(UNIT)
    raise Unsupported('formatter sink')


def decode_template(b):
    out = []
    i = 0
    argi = 0
    lits = bytearray()

    def flush():
        if lits:
            out.append(('lit', lits.decode('utf-8')))
            lits.clear()
    while True:
        n = b[i]
        i += 1
        if n == 0:
            flush()
            return out
        if n < 0x80:
            lits += bytes(b[i:i + n])
            i += n
        elif n == 0x80:
            ln = b[i] | b[i + 1] << 8
            i += 2
            lits += bytes(b[i:i + ln])
            i += ln
        else:
            flush()
            flags = None
            extra = False
            if n & 1:
                flags = b[i] | b[i + 1] << 8 | b[i + 2] << 16 | b[i + 3] << 24
                i += 4
            if n & 2:
                i += 2
                extra = True
            if n & 4:
                i += 2
                extra = True
            if n & 8:
                argi = b[i] | b[i + 1] << 8
                i += 2
            if n & 48:
                raise Unsupported('dynamic format width')
            alt = False
            if flags is not None:
                alt = bool(flags & (1 << 23))
            out.append(('arg', argi, alt, not extra))
            argi += 1


def write_args(ex, sink, a):
    """Arguments -> sink; always Ok: the sink is a String (assumption)"""
    if a.fs[0] == 'str':
        fwrite(ex, Struct('Formatter', (sink, False, True)), a.fs[1].w)
        return ok(UNIT)
    args = unref(a.fs[2]).items
    for p in decode_template(a.fs[1]):
        if p[0] == 'lit':
            fwrite(ex, Struct('Formatter', (sink, False, True)), lit(p[1]))
        else:
            arg = args[p[1]]
            fm = Struct('Formatter', (sink, p[2], True if p[3] else 'padded'))
            how, v = arg.fs
            if how == 'Display':
                r = display(ex, v, fm)
            elif how == 'Debug':
                r = debug(ex, v, fm)
            else:
                raise Unsupported('format trait ' + how)
            if isinstance(r, Enum) and r.var == 'Err':
                return r
    return ok(UNIT)


def debug(ex, v, fm):
    x = unref(v)
    w = opaque_text(ex, Opaque('Debug', ('dbg', repr(x))))
    return fwrite(ex, fm, w)


@std('Argument::new_display')
def _(ex, cal, v):
    return Struct('Argument', ('Display', v))


@std('Argument::new_debug')
def _(ex, cal, v):
    return Struct('Argument', ('Debug', v))


@std('Arguments::new', 'Arguments::new_v1')
def _(ex, cal, t, args):
    t = unref(t)
    if not (isinstance(t, Arr) and t.kind == 'bytes'):
        raise Unsupported('format template')
    return Struct('Arguments', ('t', tuple(t.items), args))


@std('Arguments::from_str', 'Arguments::from_str_nonconst', 'Arguments::new_const')
def _(ex, cal, s):
    return Struct('Arguments', ('str', Str(ex.word(s))))


@std('Arguments::as_str')
def _(ex, cal, a):
    a = unref(a)
    return some(a.fs[1]) if a.fs[0] == 'str' else NONE


@std('format', 'fmt::format')
def _(ex, cal, a):
    buf = ex.new(Own(()))
    write_args(ex, Ref(buf), a)
    return Own(buf.v.w)


@std('Formatter::write_fmt', 'Write::write_fmt')
def _(ex, cal, f, a):
    r = ex.strip(f)
    v = ex.load(r)
    return write_args(ex, v.fs[0] if isinstance(v, Struct) else r, a)


@std('Formatter::write_str', 'Write::write_str', 'Formatter::pad')
def _(ex, cal, f, s):
    r = ex.strip(f)
    v = ex.load(r)
    if isinstance(v, Struct) and v.fs[2] is not True and cal.name == 'pad':
        raise Unsupported('padding')
    fwrite(ex, v if isinstance(v, Struct) else Struct('Formatter', (r, False, True)), ex.word(s))
    return ok(UNIT)


@std('Write::write_char', 'Formatter::write_char')
def _(ex, cal, f, c):
    r = ex.strip(f)
    v = ex.load(r)
    fwrite(ex, v if isinstance(v, Struct) else Struct('Formatter', (r, False, True)), (c.a,))
    return ok(UNIT)


@std('Formatter::alternate')
def _(ex, cal, f):
    return unref(f).fs[1]


@std('Formatter::width', 'Formatter::precision')
def _(ex, cal, f):
    if unref(f).fs[2] is not True:
        raise Unsupported('padding')
    return NONE


@std('Formatter::sign_plus', 'Formatter::sign_minus', 'Formatter::sign_aware_zero_pad')
def _(ex, cal, f):
    return False


@std('Display::fmt', 'str::fmt', 'String::fmt')
def _(ex, cal, v, f):
    return display(ex, v, unref(f))


@std('AsDisplay::as_display', 'AsDynError::as_dyn_error')
def _(ex, cal, v):
    return v


# ------------------------------------------------------------------ hashing
@std('Hash::hash', 'str::hash', 'String::hash')
def _(ex, cal, v, h):
    hash_value(ex, v, ex.strip(h))
    return UNIT


def hash_value(ex, v, h):
    x = unref(v)
    if isinstance(x, (Struct, Enum)):
        k = '<%s as Hash>::hash' % x.name
        if k in ex.prog.by_key:
            ex.call(k, ex.mkref(x), h)
            return
    if isinstance(x, (Str, Own)):
        return emit(ex, h, ('str', x.w))
    if isinstance(x, Enum):
        emit(ex, h, ('tag', ex.prog.enums[x.name].index(x.var)))
        for y in x.fs:
            hash_value(ex, y, h)
        return
    if isinstance(x, Struct) and x.name == '()':
        for y in x.fs:
            hash_value(ex, y, h)
        return
    if isinstance(x, (int, z3.ArithRef)):
        return emit(ex, h, ('tag', x))
    if isinstance(x, (bool, z3.BoolRef)):
        return emit(ex, h, ('tag', z3.If(zb(x), 1, 0) if not isinstance(x, bool) else int(x)))
    if isinstance(x, Ch):
        return emit(ex, h, ('str', (x.a,)))
    s = getattr(x, 'as_str', None)
    if s:
        return emit(ex, h, ('str', s(ex)))
    w = as_text(x)
    if w is not None:
        return emit(ex, h, ('bytes', w))
    raise Unsupported('hash of %r' % (x,))


def emit(ex, h, ev):
    v = ex.load(h)
    ex.store(h, It('hasher', v.data[0] + (ev,)))


@std('discriminant', 'mem::discriminant', 'discriminant_value', 'intrinsics::discriminant_value')
def _(ex, cal, r):
    v = unref(r)
    return ex.prog.enums[v.name].index(v.var)


@std('Hasher::write_str', 'Hasher::write', 'Hasher::write_u8', 'Hasher::write_usize', 'Hasher::write_isize',
     'Hasher::write_u32', 'Hasher::write_u64')
def _(ex, cal, h, v):
    hash_value(ex, v, ex.strip(h))
    return UNIT


@std('type_name', 'any::type_name')
def _(ex, cal):
    raise Unsupported('type_name')

__all__ = [n for n in globals() if not n.startswith('__')]


for _n in ('all', 'any', 'find'):
    STD['Iterator::' + _n] = with_shim(_n, STD['Iterator::' + _n])
