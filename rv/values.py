"""Run-time values of the symbolic MIR interpreter.  All values are immutable; memory is a
set of Cells, references are (cell, path) pairs and writes are functional updates."""
from engine import *


class Cell:
    __slots__ = ('v', 'd')

    def __init__(self, v=None, d=0):
        self.v, self.d = v, d


class Val:
    __slots__ = ()


class Str(Val):
    """&str / &mut str / str"""
    __slots__ = ('w',)

    def __init__(self, w):
        self.w = w if isinstance(w, tuple) else lit(w)

    def __repr__(self):
        return 'Str(%s)' % (show(self.w),)


class Own(Val):
    """String"""
    __slots__ = ('w',)

    def __init__(self, w):
        self.w = w if isinstance(w, tuple) else lit(w)

    def __repr__(self):
        return 'String(%s)' % (show(self.w),)


class Ch(Val):
    __slots__ = ('a',)

    def __init__(self, a):
        self.a = a

    def __repr__(self):
        return 'Ch(%r)' % (chr(self.a) if isinstance(self.a, int) else self.a,)


class Struct(Val):
    __slots__ = ('name', 'fs')

    def __init__(self, name, fs):
        self.name, self.fs = name, tuple(fs)

    def __repr__(self):
        return '%s%r' % (self.name, self.fs)


class Enum(Val):
    __slots__ = ('name', 'var', 'fs')

    def __init__(self, name, var, fs=()):
        self.name, self.var, self.fs = name, var, tuple(fs)

    def __repr__(self):
        return '%s::%s%r' % (self.name, self.var, self.fs)


class Ref(Val):
    __slots__ = ('cell', 'path')

    def __init__(self, cell, path=()):
        self.cell, self.path = cell, path

    def __repr__(self):
        return '&%r%s' % (self.cell.v, list(self.path) if self.path else '')


class Closure(Val):
    __slots__ = ('span', 'caps')

    def __init__(self, span, caps):
        self.span, self.caps = span, tuple(caps)


class FnPtr(Val):
    __slots__ = ('path',)

    def __init__(self, path):
        self.path = path


class It(Val):
    """Iterators and other small library objects: kind + immutable data"""
    __slots__ = ('kind', 'data')

    def __init__(self, kind, *data):
        self.kind, self.data = kind, data

    def __repr__(self):
        return 'It(%s,%r)' % (self.kind, self.data)


class Arr(Val):
    """array / slice / Vec"""
    __slots__ = ('items', 'kind')

    def __init__(self, items, kind='array'):
        self.items, self.kind = tuple(items), kind

    def __repr__(self):
        return '%s%r' % (self.kind, list(self.items))


class Opaque(Val):
    """A value known only by an identity (error values, random ids...)."""
    __slots__ = ('ty', 'key')

    def __init__(self, ty, key):
        self.ty, self.key = ty, key

    def __repr__(self):
        return '<%s %r>' % (self.ty, self.key)


UNIT = Struct('()', ())


def tup(*xs):
    return Struct('()', xs)


NONE = Enum('Option', 'None')


def some(x):
    return Enum('Option', 'Some', (x,))


def ok(x):
    return Enum('Result', 'Ok', (x,))


def err(x):
    return Enum('Result', 'Err', (x,))


def ordering(k):
    return Enum('Ordering', {-1: 'Less', 0: 'Equal', 1: 'Greater'}[k])


def ref(v):
    return Ref(Cell(v, 10 ** 6))


def show(w):
    out = ''
    for a in w:
        out += chr(a) if isinstance(a, int) and 32 <= a < 127 else '{%r}' % (a,)
    return out


def fields(v):
    if isinstance(v, (Struct, Enum)):
        return v.fs
    if isinstance(v, Arr):
        return v.items
    if isinstance(v, Closure):
        return v.caps
    return None


def with_field(v, i, x):
    if isinstance(v, Struct):
        fs = list(v.fs); fs[i] = x
        return Struct(v.name, fs)
    if isinstance(v, Enum):
        fs = list(v.fs); fs[i] = x
        return Enum(v.name, v.var, fs)
    if isinstance(v, Arr):
        fs = list(v.items); fs[i] = x
        return Arr(fs, v.kind)
    if isinstance(v, Closure):
        fs = list(v.caps); fs[i] = x
        return Closure(v.span, fs)
    raise Unsupported('write into %r' % (v,))


def read_path(v, path):
    for i in path:
        fs = fields(v)
        if fs is None or i >= len(fs):
            raise Unsupported('field %r of %r' % (i, v))
        v = fs[i]
    return v


def write_path(v, path, x):
    if not path:
        return x
    i = path[0]
    fs = fields(v)
    if fs is None or i >= len(fs):
        raise Unsupported('write field %r of %r' % (i, v))
    return with_field(v, i, write_path(fs[i], path[1:], x))

__all__ = [n for n in globals() if not n.startswith('__')]
