"""Assumed contract of serde: the data model and the protocol between (de)serializers and the
code under verification.

A serialized document is a tree of the data model.  Three kinds of formats are distinguished by
what the protocol lets them do (all of them must work):

  text     self-describing: structs are maps from field names, in any order; enum variants
           are identified by name; newtype structs are transparent; map keys must be strings
           (JSON, both from text and from a value)
  bytes    like text, but identifiers arrive as bytes
  compact  structs are sequences, enum variants are identified by their index (bincode)

Serializers never fail except for non-string map keys in text formats.  A deserializer hands a
string to any of visit_str, visit_borrowed_str and visit_string (serde's defaults forward them).
`url::Url` serializes as its text and deserializes through its parser; `BiBTreeMap` as the map
of its pairs, deserialized by inserting them one by one."""
from mapm import *
import itertools

MODES = ('text', 'bytes', 'compact')


class Tree(Val):
    __slots__ = ('kind', 'd')
    TY = 'serde tree'

    def __init__(self, kind, *d):
        self.kind, self.d = kind, d

    def __repr__(self):
        return 'Tree(%s %r)' % (self.kind, self.d)


def t_str(w):
    return Tree('str', w)


def de_err(ex, what):
    return err(Opaque('serde error', ('serde', what, ex.ctx.fresh_id())))


def plain(t):
    """newtype structs are transparent"""
    while t.kind == 'newtype':
        t = t.d[1]
    return t


# ------------------------------------------------------------------ serialization
def ser_value(ex, v, mode):
    """Result<Tree, error> of serializing v"""
    s = It('ser', mode)
    x = unref(v)
    if isinstance(x, (Str, Own)):
        return ok(t_str(ex.word(x)))
    if isinstance(x, Ch):
        return ok(t_str((x.a,)))
    if isinstance(x, UrlV):
        return ok(Tree('str', ser(ex, x)))
    if isinstance(x, (bool, z3.BoolRef)):
        return ok(Tree('bool', x))
    if isinstance(x, (int, z3.ArithRef)):
        return ok(Tree('int', x))
    if isinstance(x, MapV):
        if mode != 'compact':
            for k, _ in sample_pairs(ex, x):
                r = ser_value(ex, k, mode)
                if r.var == 'Err':
                    return r
                if plain(r.fs[0]).kind != 'str':
                    return de_err(ex, 'map key is not a string')
        return ok(Tree('map', x))
    if isinstance(x, Enum) and x.name == 'Option':
        if x.var == 'None':
            return ok(Tree('none'))
        r = ser_value(ex, x.fs[0], mode)
        return r if r.var == 'Err' else ok(Tree('some', r.fs[0]))
    if isinstance(x, Enum) and x.name == 'Cow' or isinstance(x, Struct) and x.name == 'Box':
        return ser_value(ex, x.fs[0], mode)
    if isinstance(x, Struct) and x.name == '()':
        if not x.fs:
            return ok(Tree('unit'))
        out = []
        for y in x.fs:
            r = ser_value(ex, y, mode)
            if r.var == 'Err':
                return r
            out.append(r.fs[0])
        return ok(Tree('seq', tuple(out)))
    if isinstance(x, (Struct, Enum)):
        k = impl_key(ex, x.name, 'Serialize', 'serialize')
        if k:
            return ex.call(k, v if isinstance(v, Ref) else ex.mkref(v), s)
    raise Unsupported('serialization of %r' % (x,))


def impl_key(ex, ty, trait, name):
    for k in ex.prog.by_key:
        if k.startswith('<%s as %s' % (ty, trait)) and k.endswith('>::' + name) \
                and k[len('<%s as %s' % (ty, trait))] in '<>':
            return k
    return None


def sample_pairs(ex, m):
    """pairs of a map standing for all of them: an arbitrary one of the base, and the inserted
    ones (whether or not they are still there)"""
    out = [(o[1], o[2]) for o in m.ops if o[0] == 'ins']
    if m.base is not None:
        b = ex.ctx.mapinfo[m.base]
        out.append((b.mkl(ex), b.mkr(ex)))
    return out


def smode(s):
    s = unref(s)
    if isinstance(s, It) and s.kind == 'ser':
        return s.data[0]
    raise Unsupported('serializer %r' % (s,))


@std('Serialize::serialize')
def _(ex, cal, v, s):
    return ser_value(ex, v, smode(s))


@std('Serializer::is_human_readable', 'Deserializer::is_human_readable')
def _(ex, cal, s):
    return unref(s).data[0] != 'compact'


@std('Serializer::serialize_str', 'Serializer::serialize_char', 'Serializer::serialize_bool')
def _(ex, cal, s, v):
    return ser_value(ex, v, smode(s))


@std('Serializer::collect_str')
def _(ex, cal, s, v):
    return ok(t_str(to_string(ex, v).w))


@std('Serializer::serialize_some')
def _(ex, cal, s, v):
    return ser_value(ex, some(v), smode(s))


@std('Serializer::serialize_none')
def _(ex, cal, s):
    return ok(Tree('none'))


@std('Serializer::serialize_unit')
def _(ex, cal, s):
    return ok(Tree('unit'))


def then(r, f):
    return r if r.var == 'Err' else ok(f(r.fs[0]))


def cstr(ex, v):
    w = ex.word(v)
    if not all(isinstance(a, int) for a in w):
        raise Unsupported('computed serde name')
    return ''.join(map(chr, w))


@std('Serializer::serialize_newtype_struct')
def _(ex, cal, s, name, v):
    return then(ser_value(ex, v, smode(s)), lambda t: Tree('newtype', cstr(ex, name), t))


@std('Serializer::serialize_newtype_variant')
def _(ex, cal, s, name, idx, var, v):
    return then(ser_value(ex, v, smode(s)), lambda t: Tree('variant', cstr(ex, name), idx, cstr(ex, var), t))


@std('Serializer::serialize_unit_variant')
def _(ex, cal, s, name, idx, var):
    return ok(Tree('variant', cstr(ex, name), idx, cstr(ex, var), None))


@std('Serializer::serialize_unit_struct')
def _(ex, cal, s, name):
    return ok(Tree('unit'))


@std('Serializer::serialize_struct')
def _(ex, cal, s, name, n):
    return ok(Struct('SerState', (It('ser', smode(s)), 'struct', (cstr(ex, name), n), ())))


@std('Serializer::serialize_struct_variant')
def _(ex, cal, s, name, idx, var, n):
    return ok(Struct('SerState', (It('ser', smode(s)), 'structvar', (cstr(ex, name), n, idx, cstr(ex, var)), ())))


@std('Serializer::serialize_tuple', 'Serializer::serialize_tuple_struct')
def _(ex, cal, s, *a):
    return ok(Struct('SerState', (It('ser', smode(s)), 'seq', ('', a[-1]), ())))


@std('Serializer::serialize_map')
def _(ex, cal, s, n):
    return ok(Struct('SerState', (It('ser', smode(s)), 'pairs', ('', None), ())))


def ser_push(ex, r, item):
    r = ex.strip(r)
    st = ex.load(r)
    if not isinstance(st, Struct) or st.name != 'SerState':
        raise Unsupported('serializer state %r' % (st,))
    ex.store(r, Struct('SerState', st.fs[:3] + (st.fs[3] + (item,),)))
    return ok(UNIT)


@std('SerializeStruct::serialize_field', 'SerializeStructVariant::serialize_field')
def _(ex, cal, r, key, v):
    t = ser_value(ex, v, smode(unref(r).fs[0]))
    return t if t.var == 'Err' else ser_push(ex, r, (cstr(ex, key), t.fs[0]))


@std('SerializeStruct::skip_field', 'SerializeStructVariant::skip_field')
def _(ex, cal, r, key):
    return ok(UNIT)


@std('SerializeTuple::serialize_element', 'SerializeTupleStruct::serialize_field', 'SerializeSeq::serialize_element')
def _(ex, cal, r, v):
    t = ser_value(ex, v, smode(unref(r).fs[0]))
    return t if t.var == 'Err' else ser_push(ex, r, t.fs[0])


@std('SerializeMap::serialize_entry')
def _(ex, cal, r, k, v):
    mode = smode(unref(r).fs[0])
    a, b = ser_value(ex, k, mode), ser_value(ex, v, mode)
    if a.var == 'Err':
        return a
    if b.var == 'Err':
        return b
    if mode != 'compact' and plain(a.fs[0]).kind != 'str':
        return de_err(ex, 'map key is not a string')
    return ser_push(ex, r, (a.fs[0], b.fs[0]))


@std('SerializeStruct::end', 'SerializeTuple::end', 'SerializeTupleStruct::end', 'SerializeMap::end',
     'SerializeStructVariant::end', 'SerializeSeq::end')
def _(ex, cal, st):
    s, kind, hd, items = unref(st).fs
    if hd[1] is not None and (not isinstance(hd[1], int) or hd[1] != len(items)):
        raise Unsupported('announced and actual number of fields differ')
    if kind == 'struct':
        return ok(Tree('struct', hd[0], items))
    if kind == 'structvar':
        return ok(Tree('variant', hd[0], hd[2], hd[3], Tree('struct', hd[0], items)))
    return ok(Tree(kind, items))


# ------------------------------------------------------------------ deserialization
def deser(ex, ty, t, mode):
    return de_type(ex, ty, It('de', mode, t))


def de_tree(d):
    d = unref(d)
    if isinstance(d, It) and d.kind == 'de':
        return d.data[1], d.data[0]
    raise Unsupported('deserializer %r' % (d,))


def visitor_of(text):
    """(owner, visitor) named by the type text of a visitor"""
    m = re.search(r'for (\w+)(?:<[^<>]*>)?>(?:::deserialize)?::(__\w+)', text)
    if m:
        return m.group(1), m.group(2)
    return None, re.sub(r"<.*$", '', text).split('::')[-1].strip()


def serde_index(ex):
    ix = ex.prog.__dict__.get('_serde')
    if ix is None:
        ix = {}
        for k, f in ex.prog.by_key.items():
            o = getattr(f, 'serde_owner', None)
            if o is None or not f.params:
                continue
            name = k.split('>::')[-1].split('/')[0]
            t = f.params[0][1]
            if name == 'deserialize':
                ix[(o, '__Field', name)] = f
            else:
                m = re.search(r'::deserialize::(__\w+)', t)
                if m:
                    ix[(o, m.group(1), name)] = f
        ex.prog._serde = ix
    return ix


def visitor_fn(ex, vt, method):
    o, v = visitor_of(vt)
    if o is not None:
        return serde_index(ex).get((o, v, method))
    k = impl_key(ex, v, 'Visitor', method)
    return ex.prog.by_key[k] if k else None


def visit(ex, vt, vis, method, *args):
    f = visitor_fn(ex, vt, method)
    if f is not None:
        ex.ctx.stats.inlined.add('%s::%s' % (visitor_of(vt)[0] or visitor_of(vt)[1], method))
        return ex.call_fn(f, [vis] + list(args))
    if method in ('visit_string', 'visit_borrowed_str'):
        return visit(ex, vt, vis, 'visit_str', *[Str(ex.word(a)) for a in args])
    if method in ('visit_borrowed_bytes', 'visit_byte_buf'):
        return visit(ex, vt, vis, 'visit_bytes', *args)
    return de_err(ex, 'invalid type: ' + method)


def visit_text(ex, vt, vis, w):
    """a string arrives through any of the three string methods"""
    own = [m for m in ('visit_borrowed_str', 'visit_string') if visitor_fn(ex, vt, m) is not None]
    n = ex.ctx.choose(1 + len(own)) if own else 0
    m = (['visit_str'] + own)[n]
    return visit(ex, vt, vis, m, Own(w) if m == 'visit_string' else Str(w))


def ident(ex, vt, vis, name, idx, mode):
    if mode == 'compact':
        return visit(ex, vt, vis, 'visit_u64' if visitor_fn(ex, vt, 'visit_u64') else 'visit_u32', idx)
    if mode == 'bytes' and visitor_fn(ex, vt, 'visit_bytes') is not None:
        return visit(ex, vt, vis, 'visit_bytes', Arr(tuple(name.encode()), 'bytes'))
    return visit_text(ex, vt, vis, lit(name))


def vtype(ex, cal, vis):
    if cal.generics:
        t = cal.generics[-1]
        if not re.match(r'^_*[A-Z]\w*$', t) or ex.is_struct(t.lstrip('_')) or visitor_of(t)[0]:
            return t
    v = unref(vis)
    if isinstance(v, Struct):
        return v.name
    raise Unsupported('visitor type of ' + cal.text[:80])


def dispatch(ex, vt, vis, t, mode, hint):
    """deserialize_<hint>: call the visitor method the document has"""
    if hint == 'newtype_struct':
        if t.kind == 'newtype':
            t = t.d[1]
        return visit(ex, vt, vis, 'visit_newtype_struct', It('de', mode, t))
    if hint in ('enum',):
        t = plain(t)
        if t.kind == 'variant':
            return visit(ex, vt, vis, 'visit_enum', It('enumacc', mode, t))
        if t.kind == 'str' and mode != 'compact':
            w = ex.ctx.norm(t.d[0])
            if not all(isinstance(a, int) for a in w):
                return de_err(ex, 'unknown variant')
            return visit(ex, vt, vis, 'visit_enum', It('enumacc', mode, Tree('variant', '', 0, ''.join(map(chr, w)), None)))
        return de_err(ex, 'not an enum')
    t = plain(t)
    if hint == 'identifier':
        if t.kind == 'ident':
            return ident(ex, vt, vis, t.d[0], t.d[1], mode)
    if hint == 'option':
        if t.kind == 'none':
            return visit(ex, vt, vis, 'visit_none')
        return visit(ex, vt, vis, 'visit_some', It('de', mode, t.d[0] if t.kind == 'some' else t))
    if t.kind == 'str':
        if mode == 'compact' and hint not in ('str', 'string', 'identifier'):
            return de_err(ex, 'shape')
        return visit_text(ex, vt, vis, t.d[0])
    if t.kind == 'struct':
        fs = t.d[1]
        if mode == 'compact':
            if hint not in ('struct', 'tuple', 'tuple_struct'):
                return de_err(ex, 'shape')
            return visit(ex, vt, vis, 'visit_seq', It('seqacc', mode, tuple(x for _, x in fs)))
        if len(fs) > 1:
            ps = list(itertools.permutations(fs)) if len(fs) < 4 else [fs, fs[::-1]]
            fs = ps[ex.ctx.choose(len(ps))]
        return visit(ex, vt, vis, 'visit_map', It('mapacc', mode, tuple((Tree('ident', k, i), x) for i, (k, x) in enumerate(fs)), None))
    if t.kind == 'seq':
        return visit(ex, vt, vis, 'visit_seq', It('seqacc', mode, t.d[0]))
    if t.kind == 'pairs':
        return visit(ex, vt, vis, 'visit_map', It('mapacc', mode, t.d[0], None))
    if t.kind == 'bool':
        return visit(ex, vt, vis, 'visit_bool', t.d[0])
    if t.kind == 'int':
        return visit(ex, vt, vis, 'visit_u64', t.d[0])
    if t.kind == 'unit':
        return visit(ex, vt, vis, 'visit_unit')
    if t.kind in ('none', 'some') and mode != 'compact':
        if t.kind == 'none':
            return visit(ex, vt, vis, 'visit_unit')
        return dispatch(ex, vt, vis, t.d[0], mode, hint)
    if t.kind == 'variant':
        return de_err(ex, 'shape')
    raise Unsupported('deserialize_%s of %r' % (hint, t))


for _h in ('any', 'str', 'string', 'identifier', 'newtype_struct', 'struct', 'enum', 'map', 'seq', 'tuple',
           'tuple_struct', 'option', 'bool', 'u64', 'u32', 'u8', 'char', 'unit', 'ignored_any'):
    def _mk(h):
        def f(ex, cal, d, *a):
            t, mode = de_tree(d)
            if h == 'any' and mode == 'compact':
                return de_err(ex, 'deserialize_any in a compact format')
            return dispatch(ex, vtype(ex, cal, a[-1]), a[-1], t, mode, h)
        return f
    STD['Deserializer::deserialize_' + _h] = _mk(_h)


def de_type(ex, ty, d):
    """<ty as Deserialize>::deserialize(d)"""
    ty = ty.strip()
    t, mode = de_tree(d)
    o, v = visitor_of(ty)
    if o is not None:
        f = serde_index(ex).get((o, '__Field', 'deserialize'))
        if v == '__Field' and f is not None:
            return ex.call_fn(f, [d])
        raise Unsupported('Deserialize for ' + ty)
    b = re.sub(r'<.*$', '', ty).split('::')[-1].strip()
    if b == 'IgnoredAny':
        return de_err(ex, 'ignored value in a compact format') if mode == 'compact' else ok(Struct('IgnoredAny', ()))
    k = impl_key(ex, b, 'Deserialize', 'deserialize')
    if k is not None:
        return ex.call(k, d)
    t = plain(t)
    if b in ('String', 'Cow', 'Box') or ty.endswith('str'):
        if t.kind != 'str':
            return de_err(ex, 'not a string')
        if ty.startswith('&') and ex.ctx.choose(2):
            return de_err(ex, 'the text cannot be borrowed')
        x = Own(t.d[0]) if not ty.startswith('&') else Str(t.d[0])
        if b == 'Cow':
            x = Enum('Cow', 'Owned', (x,))
        return ok(x)
    if b == 'Url':
        if t.kind != 'str':
            return de_err(ex, 'not a string')
        r = parse(ex, t.d[0])
        return r if r.var == 'Ok' else de_err(ex, 'invalid url')
    if b == 'Option':
        inner = ty[ty.index('<') + 1:-1]
        if t.kind == 'none':
            return ok(NONE)
        return then(de_type(ex, inner, It('de', mode, t.d[0] if t.kind == 'some' else t)), some)
    if b == 'BiBTreeMap':
        kt, vt = mir.split_top(ty[ty.index('<') + 1:-1])[:2]
        if t.kind == 'map':
            m = t.d[0]
            for k, v in sample_pairs(ex, m):
                for a, at in ((k, kt), (v, vt)):
                    s = ser_value(ex, a, mode)
                    if s.var == 'Err':
                        return s
                    r = deser(ex, at, s.fs[0], mode)
                    ex.ctx.prove(r.var == 'Ok', 'a component of a map deserializes')
                    ex.ctx.prove(seq(ex, r.fs[0], a), 'a component of a map deserializes to itself')
            return ok(m)
        if t.kind == 'pairs':
            m = MapV(None)
            for a, b in t.d[0]:
                x = deser(ex, kt, a, mode)
                if x.var == 'Err':
                    return x
                y = deser(ex, vt, b, mode)
                if y.var == 'Err':
                    return y
                m = MapV(m.base, m.ops + (('ins', x.fs[0], y.fs[0]),))
            return ok(m)
        return de_err(ex, 'not a map')
    if b == 'bool' and t.kind == 'bool' or b in INT_BITS and t.kind == 'int':
        return ok(t.d[0])
    if t.kind in ('str', 'struct', 'map', 'seq') and b in ('bool', 'u8', 'u32', 'u64', 'usize'):
        return de_err(ex, 'shape')
    raise Unsupported('Deserialize for ' + ty)


@std('Deserialize::deserialize')
def _(ex, cal, d):
    return de_type(ex, cal.selfty, d)


def seed_type(cal):
    if not cal.generics:
        raise Unsupported('type argument of ' + cal.text[:80])
    return cal.generics[0]


@std('SeqAccess::next_element')
def _(ex, cal, r):
    r = ex.strip(r)
    a = ex.load(r)
    mode, items = a.data
    if not items:
        return ok(NONE)
    ex.store(r, It('seqacc', mode, items[1:]))
    return then(de_type(ex, seed_type(cal), It('de', mode, items[0])), some)


@std('SeqAccess::size_hint', 'MapAccess::size_hint')
def _(ex, cal, r):
    return NONE


@std('MapAccess::next_key')
def _(ex, cal, r):
    r = ex.strip(r)
    a = ex.load(r)
    mode, items, _ = a.data
    if not items:
        return ok(NONE)
    k = items[0][0]
    ty = seed_type(cal)
    if k.kind == 'ident' and visitor_of(ty)[0] is None and re.sub(r'<.*$', '', ty).split('::')[-1] in ('String', 'Cow', 'str'):
        k = t_str(lit(k.d[0]))
    ex.store(r, It('mapacc', mode, items[1:], items[0][1]))
    return then(de_type(ex, ty, It('de', mode, k)), some)


@std('MapAccess::next_value')
def _(ex, cal, r):
    r = ex.strip(r)
    a = ex.load(r)
    mode, items, v = a.data
    if v is None:
        raise Unsupported('next_value without next_key')
    ex.store(r, It('mapacc', mode, items, None))
    return de_type(ex, seed_type(cal), It('de', mode, v))


@std('MapAccess::next_entry')
def _(ex, cal, r):
    r = ex.strip(r)
    mode, items, _ = ex.load(r).data
    if not items:
        return ok(NONE)
    ex.store(r, It('mapacc', mode, items[1:], None))
    k = items[0][0]
    k = t_str(lit(k.d[0])) if k.kind == 'ident' else k
    x = de_type(ex, cal.generics[0], It('de', mode, k))
    if x.var == 'Err':
        return x
    y = de_type(ex, cal.generics[1], It('de', mode, items[0][1]))
    return then(y, lambda v: some(tup(x.fs[0], v)))


@std('EnumAccess::variant')
def _(ex, cal, a):
    a = unref(a)
    mode, t = a.data
    r = de_type(ex, seed_type(cal), It('de', mode, Tree('ident', t.d[2], t.d[1])))
    return then(r, lambda v: tup(v, It('varacc', mode, t)))


@std('VariantAccess::newtype_variant')
def _(ex, cal, a):
    mode, t = unref(a).data
    if t.d[3] is None:
        return de_err(ex, 'unit variant')
    return de_type(ex, seed_type(cal), It('de', mode, t.d[3]))


@std('VariantAccess::unit_variant')
def _(ex, cal, a):
    mode, t = unref(a).data
    return ok(UNIT) if t.d[3] is None else de_err(ex, 'not a unit variant')


@std('VariantAccess::struct_variant')
def _(ex, cal, a, fields_, vis):
    mode, t = unref(a).data
    if t.d[3] is None:
        return de_err(ex, 'unit variant')
    return dispatch(ex, vtype(ex, cal, vis), vis, t.d[3], mode, 'struct')


@std('Error::custom', 'Error::duplicate_field', 'Error::missing_field', 'Error::invalid_length', 'Error::invalid_value',
     'Error::unknown_variant', 'Error::unknown_field', 'Error::invalid_type')
def _(ex, cal, *a):
    return de_err(ex, cal.name).fs[0]


@std('de::missing_field')
def _(ex, cal, name):
    if cal.generics and any(re.match(r'^(std::option::)?Option<', g) for g in cal.generics):
        return ok(NONE)
    return de_err(ex, 'missing field')


@std('__private229::from_utf8_lossy')
def _(ex, cal, b):
    return Enum('Cow', 'Owned', (Own(lit('?')),))


__all__ = [n for n in globals() if not n.startswith('__')]
