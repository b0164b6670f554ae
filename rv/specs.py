"""Contracts of the functions of rdftk_iri.

A contract is (key, arguments, spec): `arguments` builds the most general arguments allowed
by the precondition, `spec` is the functional postcondition, written as a function of the
pre-state that returns the required result and performs the required writes through `&mut`
arguments.  The obligation is: for every argument, the body does not panic, its result
equals the specified one and so does every place reachable from a `&mut` argument.
Callers verified afterwards see only the contract."""
from serdem import *

# ------------------------------------------------------------------ grammar (SPARQL 1.1)
PN_CHARS_BASE = cs((0x41, 0x5A), (0x61, 0x7A), (0xC0, 0xD6), (0xD8, 0xF6), (0xF8, 0x2FF), (0x370, 0x37D),
                   (0x37F, 0x1FFF), (0x200C, 0x200D), (0x2070, 0x218F), (0x2C00, 0x2FEF), (0x3001, 0xD7FF),
                   (0xF900, 0xFDCF), (0xFDF0, 0xFFFD), (0x10000, 0xEFFFF))
PN_CHARS_U = PN_CHARS_BASE | cs('_')
PN_CHARS = PN_CHARS_U | cs('-', (0x30, 0x39), 0xB7, (0x300, 0x36F), (0x203F, 0x2040))
LOCAL_FIRST = PN_CHARS_U | cs((0x30, 0x39))
REST = PN_CHARS | cs('.')
COLON, SLASH, DOT = 58, 47, 46


def valid_pn(ctx, w, first):
    h = ctx.head(w)
    if h is None:
        return False
    if not ctx.branch(first.at(h[0])):
        return False
    if not ctx.all_chars(h[1], REST):
        return False
    l = ctx.last(w)
    return not ctx.branch(_ceq(l[1], DOT))


def valid_name(ctx, w):
    return valid_pn(ctx, w, LOCAL_FIRST)


def ns_prefix(ctx, w):
    """word before a final ':', or None"""
    l = ctx.last(w)
    if l is None or not ctx.branch(_ceq(l[1], COLON)):
        return None
    return l[0]


def valid_ns(ctx, w):
    p = ns_prefix(ctx, w)
    if p is None:
        return False
    return ctx.is_empty(p) or valid_pn(ctx, p, PN_CHARS_BASE)


# ------------------------------------------------------------------ values
def Name(w):
    return Struct('Name', [Own(w)])


def NS(w):
    return Struct('Namespace', [Own(w)])


def Local(n, l):
    return Struct('LocalName', [n, l])


def IRI(u):
    return Struct('Iri', [u])


def W(v):
    """text of a Name / Namespace"""
    v = unref(v)
    return v.fs[0].w


def UU(v):
    return unref(v).fs[0]


def text(v):
    """text of a name of any kind"""
    v = unref(v)
    if v.name in ('Name', 'Namespace'):
        return v.fs[0].w
    if v.name == 'LocalName':
        return text(v.fs[0]) + text(v.fs[1])
    if v.name == 'PrefixedName':
        return text(v.fs[0])
    raise Unsupported('text of %r' % (v,))


def perr(kind, w=None):
    return err(Enum('NameParseError', kind, () if w is None else (Own(w),)))


# ------------------------------------------------------------------ arbitrary values
def inp(ex, kind, v):
    if ex.ctx.depth == 0:
        ex.ctx.inputs.append((kind, v))
    if isinstance(v, Struct) and v.fs and isinstance(v.fs[0], Own):
        ex.fits(v.fs[0])
    return v


def any_text(ex, name='s'):
    w = ex.ctx.input_word(name)
    inp(ex, 'text', Str(w))
    return w


def pn_word(ex, first, name):
    """an arbitrary word of the PN grammar"""
    ctx = ex.ctx
    c = ctx.fresh_char(first, name + '_first')
    if ctx.choose(2) == 0:
        return (c,)
    m = ctx.fresh_sv(name + '_mid', REST)
    l = ctx.fresh_char(REST - cs('.'), name + '_last')
    return (c, m, l)


def any_name(ex):
    """any valid Name"""
    return inp(ex, 'name', Name(pn_word(ex, LOCAL_FIRST, 'name')))


def any_name_sv(ex):
    """any Name at all, valid or not"""
    return inp(ex, 'rawname', Name(ex.ctx.input_word('rawname')))


def any_ns(ex):
    """any valid Namespace"""
    w = () if ex.ctx.choose(2) == 0 else pn_word(ex, PN_CHARS_BASE, 'prefix')
    return inp(ex, 'ns', NS(w + (COLON,)))


def any_ns_sv(ex):
    """any Namespace a constructor can produce: a text ending in ':'"""
    return inp(ex, 'rawns', NS(ex.ctx.input_word('rawns') + (COLON,)))


def any_local(ex):
    n = any_ns(ex)
    return Local(n, any_name(ex))


def any_local_sv(ex):
    n = any_ns_sv(ex)
    return Local(n, any_name_sv(ex))


def any_iri(ex, name='u'):
    return inp(ex, 'iri', IRI(fresh_url(ex, name)))


def any_pname(ex):
    if ex.ctx.choose(2) == 0:
        return Enum('PrefixedName', 'Namespace', (any_ns_sv(ex),))
    return Enum('PrefixedName', 'Local', (any_local_sv(ex),))


def any_iriref(ex):
    if ex.ctx.choose(2) == 0:
        return Enum('IriRef', 'Iri', (any_iri(ex),))
    return Enum('IriRef', 'PrefixedName', (any_pname(ex),))


def quiet_ns(ex):
    n = NS(ex.ctx.input_word('mapns') + (COLON,))
    ex.fits(n.fs[0])
    return n


def quiet_iri(ex):
    return IRI(fresh_url(ex, 'mapiri'))


def any_map(ex):
    m = fresh_map(ex, quiet_ns, quiet_iri)
    inp(ex, 'map', m)
    return Struct('IriPrefixMap', [m])


def R(ex, v):
    return ex.mkref(v)


# ------------------------------------------------------------------ contracts
class Contract:
    def __init__(self, key, args, spec):
        self.key, self.args, self.spec = key, args, spec


CONTRACTS = {}


def contract(key, args):
    def deco(f):
        CONTRACTS[key] = Contract(key, args, f)
        return f
    return deco


def a_text(ex):
    return [Str(any_text(ex))]


def a_into(ex):
    """S: Into<String>"""
    w = any_text(ex)
    return [Str(w) if ex.ctx.choose(2) == 0 else Own(w)]


# -- Name
@contract('<Name as FromStr>::from_str', a_text)
def _(ex, s):
    w = ex.word(s)
    if ex.ctx.is_empty(w):
        return perr('EmptyString')
    return ok(Name(w)) if valid_name(ex.ctx, w) else perr('InvalidCharacter', w)


@contract('<Name as TryFrom<String>>::try_from', lambda ex: [Own(any_text(ex))])
def _(ex, s):
    return CONTRACTS['<Name as FromStr>::from_str'].spec(ex, s)


@contract('Name::is_valid_str', a_text)
def _(ex, s):
    return valid_name(ex.ctx, ex.word(s))


@contract('Name::new_unchecked', a_into)
def _(ex, s):
    return Name(ex.word(s))


@contract('Name::qualify', lambda ex: [R(ex, any_name_sv(ex)), R(ex, any_ns_sv(ex))])
def _(ex, n, ns):
    return Local(unref(ns), unref(n))


# -- Namespace
@contract('<Namespace as FromStr>::from_str', a_text)
def _(ex, s):
    ctx, w = ex.ctx, ex.word(s)
    if ctx.is_empty(w):
        return perr('EmptyString')
    p = ns_prefix(ctx, w)
    if p is None:
        return perr('MissingSeparator', w)
    if not ctx.all_chars(p, cs(':').neg()):
        return perr('TooManySeparators', w)
    if ctx.is_empty(p) or valid_pn(ctx, p, PN_CHARS_BASE):
        return ok(NS(w))
    return perr('InvalidCharacter', w)


@contract('<Namespace as TryFrom<String>>::try_from', lambda ex: [Own(any_text(ex))])
def _(ex, s):
    return CONTRACTS['<Namespace as FromStr>::from_str'].spec(ex, s)


def with_colon(ex, w):
    return w if ns_prefix(ex.ctx, w) is not None else w + (COLON,)


@contract('Namespace::new_named', a_into)
def _(ex, s):
    return CONTRACTS['<Namespace as FromStr>::from_str'].spec(ex, Str(with_colon(ex, ex.word(s))))


@contract('Namespace::new_unchecked', a_into)
def _(ex, s):
    return NS(with_colon(ex, ex.word(s)))


@contract('Namespace::new_default', lambda ex: [])
def _(ex):
    return NS(lit(':'))


@contract('Namespace::is_valid_str', a_text)
def _(ex, s):
    return valid_ns(ex.ctx, ex.word(s))


@contract('Namespace::is_default', lambda ex: [R(ex, any_ns_sv(ex))])
def _(ex, n):
    return ex.ctx.word_eq(W(n), lit(':'))


@contract('Namespace::name_string', lambda ex: [R(ex, any_ns_sv(ex))])
def _(ex, n):
    p = ns_prefix(ex.ctx, W(n))
    if p is None:
        raise RustPanic('a namespace text ends with the separator')
    return NONE if ex.ctx.is_empty(p) else some(Str(p))


@contract('Namespace::qualify', lambda ex: [R(ex, any_ns_sv(ex)), R(ex, any_name_sv(ex))])
def _(ex, ns, n):
    return Local(unref(ns), unref(n))


# -- LocalName
@contract('<LocalName as FromStr>::from_str', a_text)
def _(ex, s):
    ctx, w = ex.ctx, ex.word(s)
    if ctx.is_empty(w):
        return perr('EmptyString')
    x = ctx.split_first(w, cs(':'))
    if x is None:
        return perr('MissingSeparator', w)
    r1 = CONTRACTS['<Namespace as FromStr>::from_str'].spec(ex, Str(x[0] + (x[1],)))
    if r1.var == 'Err':
        return r1
    r2 = CONTRACTS['<Name as FromStr>::from_str'].spec(ex, Str(x[2]))
    if r2.var == 'Err':
        return r2
    return ok(Local(r1.fs[0], r2.fs[0]))


@contract('LocalName::new', lambda ex: [any_ns_sv(ex), any_name_sv(ex)])
def _(ex, ns, n):
    return Local(ns, n)


@contract('LocalName::new_in_default', lambda ex: [any_name_sv(ex)])
def _(ex, n):
    return Local(NS(lit(':')), n)


@contract('LocalName::new_unchecked', lambda ex: a_into(ex) + a_into(ex))
def _(ex, a, b):
    return Local(NS(with_colon(ex, ex.word(a))), Name(ex.word(b)))


@contract('LocalName::namespace', lambda ex: [R(ex, any_local_sv(ex))])
def _(ex, l):
    return unref(l).fs[0]


@contract('LocalName::name', lambda ex: [R(ex, any_local_sv(ex))])
def _(ex, l):
    return unref(l).fs[1]


@contract('LocalName::is_namespace_default', lambda ex: [R(ex, any_local_sv(ex))])
def _(ex, l):
    return ex.ctx.word_eq(W(unref(l).fs[0]), lit(':'))


@contract('LocalName::as_curie', lambda ex: [R(ex, any_local_sv(ex))])
def _(ex, l):
    return Own((91,) + text(l) + (93,))


# -- text of names
def fmt_contract(ty, mk):
    @contract('<%s as Display>::fmt' % ty, lambda ex: [R(ex, mk(ex)), formatter(ex)])
    def _(ex, v, f):
        return fwrite(ex, unref(f), text(v))


def formatter(ex, alt=False):
    buf = ex.new(Own(()))
    return R(ex, Struct('Formatter', (Ref(buf), alt, True)))


for _t, _mk in (('Name', any_name_sv), ('Namespace', any_ns_sv), ('LocalName', any_local_sv),
                ('PrefixedName', any_pname)):
    fmt_contract(_t, _mk)

for _t, _mk in (('Name', any_name_sv), ('Namespace', any_ns_sv), ('LocalName', any_local_sv)):
    if _t != 'LocalName':
        contract('<%s as AsRef<str>>::as_ref' % _t, lambda ex, mk=_mk: [R(ex, mk(ex))])(lambda ex, v: Str(text(v)))
    contract('<String as From<%s>>::from' % _t, lambda ex, mk=_mk: [mk(ex)])(lambda ex, v: Own(text(v)))
    contract('<String as From<&%s>>::from' % _t, lambda ex, mk=_mk: [R(ex, mk(ex))])(lambda ex, v: Own(text(v)))

# -- PrefixedName, IriRef
for _t, _v, _mk in (('Namespace', 'Namespace', any_ns_sv), ('LocalName', 'Local', any_local_sv)):
    contract('<PrefixedName as From<%s>>::from' % _t, lambda ex, mk=_mk: [mk(ex)])(
        lambda ex, v, var=_v: Enum('PrefixedName', var, (v,)))
    contract('<PrefixedName as From<&%s>>::from' % _t, lambda ex, mk=_mk: [R(ex, mk(ex))])(
        lambda ex, v, var=_v: Enum('PrefixedName', var, (unref(v),)))
for _t, _v, _mk in (('Iri', 'Iri', any_iri), ('PrefixedName', 'PrefixedName', any_pname)):
    contract('<IriRef as From<%s>>::from' % _t, lambda ex, mk=_mk: [mk(ex)])(
        lambda ex, v, var=_v: Enum('IriRef', var, (v,)))
    contract('<IriRef as From<&%s>>::from' % _t, lambda ex, mk=_mk: [R(ex, mk(ex))])(
        lambda ex, v, var=_v: Enum('IriRef', var, (unref(v),)))


def any_nameerr(ex):
    k = ex.ctx.choose(4)
    kind = ('EmptyString', 'InvalidCharacter', 'TooManySeparators', 'MissingSeparator')[k]
    return Enum('NameParseError', kind, () if k == 0 else (Own(any_text(ex)),))


def any_urlerr(ex):
    return Opaque('ParseError', ex.ctx.fresh_id())


def any_error(ex):
    if ex.ctx.choose(2) == 0:
        return Enum('Error', 'Name', (any_nameerr(ex),))
    return Enum('Error', 'Url', (any_urlerr(ex),))


contract('<Error as From<NameParseError>>::from', lambda ex: [any_nameerr(ex)])(
    lambda ex, e: Enum('Error', 'Name', (e,)))
contract('<Error as From<ParseError>>::from', lambda ex: [any_urlerr(ex)])(
    lambda ex, e: Enum('Error', 'Url', (e,)))

# classification and projection of the enums
for _e, _mk, _vars in (('PrefixedName', any_pname, (('Namespace', 'namespace'), ('Local', 'local'))),
                       ('IriRef', any_iriref, (('Iri', 'iri'), ('PrefixedName', 'prefixed_name'))),
                       ('Error', any_error, (('Name', 'name'), ('Url', 'url'))),
                       ('NameParseError', any_nameerr, (('EmptyString', 'empty_string'),
                                                        ('InvalidCharacter', 'invalid_character'),
                                                        ('TooManySeparators', 'too_many_separators'),
                                                        ('MissingSeparator', 'missing_separator')))):
    for _v, _s in _vars:
        contract('%s::is_%s' % (_e, _s), lambda ex, mk=_mk: [R(ex, mk(ex))])(
            lambda ex, v, var=_v: unref(v).var == var)
        if _v == 'EmptyString':
            continue
        contract('%s::try_as_%s' % (_e, _s), lambda ex, mk=_mk: [mk(ex)])(
            lambda ex, v, var=_v: some(unref(v).fs[0]) if unref(v).var == var else NONE)
        contract('%s::try_as_%s_ref' % (_e, _s), lambda ex, mk=_mk: [R(ex, mk(ex))])(
            lambda ex, v, var=_v: some(unref(v).fs[0]) if unref(v).var == var else NONE)
        contract('%s::try_as_%s_mut' % (_e, _s), lambda ex, mk=_mk: [R(ex, mk(ex))])(
            lambda ex, v, var=_v: some(unref(v).fs[0]) if unref(v).var == var else NONE)


# -- Iri
def unwrap_angle(ex, w):
    ctx = ex.ctx
    h = ctx.head(w)
    if h is None or not ctx.branch(_ceq(h[0], 60)):
        return w
    l = ctx.last(h[1])
    if l is None or not ctx.branch(_ceq(l[1], 62)):
        return w
    return l[0]


@contract('<Iri as FromStr>::from_str', a_text)
def _(ex, s):
    r = parse(ex, unwrap_angle(ex, ex.word(s)))
    return ok(IRI(r.fs[0])) if r.var == 'Ok' else r


@contract('<Iri as TryFrom<&str>>::try_from', a_text)
def _(ex, s):
    return CONTRACTS['<Iri as FromStr>::from_str'].spec(ex, s)


@contract('<Iri as Display>::fmt', lambda ex: [R(ex, any_iri(ex)), formatter(ex, ex.ctx.choose(2) == 1)])
def _(ex, v, f):
    f = unref(f)
    w = ser(ex, UU(v))
    return fwrite(ex, f, w if f.fs[1] else (60,) + w + (62,))


@contract('<IriRef as Display>::fmt', lambda ex: [R(ex, any_iriref(ex)), formatter(ex)])
def _(ex, v, f):
    v = unref(v)
    if v.var == 'Iri':
        return CONTRACTS['<Iri as Display>::fmt'].spec(ex, v.fs[0], f)
    return fwrite(ex, unref(f), text(v.fs[0]))


contract('<Iri as From<Url>>::from', lambda ex: [UU(any_iri(ex))])(lambda ex, u: IRI(u))
contract('<Iri as From<&Url>>::from', lambda ex: [R(ex, UU(any_iri(ex)))])(lambda ex, u: IRI(unref(u)))
contract('<Url as From<Iri>>::from', lambda ex: [any_iri(ex)])(lambda ex, v: UU(v))
contract('<Url as From<&Iri>>::from', lambda ex: [R(ex, any_iri(ex))])(lambda ex, v: UU(v))
contract('<Iri as AsRef<Url>>::as_ref', lambda ex: [R(ex, any_iri(ex))])(lambda ex, v: UU(v))
contract('<Iri as AsMut<Url>>::as_mut', lambda ex: [R(ex, any_iri(ex))])(
    lambda ex, v: Ref(ex.strip(v).cell, ex.strip(v).path + (0,)))
contract('<Iri as AsRef<str>>::as_ref', lambda ex: [R(ex, any_iri(ex))])(lambda ex, v: Str(ser(ex, UU(v))))


@contract('Iri::with_new_path', lambda ex: [R(ex, any_iri(ex)), Str(any_text(ex))])
def _(ex, v, s):
    return IRI(set_path(ex, UU(v), ex.word(s)))


@contract('Iri::with_new_fragment', lambda ex: [R(ex, any_iri(ex)), Str(any_text(ex))])
def _(ex, v, s):
    return IRI(set_fragment(ex, UU(v), ex.word(s)))


@contract('Iri::with_empty_fragment', lambda ex: [R(ex, any_iri(ex))])
def _(ex, v):
    return IRI(UU(v).upd(frag=()))


@contract('Iri::with_no_fragment', lambda ex: [R(ex, any_iri(ex))])
def _(ex, v):
    return IRI(set_fragment(ex, UU(v), None))


def path_is_dir(ex, u):
    l = ex.ctx.last(path(ex, u))
    return l is not None and ex.ctx.branch(_ceq(l[1], SLASH))


@contract('Iri::looks_like_namespace', lambda ex: [R(ex, any_iri(ex))])
def _(ex, v):
    u = UU(v)
    f = frag(ex, u)
    if f is not None and ex.ctx.is_empty(f):
        return True
    return path_is_dir(ex, u) and query(ex, u) is None


@contract('Iri::make_name', lambda ex: [R(ex, any_iri(ex)), any_name(ex)])
def _(ex, v, n):
    u = UU(v)
    if frag(ex, u) is not None:
        return some(IRI(set_fragment(ex, u, W(n))))
    if path_is_dir(ex, u) and query(ex, u) is None:
        return some(IRI(set_path(ex, u, path(ex, u) + W(n))))
    return NONE


def split_spec(ex, u):
    """(namespace Url, name word) or None"""
    ctx = ex.ctx
    f = frag(ex, u)
    if f is not None:
        if not ctx.is_empty(f) and valid_name(ctx, f):
            return u.upd(frag=()), f
        return None
    if query(ex, u) is not None or cbb(ex, u):
        return None
    x = ctx.split_last(path(ex, u), cs('/'))
    if x is None or not valid_name(ctx, x[2]):
        return None
    return u.upd(path=x[0] + (x[1],)), x[2]


@contract('Iri::split', lambda ex: [R(ex, any_iri(ex))])
def _(ex, v):
    r = split_spec(ex, UU(v))
    return NONE if r is None else some(tup(IRI(r[0]), Name(r[1])))


@contract('Iri::namespace', lambda ex: [R(ex, any_iri(ex))])
def _(ex, v):
    r = split_spec(ex, UU(v))
    return NONE if r is None else some(IRI(r[0]))


@contract('Iri::name', lambda ex: [R(ex, any_iri(ex))])
def _(ex, v):
    r = split_spec(ex, UU(v))
    return NONE if r is None else some(Name(r[1]))


# -- the prefix map
def mp(v):
    return unref(v).fs[0]


def mset(ex, v, m):
    r = ex.strip(v)
    ex.store(r, Struct('IriPrefixMap', [m]))
    return UNIT


def lookup(ex, m, k, left):
    p = get(ex, m, unref(k), left)
    return NONE if p is None else some(p[1 if left else 0])


def a_map(*more):
    return lambda ex: [R(ex, any_map(ex))] + [m(ex) for m in more]


def r_ns(ex):
    return R(ex, any_ns_sv(ex))


def r_iri(ex):
    return R(ex, any_iri(ex))


DEFNS = NS(lit(':'))
contract('IriPrefixMap::empty', lambda ex: [])(lambda ex: Struct('IriPrefixMap', [MapV(None)]))
contract('IriPrefixMap::is_empty', a_map())(lambda ex, m: _eq(size(ex, mp(m)), 0))
contract('IriPrefixMap::len', a_map())(lambda ex, m: size(ex, mp(m)))
contract('IriPrefixMap::get_namespace', a_map(r_ns))(lambda ex, m, k: lookup(ex, mp(m), k, True))
contract('IriPrefixMap::get_prefix', a_map(r_iri))(lambda ex, m, k: lookup(ex, mp(m), k, False))
contract('IriPrefixMap::get_default_namespace', a_map())(lambda ex, m: lookup(ex, mp(m), DEFNS, True))


def ins(m, k, v):
    return MapV(m.base, m.ops + (('ins', k, v),))


contract('IriPrefixMap::insert', a_map(any_ns_sv, any_iri))(lambda ex, m, k, v: mset(ex, m, ins(mp(m), k, v)))
contract('IriPrefixMap::set_default_namespace', a_map(any_iri))(
    lambda ex, m, v: mset(ex, m, ins(mp(m), DEFNS, v)))
contract('IriPrefixMap::remove', a_map(r_ns))(
    lambda ex, m, k: mset(ex, m, MapV(mp(m).base, mp(m).ops + (('rml', unref(k)),))))
contract('IriPrefixMap::remove_default_namespace', a_map())(
    lambda ex, m: mset(ex, m, MapV(mp(m).base, mp(m).ops + (('rml', DEFNS),))))
contract('IriPrefixMap::clear', a_map())(lambda ex, m: mset(ex, m, MapV(None)))
contract('IriPrefixMap::with', lambda ex: [any_map(ex), any_ns_sv(ex), any_iri(ex)])(
    lambda ex, m, k, v: Struct('IriPrefixMap', [ins(mp(m), k, v)]))
contract('IriPrefixMap::with_default', lambda ex: [any_map(ex), any_iri(ex)])(
    lambda ex, m, v: Struct('IriPrefixMap', [ins(mp(m), DEFNS, v)]))
contract('IriPrefixMap::mappings', a_map())(lambda ex, m: It('mapiter', mp(m), 'pairs'))
contract('IriPrefixMap::prefixes', a_map())(lambda ex, m: It('mapiter', mp(m), 'left'))
contract('IriPrefixMap::iris', a_map())(lambda ex, m: It('mapiter', mp(m), 'right'))


@contract('IriPrefixMap::expand', a_map(lambda ex: R(ex, any_local(ex))))
def _(ex, m, l):
    l = unref(l)
    p = get(ex, mp(m), l.fs[0], True)
    if p is None:
        return NONE
    return CONTRACTS['Iri::make_name'].spec(ex, p[1], l.fs[1])


def compress_spec(ex, m, v):
    r = split_spec(ex, UU(v))
    if r is None:
        return None
    p = get(ex, mp(m), IRI(r[0]), False)
    return None if p is None else Local(p[0], Name(r[1]))


@contract('IriPrefixMap::compress', a_map(r_iri))
def _(ex, m, v):
    return opt(compress_spec(ex, m, v))


@contract('IriPrefixMap::compress_to_iriref', a_map(r_iri))
def _(ex, m, v):
    r = compress_spec(ex, m, v)
    if r is None:
        return Enum('IriRef', 'Iri', (unref(v),))
    return Enum('IriRef', 'PrefixedName', (Enum('PrefixedName', 'Local', (r,)),))


# -- vocabularies
def any_vocab(ex):
    """a vocabulary whose prefix and IRI texts satisfy the documented precondition"""
    w = () if ex.ctx.choose(2) == 0 else pn_word(ex, PN_CHARS_BASE, 'vprefix')
    i = any_iri(ex, 'viri')
    d = NONE if ex.ctx.choose(2) == 0 else some(Str(ex.ctx.input_word('descr')))
    return Struct('Vocabulary', [Str(w), Str(ser(ex, UU(i))), d])


contract('Vocabulary::prefix', lambda ex: [R(ex, any_vocab(ex))])(lambda ex, v: unref(v).fs[0])
contract('Vocabulary::iri', lambda ex: [R(ex, any_vocab(ex))])(lambda ex, v: unref(v).fs[1])
contract('Vocabulary::description', lambda ex: [R(ex, any_vocab(ex))])(lambda ex, v: unref(v).fs[2])
contract('Vocabulary::new', lambda ex: [Str(any_text(ex)), Str(any_text(ex))])(
    lambda ex, p, i: Struct('Vocabulary', [p, i, NONE]))
contract('Vocabulary::with_description', lambda ex: [any_vocab(ex), Str(any_text(ex))])(
    lambda ex, v, d: Struct('Vocabulary', [v.fs[0], v.fs[1], some(d)]))


@contract('Vocabulary::prefix_as_namespace', lambda ex: [R(ex, any_vocab(ex))])
def _(ex, v):
    return NS(unref(v).fs[0].w + (COLON,))


@contract('Vocabulary::iri_as_iri', lambda ex: [R(ex, any_vocab(ex))])
def _(ex, v):
    r = parse(ex, unref(v).fs[1].w)
    if r.var == 'Err':
        raise RustPanic('documented precondition')
    return IRI(r.fs[0])


def ins_vocab(ex, m, v):
    v = unref(v)
    return ins(mp(m), CONTRACTS['Vocabulary::prefix_as_namespace'].spec(ex, v),
               CONTRACTS['Vocabulary::iri_as_iri'].spec(ex, v))


contract('IriPrefixMap::with_vocabulary', lambda ex: [any_map(ex), R(ex, any_vocab(ex))])(
    lambda ex, m, v: Struct('IriPrefixMap', [ins_vocab(ex, m, v)]))
contract('IriPrefixMap::insert_vocabulary', lambda ex: [R(ex, any_map(ex)), R(ex, any_vocab(ex))])(
    lambda ex, m, v: mset(ex, m, ins_vocab(ex, m, v)))

# -- derived comparison of the name types
for _t, _mk in (('Name', any_name_sv), ('Namespace', any_ns_sv)):
    contract('<%s as PartialEq>::eq' % _t, lambda ex, mk=_mk: [R(ex, mk(ex)), R(ex, mk(ex))])(
        lambda ex, a, b: ex.ctx.word_eq(text(a), text(b)))
    contract('<%s as Ord>::cmp' % _t, lambda ex, mk=_mk: [R(ex, mk(ex)), R(ex, mk(ex))])(
        lambda ex, a, b: str_cmp(ex, text(a), text(b)))
contract('<Iri as PartialEq>::eq', lambda ex: [R(ex, any_iri(ex)), R(ex, any_iri(ex))])(
    lambda ex, a, b: url_eq(ex, UU(a), UU(b)))
contract('<Iri as Ord>::cmp', lambda ex: [R(ex, any_iri(ex)), R(ex, any_iri(ex))])(
    lambda ex, a, b: UU(a).cmp(ex, UU(b)))
for _t, _mk in (('Name', any_name_sv), ('Namespace', any_ns_sv), ('LocalName', any_local_sv),
                ('PrefixedName', any_pname), ('Iri', any_iri), ('IriRef', any_iriref), ('IriPrefixMap', any_map)):
    contract('<%s as Clone>::clone' % _t, lambda ex, mk=_mk: [R(ex, mk(ex))])(lambda ex, v: unref(v))

__all__ = [n for n in globals() if not n.startswith('__')]
