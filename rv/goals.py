"""The properties: per property, the contracts it consists of and the lemmas over the public
API.  A lemma calls functions of the crate; each call is resolved through the callee's
contract once that contract has been verified against the callee's body (in this same run),
and through the body itself otherwise."""
from specs import *

GOALS = {}
TITLES = {}


class Goal:
    def __init__(self, prop, name, fn, key=None):
        self.prop, self.name, self.fn, self.key = prop, name, fn, key


def goal(prop, name=None):
    def deco(f):
        GOALS.setdefault(prop, []).append(Goal(prop, name or f.__name__, f))
        return f
    return deco


def contracts(prop, *keys):
    for k in keys:
        assert k in CONTRACTS, k
        GOALS.setdefault(prop, []).append(Goal(prop, 'contract ' + k, None, k))


def is_ok(r):
    return r.var in ('Ok', 'Some')


def txt(ex, v):
    """v.to_string()"""
    s = to_string(ex, v)
    ex.fits(s)
    return s.w


def same_text(ex, a, b, label):
    ex.ctx.prove(ex.ctx.word_eq(a, b), label)


def same(ex, a, b, label):
    ex.ctx.prove(seq(ex, a, b), label)


def call_ns(ex, key, *args):
    """call; a panic is a failed obligation"""
    return ex.call(key, *args)


NAME_FS, NS_FS, LN_FS = ('<%s as FromStr>::from_str' % t for t in ('Name', 'Namespace', 'LocalName'))
IRI_FS = '<Iri as FromStr>::from_str'


# ------------------------------------------------------------------ P01 names
@goal('P01')
def name_parse_accepts_exactly_the_grammar(ex):
    w = any_text(ex)
    r = ex.call(NAME_FS, Str(w))
    ex.ctx.prove(is_ok(r) == valid_name(ex.ctx, w), 'parsing succeeds exactly on PN_LOCAL')
    if is_ok(r):
        same_text(ex, W(r.fs[0]), w, 'the parsed name keeps the text')


@goal('P01')
def name_validity_test_agrees(ex):
    w = any_text(ex)
    v = ex.call('Name::is_valid_str', Str(w))
    ex.ctx.prove(v if isinstance(v, z3.ExprRef) and False else ex.ctx.branch(v) == valid_name(ex.ctx, w),
                 'the validity test holds exactly on PN_LOCAL')


@goal('P01')
def name_from_owned_text(ex):
    w = any_text(ex)
    r = ex.call('<Name as TryFrom<String>>::try_from', Own(w))
    ex.ctx.prove(is_ok(r) == valid_name(ex.ctx, w), 'conversion from an owned text succeeds exactly on PN_LOCAL')
    if is_ok(r):
        same_text(ex, W(r.fs[0]), w, 'the converted name keeps the text')


# ------------------------------------------------------------------ P02 namespaces
@goal('P02')
def ns_parse_accepts_exactly_the_grammar(ex):
    w = any_text(ex)
    r = ex.call(NS_FS, Str(w))
    ex.ctx.prove(is_ok(r) == valid_ns(ex.ctx, w), 'parsing succeeds exactly on PNAME_NS')
    if is_ok(r):
        same_text(ex, W(r.fs[0]), w, 'the parsed namespace keeps the text')


@goal('P02')
def ns_validity_test_agrees(ex):
    w = any_text(ex)
    v = ex.call('Namespace::is_valid_str', Str(w))
    ex.ctx.prove(ex.ctx.branch(v) == valid_ns(ex.ctx, w), 'the validity test holds exactly on PNAME_NS')


@goal('P02')
def ns_from_owned_text(ex):
    w = any_text(ex)
    r = ex.call('<Namespace as TryFrom<String>>::try_from', Own(w))
    ex.ctx.prove(is_ok(r) == valid_ns(ex.ctx, w), 'conversion from an owned text succeeds exactly on PNAME_NS')
    if is_ok(r):
        same_text(ex, W(r.fs[0]), w, 'the converted namespace keeps the text')


@goal('P02')
def ns_new_named(ex):
    args = a_into(ex)
    w = ex.word(args[0])
    r = ex.call('Namespace::new_named', *args)
    t = with_colon(ex, w)
    ex.ctx.prove(is_ok(r) == valid_ns(ex.ctx, t), 'construction from a prefix succeeds exactly on valid prefixes')
    if is_ok(r):
        same_text(ex, W(r.fs[0]), t, 'the namespace text is the prefix closed by one separator')


# ------------------------------------------------------------------ P03 local names
@goal('P03')
def local_parse(ex):
    ctx = ex.ctx
    w = any_text(ex)
    r = ex.call(LN_FS, Str(w))
    x = ctx.split_first(w, cs(':'))
    good = x is not None and valid_ns(ctx, x[0] + (x[1],)) and valid_name(ctx, x[2])
    ctx.prove(is_ok(r) == good, 'parsing succeeds exactly when both sides of the first separator are valid')
    if is_ok(r):
        v = ex.mkref(r.fs[0])
        same_text(ex, W(ex.call('LocalName::namespace', v)), x[0] + (x[1],), 'namespace part ends at the first separator')
        same_text(ex, W(ex.call('LocalName::name', v)), x[2], 'name part is everything after the first separator')


# ------------------------------------------------------------------ P04 text round trips
for _t, _mk in (('Name', any_name), ('Namespace', any_ns), ('LocalName', any_local)):
    def _p(ex, t=_t, mk=_mk):
        v = mk(ex)
        w = txt(ex, v)
        r = ex.call('<%s as FromStr>::from_str' % t, Str(w))
        ex.ctx.prove(is_ok(r), 'printed text parses')
        same(ex, r.fs[0], v, 'parse(print(v)) = v')
    goal('P04', 'parse_print_%s' % _t)(_p)

    def _q(ex, t=_t):
        w = any_text(ex)
        r = ex.call('<%s as FromStr>::from_str' % t, Str(w))
        if is_ok(r):
            same_text(ex, txt(ex, r.fs[0]), w, 'print(parse(s)) = s')
    goal('P04', 'print_parse_%s' % _t)(_q)
for _t in ('Name', 'Namespace', 'LocalName', 'PrefixedName'):
    contracts('P04', '<%s as Display>::fmt' % _t)
for _t in ('Name', 'Namespace', 'LocalName'):
    if _t != 'LocalName':
        contracts('P04', '<%s as AsRef<str>>::as_ref' % _t)
    contracts('P04', '<String as From<%s>>::from' % _t, '<String as From<&%s>>::from' % _t)
contracts('P04', 'LocalName::as_curie')

# ------------------------------------------------------------------ P05 rejections
ERR = {'Name': (NAME_FS, any_text), 'Namespace': (NS_FS, any_text), 'LocalName': (LN_FS, any_text)}


def same_error(ex, r, want, label):
    if want.var == 'Err' and r.var == 'Err':
        a, b = r.fs[0], want.fs[0]
        ex.ctx.prove(a.var == b.var, label + ': kind')
        if b.fs:
            same_text(ex, ex.word(a.fs[0]), ex.word(b.fs[0]), label + ': carried text')


for _t, _k in (('Name', NAME_FS), ('Namespace', NS_FS), ('LocalName', LN_FS)):
    def _p(ex, k=_k):
        w = any_text(ex)
        same_error(ex, ex.call(k, Str(w)), CONTRACTS[k].spec(ex, Str(w)), 'rejection')
    goal('P05', 'rejection_%s' % _t)(_p)


@goal('P05')
def rejection_new_named(ex):
    a = a_into(ex)
    same_error(ex, ex.call('Namespace::new_named', *a), CONTRACTS['Namespace::new_named'].spec(ex, *a), 'rejection')


for _t in ('Name', 'Namespace'):
    def _p(ex, k='<%s as TryFrom<String>>::try_from' % _t):
        w = any_text(ex)
        same_error(ex, ex.call(k, Own(w)), CONTRACTS[k].spec(ex, Own(w)), 'rejection')
    goal('P05', 'rejection_owned_%s' % _t)(_p)


def occurs(ex, w, part):
    """part occurs in w as written (syntactically)"""
    w, part = ex.ctx.norm(w), ex.ctx.norm(part)
    if not part:
        return True
    for i in range(len(w) - len(part) + 1):
        if all(same_atom(x, y) for x, y in zip(w[i:], part)):
            return True
    return False


def includes(ex, w, part, label):
    if not occurs(ex, w, part):
        if all(isinstance(a, int) for a in ex.ctx.norm(w)):
            ex.ctx.prove(ex.ctx.word_eq(part, ()), label)
            return
        raise Unsupported('undecided containment: ' + label)
    ex.ctx.prove(True, label)


@goal('P05')
def message_shows_the_text(ex):
    e = any_nameerr(ex)
    w = txt(ex, e)
    for x in e.fs:
        includes(ex, w, ex.word(x), 'the message includes the rejected text')
    ex.ctx.prove(b_not(ex.ctx.is_empty(w)), 'the message is not empty')


# ------------------------------------------------------------------ P06 construction
contracts('P06', 'Name::new_unchecked', 'Name::qualify', 'Namespace::new_unchecked', 'Namespace::new_default',
          'Namespace::is_default', 'Namespace::name_string', 'Namespace::qualify', 'LocalName::new',
          'LocalName::new_in_default', 'LocalName::new_unchecked', 'LocalName::namespace', 'LocalName::name',
          'LocalName::is_namespace_default')


@goal('P06')
def checked_parts_give_a_valid_whole(ex):
    l = any_local(ex)
    v = ex.call('LocalName::new', l.fs[0], l.fs[1])
    r = ex.call(LN_FS, Str(txt(ex, v)))
    ex.ctx.prove(is_ok(r), 'the text of a qualified valid name is a valid local name')
    same(ex, r.fs[0], v, 'and denotes the same name')


# ------------------------------------------------------------------ P07 IRI text
contracts('P07', IRI_FS, '<Iri as TryFrom<&str>>::try_from', '<Iri as Display>::fmt', '<Iri as AsRef<str>>::as_ref',
          '<Iri as From<Url>>::from', '<Iri as From<&Url>>::from', '<Url as From<Iri>>::from',
          '<Url as From<&Iri>>::from', '<Iri as AsRef<Url>>::as_ref', '<Iri as AsMut<Url>>::as_mut')


@goal('P07')
def iri_parse_print(ex):
    v = any_iri(ex)
    r = ex.call(IRI_FS, Str(txt(ex, v)))
    ex.ctx.prove(is_ok(r), 'the bracketed form parses')
    same(ex, r.fs[0], v, 'parse(print(iri)) = iri')


@goal('P07')
def iri_parse_bare(ex):
    v = any_iri(ex)
    f = formatter(ex, True)
    ex.call('<Iri as Display>::fmt', ex.mkref(v), f)
    r = ex.call(IRI_FS, Str(ex.word(ex.load(unref(f).fs[0]) if isinstance(unref(f).fs[0], Ref) else unref(f).fs[0])))
    ex.ctx.prove(is_ok(r), 'the bare form parses')
    same(ex, r.fs[0], v, 'parse(bare print(iri)) = iri')


@goal('P07')
def iri_as_str_parse(ex):
    v = any_iri(ex)
    r = ex.call(IRI_FS, ex.call('<Iri as AsRef<str>>::as_ref', ex.mkref(v)))
    ex.ctx.prove(is_ok(r), 'the text form parses')
    same(ex, r.fs[0], v, 'parse(text(iri)) = iri')


@goal('P07')
def brackets_do_not_matter(ex):
    w = any_text(ex)
    if ex.ctx.surely_all(w, ANY) and unwrap_angle(ex, w) is not w:
        raise Infeasible()
    a = ex.call(IRI_FS, Str(w))
    b = ex.call(IRI_FS, Str((60,) + w + (62,)))
    ex.ctx.prove(a.var == b.var, 'bracketed and bare texts are accepted alike')
    if is_ok(a):
        same(ex, a.fs[0], b.fs[0], 'bracketed and bare texts denote the same IRI')


# ------------------------------------------------------------------ P08 component updates
contracts('P08', 'Iri::with_new_path', 'Iri::with_new_fragment', 'Iri::with_empty_fragment', 'Iri::with_no_fragment')


@goal('P08')
def fragment_updates_compose(ex):
    v = any_iri(ex)
    s = Str(any_text(ex))
    a = ex.call('Iri::with_new_fragment', ex.mkref(v), s)
    e = ex.call('Iri::with_empty_fragment', ex.mkref(v))
    if not cbb(ex, UU(v)):
        same(ex, ex.call('Iri::with_no_fragment', ex.mkref(a)), ex.call('Iri::with_no_fragment', ex.mkref(v)),
             'removing a fragment forgets the one set before')
    same(ex, ex.call('Iri::with_empty_fragment', ex.mkref(a)), e, 'emptying a fragment forgets the one set before')
    same(ex, ex.call('Iri::with_new_fragment', ex.mkref(e), s), a, 'setting a fragment does not depend on the old one')


# ------------------------------------------------------------------ P09 namespaces and names of IRIs
contracts('P09', 'Iri::looks_like_namespace', 'Iri::make_name')


@goal('P09')
def every_namespace_can_be_extended(ex):
    v, n = any_iri(ex), any_name(ex)
    if ex.ctx.branch(ex.call('Iri::looks_like_namespace', ex.mkref(v))):
        r = ex.call('Iri::make_name', ex.mkref(v), n)
        ex.ctx.prove(is_ok(r), 'a name can be added to every namespace')


# ------------------------------------------------------------------ P10 split
contracts('P10', 'Iri::split', 'Iri::namespace', 'Iri::name')


@goal('P10')
def split_is_sound(ex):
    v = any_iri(ex)
    r = ex.call('Iri::split', ex.mkref(v))
    if is_ok(r):
        ns, n = r.fs[0].fs
        ex.ctx.prove(valid_name(ex.ctx, W(n)), 'the name part is a valid name')
        same_text(ex, ser(ex, UU(ns)) + W(n), ser(ex, UU(v)), 'namespace text followed by name text is the IRI')


@goal('P10')
def projections(ex):
    v = any_iri(ex)
    r = ex.call('Iri::split', ex.mkref(v))
    a, b = ex.call('Iri::namespace', ex.mkref(v)), ex.call('Iri::name', ex.mkref(v))
    ex.ctx.prove(is_ok(a) == is_ok(r) and is_ok(b) == is_ok(r), 'both parts exist exactly when the IRI splits')
    if is_ok(r):
        same(ex, a.fs[0], r.fs[0].fs[0], 'namespace part')
        same(ex, b.fs[0], r.fs[0].fs[1], 'name part')


# ------------------------------------------------------------------ P11 split and make_name are inverse
@goal('P11')
def make_name_after_split(ex):
    v = any_iri(ex)
    r = ex.call('Iri::split', ex.mkref(v))
    if is_ok(r):
        ns, n = r.fs[0].fs
        ex.ctx.prove(ex.ctx.branch(ex.call('Iri::looks_like_namespace', ex.mkref(ns))), 'the namespace part is a namespace')
        b = ex.call('Iri::make_name', ex.mkref(ns), n)
        ex.ctx.prove(is_ok(b), 'the name can be added back')
        same(ex, b.fs[0], v, 'adding the name back gives the IRI')


def any_ascii_name(ex):
    ctx = ex.ctx
    c = ctx.fresh_char(LOCAL_FIRST & cs((0, 127)), 'name_first')
    if ctx.choose(2) == 0:
        w = (c,)
    else:
        m = ctx.fresh_sv('name_mid', REST & cs((0, 127)))
        w = (c, m, ctx.fresh_char((REST & cs((0, 127))) - cs('.'), 'name_last'))
    return inp(ex, 'name', Name(w))


def any_nsiri(ex, name='nsiri'):
    """an IRI a name can be added to without replacing a part of it"""
    v = any_iri(ex, name)
    u = UU(v)
    f = frag(ex, u)
    if f is not None:
        if not ex.ctx.is_empty(f):
            raise Infeasible()
    elif cbb(ex, u) or not path_is_dir(ex, u) or query(ex, u) is not None:
        raise Infeasible()
    return v


@goal('P11')
def split_after_make_name(ex):
    v, n = any_nsiri(ex), any_ascii_name(ex)
    r = ex.call('Iri::make_name', ex.mkref(v), n)
    ex.ctx.prove(is_ok(r), 'a name can be added to a namespace')
    b = ex.call('Iri::split', ex.mkref(r.fs[0]))
    ex.ctx.prove(is_ok(b), 'the result splits')
    same(ex, b.fs[0].fs[0], v, 'into the namespace')
    same(ex, b.fs[0].fs[1], n, 'and the name')


# ------------------------------------------------------------------ P12 the prefix map
MAPOPS = ['IriPrefixMap::' + n for n in (
    'empty', 'is_empty', 'len', 'get_namespace', 'get_prefix', 'get_default_namespace', 'insert',
    'set_default_namespace', 'remove', 'remove_default_namespace', 'clear', 'with', 'with_default', 'mappings',
    'prefixes', 'iris')]
contracts('P12', *MAPOPS)


def gns(ex, m, k):
    return ex.call('IriPrefixMap::get_namespace', ex.mkref(m), ex.mkref(k))


def gpf(ex, m, v):
    return ex.call('IriPrefixMap::get_prefix', ex.mkref(m), ex.mkref(v))


@goal('P12')
def lookups_are_inverse(ex):
    m, k = any_map(ex), any_ns_sv(ex)
    r = gns(ex, m, k)
    if is_ok(r):
        b = gpf(ex, m, unref(r.fs[0]))
        ex.ctx.prove(is_ok(b), 'the IRI of a prefix has a prefix')
        same(ex, b.fs[0], k, 'and it is that prefix')


@goal('P12')
def lookups_are_inverse_2(ex):
    m, v = any_map(ex), any_iri(ex)
    r = gpf(ex, m, v)
    if is_ok(r):
        b = gns(ex, m, unref(r.fs[0]))
        ex.ctx.prove(is_ok(b), 'the prefix of an IRI has an IRI')
        same(ex, b.fs[0], v, 'and it is that IRI')


def insert_frame(ex, left):
    m, k, v = any_map(ex), any_ns_sv(ex), any_iri(ex)
    q = any_ns_sv(ex) if left else any_iri(ex)
    look = gns if left else gpf
    cell = ex.mkref(clone_val(m, {}, 0))
    old = look(ex, m, q)
    ex.call('IriPrefixMap::insert', cell, k, v)
    a = look(ex, ex.load(cell), q)
    mine, other = (k, v) if left else (v, k)
    if seq(ex, q, mine):
        ex.ctx.prove(is_ok(a), 'the inserted key is bound')
        same(ex, a.fs[0], other, 'to its new partner')
    elif is_ok(old) and not seq(ex, old.fs[0], other):
        ex.ctx.prove(is_ok(a), 'an unrelated binding stays')
        same(ex, a.fs[0], old.fs[0], 'unchanged')
    else:
        ex.ctx.prove(not is_ok(a), 'no other key is or stays bound to the new partner')


@goal('P12')
def after_insert_by_prefix(ex):
    insert_frame(ex, True)


@goal('P12')
def after_insert_by_iri(ex):
    insert_frame(ex, False)


@goal('P12')
def after_remove_count(ex):
    m, k = any_map(ex), any_ns_sv(ex)
    cell = ex.mkref(clone_val(m, {}, 0))
    had = gns(ex, m, k)
    n0 = ex.call('IriPrefixMap::len', ex.mkref(m))
    ex.call('IriPrefixMap::remove', cell, ex.mkref(k))
    n1 = ex.call('IriPrefixMap::len', cell)
    ex.ctx.prove(_eq(n1, _sub_(n0, 1) if is_ok(had) else n0), 'the count drops by one exactly when something was removed')


@goal('P12')
def after_insert_count(ex):
    m, k, v = any_map(ex), any_ns_sv(ex), any_iri(ex)
    cell = ex.mkref(clone_val(m, {}, 0))
    a, b = gns(ex, m, k), gpf(ex, m, v)
    n0 = ex.call('IriPrefixMap::len', ex.mkref(m))
    ex.call('IriPrefixMap::insert', cell, k, v)
    n1 = ex.call('IriPrefixMap::len', cell)
    d = 1 - is_ok(a) - is_ok(b) + (is_ok(a) and seq(ex, a.fs[0], v))
    ex.ctx.prove(_eq(n1, _add(n0, d) if d >= 0 else _sub_(n0, -d)), 'the count is that of a bijection')


@goal('P12')
def after_remove(ex):
    m, k, k2 = any_map(ex), any_ns_sv(ex), any_ns_sv(ex)
    cell = ex.mkref(clone_val(m, {}, 0))
    old = gns(ex, m, k2)
    ex.call('IriPrefixMap::remove', cell, ex.mkref(k))
    a = ex.call('IriPrefixMap::get_namespace', cell, ex.mkref(k2))
    if seq(ex, k, k2):
        ex.ctx.prove(not is_ok(a), 'a removed prefix is not bound')
    else:
        ex.ctx.prove(is_ok(a) == is_ok(old), 'removal affects no other prefix')
        if is_ok(a):
            same(ex, a.fs[0], old.fs[0], 'removal affects no other binding')


# ------------------------------------------------------------------ P13 initial content, builders
COMMON = [('rdf', 'http://www.w3.org/1999/02/22-rdf-syntax-ns#'), ('rdfs', 'http://www.w3.org/2000/01/rdf-schema#'),
          ('xsd', 'http://www.w3.org/2001/XMLSchema#'), ('owl', 'http://www.w3.org/2002/07/owl#'),
          ('dcterms', 'http://purl.org/dc/terms/'), ('skos', 'http://www.w3.org/2004/02/skos/core#'),
          ('void', 'http://rdfs.org/ns/void#')]


def content(ex, m, want):
    ps = all_pairs(ex, mp(m))
    if ps is None:
        raise Unsupported('map with unknown content')
    got = sorted((''.join(map(chr, ex.ctx.norm(W(a)))), ''.join(map(chr, ex.ctx.norm(ser(ex, UU(b)))))) for a, b in ps)
    ex.ctx.prove(got == sorted((a + ':', b) for a, b in want), 'the map has exactly the documented content')


@goal('P13')
def default_content(ex):
    content(ex, ex.call('<IriPrefixMap as Default>::default'), COMMON[:4])


@goal('P13')
def common_content(ex):
    content(ex, ex.call('IriPrefixMap::common'), COMMON)


contracts('P13', 'IriPrefixMap::empty', 'IriPrefixMap::with', 'IriPrefixMap::with_default',
          'IriPrefixMap::with_vocabulary', 'IriPrefixMap::insert_vocabulary')

# ------------------------------------------------------------------ P14, P15
contracts('P14', 'IriPrefixMap::expand')
contracts('P15', 'IriPrefixMap::compress', 'IriPrefixMap::compress_to_iriref')


@goal('P14')
def expand_appends(ex):
    """through a namespace, the expansion's text is the namespace's followed by the name"""
    m, l = any_map(ex), any_ns_sv(ex)
    n = any_ascii_name(ex)
    g = gns(ex, m, l)
    r = ex.call('IriPrefixMap::expand', ex.mkref(m), ex.mkref(Local(l, n)))
    if not is_ok(g):
        ex.ctx.prove(not is_ok(r), 'an unbound prefix does not expand')
        return
    v = unref(g.fs[0])
    u = UU(v)
    f = frag(ex, u)
    if f is not None:
        if not ex.ctx.is_empty(f):
            return
    elif cbb(ex, u) or not path_is_dir(ex, u) or query(ex, u) is not None:
        return
    ex.ctx.prove(is_ok(r), 'a name in a bound namespace expands')
    same_text(ex, ser(ex, UU(r.fs[0])), ser(ex, u) + W(n), 'to the namespace text followed by the name')


@goal('P15')
def expand_after_compress(ex):
    m, v = any_map(ex), any_iri(ex)
    r = ex.call('IriPrefixMap::compress', ex.mkref(m), ex.mkref(v))
    if is_ok(r):
        b = ex.call('IriPrefixMap::expand', ex.mkref(m), ex.mkref(r.fs[0]))
        ex.ctx.prove(is_ok(b), 'a compressed IRI expands')
        same(ex, b.fs[0], v, 'to itself')


@goal('P15')
def compress_after_expand(ex):
    v, k, n = any_nsiri(ex), any_ns_sv(ex), any_ascii_name(ex)
    cell = ex.mkref(any_map(ex))
    ex.call('IriPrefixMap::insert', cell, k, v)
    l = Local(k, n)
    r = ex.call('IriPrefixMap::expand', cell, ex.mkref(l))
    ex.ctx.prove(is_ok(r), 'a name in a bound namespace expands')
    b = ex.call('IriPrefixMap::compress', cell, ex.mkref(r.fs[0]))
    ex.ctx.prove(is_ok(b), 'the expansion compresses')
    same(ex, b.fs[0], l, 'to the local name')


# ------------------------------------------------------------------ P16 vocabularies
VOCABS = [('CAL', 'cal', 'http://www.w3.org/2002/12/cal/ical#'), ('DBPEDIA', 'dbpedia', 'http://dbpedia.org/ontology/'),
          ('DC_ELEMENTS', 'dc', 'http://purl.org/dc/elements/1.1/'), ('DC_TERMS', 'dcterms', 'http://purl.org/dc/terms/'),
          ('DOAP', 'doap', 'http://usefulinc.com/ns/doap#'), ('FOAF', 'foaf', 'http://xmlns.com/foaf/0.1/'),
          ('GEO_NAMES', 'geonames', 'http://www.geonames.org/ontology#'),
          ('ISO_SKOS', 'isothes', 'http://purl.org/iso25964/skos-thes#'),
          ('OPEN_GIS', 'opengis', 'http://www.opengis.net/ont/geosparql#'), ('ORG', 'org', 'http://www.w3.org/ns/org#'),
          ('OWL', 'owl', 'http://www.w3.org/2002/07/owl#'), ('RDF', 'rdf', 'http://www.w3.org/1999/02/22-rdf-syntax-ns#'),
          ('RDF_SCHEMA', 'rdfs', 'http://www.w3.org/2000/01/rdf-schema#'), ('SIOC', 'sioc', 'http://rdfs.org/sioc/ns#'),
          ('SKOS', 'skos', 'http://www.w3.org/2004/02/skos/core#'), ('SKOS_XL', 'skosxl', 'http://www.w3.org/2008/05/skos-xl#'),
          ('VANN', 'vann', 'http://purl.org/vocab/vann/'), ('VOID', 'void', 'http://rdfs.org/ns/void#'),
          ('WOT', 'wot', 'http://xmlns.com/wot/0.1/'), ('XML', 'xml', 'http://www.w3.org/XML/1998/namespace#'),
          ('XML_SCHEMA', 'xsd', 'http://www.w3.org/2001/XMLSchema#')]


@goal('P16')
def vocabulary_constants(ex):
    for c, p, i in VOCABS:
        v = ex.eval_item('VOCABULARY_' + c)
        r = ex.mkref(unref(v))
        same_text(ex, ex.word(ex.call('Vocabulary::prefix', r)), lit(p), c + ': documented prefix')
        same_text(ex, ex.word(ex.call('Vocabulary::iri', r)), lit(i), c + ': documented IRI')
        same_text(ex, W(ex.call('Vocabulary::prefix_as_namespace', r)), lit(p + ':'), c + ': namespace form')
        u = ex.call('Vocabulary::iri_as_iri', r)
        same_text(ex, ser(ex, UU(u)), lit(i), c + ': IRI form')
        ex.ctx.prove(ex.ctx.branch(ex.call('Iri::looks_like_namespace', ex.mkref(u))), c + ': IRI is a namespace')


contracts('P16', 'Vocabulary::prefix', 'Vocabulary::iri', 'Vocabulary::description', 'Vocabulary::new',
          'Vocabulary::with_description', 'Vocabulary::prefix_as_namespace', 'Vocabulary::iri_as_iri')


# ------------------------------------------------------------------ P17 generated identifiers
@goal('P17')
def genid_shape(ex):
    v = any_iri(ex)
    r = ex.call('Iri::genid', ex.mkref(v))
    if cbb(ex, UU(v)):
        ex.ctx.prove(not is_ok(r), 'an IRI that cannot be a base is refused')
        return
    ex.ctx.prove(is_ok(r), 'every other IRI gives an identifier')
    u = UU(r.fs[0])
    same_text(ex, u.A, UU(v).A, 'scheme and server components are those of the base')
    ex.ctx.prove(query(ex, u) is None and frag(ex, u) is None, 'no query, no fragment')
    p = ex.ctx.norm(path(ex, u))
    pre = lit('/.well-known/genid/')
    same_text(ex, p[:len(pre)], pre, 'the path is under the well-known prefix')
    ex.ctx.prove(_eq(ex.ctx.clen(p[len(pre):]), 32) if ex.ctx.surely_all(p[len(pre):], HEX) else False,
                 'followed by 32 lower-case hexadecimal digits')


@goal('P17')
def genid_fresh(ex):
    v, w = any_iri(ex), any_iri(ex)
    if cbb(ex, UU(v)) or cbb(ex, UU(w)):
        raise Infeasible()
    a, b = ex.call('Iri::genid', ex.mkref(v)), ex.call('Iri::genid', ex.mkref(w))
    ex.ctx.prove(is_ok(a) and is_ok(b) and not ex.ctx.word_eq(path(ex, UU(a.fs[0])), path(ex, UU(b.fs[0]))),
                 'two calls give different identifiers')


# ------------------------------------------------------------------ P18 equality, order, hash, clone
ORDERED = (('Name', any_name_sv), ('Namespace', any_ns_sv), ('LocalName', any_local_sv), ('PrefixedName', any_pname),
           ('Iri', any_iri))


def do_eq(ex, t, a, b):
    return ex.ctx.branch(ex.call('<%s as PartialEq>::eq' % t, ex.mkref(a), ex.mkref(b)))


def do_cmp(ex, t, a, b):
    return ex.call('<%s as Ord>::cmp' % t, ex.mkref(a), ex.mkref(b)).var


def text_vocab(ex):
    """any vocabulary at all"""
    d = NONE if ex.ctx.choose(2) == 0 else some(Str(ex.ctx.input_word('descr')))
    return Struct('Vocabulary', [Str(ex.ctx.input_word('vp')), Str(ex.ctx.input_word('vi')), d])


FLIP = {'Less': 'Greater', 'Greater': 'Less', 'Equal': 'Equal'}
for _t, _mk in ORDERED + (('IriRef', any_iriref), ('Vocabulary', text_vocab)):
    def _p(ex, t=_t, mk=_mk):
        a, b = mk(ex), mk(ex)
        ex.ctx.prove(do_eq(ex, t, a, b) == seq(ex, a, b), 'two values are equal exactly when they denote the same thing')
    goal('P18', 'eq_%s' % _t)(_p)

    def _p(ex, t=_t, mk=_mk):
        v = mk(ex)
        same(ex, ex.call('<%s as Clone>::clone' % t, ex.mkref(v)), v, 'a clone equals its original')
    goal('P18', 'clone_%s' % _t)(_p)
for _t, _mk in ORDERED:
    def _p(ex, t=_t, mk=_mk):
        a, b = mk(ex), mk(ex)
        c = do_cmp(ex, t, a, b)
        ex.ctx.prove((c == 'Equal') == seq(ex, a, b), 'compare equal exactly when equal')
        ex.ctx.prove(do_cmp(ex, t, b, a) == FLIP[c], 'the order is antisymmetric')
        p = ex.call('<%s as PartialOrd>::partial_cmp' % t, ex.mkref(a), ex.mkref(b))
        ex.ctx.prove(p.var == 'Some' and p.fs[0].var == c, 'partial and total comparison agree')
    goal('P18', 'order_%s' % _t)(_p)

    def _p(ex, t=_t, mk=_mk):
        a, b, c = mk(ex), mk(ex), mk(ex)
        if do_cmp(ex, t, a, b) == 'Less' and do_cmp(ex, t, b, c) == 'Less':
            ex.ctx.prove(do_cmp(ex, t, a, c) == 'Less', 'the order is transitive')
    goal('P18', 'transitive_%s' % _t)(_p)

    contracts('P18', '<%s as Clone>::clone' % _t)
for _t, _mk in ORDERED + (('Vocabulary', text_vocab), ):
    def _p(ex, t=_t, mk=_mk):
        a, b = mk(ex), mk(ex)
        if seq(ex, a, b):
            ha, hb = ex.mkref(It('hasher', ())), ex.mkref(It('hasher', ()))
            ex.call('<%s as Hash>::hash' % t, ex.mkref(a), ha)
            ex.call('<%s as Hash>::hash' % t, ex.mkref(b), hb)
            x, y = ex.load(ha).data[0], ex.load(hb).data[0]
            good = len(x) == len(y) and all(
                i[0] == j[0] and (ex.ctx.word_eq(i[1], j[1]) if i[0] in ('str', 'bytes') else ex.ctx.branch(_eq(i[1], j[1])))
                for i, j in zip(x, y))
            ex.ctx.prove(good, 'equal values hash alike')
    goal('P18', 'hash_%s' % _t)(_p)
contracts('P18', '<IriRef as Clone>::clone', '<IriPrefixMap as Clone>::clone', '<Name as PartialEq>::eq',
          '<Namespace as PartialEq>::eq', '<Iri as PartialEq>::eq')


@goal('P18')
def map_equality(ex):
    """a map equals its clone, and differs from one that binds a prefix differently"""
    m = any_map(ex)
    k, v = any_ns_sv(ex), any_iri(ex)
    c = ex.call('<IriPrefixMap as Clone>::clone', ex.mkref(m))
    ex.ctx.prove(do_eq(ex, 'IriPrefixMap', m, c), 'a map equals its clone')
    old = gns(ex, m, k)
    c2 = Struct('IriPrefixMap', [ins(mp(c), k, v)])
    e = do_eq(ex, 'IriPrefixMap', m, c2)
    ex.ctx.prove(e == (is_ok(old) and seq(ex, old.fs[0], v)), 'maps are equal exactly when they bind alike')


# ------------------------------------------------------------------ P19 serde
def valid_pname(ex):
    if ex.ctx.choose(2) == 0:
        return Enum('PrefixedName', 'Namespace', (any_ns(ex),))
    return Enum('PrefixedName', 'Local', (any_local(ex),))


def valid_iriref(ex):
    if ex.ctx.choose(2) == 0:
        return Enum('IriRef', 'Iri', (any_iri(ex),))
    return Enum('IriRef', 'PrefixedName', (valid_pname(ex),))


def valid_map(ex):
    m = fresh_map(ex, lambda e: NS((() if e.ctx.choose(2) == 0 else pn_word(e, PN_CHARS_BASE, 'mapns')) + (COLON,)), quiet_iri)
    inp(ex, 'map', m)
    return Struct('IriPrefixMap', [m])


SERDE = (('Name', any_name), ('Namespace', any_ns), ('LocalName', any_local), ('PrefixedName', valid_pname),
         ('Iri', any_iri), ('IriRef', valid_iriref), ('IriPrefixMap', valid_map))
for _t, _mk in SERDE:
    for _m in MODES:
        def _p(ex, t=_t, mk=_mk, m=_m):
            v = mk(ex)
            r = ser_value(ex, v, m)
            ex.ctx.prove(is_ok(r), 'a valid value serializes')
            d = deser(ex, t, r.fs[0], m)
            ex.ctx.prove(is_ok(d), 'the serialized form deserializes')
            same(ex, d.fs[0], v, 'deserializing the serialized form gives the value back')
        goal('P19', 'round_trip_%s_%s' % (_t, _m))(_p)
for _t, _mk in SERDE[:2] + SERDE[4:5]:
    for _m in MODES:
        def _p(ex, t=_t, mk=_mk, m=_m):
            v = mk(ex)
            r = ser_value(ex, v, m)
            ex.ctx.prove(is_ok(r) and plain(r.fs[0]).kind == 'str', 'the serialized form is a text')
            same_text(ex, plain(r.fs[0]).d[0], ser(ex, v.fs[0]) if t == 'Iri' else v.fs[0].w, 'the text is the value\'s own')
        goal('P19', 'text_form_%s_%s' % (_t, _m))(_p)
for _t, _ok in (('Name', valid_name), ('Namespace', valid_ns)):
    for _m in MODES:
        def _p(ex, t=_t, good=_ok, m=_m):
            w = any_text(ex)
            d = deser(ex, t, t_str(w), m)
            g = good(ex.ctx, w)
            ex.ctx.prove(is_ok(d) == g, 'deserializing succeeds exactly on the valid texts')
            if g:
                same_text(ex, d.fs[0].fs[0].w, w, 'the text is kept')
        goal('P19', 'validates_%s_%s' % (_t, _m))(_p)


def forged(t, ws):
    """the document t with its texts replaced, in order of appearance, by ws (a list)"""
    def go(t):
        if t.kind == 'str':
            return t_str(ws.pop(0)) if ws else None
        if t.kind == 'newtype':
            x = go(t.d[1])
            return x and Tree('newtype', t.d[0], x)
        if t.kind == 'variant' and t.d[3] is not None:
            x = go(t.d[3])
            return x and Tree('variant', *t.d[:3], x)
        if t.kind == 'struct':
            fs = tuple((k, go(x)) for k, x in t.d[1])
            return None if any(x is None for _, x in fs) else Tree('struct', t.d[0], fs)
        return None
    r = go(t)
    return r if r is not None and not ws else None


def own_texts(ex, t, ws):
    """are the texts of the document the given ones, in order"""
    def go(t):
        if t.kind == 'str':
            return [t.d[0]]
        if t.kind == 'newtype':
            return go(t.d[1])
        if t.kind == 'variant' and t.d[3] is not None:
            return go(t.d[3])
        if t.kind == 'struct':
            return [w for _, x in t.d[1] for w in go(x)]
        return [None]
    r = go(t)
    n = ex.ctx.norm
    return len(r) == len(ws) and all(a is not None and n(a) == n(b) for a, b in zip(r, ws))


for _m in MODES:
    def _p(ex, m=_m):
        v = any_local(ex)
        r = ser_value(ex, v, m).fs[0]
        n, l = v.fs[0].fs[0].w, v.fs[1].fs[0].w
        x, y = any_text(ex, 'x'), any_text(ex, 'y')
        if m != 'compact':                       # one text at a time
            x, y = (x, l) if ex.ctx.choose(2) == 0 else (n, y)
        if own_texts(ex, r, [n, l]):
            t = forged(r, [x, y])
        elif own_texts(ex, r, [l, n]):
            t = forged(r, [y, x])
        else:
            raise Unsupported('shape of a serialized LocalName')
        d = deser(ex, 'LocalName', t, m)
        ex.ctx.prove(is_ok(d) == b_and(valid_ns(ex.ctx, x), valid_name(ex.ctx, y)),
                     'a document with replaced texts deserializes exactly when both are valid')
    goal('P19', 'validates_LocalName_' + _m)(_p)

    def _p(ex, m=_m):
        v = any_ns(ex)
        x = any_text(ex, 'x')
        r = ser_value(ex, Enum('PrefixedName', 'Namespace', (v,)), m).fs[0]
        if not own_texts(ex, r, [v.fs[0].w]):
            raise Unsupported('shape of a serialized PrefixedName')
        d = deser(ex, 'PrefixedName', forged(r, [x]), m)
        ex.ctx.prove(is_ok(d) == valid_ns(ex.ctx, x), 'a document with a replaced text deserializes exactly when it is valid')
    goal('P19', 'validates_PrefixedName_' + _m)(_p)

    def _p(ex, m=_m):
        x = any_text(ex, 'x')
        t = ser_value(ex, any_map(ex), m).fs[0]
        i = any_iri(ex)
        if t.kind != 'struct' or len(t.d[1]) != 1 or t.d[1][0][1].kind != 'map':
            raise Unsupported('shape of a serialized map')
        doc = Tree('struct', t.d[0], ((t.d[1][0][0], Tree('pairs', ((t_str(x), ser_value(ex, i, m).fs[0]),))),))
        d = deser(ex, 'IriPrefixMap', doc, m)
        ex.ctx.prove(is_ok(d) == valid_ns(ex.ctx, x), 'a prefix of a map document must be valid')
    goal('P19', 'validates_IriPrefixMap_' + _m)(_p)

    def _p(ex, m=_m):
        w = any_text(ex)
        d = deser(ex, 'Iri', t_str(w), m)
        if is_ok(d):
            r = ex.call(IRI_FS, Str(w))
            ex.ctx.prove(is_ok(r), 'a text the parser rejects does not deserialize')
            same(ex, r.fs[0], d.fs[0], 'deserializing a bare text parses it')
    goal('P19', 'validates_Iri_' + _m)(_p)


# ------------------------------------------------------------------ P20 conversions
for _k in CONTRACTS:
    if _k.startswith(('<PrefixedName as From', '<IriRef as From', '<Error as From', 'PrefixedName::', 'IriRef::',
                      'Error::', 'NameParseError::', '<IriRef as Display')):
        contracts('P20', _k)


@goal('P20')
def error_message_and_source(ex):
    e = any_error(ex)
    inner = e.fs[0]
    w = txt(ex, e)
    includes(ex, w, txt(ex, inner), 'the message includes the cause')
    s = ex.call('<Error as Error>::source', ex.mkref(e))
    ex.ctx.prove(is_ok(s), 'the error has a source')
    same(ex, s.fs[0], inner, 'and it is the cause')


# ------------------------------------------------------------------ P21 no panic
def quiet(ex, key, args):
    try:
        ex.call_body(key, *args)
    except RustPanic as p:
        ex.ctx.prove(False, 'no panic (%s)' % p.msg[:80])
    ex.ctx.prove(True, 'no panic')


def any_raw_name_arg(ex):
    return any_name_sv(ex)


NOPANIC = {k: c.args for k, c in CONTRACTS.items()}
NOPANIC['Iri::make_name'] = lambda ex: [R(ex, any_iri(ex)), any_name_sv(ex)]
NOPANIC['IriPrefixMap::expand'] = a_map(lambda ex: R(ex, any_local_sv(ex)))
NOPANIC['Iri::genid'] = lambda ex: [R(ex, any_iri(ex))]
NOPANIC['IriPrefixMap::common'] = lambda ex: []
NOPANIC['<IriPrefixMap as Default>::default'] = lambda ex: []
for _t, _mk in ORDERED + (('IriRef', any_iriref),):
    NOPANIC['<%s as PartialEq>::eq' % _t] = lambda ex, mk=_mk: [R(ex, mk(ex)), R(ex, mk(ex))]
for _t, _mk in ORDERED:
    for _n in ('Ord>::cmp', 'PartialOrd>::partial_cmp'):
        NOPANIC['<%s as %s' % (_t, _n)] = lambda ex, mk=_mk: [R(ex, mk(ex)), R(ex, mk(ex))]
    NOPANIC['<%s as Hash>::hash' % _t] = lambda ex, mk=_mk: [R(ex, mk(ex)), R(ex, It('hasher', ()))]
NOPANIC['<Error as Display>::fmt'] = lambda ex: [R(ex, any_error(ex)), formatter(ex)]
NOPANIC['<NameParseError as Display>::fmt'] = lambda ex: [R(ex, any_nameerr(ex)), formatter(ex)]
NOPANIC['<Error as Error>::source'] = lambda ex: [R(ex, any_error(ex))]
NOPANIC['<IriPrefixMap as Display>::fmt'] = lambda ex: [R(ex, any_map(ex)), formatter(ex)]
NOPANIC['<IriPrefixMap as PartialEq>::eq'] = lambda ex: [R(ex, x) for x in (lambda m: (m, Struct('IriPrefixMap', [
    ins(mp(m), any_ns_sv(ex), any_iri(ex))])))(any_map(ex))]
NOPANIC['<Vocabulary as PartialEq>::eq'] = lambda ex: [R(ex, text_vocab(ex)), R(ex, text_vocab(ex))]
NOPANIC['<Vocabulary as Clone>::clone'] = lambda ex: [R(ex, any_vocab(ex))]
NOPANIC['<Vocabulary as Hash>::hash'] = lambda ex: [R(ex, any_vocab(ex)), R(ex, It('hasher', ()))]
for _k in NOPANIC:
    goal('P21', 'no panic ' + _k)(lambda ex, k=_k: quiet(ex, k, NOPANIC[k](ex)))

__all__ = [n for n in globals() if not n.startswith('__')]
