"""Assumed contract of the `url` crate (2.5.x), as an abstract data type.

A Url is (prefix, opaque?, path, query?, fragment?) where `prefix` is everything before the
path (scheme, ':' and authority).  Its text is the concatenation of the parts.  Components
are lazily constrained: a component of an arbitrary Url is a fresh variable that is only
decided (by an exhaustive case split) when the code looks at it.

Assumptions (validated against the real crate by `harness search`):
  U1  text(parse(text(u))) = text(u), and equality/order/hash of Urls is that of their texts
  U2  set_fragment(Some f) changes the fragment only; to f itself when every char of f is in
      FRAGSAFE, to some FRAGSAFE string that is a function of f otherwise
  U3  set_fragment(None) removes the fragment only (and strips trailing spaces of an opaque
      path that has no query)
  U4  set_path(p) changes the path only; for a hierarchical Url it is the identity on the
      Url's own path, on any prefix of it ending in '/', and on such a prefix followed by one
      SEGSAFE segment; a function of (url prefix, p) otherwise
  U5  components are ASCII over the sets below; a hierarchical path is empty or starts with
      '/', an opaque one does not start with '/'
  U6  join("/abs/path") on a hierarchical Url keeps the prefix, replaces the path, drops
      query and fragment; join of a non-fragment reference on an opaque one is an error
  U7  parsing fails on the empty text and on texts that start with '<'
"""
from std import *

FRAGSAFE = cs((0x21, 0x7E)) - cs('"<>`')
PATHSAFE = FRAGSAFE - cs('#?{}')
SEGSAFE = PATHSAFE - cs('/\\%:|')
QSAFE = cs((0x21, 0x7E)) - cs('"#<>')
OPAQUE = cs((0x20, 0x7E)) - cs('?#')
SCHEME = A_LOWER | A_DIGIT | cs('+-.')
AUTH = cs((0x21, 0x7E)) - cs('?#<>"`{} \\')


class Lazy:
    __slots__ = ('key',)

    def __init__(self, key):
        self.key = key

    def __eq__(self, o):
        return isinstance(o, Lazy) and o.key == self.key

    def __hash__(self):
        return hash(self.key)

    def __repr__(self):
        return '?%s%d' % self.key


class UrlV(Val):
    __slots__ = ('A', 'cbb', 'path', 'query', 'frag')
    TY = 'Url'

    def __init__(self, A, cbb, path, query, frag):
        self.A, self.cbb, self.path, self.query, self.frag = A, cbb, path, query, frag

    def __repr__(self):
        return 'Url(%s|%s|%s|%s)' % (show(self.A), show(self.path) if isinstance(self.path, tuple) else self.path,
                                     self.query, self.frag)

    def upd(self, **k):
        d = dict(A=self.A, cbb=self.cbb, path=self.path, query=self.query, frag=self.frag)
        d.update(k)
        return UrlV(**d)

    def seq(self, ex, b):
        return url_eq(ex, self, b)

    def cmp(self, ex, b):
        b = unref(b)
        if not isinstance(b, UrlV):
            raise Unsupported('comparison of a Url with %r' % (b,))
        ctx = ex.ctx
        for x, y, r in ctx.side.get('ueq', ()):
            if (x is self and y is b or x is b and y is self) and r or self is b:
                return ordering(0)
        ra, rb = rank_u(ex, self), rank_u(ex, b)
        less = ctx.branch(ra < rb)
        if less or ctx.branch(rb < ra):
            if not any(x is self and y is b or x is b and y is self for x, y, r in ctx.side.get('ueq', ())):
                if whole(ctx, self) is None or whole(ctx, b) is None or whole(ctx, self) == whole(ctx, b):
                    ctx.side['approx'] = True
                else:
                    ctx.side['udiff'] = ctx.side.get('udiff', ()) + ((self, b),)
                    ctx.side['settle'] = settle
                ctx.side['ueq'] = ctx.side.get('ueq', ()) + ((self, b, False),)
            return ordering(-1 if less else 1)
        if not url_eq(ex, self, b):
            raise Infeasible()
        return ordering(0)

    def as_str(self, ex):
        return ser(ex, self)


def rank_u(ex, u):
    """position of a Url's text in the order of texts"""
    ctx = ex.ctx
    L = ctx.side.get('urank', ())
    for v, r in L:
        if v is u:
            return r
    r = z3.Real('urank!%d' % ctx.fresh_id())
    for x, y, e in ctx.side.get('ueq', ()):
        o = y if x is u else x if y is u else None
        for v, r2 in L:
            if v is o:
                ctx.add(r == r2 if e else r != r2)
    ctx.side['urank'] = L + ((u, r),)
    return r


def small(ctx, v):
    """the url crate stores component offsets as u32"""
    ctx.add(v.bl <= 2 ** 32 - 1)
    return v


def fresh_url(ex, name='u'):
    ctx = ex.ctx
    c = ctx.fresh_char(A_LOWER, name + '_s')
    sch = small(ctx, ctx.fresh_sv(name + '_scheme', SCHEME))
    tail = small(ctx, ctx.fresh_sv(name + '_auth', AUTH))
    i = ctx.fresh_id()
    ctx.lazy[('A', i)] = A = (c, sch, ord(':'), tail)
    u = UrlV(A, Lazy(('c', i)), Lazy(('p', i)), Lazy(('q', i)), Lazy(('f', i)))
    return u


def lazy_key(ctx, key):
    """Urls found equal share their components"""
    k, i = key
    while ('same', i) in ctx.lazy:
        i = ctx.lazy[('same', i)]
    return (k, i)


def whole(ctx, u):
    """the identity of a Url no part of which was ever replaced, else None"""
    c = u.cbb
    if isinstance(c, Lazy) and c.key[0] == 'c' and isinstance(u.path, Lazy) and isinstance(u.query, Lazy) \
            and isinstance(u.frag, Lazy) and len(u.A) == 4:
        i = c.key[1]
        if u.path.key == ('p', i) and u.query.key == ('q', i) and u.frag.key == ('f', i) \
                and ctx.lazy.get(('A', i)) is u.A:
            return lazy_key(ctx, c.key)[1]
    return None


def whole_eq(ex, a, b):
    """equality of two arbitrary Urls without a case analysis of their components: they are
    made the same, or recorded as different (the components are looked at only if a proof
    fails); None when that is not possible"""
    ctx = ex.ctx
    i, j = whole(ctx, a), whole(ctx, b)
    if i is None or j is None:
        return None
    if i == j:
        return True
    D = ctx.side.get('udiff', ())
    for x, y in D:
        if {whole(ctx, x), whole(ctx, y)} == {i, j}:
            return False
    fi, fj = [any((k, n) in ctx.lazy for k in 'cpqf') for n in (i, j)]
    if fi and fj:
        return None
    if ctx.choose(2) == 0:
        if fj:
            i, j = j, i
        ctx.lazy[('same', j)] = i
        A, B = ctx.lazy[('A', i)], ctx.lazy[('A', j)]
        if not ctx.branch(_ceq(A[0], B[0])) or not same_word(ctx, A[1], B[1]) or not same_word(ctx, A[3], B[3]):
            raise Infeasible()
        for x, y in D:
            if whole(ctx, x) == whole(ctx, y):
                raise Infeasible()
        return True
    ctx.side['udiff'] = D + ((a, b),)
    ctx.side['settle'] = settle
    return False


def same_word(ctx, v, w):
    """make the word of v that of w"""
    x, y = ctx.norm((v,)), ctx.norm((w,))
    if x == y:
        return True
    if len(y) == 1 and isinstance(y[0], SV) and y[0] not in x:
        ctx.assign(y[0], x)
        return True
    if len(x) == 1 and isinstance(x[0], SV) and x[0] not in y:
        ctx.assign(x[0], y)
        return True
    return ctx.word_eq(x, y)


def settle(ctx):
    from exec import Executor
    ex = Executor(None, ctx)
    for a, b in ctx.side['udiff']:
        if url_eq0(ex, a, b):
            raise Infeasible()


def force(ex, u, what):
    """value of a lazily constrained component"""
    ctx = ex.ctx
    x = getattr(u, what)
    if not isinstance(x, Lazy):
        return x
    key = lazy_key(ctx, x.key)
    if key in ctx.lazy:
        return ctx.lazy[key]
    k, i = key
    if k == 'c':
        v = ctx.choose(2) == 1
    elif k == 'p':
        cb = force(ex, UrlV(None, Lazy(('c', i)), None, None, None), 'cbb')
        if cb:
            w = small(ctx, ctx.fresh_sv('opath', OPAQUE))
            if ctx.sv_empty(w):
                v = ()
            else:
                c = ctx.fresh_char(OPAQUE - cs('/'))
                r = ctx._sub(w, 'opath')
                ctx.assign(w, (c, r))
                v = (c, r)
        elif ctx.choose(2) == 0:
            v = (ord('/'), small(ctx, ctx.fresh_sv('path', PATHSAFE)))
        else:
            v = ()
    elif k == 'q':
        v = None if ctx.choose(2) == 0 else (small(ctx, ctx.fresh_sv('query', QSAFE)),)
    else:
        v = None if ctx.choose(2) == 0 else (small(ctx, ctx.fresh_sv('frag', FRAGSAFE)),)
    ctx.lazy[key] = v
    return v


def cbb(ex, u):
    return force(ex, u, 'cbb')


def path(ex, u):
    return force(ex, u, 'path')


def query(ex, u):
    return force(ex, u, 'query')


def frag(ex, u):
    return force(ex, u, 'frag')


def ser(ex, u):
    p, q, f = path(ex, u), query(ex, u), frag(ex, u)
    w = u.A + p
    if q is not None:
        w = w + (ord('?'),) + q
    if f is not None:
        w = w + (ord('#'),) + f
    remember(ex, w, u)
    return w


def remember(ex, w, u):
    L = ex.ctx.side.get('ser', ())
    if not any(x is u for _, x in L):
        ex.ctx.side['ser'] = L + ((w, u),)


def url_of_text(ex, w):
    """the Url `w` is known to be the text of"""
    ctx = ex.ctx
    L = ctx.side.get('ser', ())
    if L:
        w = ctx.norm(w)
        for x, u in L:
            if x == w or ctx.norm(x) == w:
                return u
    return None


def _text_eq(ex, a, b):
    x = url_of_text(ex, a)
    y = url_of_text(ex, b) if x is not None else None
    if y is not None:
        return url_eq(ex, x, y)
    if all(any(isinstance(c, SV) and c.name.endswith('_auth') for c in w) for w in (a, b)):
        ex.ctx.side['approx'] = True        # not every word of this shape is the text of a Url
    return None


def _text_cmp(ex, a, b):
    x = url_of_text(ex, a)
    y = url_of_text(ex, b) if x is not None else None
    return x.cmp(ex, y) if y is not None else None


STD['text_eq'] = _text_eq
STD['text_cmp'] = _text_cmp


def optword_eq(ctx, a, b):
    if a is None or b is None:
        return a is None and b is None
    return ctx.word_eq(a, b)


def url_eq(ex, a, b):
    a, b = unref(a), unref(b)
    if a is b:
        return True
    if not isinstance(a, UrlV) or not isinstance(b, UrlV):
        raise Unsupported('comparison of a Url with %r' % (b,))
    ctx = ex.ctx
    L = ctx.side.get('ueq', ())
    for x, y, r in L:
        if x is a and y is b or x is b and y is a:
            return r
    r = whole_eq(ex, a, b)
    if r is None:
        r = url_eq0(ex, a, b)
    ctx.side['ueq'] = ctx.side.get('ueq', ()) + ((a, b, r),)
    ra = [q for v, q in ctx.side.get('urank', ()) if v is a]
    rb = [q for v, q in ctx.side.get('urank', ()) if v is b]
    if ra and rb:
        ctx.assume(ra[0] == rb[0] if r else ra[0] != rb[0])
    return r


def url_eq0(ex, a, b):
    ctx = ex.ctx
    if a.frag != b.frag and not optword_eq(ctx, frag(ex, a), frag(ex, b)):
        return False
    if a.query != b.query and not optword_eq(ctx, query(ex, a), query(ex, b)):
        return False
    if a.A is not b.A and not ctx.word_eq(a.A, b.A):
        return False
    if a.path is not b.path and a.path != b.path:
        if cbb(ex, a) != cbb(ex, b):
            return False
        if not ctx.word_eq(path(ex, a), path(ex, b)):
            return False
    return True


def memo(ex, table, key, mk):
    """uninterpreted function: equal arguments give equal results (forking on equality)"""
    ctx = ex.ctx
    L = ctx.side.get(table, ())
    for k, v in L:
        if len(k) == len(key) and all(x is y for x, y in zip(k, key)):
            return v
    for k, v in L:
        if len(k) == len(key) and all(ctx.word_eq(x, y) for x, y in zip(k, key)):
            return v
    v = mk()
    ctx.side[table] = ctx.side.get(table, ()) + ((key, v),)
    return v


def enc_frag(ex, w):
    ctx = ex.ctx
    if ctx.all_chars(w, FRAGSAFE):
        return w
    ctx.side['approx'] = True
    return memo(ex, 'encfrag', (w,), lambda: ctx.fresh_word('enc', FRAGSAFE))


def set_fragment(ex, u, w):
    """w: word or None"""
    if w is not None:
        return u.upd(frag=enc_frag(ex, w))
    if cbb(ex, u) and query(ex, u) is None and frag(ex, u) is not None:
        p = path(ex, u)
        l = ex.ctx.last(p)
        if l is not None and ex.ctx.branch(_ceq(l[1], 32)):
            ex.ctx.side['approx'] = True
            return u.upd(frag=None, path=memo(ex, 'strip', (p,), lambda: ex.ctx.fresh_word('op', OPAQUE)))
    return u.upd(frag=None)


def safe_segment(ctx, w):
    """every char SEGSAFE and not ending in '.' (so no dot segment), non-forking"""
    w = ctx.norm(w)
    if not w:
        return True
    if not ctx.surely_all(w, SEGSAFE):
        return False
    a = w[-1]
    if isinstance(a, SV):
        return not ctx.sets[a.id].has(46)
    return ctx.entails(b_not(_ceq(a, 46)))


def own_prefix(ctx, p, w):
    """p is the Url's (normalised) path; the longest syntactic common prefix with w that ends
    in '/': returns the remainder of w, or None when they share no such prefix."""
    p, w = ctx.norm(p), ctx.norm(w)
    i = 0
    while i < len(p) and i < len(w) and (same_atom(p[i], w[i]) or not isinstance(p[i], SV)
                                         and not isinstance(w[i], SV) and ctx.entails(_ceq(p[i], w[i]))):
        i += 1
    if i == len(p) and i == len(w):
        return ()
    if i == len(w) and i and is_slash(ctx, w[i - 1]):
        return ()
    while i and not is_slash(ctx, w[i - 1]):
        i -= 1
    return w[i:] if i else None


def is_slash(ctx, a):
    if isinstance(a, SV):
        return False
    return ctx.entails(_ceq(a, 47))


def set_path(ex, u, w):
    ctx = ex.ctx
    w = ctx.norm(w)
    if not cbb(ex, u):
        p = path(ex, u)
        r = own_prefix(ctx, p, w)
        if r is not None and safe_segment(ctx, r):
            return u.upd(path=w)
    ctx.side['approx'] = True
    c = cbb(ex, u)
    key = (u.A, lit('c' if c else 'h'), w)

    def mk():
        if c:
            return ctx.fresh_word('setopath', OPAQUE)
        if ctx.choose(2) == 0:
            return (ord('/'), small(ctx, ctx.fresh_sv('setpath', PATHSAFE)))
        return ()
    return u.upd(path=memo(ex, 'setpath', key, mk))


LIT_RE = re.compile(r'^(https?)://([a-z0-9.-]+)(/[A-Za-z0-9._~!$&\'()*+,;=:@/-]*)?(\?[A-Za-z0-9._=&/-]*)?(#[A-Za-z0-9._=&/?-]*)?$')


def parse_literal(s):
    m = LIT_RE.match(s)
    if not m:
        return None
    host, p = m.group(2), m.group(3) or '/'
    if re.match(r'^[0-9.x]+$', host.split('.')[-1] if host else '') or host.startswith('.') or '..' in host \
            or host.endswith('.') or host.endswith('-') or 'xn--' in host:
        return None
    if any(x in ('.', '..') for x in p.split('/')):
        return None
    return UrlV(lit(m.group(1) + '://' + host), False, lit(p), lit(m.group(4)[1:]) if m.group(4) else None,
                lit(m.group(5)[1:]) if m.group(5) else None)


def parse(ex, w):
    """Url::from_str / Url::parse"""
    ctx = ex.ctx
    w = ctx.norm(w)
    if all(isinstance(a, int) for a in w):
        u = parse_literal(''.join(map(chr, w)))
        if u is not None:
            return ok(u)
    # U1: the text of a known Url
    for x, u in ctx.side.get('ser', ()):
        if ctx.norm(x) == w:
            return ok(u)
    # known prefix followed by already normalised parts
    for x, u in ctx.side.get('ser', ()):
        A = ctx.norm(u.A)
        if w[:len(A)] == A and not cbb(ex, u):
            v = parse_parts(ex, u, w[len(A):])
            if v is not None:
                return ok(v)
    L = ctx.side.get('parse', ())
    for k, v in L:
        if ctx.norm(k) == w:
            return v
    for k, v in L:
        if ctx.word_eq(k, w):
            return v
    for x, u in ctx.side.get('ser', ()):
        if ctx.word_eq(x, w):
            return ok(u)
    if ctx.choose(2) == 0:
        h = ctx.head(w)
        if h is None:
            raise Infeasible()                      # U7
        ctx.assume(b_not(_ceq(h[0], 60)))
        v = ok(fresh_url(ex, 'parsed'))
    else:
        v = err(Opaque('ParseError', ctx.fresh_id()))
    ctx.side['parse'] = ctx.side.get('parse', ()) + ((w, v),)
    return v


def parse_parts(ex, u, rest):
    ctx = ex.ctx
    x = ctx.split_first(rest, cs('#'))
    f = None
    if x is not None:
        rest, f = x[0], x[2]
        if not ctx.surely_all(f, FRAGSAFE):
            return None
    q = None
    x = ctx.split_first(rest, cs('?'))
    if x is not None:
        rest, q = x[0], x[2]
        if not (query(ex, u) is not None and ctx.norm(q) == ctx.norm(query(ex, u))):
            return None
    r = own_prefix(ctx, path(ex, u), rest)
    if r is None or not safe_segment(ctx, r):
        return None
    return UrlV(u.A, False, rest, q, f)


# ------------------------------------------------------------------ the API
def U(v):
    v = unref(v)
    if not isinstance(v, UrlV):
        raise Unsupported('Url expected, got %r' % (v,))
    return v


def wopt(w):
    return NONE if w is None else some(Str(w))


@std('Url::from_str', 'Url::parse')
def _(ex, cal, s):
    return parse(ex, ex.word(s))


@std('Url::fragment')
def _(ex, cal, u):
    return wopt(frag(ex, U(u)))


@std('Url::query')
def _(ex, cal, u):
    return wopt(query(ex, U(u)))


@std('Url::path')
def _(ex, cal, u):
    return Str(path(ex, U(u)))


@std('Url::as_str', 'Url::into_string', 'Url::into')
def _(ex, cal, u):
    return (Str if cal.name == 'as_str' else Own)(ser(ex, U(u)))


@std('Url::cannot_be_a_base')
def _(ex, cal, u):
    return cbb(ex, U(u))


@std('Url::has_authority', 'Url::has_host', 'Url::is_special')
def _(ex, cal, u):
    u = U(u)
    k = memo(ex, cal.name, (u.A,), lambda: z3.Bool('%s!%d' % (cal.name, ex.ctx.fresh_id())))
    return ex.ctx.branch(k)


@std('Url::scheme')
def _(ex, cal, u):
    u = U(u)
    x = ex.ctx.split_first(u.A, cs(':'))
    return Str(x[0] if x else u.A)


@std('Url::host_str', 'Url::domain', 'Url::authority', 'Url::username', 'Url::password', 'Url::port',
     'Url::port_or_known_default', 'Url::host')
def _(ex, cal, u):
    u = U(u)
    ctx = ex.ctx
    ctx.side['approx'] = True

    def mk():
        if cal.name in ('authority', 'username'):
            return Str(ctx.fresh_word(cal.name, AUTH))
        if ctx.choose(2) == 0:
            return NONE
        if cal.name.startswith('port'):
            return some(ctx.fresh_int('port', 0, 65535))
        if cal.name == 'host':
            return some(Opaque('Host', ctx.fresh_id()))
        return some(Str(ctx.fresh_word(cal.name, AUTH)))
    return memo(ex, 'url_' + cal.name, (u.A,), mk)


@std('Url::set_fragment')
def _(ex, cal, r, o):
    u = U(r)
    o = unref(o)
    ex.store(ex.strip(r), set_fragment(ex, u, None if o.var == 'None' else ex.word(o.fs[0])))
    return UNIT


@std('Url::set_path')
def _(ex, cal, r, s):
    ex.store(ex.strip(r), set_path(ex, U(r), ex.word(s)))
    return UNIT


@std('Url::set_query')
def _(ex, cal, r, o):
    u, o = U(r), unref(o)
    ctx = ex.ctx
    if o.var == 'None':
        if cbb(ex, u) and frag(ex, u) is None and query(ex, u) is not None:
            raise Unsupported('query removal on an opaque Url')
        ex.store(ex.strip(r), u.upd(query=None))
    else:
        w = ex.word(o.fs[0])
        if not ctx.surely_all(w, QSAFE - cs("'")):
            ctx.side['approx'] = True
            w = memo(ex, 'encquery', (w,), lambda: ctx.fresh_word('encq', QSAFE))
        ex.store(ex.strip(r), u.upd(query=w))
    return UNIT


@std('Url::path_segments')
def _(ex, cal, u):
    u = U(u)
    if cbb(ex, u):
        return NONE
    p = path(ex, u)
    h = ex.ctx.head(p)
    if h is None:
        return NONE
    if not ex.ctx.branch(_ceq(h[0], 47)):
        return NONE
    return some(STD['str::split'](ex, cal, Str(h[1]), Ch(47)))


@std('Url::join')
def _(ex, cal, u, s):
    u = U(u)
    w = ex.ctx.norm(ex.word(s))
    ctx = ex.ctx
    if cbb(ex, u):
        if w and is_slash(ctx, w[0]):
            return err(Opaque('ParseError', 'RelativeUrlWithCannotBeABaseBase'))
        raise Unsupported('join on an opaque Url')
    segs_ok = w and not isinstance(w[0], SV) and ctx.entails(_ceq(w[0], 47)) and clean_path(ctx, w)
    if segs_ok:
        return ok(UrlV(u.A, False, w, None, None))
    ctx.side['approx'] = True

    def mk():
        if ctx.choose(2) == 0:
            return ok(fresh_url(ex, 'joined'))
        return err(Opaque('ParseError', ctx.fresh_id()))
    return memo(ex, 'join', (ser(ex, u), w), mk)


def clean_path(ctx, w):
    """absolute path whose segments are all safe: '/seg/seg', not starting with '//'"""
    segs, cur = [], None
    for a in w:
        if not isinstance(a, SV) and ctx.entails(_ceq(a, 47)):
            if cur is not None:
                segs.append(tuple(cur))
            cur = []
        else:
            if cur is None:
                return False
            cur.append(a)
    segs.append(tuple(cur))
    for i, s in enumerate(segs):
        if i == 0 and not s and len(segs) > 1:
            return False
        if not ctx.surely_all(s, SEGSAFE):
            return False
        if s and not isinstance(s[-1], SV) and not ctx.entails(b_not(_ceq(s[-1], 46))):
            return False
        if s and isinstance(s[-1], SV) and ctx.sets[s[-1].id].has(46):
            return False
    return True


@std('Url::make_relative', 'Url::set_host', 'Url::set_scheme', 'Url::set_port', 'Url::path_segments_mut',
     'Url::query_pairs', 'Url::query_pairs_mut', 'Url::set_username', 'Url::set_password')
def _(ex, cal, *a):
    raise Unsupported('Url::' + cal.name)


@std('Segments::last')
def _(ex, cal, it):
    return STD['Iterator::last'](ex, cal, it)


@std('ParseError::to_string')
def _(ex, cal, e):
    return to_string(ex, e)

__all__ = [n for n in globals() if not n.startswith('__')]
