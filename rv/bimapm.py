"""Discharges the contract that mapm.py gives for `bimap::BiBTreeMap` on the crate's own MIR:
two trees, of which one is at all times the inverse of the other, against the std contract of
`BTreeMap` (a finite map ordered by the keys' Ord) and of `Rc`.

Keys are arbitrary elements of an arbitrary total order (integers).  A map with content B, an
arbitrary finite bijection, is the pair of trees Tree(B, 0) and Tree(B, 1): B read from the
left and from the right.  For every operation it is shown that, run on such a pair, it returns
what the contract says and leaves trees that agree on every key with the bijection that the
contract says (so the pair of trees again has that form), and that every shared node is then
owned by exactly these two trees."""
import glob
import os
import re
import subprocess
import mir
from prove import *


def build(cargo_lock, deps, out, env):
    """-> (MIR file, source directory) of the bimap crate, or (None, why); deps: where the build of
    /repo's crate left the compiled serde"""
    m = re.search(r'name = "bimap"\nversion = "([^"]*)"', open(cargo_lock).read())
    if not m:
        return None, 'no bimap in Cargo.lock'
    ds = glob.glob(os.path.expanduser('~/.cargo/registry/src/*/bimap-' + m.group(1)))
    if not ds:
        return None, 'source of bimap not found'
    os.makedirs(out, exist_ok=True)
    f = os.path.join(out, 'bimap.mir')
    serde = glob.glob(os.path.join(deps, 'libserde-*.rmeta'))
    if len(serde) != 1:
        return None, 'compiled serde not found'
    r = subprocess.run(['rustc', '--crate-name', 'bimap', '--crate-type', 'lib', '--edition', '2021', '--cfg', 'feature="std"',
                        '--cfg', 'feature="serde"', '-L', 'dependency=' + deps, '--extern', 'serde=' + serde[0],
                        '--cap-lints', 'allow', '--emit', 'mir=' + f, 'src/lib.rs'], cwd=ds[0], env=env, capture_output=True,
                       text=True, timeout=120)
    return (f, ds[0]) if r.returncode == 0 else (None, r.stderr[-300:])


# ------------------------------------------------------------------ std contracts used here
class Tree(Val):
    """BTreeMap: the bijection `base` read from side `s`, then a sequence of operations"""
    __slots__ = ('base', 's', 'ops')
    TY = 'BTreeMap'

    def __init__(self, base, s, ops=()):
        self.base, self.s, self.ops = base, s, ops

    def __repr__(self):
        return 'Tree(%s,%d%s)' % (self.base, self.s, self.ops)


OVER = {}          # std contracts that only this module uses


def over(*names):
    def dec(f):
        for n in names:
            OVER[n] = f
        return f
    return dec


def rcs(ex):
    return ex.ctx.side.setdefault('rc', [])


def new_rc(ex, v, n=1):
    """a reference-counted node holding v, with n owners"""
    c = rcs(ex)
    c.append(n)
    return Struct('Rc', [v, len(c) - 1])


def node(ex, base, i, side, v):
    """the node that both trees of the map `base` hold for component `side` of its i-th known pair"""
    d = ex.ctx.side.setdefault('nodes', {})
    k = (base, i, side)
    if k not in d:
        d[k] = new_rc(ex, v, 2)
    return Struct('Ref', [d[k]])


def key(v):
    """the key itself under the wrappers Ref, Wrapper and Rc, whose Ord is shown to be its Ord"""
    v = unref(v)
    while isinstance(v, Struct) and v.name in ('Ref', 'Wrapper', 'Rc'):
        v = unref(v.fs[0])
    return v


def tget(ex, t, k):
    """(stored key, value) of the entry for k, or None"""
    k = key(k)
    for op in reversed(t.ops):
        if op[0] == 'clear':
            return None
        if key_eq(ex, key(op[1]), k):
            return (op[1], op[2]) if op[0] == 'ins' else None
    p = base_get(ex, t.base, k, t.s == 0)
    if p is None:
        return None
    i = next(i for i, q in enumerate(ex.ctx.mapinfo[t.base].pairs) if q is p)
    return node(ex, t.base, i, t.s, p[t.s]), node(ex, t.base, i, 1 - t.s, p[1 - t.s])


def tsize(ex, t):
    if not t.ops:
        return 0 if t.base is None else ex.ctx.mapinfo[t.base].n
    op, prev = t.ops[-1], Tree(t.base, t.s, t.ops[:-1])
    if op[0] == 'clear':
        return 0
    n = tsize(ex, prev)
    there = tget(ex, prev, op[1]) is not None
    return n if there == (op[0] == 'ins') else n + 1 if op[0] == 'ins' else n - 1


def T(v):
    v = unref(v)
    if not isinstance(v, Tree):
        raise Unsupported('tree expected, got %r' % (v,))
    return v


def tupd(ex, r, op):
    t = T(r)
    ex.store(ex.strip(r), Tree(t.base, t.s, t.ops + (op,)))


B = 'BTreeMap::'


@over('Default::default')
def _(ex, cal):
    if (cal.selfty or '').startswith('PhantomData'):
        return UNIT
    if (cal.selfty or '').split('<')[0] != 'BTreeMap':
        raise Unsupported('default of %s' % cal.selfty)
    return Tree(None, 0)


@over(B + 'new')
def _(ex, cal):
    return Tree(None, 0)


@over(B + 'len')
def _(ex, cal, r):
    return tsize(ex, T(r))


@over(B + 'is_empty')
def _(ex, cal, r):
    return eq_int(tsize(ex, T(r)), 0)


def eq_int(a, b):
    return a == b


@over(B + 'clear')
def _(ex, cal, r):
    tupd(ex, r, ('clear',))
    return UNIT


@over(B + 'get')
def _(ex, cal, r, k):
    p = tget(ex, T(r), k)
    return NONE if p is None else some(ref(p[1]))


@over(B + 'contains_key')
def _(ex, cal, r, k):
    return tget(ex, T(r), k) is not None


@over(B + 'remove')
def _(ex, cal, r, k):
    p = tget(ex, T(r), k)
    if p is None:
        return NONE
    tupd(ex, r, ('rm', key(k)))
    rcs(ex)[p[0].fs[0].fs[1]] -= 1          # the stored key is dropped, the value handed out
    return some(p[1])


@over(B + 'insert')
def _(ex, cal, r, k, v):
    k, v = unref(k), unref(v)
    p = tget(ex, T(r), k)
    if p is not None:                       # the stored key stays
        rcs(ex)[k.fs[0].fs[1]] -= 1
        tupd(ex, r, ('ins', p[0], v))
        return some(p[1])
    tupd(ex, r, ('ins', k, v))
    return NONE


@over(B + 'retain')
def _(ex, cal, r, f):
    """calls f on every entry once and drops those for which it says false.  Shown by induction
    for the state of the whole map: either the walk is over, in an arbitrary state reached, or it
    makes one step from there"""
    r = ex.strip(r)
    if r.path != (0,):
        raise Unsupported('retain on another tree')
    whole = Ref(r.cell, ())
    b, m = any_bimap(ex)
    ex.store(whole, unref(b))
    ex.ctx.side['phase'] = m
    if ex.ctx.choose(2) == 0:
        return UNIT
    p = tget(ex, T(r), K(ex))
    if p is None:
        raise Infeasible()
    keep = ex.callv(f, [ex.mkref(p[0]), ex.mkref(p[1])])
    asked = ex.ctx.side.get('asked', [])
    ex.ctx.prove(len(asked) == 1 and asked[0][2] == keep and key_eq(ex, asked[0][0], key(p[0])) and key_eq(ex, asked[0][1], key(p[1])),
                 'the predicate is asked once, about that pair, and followed')
    if not keep:
        tupd(ex, r, ('rm', key(p[0])))
        for x in p:
            rcs(ex)[x.fs[0].fs[1]] -= 1
        contract(ex, 'remove_by_left', m, key(p[0]))
    represents(ex, whole, m)
    raise Cut()


@over('FnMut::call_mut')
def _(ex, cal, f, a):
    keep = ex.ctx.choose(2) == 1
    a = unref(a)
    ex.ctx.side.setdefault('asked', []).append((unref(a.fs[0]), unref(a.fs[1]), keep))
    return keep


@over(B + 'iter')
def _(ex, cal, r):
    return It('tree', T(r))


@over('Iter::next', 'Iter::next_back')
def _tree_next(ex, cal, r):
    """an entry of the tree (the next or last in its order), or the end"""
    t = T(unref(r).data[0])
    seen = ex.ctx.side.setdefault('seen', [])
    if ex.ctx.choose(2) == 0:
        seen.append((cal.name, None))
        return NONE
    p = tget(ex, t, ex.ctx.fresh_int('k', -2 ** 62, 2 ** 62))
    if p is None:
        raise Infeasible()
    seen.append((cal.name, p))
    return some(tup(ref(p[0]), ref(p[1])))


@over('Iterator::next', 'DoubleEndedIterator::next_back')
def _(ex, cal, r):
    i = unref(r)
    if isinstance(i, It) and i.kind == 'tree':
        return _tree_next(ex, cal, r)
    if isinstance(i, It) and i.kind == 'items':
        return i.data[0](ex, r)
    raise Unsupported('next of %r' % (i,))


@over('IntoIterator::into_iter')
def _(ex, cal, i):
    return i


@over('Iterator::for_each')
def _(ex, cal, i, f):
    r = ex.mkref(i)
    while True:
        x = i.data[0](ex, r)
        if x.var == 'None':
            return UNIT
        ex.callv(f, [x.fs[0]])


@over('Iterator::map')
def _(ex, cal, i, f):
    return It('mapped', i, f)


@over('Iterator::collect')
def _(ex, cal, i):
    return It('collected', i)


@over('Rc::new')
def _(ex, cal, v):
    return new_rc(ex, v)


@over('Clone::clone')
def _(ex, cal, r):
    v = unref(r)
    if isinstance(v, Struct) and v.name == 'Rc':
        rcs(ex)[v.fs[1]] += 1
    elif not isinstance(v, (int, z3.ArithRef)):
        raise Unsupported('clone of %r' % (v,))
    return v


@over('Rc::try_unwrap')
def _(ex, cal, v):
    v = unref(v)
    return ok(v.fs[0]) if rcs(ex)[v.fs[1]] == 1 else err(v)


@over('Deref::deref', 'Borrow::borrow')
def _(ex, cal, r):
    v = unref(r)
    if isinstance(v, Struct) and v.name == 'Rc':
        r = ex.strip(r)
        return Ref(r.cell, r.path + (0,))
    return r


@over('Ord::cmp', 'PartialOrd::partial_cmp', 'PartialEq::eq')
def _(ex, cal, a, b):
    a, b = unref(a), unref(b)
    if isinstance(a, Tree) and isinstance(b, Tree):
        # the order and equality of trees: of their entries, in key order
        return Opaque('tree ' + cal.name, ((a.base, a.s, a.ops), (b.base, b.s, b.ops)))
    while isinstance(a, Struct) and a.name == 'Rc':     # Rc compares what it points to
        a, b = unref(a.fs[0]), unref(b.fs[0])
    if cal.name == 'eq':
        return ex.ctx.branch(a == b)
    c = ex.cmp_int(a, b)
    return c if cal.name == 'cmp' else some(c)


@over('Hash::hash')
def _(ex, cal, a, h):
    ex.ctx.side.setdefault('hashed', []).append(unref(a))
    return UNIT


# ------------------------------------------------------------------ goals
def K(ex):
    return ex.ctx.fresh_int('k', -2 ** 62, 2 ** 62)


def any_bimap(ex):
    """-> (&mut BiBTreeMap, &mut of the bijection it represents)"""
    m = fresh_map(ex, K, K)
    ex.ctx.assume(ex.ctx.mapinfo[m.base].n >= 0)
    return ex.mkref(Struct('BiBTreeMap', [Tree(m.base, 0), Tree(m.base, 1)])), ex.mkref(m)


def represents(ex, r, m):
    """the trees of r agree with the bijection m on every key, and own their nodes"""
    ctx, m, v = ex.ctx, M(m), unref(r)
    for s in (0, 1):
        k = K(ex)
        p, q = tget(ex, v.fs[s], k), get(ex, m, k, s == 0)
        ctx.prove((p is None) == (q is None), 'the trees have exactly the keys of the bijection')
        if p is None:
            continue
        ctx.prove(key_eq(ex, key(p[0]), q[s]) and key_eq(ex, key(p[1]), q[1 - s]), 'the trees have the pairs of the bijection')
        o = tget(ex, v.fs[1 - s], p[1])
        ctx.prove(o is not None and key_eq(ex, key(o[1]), q[s]), 'one tree is the inverse of the other')
        ctx.prove(o[0].fs[0] is p[1].fs[0] and o[1].fs[0] is p[0].fs[0], 'the two trees share the nodes of a pair')
        ctx.prove(all(rcs(ex)[x.fs[0].fs[1]] == 2 for x in p), 'a node is owned by exactly the two trees')
    ctx.prove(seq(ex, tsize(ex, v.fs[0]), size(ex, m)), 'the number of entries is the number of pairs')


GOALS = []


def goal(name):
    def dec(f):
        GOALS.append((name, f))
        return f
    return dec


def contract(ex, name, *args):
    """what mapm.py assumes: applied to the bijection"""
    return SAVED['BiBTreeMap::' + name](ex, mir.parse_callee('BiBTreeMap::' + name), *args)


def operation(name, nkeys, mut, result=True):
    def g(ex):
        r, m = any_bimap(ex)
        ks = [K(ex) for _ in range(nkeys)]
        by_ref = name not in ('insert', 'insert_no_overwrite')
        got = ex.call_body('BiBTreeMap::' + name, r, *[ex.mkref(k) if by_ref else k for k in ks])
        want = contract(ex, name, m, *ks)
        if result:
            ex.ctx.prove(seq(ex, got, want), 'ensures result = specified result')
        represents(ex, r, m)
    GOALS.append(('bimap ' + name, g))


for _n, _k, _m in (('len', 0, 0), ('is_empty', 0, 0), ('get_by_left', 1, 0), ('get_by_right', 1, 0), ('contains_left', 1, 0),
                   ('contains_right', 1, 0), ('remove_by_left', 1, 1), ('remove_by_right', 1, 1), ('clear', 0, 1),
                   ('insert_no_overwrite', 2, 1)):
    operation(_n, _k, _m)
operation('insert', 2, 1, result=False)     # the contract leaves the report of overwritten pairs open


@goal('bimap new, default')
def _(ex):
    for k in ('BiBTreeMap::new', '<BiBTreeMap<L, R> as Default>::default'):
        represents(ex, ex.mkref(ex.call_body(k)), MapV(None))


def iteration(name, which):
    """the iterator hands out exactly the entries of the tree of that side, in its order"""
    def g(ex):
        r, m = any_bimap(ex)
        it = ex.call_body('BiBTreeMap::' + name, r)
        ty = {'iter': 'Iter', 'left_values': 'LeftValues', 'right_values': 'RightValues'}[name]
        ri = ex.mkref(it)
        for tr, nx in (('Iterator', 'next'), ('DoubleEndedIterator', 'next_back')):
            got = ex.call_body('<%s<L, R> as %s>::%s' % (ty, tr, nx), ri)
            call, p = ex.ctx.side['seen'][-1]
            ex.ctx.prove(call == nx, 'one step of the tree iterator in the same direction')
            ex.ctx.prove((got.var == 'None') == (p is None), 'ends with the tree')
            if p is None:
                continue
            ex.ctx.prove(unref(ri).fs[0].data[0].s == (which == 'right'), 'walks the tree of its side')
            q = get(ex, M(m), key(p[0]), which != 'right')
            ex.ctx.prove(q is not None and seq(ex, got.fs[0], map_item(q, which)), 'hands out the pair of the bijection')
        ex.ctx.prove(len(ex.ctx.side['seen']) == 2, 'one step of the tree iterator each')
    GOALS.append(('bimap %s' % name, g))


for _n, _w in (('iter', 'pairs'), ('left_values', 'left'), ('right_values', 'right')):
    iteration(_n, _w)


@goal('bimap iteration by reference')
def _(ex):
    r, m = any_bimap(ex)
    it = ex.call_body('<&BiBTreeMap<L, R> as IntoIterator>::into_iter', r)
    ex.ctx.prove(it.name == 'Iter' and T(it.fs[0].data[0]).s == 0, 'is iter()')


def relation(trait, fn):
    def g(ex):
        (a, m), (b, n) = any_bimap(ex), any_bimap(ex)
        got = ex.call_body('<BiBTreeMap<L, R> as %s>::%s' % (trait, fn), a, b)
        want = Opaque('tree ' + fn, tuple((M(x).base, 0, ()) for x in (m, n)))
        ex.ctx.prove(seq(ex, got, want), 'is that of the entries in the order of the left keys')
    GOALS.append(('bimap ' + fn, g))


for _t, _f in (('PartialEq', 'eq'), ('Ord', 'cmp'), ('PartialOrd', 'partial_cmp')):
    relation(_t, _f)


@goal('bimap hash')
def _(ex):
    r, m = any_bimap(ex)
    ex.call_body('<BiBTreeMap<L, R> as Hash>::hash', r, ex.mkref(It('hasher', ())))
    h = ex.ctx.side.get('hashed', [])
    ex.ctx.prove(len(h) == 1 and h[0] is unref(r).fs[0], 'hashes the tree that equality compares')


def fold(ex, state):
    """an iterator over arbitrary pairs: the first call is made in the initial state; then either
    the loop ends in an arbitrary state, or it makes one step from such a state"""
    def nxt(ex, r):
        ph = ex.ctx.side.setdefault('phase', [0, None])
        cell = state(ex)
        if ph[0] == 0:
            represents(ex, cell, ph[2] if len(ph) > 2 else MapV(None))
            b, m = any_bimap(ex)
            ex.store(ex.strip(cell), unref(b))
            ph[0], ph[1] = 1, m
            if ex.ctx.choose(2) == 0:
                return NONE
            l, v = K(ex), K(ex)
            contract(ex, 'insert', m, l, v)
            return some(tup(l, v))
        represents(ex, cell, ph[1])             # the step inserted the pair
        raise Cut()
    return It('items', nxt)


class Cut(Exception):
    pass


def local_map(ex):
    """the map that the calling function accumulates"""
    cs = [c for c in ex.here_fr.cells.values() if isinstance(c.v, Struct) and c.v.name == 'BiBTreeMap']
    if len(cs) != 1:
        raise Unsupported('accumulated map')
    return Ref(cs[0])


@goal('bimap from_iter')
def _(ex):
    """folds insert over the pairs, from the empty map"""
    try:
        got = ex.call_body('<BiBTreeMap<L, R> as FromIterator<(L, R)>>::from_iter', fold(ex, local_map))
    except Cut:
        return
    represents(ex, ex.mkref(got), ex.ctx.side['phase'][1])


@over('Serializer::collect_map', 'Deserializer::deserialize_map')
def _(ex, cal, s, x):
    ex.ctx.side['serde'] = (cal.name, s, x)
    return Opaque('serde', 0)


@goal('bimap serialize, deserialize')
def _(ex):
    """a map of the pairs, in the order of iteration; deserialized by the visitor below"""
    r, m = any_bimap(ex)
    ser = Opaque('serializer', 1)
    for k, a, c in (('Serialize', [r, ser], 'collect_map'), ('Deserialize', [ser], 'deserialize_map')):
        got = ex.call_body('<BiBTreeMap<L, R> as %s>::%s' % (k, k.lower()), *a)
        n, s, x = ex.ctx.side['serde']
        ex.ctx.prove(n == c and s is ser and isinstance(got, Opaque) and got.ty == 'serde', 'is ' + c)
        if k == 'Serialize':
            ex.ctx.prove(x.name == 'Iter' and unref(x.fs[0].data[0]) is unref(r).fs[0], 'of the pairs of the map')
        else:
            ex.ctx.prove(x.name == 'BiBTreeMapVisitor', 'with the visitor of the type')


@over('MapAccess::next_entry')
def _(ex, cal, r):
    x = unref(r).data[0](ex, r)
    if ex.ctx.choose(2) == 0:
        ex.ctx.side['de'] = e = Opaque('de error', ex.ctx.fresh_id())
        return err(e)
    return ok(x)


@goal('bimap visit_map')
def _(ex):
    """folds insert over the entries, from the empty map; the first error of an entry is returned"""
    try:
        got = ex.call_body('<BiBTreeMapVisitor<L, R> as Visitor>::visit_map', Struct('BiBTreeMapVisitor', [UNIT]), fold(ex, local_map))
    except Cut:
        return
    if 'de' in ex.ctx.side:
        ex.ctx.prove(got.var == 'Err' and got.fs[0] is ex.ctx.side['de'], 'the error of the entry')
        return
    ex.ctx.prove(got.var == 'Ok', 'no other error')
    represents(ex, ex.mkref(got.fs[0]), ex.ctx.side['phase'][1])


@goal('bimap extend')
def _(ex):
    r, m = any_bimap(ex)
    ex.ctx.side['phase'] = [0, None, m]
    try:
        ex.call_body('<BiBTreeMap<L, R> as Extend<(L, R)>>::extend', r, fold(ex, lambda ex: r))
    except Cut:
        return
    represents(ex, r, ex.ctx.side['phase'][1])


@goal('bimap retain')
def _(ex):
    r, m = any_bimap(ex)
    try:
        ex.call_body('BiBTreeMap::retain', r, Opaque('predicate', 0))
    except Cut:
        return
    represents(ex, r, ex.ctx.side['phase'])


@goal('bimap clone')
def _(ex):
    """from_iter of clones of the pairs"""
    r, m = any_bimap(ex)
    got = ex.call_body('<BiBTreeMap<L, R> as Clone>::clone', r)
    ex.ctx.prove(got.kind == 'collected' and got.data[0].kind == 'mapped', 'collects a mapped iterator')
    src, f = got.data[0].data
    ex.ctx.prove(src.name == 'Iter' and unref(src.fs[0].data[0]) is unref(r).fs[0], 'over the pairs of the map')
    a, b = K(ex), K(ex)
    ex.ctx.prove(seq(ex, ex.callv(f, [tup(ex.mkref(a), ex.mkref(b))]), tup(a, b)), 'each cloned')


@goal('bimap key order')
def _(ex):
    """Ref and Wrapper, the key types of the trees, compare as what they hold"""
    a, b = K(ex), K(ex)
    w = {'Ref': lambda x: Struct('Ref', [new_rc(ex, x)]), 'Wrapper': lambda x: Struct('Wrapper', [x])}
    for t, mk in w.items():
        x, y = ex.mkref(mk(a)), ex.mkref(mk(b))
        ex.ctx.prove(seq(ex, ex.call_body('<%s as Ord>::cmp' % t, x, y), ex.cmp_int(a, b)), 'Ord')
        ex.ctx.prove(seq(ex, ex.call_body('<%s as PartialOrd>::partial_cmp' % t, x, y), some(ex.cmp_int(a, b))), 'PartialOrd')
        ex.ctx.prove(ex.call_body('<%s as PartialEq>::eq' % t, x, y) == ex.ctx.branch(a == b), 'PartialEq')
    ex.ctx.prove(seq(ex, key(ex.call_body('<Ref<K> as Borrow<Wrapper<Q>>>::borrow', ex.mkref(w['Ref'](a)))), a),
                 'Ref borrows what it holds')


SAVED = {}


def prove(mirfile, srcdir, limit=20):
    """-> (results, stats, std contracts assumed)"""
    saved = dict(STD)
    SAVED.update({k: v for k, v in STD.items() if k.startswith('BiBTreeMap::')})
    keep = ('Option::', 'Result::', 'Try::', 'FromResidual::')
    try:
        for k in list(STD):
            if not k.startswith(keep):
                del STD[k]
        STD.update(OVER)
        prog = mir.load(mirfile, srcdir)
        ver = Verifier(prog, limit=limit)
        # &T as &Wrapper<T> through a pointer cast, sound for #[repr(transparent)]
        ver.specs = {'Wrapper::wrap': lambda ex, r: Ref(Cell(Struct('Wrapper', [unref(r)])))}

        class Use:
            def __contains__(self, k):
                return k == 'Wrapper::wrap'
        res = []
        for n, f in GOALS:
            res.append(ver.run(n, lambda ex, f=f: f(Executor(prog, ex.ctx, ver.specs, Use(), ver.shared))))
        return res, ver.stats
    finally:
        STD.clear()
        STD.update(saved)


if __name__ == '__main__':
    import sys
    sys.setrecursionlimit(20000)
    f, d = build('/repo/Cargo.lock', '/verif/build/mir/debug/deps', sys.argv[1], dict(os.environ))
    print(f, d)
    rs, st = prove(f, d)
    for r in rs:
        print(r.name, r.status, r.msg, [x[:2] for x in r.failures][:3], r.paths, '%.2f' % r.wall)
    print({k: v for k, v in st.obligations.items()}, sorted(st.assumptions))
