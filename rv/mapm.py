"""Assumed contracts of `bimap::BiBTreeMap` (a finite bijection whose keys are compared with
the key types' own `Ord::cmp`) and of `uuid` (v4 identifiers are fresh 32-digit lower-case
hexadecimal texts).

A map value is a base bijection followed by a sequence of operations.  The base is either
empty or an arbitrary finite bijection, of which only the pairs the code has asked for are
known; nothing bounds its size."""
from urlm import *


class MapV(Val):
    __slots__ = ('base', 'ops')
    TY = 'BiBTreeMap'

    def __init__(self, base, ops=()):
        self.base, self.ops = base, ops

    def __repr__(self):
        return 'Map(%s%s)' % (self.base, ''.join(' %s' % (o[0],) for o in self.ops))

    def seq(self, ex, b):
        return map_eq(ex, self, b)

    def as_iter(self, ex, v):
        return It('mapiter', self, 'pairs')


class Base:
    """facts about an arbitrary base bijection"""
    __slots__ = ('pairs', 'absl', 'absr', 'n', 'mkl', 'mkr', 'facts')

    def copy(self):
        b = Base()
        b.pairs, b.absl, b.absr, b.n, b.mkl, b.mkr = self.pairs, self.absl, self.absr, self.n, self.mkl, self.mkr
        b.facts = self.facts
        return b


def fresh_map(ex, mkl, mkr):
    """an arbitrary finite bijection; mkl/mkr make arbitrary keys"""
    ctx = ex.ctx
    b = Base()
    b.pairs, b.absl, b.absr, b.mkl, b.mkr, b.facts = (), (), (), mkl, mkr, ()
    i = ctx.fresh_id()
    b.n = ctx.fresh_int('maplen', 0, 2 ** 62)
    ctx.mapinfo[i] = b
    return MapV(i)


def key_eq(ex, a, b):
    """are two keys the same key of the tree: the crate's Ord::cmp says Equal"""
    a, b = unref(a), unref(b)
    if a is b:
        return True
    if isinstance(a, (int, z3.ArithRef)):
        return ex.ctx.branch(a == b)
    if isinstance(a, Struct) and '<%s as Ord>::cmp' % a.name in ex.use:
        return seq(ex, a, b)          # the verified contract: Equal exactly on equal values
    return cmp(ex, a, b).var == 'Equal'


def base_get(ex, i, k, left):
    ctx = ex.ctx
    if i is None:
        return None
    b = ctx.mapinfo[i]
    s = 0 if left else 1
    for p in b.pairs:
        if key_eq(ex, p[s], k):
            return p
    for a in (b.absl if left else b.absr):
        if key_eq(ex, a, k):
            return None
    if ctx.choose(2) == 0:
        b = ctx.mapinfo[i] = ctx.mapinfo[i].copy()
        if left:
            b.absl = b.absl + (k,)
        else:
            b.absr = b.absr + (k,)
        return None
    o = (b.mkr if left else b.mkl)(ex)
    # bijection: the partner is none of the other partners and not an absent key
    for p in b.pairs:
        if key_eq(ex, p[1 - s], o):
            raise Infeasible()
    for a in (b.absr if left else b.absl):
        if key_eq(ex, a, o):
            raise Infeasible()
    b = ctx.mapinfo[i] = ctx.mapinfo[i].copy()
    p = (k, o) if left else (o, k)
    b.pairs = b.pairs + (p,)
    ctx.assume(b.n >= len(b.pairs))
    for f in b.facts:
        f(ex, p)
    return p


def get(ex, m, k, left):
    """the pair whose left (right) component is k, or None"""
    ops = m.ops
    s = 0 if left else 1
    later = []        # pairs inserted later: they evict older pairs sharing a component
    removed = []
    for op in reversed(ops):
        if op[0] == 'clear':
            return None
        if op[0] == 'ins':
            p = (op[1], op[2])
            if key_eq(ex, p[s], k):
                return None if evicted(ex, p, later, removed, s) else p
            later.append(p)
        elif op[0] == 'rml':
            if left and key_eq(ex, op[1], k):
                return None
            removed.append((0, op[1]))
        elif op[0] == 'rmr':
            if not left and key_eq(ex, op[1], k):
                return None
            removed.append((1, op[1]))
        elif op[0] == 'ret':
            removed.append((2, op[1]))
    p = base_get(ex, m.base, k, left)
    if p is None or evicted(ex, p, later, removed, s):
        return None
    return p


def evicted(ex, p, later, removed, s):
    for q in later:
        if key_eq(ex, q[1 - s], p[1 - s]):
            return True
    for side, k in removed:
        if side == 2:
            if not ex.ctx.branch(k(ex, p)):
                return True
        elif side != s and key_eq(ex, p[side], k):
            return True
    return False


def size(ex, m):
    ctx = ex.ctx
    if not m.ops:
        return 0 if m.base is None else ctx.mapinfo[m.base].n
    op = m.ops[-1]
    prev = MapV(m.base, m.ops[:-1])
    if op[0] == 'clear':
        return 0
    n = size(ex, prev)
    if op[0] == 'ret':
        return op[2]
    if op[0] == 'rml' or op[0] == 'rmr':
        return n if get(ex, prev, op[1], op[0] == 'rml') is None else _sub_(n, 1)
    pl = get(ex, prev, op[1], True)
    pr = get(ex, prev, op[2], False)
    if pl is None and pr is None:
        return _add(n, 1)
    if pl is None or pr is None:
        return n
    return n if key_eq(ex, pl[1], op[2]) else _sub_(n, 1)


def all_pairs(ex, m):
    """explicit pairs of a map with an empty base, in left order; None otherwise"""
    if m.base is not None:
        return None
    keys = []
    for op in m.ops:
        if op[0] == 'ins' and not any(key_eq(ex, k, op[1]) for k in keys):
            keys.append(op[1])
    out = []
    for k in keys:
        p = get(ex, m, k, True)
        if p is not None:
            out.append(p)
    from functools import cmp_to_key
    out.sort(key=cmp_to_key(lambda a, b: {'Less': -1, 'Equal': 0, 'Greater': 1}[cmp(ex, a[0], b[0]).var]))
    return out


def touched(m):
    l = [o[1] for o in m.ops if o[0] in ('ins', 'rml')]
    r = [o[2] if o[0] == 'ins' else o[1] for o in m.ops if o[0] in ('ins', 'rmr')]
    return l, r


def map_eq(ex, a, b):
    """extensional equality; two maps over the same base are equal exactly when they agree on
    every key that an operation on either of them mentions"""
    b = unref(b)
    if a is b:
        return True
    pa, pb = all_pairs(ex, a), all_pairs(ex, b)
    if pa is not None and pb is not None:
        return len(pa) == len(pb) and all(seq(ex, x[0], y[0]) and seq(ex, x[1], y[1]) for x, y in zip(pa, pb))
    if pa is not None or pb is not None:
        # one side is explicit: the other has as many pairs, and each of these
        ps, m = (pa, b) if pa is not None else (pb, a)
        if not ex.ctx.branch(_eq(size(ex, m), len(ps))):
            return False
        for p in ps:
            q = get(ex, m, p[0], True)
            if q is None or not seq(ex, q[1], p[1]):
                return False
        return True
    if a.base != b.base:
        raise Unsupported('equality of two arbitrary maps')
    if len(a.ops) == len(b.ops) and all(x[0] == y[0] and all(p is q for p, q in zip(x[1:], y[1:]))
                                        for x, y in zip(a.ops, b.ops)):
        return True
    (la, ra), (lb, rb) = touched(a), touched(b)
    if any(o[0] == 'ret' for o in a.ops + b.ops):
        # any key may be affected: compare on an arbitrary one (equal maps agree on it; maps
        # that agree on every choice of it are equal)
        if a.base is not None:
            i = ex.ctx.mapinfo[a.base]
            la, ra = la + [i.mkl(ex)], ra + [i.mkr(ex)]
    for keys, left in ((la + lb, True), (ra + rb, False)):
        seen = []
        for k in keys:
            if any(k is s for s in seen):
                continue
            seen.append(k)
            x, y = get(ex, a, k, left), get(ex, b, k, left)
            if (x is None) != (y is None):
                return False
            if x is not None and not (seq(ex, x[0], y[0]) and seq(ex, x[1], y[1])):
                return False
    return True


def M(v):
    v = unref(v)
    if not isinstance(v, MapV):
        raise Unsupported('map expected, got %r' % (v,))
    return v


def upd(ex, r, op):
    m = M(r)
    ex.store(ex.strip(r), MapV(None, ()) if op[0] == 'clear' else MapV(m.base, m.ops + (op,)))


N = 'BiBTreeMap::'


@std(N + 'new', N + 'default')
def _(ex, cal):
    return MapV(None)


def _default(ex, cal):
    t = (cal.selfty or '').split('<')[0]
    k = '<%s as Default>::default' % t
    if k in ex.prog.by_key:
        return ex.call(k)
    if t in ('BiBTreeMap', 'BiMap'):
        return MapV(None)
    if t in ('String',):
        return Own(())
    if t == 'Option':
        return NONE
    if t == 'bool':
        return False
    if t in INT_BITS:
        return 0
    if t == 'Vec':
        return Arr((), 'vec')
    raise Unsupported('default of ' + t)


STD['Default::default'] = _default


@std(N + 'get_by_left', N + 'get_by_right')
def _(ex, cal, r, k):
    left = cal.name.endswith('left')
    p = get(ex, M(r), unref(k), left)
    return NONE if p is None else some(ref(p[1 if left else 0]))


@std(N + 'contains_left', N + 'contains_right')
def _(ex, cal, r, k):
    return get(ex, M(r), unref(k), cal.name.endswith('left')) is not None


@std(N + 'insert')
def _(ex, cal, r, l, v):
    upd(ex, r, ('ins', unref(l), unref(v)))
    return Opaque('Overwritten', 0)


@std(N + 'insert_no_overwrite')
def _(ex, cal, r, l, v):
    m = M(r)
    if get(ex, m, unref(l), True) is not None or get(ex, m, unref(v), False) is not None:
        return err(tup(l, v))
    upd(ex, r, ('ins', unref(l), unref(v)))
    return ok(UNIT)


@std(N + 'remove_by_left', N + 'remove_by_right')
def _(ex, cal, r, k):
    left = cal.name.endswith('left')
    p = get(ex, M(r), unref(k), left)
    upd(ex, r, ('rml' if left else 'rmr', unref(k)))
    return NONE if p is None else some(tup(p[0], p[1]))


@std(N + 'clear')
def _(ex, cal, r):
    upd(ex, r, ('clear',))
    return UNIT


@std(N + 'len')
def _(ex, cal, r):
    return size(ex, M(r))


@std(N + 'is_empty')
def _(ex, cal, r):
    return _eq(size(ex, M(r)), 0)


@std(N + 'iter', N + 'left_values', N + 'right_values')
def _(ex, cal, r):
    return It('mapiter', M(r), {'iter': 'pairs', 'left_values': 'left', 'right_values': 'right'}[cal.name])


def map_item(p, which):
    if which == 'pairs':
        return tup(ref(p[0]), ref(p[1]))
    return ref(p[0]) if which == 'left' else ref(p[1])


# -- iteration over a map of which only some pairs are known
class Accumulates(Exception):
    """an iteration of a loop uses what the ones before it left"""


class MapStop(Infeasible):
    """the loop came back for another element"""


def live_pairs(ex, m):
    """the live pairs among those inserted by operations"""
    keys, out = [], []
    for op in m.ops:
        if op[0] == 'ins' and not any(key_eq(ex, k, op[1]) for k in keys):
            keys.append(op[1])
    for k in keys:
        p = get(ex, m, k, True)
        if p is not None:
            out.append(p)
    return out


def any_elem(ex, m, exact=False):
    """an arbitrary pair of the map"""
    ctx = ex.ctx
    if not exact:
        ctx.side['approx'] = True         # which pair comes first is not known
    ks = [o[1] for o in m.ops if o[0] == 'ins']
    j = ctx.choose(len(ks) + 1) if ks else 0
    if j < len(ks):
        p = get(ex, m, ks[j], True)
        if p is None:
            raise Infeasible()
        return p
    if m.base is None:
        raise Infeasible()
    k = ctx.mapinfo[m.base].mkl(ex)
    p = base_get(ex, m.base, k, True)
    if p is None or get(ex, m, p[0], True) is not p:
        raise Infeasible()
    return p


def no_elem(ex, m, refute):
    """record that refute(ex, pair) holds for no pair of the map; refute raises Infeasible when
    the pair contradicts that"""
    ctx = ex.ctx
    for p in live_pairs(ex, m):
        refute(ex, p)
    if m.base is None:
        return

    def fact(ex, p):
        if m.ops and get(ex, m, p[0], True) is not p:
            return
        refute(ex, p)
    b = ctx.mapinfo[m.base] = ctx.mapinfo[m.base].copy()
    b.facts = b.facts + (fact,)
    for p in b.pairs:
        fact(ex, p)
    # the number of pairs and such facts are not connected further than this
    ctx.side['approx'] = True
    more = [False]
    old = ctx.mapinfo[m.base].pairs

    def go(c):
        e = ex.sub(c)
        q = base_get(e, m.base, b.mkl(e), True)
        if q is not None and not any(q is p for p in old):
            more[0] = True
    explore(go, ctx.stats, ctx)
    if not more[0]:
        ctx.assume(b.n == len(old))


def set_leaf(it, new):
    if it.kind == 'mapiter':
        return new
    return It(it.kind, set_leaf(it.data[0], new), *it.data[1:])


def _mapiter_next(ex, it, back):
    m, which = it.data[:2]
    mode = it.data[2] if len(it.data) > 2 else None
    if mode is not None:
        if mode[0] == 'one':
            return map_item(mode[1], which), It('mapiter', m, which, ('stop',) + mode[2:])
        if mode[0] == 'end':
            return None, it
        raise Unsupported('element-wise iteration over an arbitrary map')
    ps = all_pairs(ex, m)
    if ps is None:
        if ex.ctx.branch(_eq(size(ex, m), 0)):
            return None, It('mapiter', m, which, ('end',))
        return map_item(any_elem(ex, m), which), It('mapiter', m, which, ('rest',))
    if which == 'right':
        raise Unsupported('order of right values')
    return it_next(ex, It('list', tuple(map_item(p, which) for p in ps), 0), back)


def map_loop(ex, fr, b, r, it, live):
    """A loop over the pairs of a map of which only some are known, at its call of `next`.
    An iteration that returns to the loop leaves a state that differs from the one before it
    in the places `changed`; these are given arbitrary values, then either the loop ends here,
    or it runs one more iteration, on an arbitrary pair, that leaves it."""
    lf = it
    while lf.kind != 'mapiter':
        if lf.kind in ('map', 'filter', 'inspect', 'filter_map') and stateful(ex, lf.data[1]):
            raise Unsupported('stateful adapter over a map')
        lf = lf.data[0]
    m, which = lf.data[:2]
    if len(lf.data) > 2:
        if lf.data[2] == ('stop', fr, b):
            raise MapStop()
        return
    if ex.loops_around(fr.fn, b) != 1:
        raise Unsupported('nested loops over a map')
    ctx = ex.ctx
    if all_pairs(ex, m) is not None:
        return
    from exec import Frame, Stop, clone_cell

    def step(c, cells, ref, p):
        """one iteration on a copy of the cells, with the pair p: the cells when it returns to
        the loop, None when it leaves"""
        memo = {}
        f2 = Frame(fr.fn, fr.tsub)
        f2.cells = {l: clone_cell(x, memo, c.depth) for l, x in cells.items()}
        r2 = Ref(clone_cell(ref.cell, memo, c.depth), ref.path)
        e = ex.sub(c)
        e.depth = ex.depth
        r2.cell.v = write_path(r2.cell.v, r2.path, set_leaf(it, It('mapiter', m, which, ('one', p, f2, b))))
        try:
            e.run_from_call(f2, b)
        except (Stop, MapStop):
            return f2.cells, r2
        except RustPanic:
            return None
        return None

    changed = []

    def go(c):
        p = any_elem(ex.sub(c), m)
        memo = {}
        cells = {l: clone_cell(x, memo, c.depth) for l, x in fr.cells.items()}
        ref = Ref(clone_cell(r.cell, memo, c.depth), r.path)
        for q in changed:
            havoc(ex.sub(c), cells, q)
        a = step(c, cells, ref, p)
        if a is None:
            return
        for q in diffs(ex.sub(c), cells, a[0], live, ref, a[1]):
            if q not in found:
                found.append(q)

    def overwrites(c):
        """from this state: a step on x changes nothing, or leaves a state that a step on any y
        keeps or replaces by the state y alone would give"""
        e = ex.sub(c)
        none = e.mkref(None)
        x = any_elem(e, m)
        memo = {}
        cells = {l: clone_cell(v, memo, c.depth) for l, v in fr.cells.items()}
        ref = Ref(clone_cell(r.cell, memo, c.depth), r.path)
        a = step(c, cells, ref, x)
        if a is None or e.state_same(c, cells, a[0], live, ref, a[1]):
            return
        y = any_elem(e, m)
        ab = step(c, a[0], a[1], y)
        if ab is None or e.state_same(c, a[0], ab[0], live, a[1], ab[1]):
            return
        b2 = step(c, cells, ref, y)
        if b2 is None or not e.state_same(c, b2[0], ab[0], live, b2[1], ab[1]):
            raise Accumulates()

    def same_after(e, cells, ref, p):
        a = step(e.ctx, cells, ref, p)
        return a is not None and e.state_same(e.ctx, cells, a[0], live, ref, a[1])

    found = []

    def find():
        explore(go, ctx.stats, ctx, max_paths=3000)
        return list(found)
    changed.extend(ctx.once(find))
    last = False
    site = ('accumulates', fr.fn.name, b)
    if changed and not ctx.stats.sites.get(site):
        try:
            explore(overwrites, ctx.stats, ctx, max_paths=100)
            last = True
        except Accumulates:
            pass
        except Unsupported as u:
            if str(u) != 'too many paths':
                raise
        # the first verdict, if negative, stands for all states: only precision depends on it,
        # and replayed paths see the same decisions
        ctx.stats.sites.setdefault(site, not last)
    if last and ctx.choose(2) == 0:
        # the state is the one the last changing pair leaves
        p = any_elem(ex, m)
        ex.store(r, set_leaf(it, It('mapiter', m, which, ('one', p, fr, b))))
        memo = {}
        cells = {l: clone_cell(x, memo, 0) for l, x in fr.cells.items()}
        ref = Ref(clone_cell(r.cell, memo, 0), r.path)
        try:
            ex.run_from_call(fr, b)
            raise Infeasible()
        except (Stop, MapStop):
            pass
        if ex.state_same(ctx, cells, fr.cells, live, ref, r):
            raise Infeasible()
        ex.store(r, set_leaf(it, It('mapiter', m, which, ('end',) if ctx.choose(2) == 0 else
                                    ('one', any_elem(ex, m), fr, b))))
        return
    while changed and not last:
        for _ in range(4):
            found = []
            explore(go, ctx.stats, ctx, max_paths=3000)
            new = [q for q in found if q not in changed]
            if not new:
                break
            changed.extend(new)
        else:
            raise Unsupported('loop over a map: no stable set of changed places')
        for q in changed:
            havoc(ex, fr.cells, q)
        ctx.side['approx'] = True
        break
    if ctx.choose(2) == 0:
        p = any_elem(ex, m)
        ex.store(r, set_leaf(it, It('mapiter', m, which, ('one', p, fr, b))))
        return
    if not changed or last:
        memo = {}
        cells = {l: clone_cell(x, memo, 0) for l, x in fr.cells.items()}
        ref = Ref(clone_cell(r.cell, memo, 0), r.path)

        def refute(e, p):
            if not same_after(e, cells, ref, p):
                raise Infeasible()
        no_elem(ex, m, refute)
    ex.store(r, set_leaf(it, It('mapiter', m, which, ('end',))))


def diffs(ex, cells, cells2, live, r, r2):
    """places (local, path through references) whose value differs after an iteration"""
    out = []
    seen = set()

    def go(c, d, q):
        if id(c) in seen:
            return
        seen.add(id(c))
        if c is r.cell and d is r2.cell and not r.path:
            return
        if c.v is None or d.v is None:
            if c.v is not d.v:
                raise Unsupported('loop over a map initialises a local')
            return
        val(c.v, d.v, q, (c, d))

    def val(a, b, q, cell):
        if a is b:
            return
        if isinstance(a, Ref) and isinstance(b, Ref) and a.path == b.path:
            return go(a.cell, b.cell, q + ('*',))
        if isinstance(a, Struct) and isinstance(b, Struct) and a.name == b.name and len(a.fs) == len(b.fs):
            for i, (x, y) in enumerate(zip(a.fs, b.fs)):
                val(x, y, q + (i,), cell)
            return
        if isinstance(a, Closure) and isinstance(b, Closure) and len(a.caps) == len(b.caps):
            for i, (x, y) in enumerate(zip(a.caps, b.caps)):
                val(x, y, q + (i,), cell)
            return
        if isinstance(a, It) and isinstance(b, It) and leaf_of(a).kind == 'mapiter':
            return
        cs = Ref(Cell(None))
        if not ex.state_same(ex.ctx, {0: Cell(a)}, {0: Cell(b)}, [0], cs, cs):
            out.append(q)
    for l in live:
        c, d = cells.get(l), cells2.get(l)
        if c is None or c.v is None:
            continue
        if d is None:
            raise Unsupported('loop over a map')
        go(c, d, (l,))
    return out


def havoc(ex, cells, q):
    c = cells[q[0]]
    path = ()
    for x in q[1:]:
        if x == '*':
            v = read_path(c.v, path)
            c, path = v.cell, v.path
        else:
            path = path + (x,)
    v = read_path(c.v, path)
    ctx = ex.ctx
    if isinstance(v, (Own, Str)):
        n = type(v)(ctx.fresh_word('any'))
    elif isinstance(v, (bool, z3.BoolRef)):
        n = ctx.choose(2) == 1
    elif isinstance(v, (int, z3.ArithRef)):
        n = ctx.fresh_int('any', 0, 2 ** 62)
    else:
        raise Unsupported('loop over a map changes %r' % (v,))
    if c.d < ctx.depth:
        raise Unsupported('mutation inside a summarised closure')
    c.v = write_path(c.v, path, n)


from exec import Executor, leaf_of, write_path, read_path
Executor.loop_hooks['mapiter'] = map_loop


def map_src(ex, r):
    it = unref(r)
    if not isinstance(it, It):
        return False
    it = leaf_of(it)
    return it.kind == 'mapiter' and (len(it.data) > 2 or it.data[0].base is not None)


def by_shim(name, fname=None):
    f = STD[name]

    def g(ex, cal, r, *a):
        if map_src(ex, r):
            rr = ex.strip(r)
            return shim(ex, cal.name, rr, *a)
        return f(ex, cal, r, *a)
    STD[name] = g


for _n in ('all', 'any', 'find'):
    by_shim('Iterator::' + _n)
for _n in ('fold', 'for_each'):
    by_shim('Iterator::' + _n)


@std(N + 'retain')
def _(ex, cal, r, f):
    if stateful(ex, f):
        raise Unsupported('retain with a stateful closure')
    g = clone_val(unref(f), {}, 0)

    def keep(e, p):
        return e.ctx.branch(e.callv(g, [e.mkref(p[0]), e.mkref(p[1])]))
    m = M(r)
    k = ex.ctx.choose(4)

    def dropped():
        p = any_elem(ex, m, True)
        if keep(ex, p):
            raise Infeasible()
        return p

    def must(want, *but):
        def refute(e, p):
            if keep(e, p) != want and not any(key_eq(e, p[0], q[0]) for q in but):
                raise Infeasible()
        no_elem(ex, m, refute)
    if k == 0:                      # every pair is kept
        must(True)
    elif k == 1:                    # one pair is dropped
        x = dropped()
        must(True, x)
        upd(ex, r, ('rml', x[0]))
    elif k == 2:                    # all (two or more) pairs are dropped
        x = dropped()
        y = dropped()
        if key_eq(ex, x[0], y[0]):
            raise Infeasible()
        must(False)
        upd(ex, r, ('clear',))
    else:                           # some pairs are kept and two or more are dropped
        x = dropped()
        y = dropped()
        if key_eq(ex, x[0], y[0]) or not keep(ex, any_elem(ex, m, True)):
            raise Infeasible()
        n = ex.ctx.fresh_int('kept', 1, 2 ** 62)
        ex.ctx.assume(n + 2 <= size(ex, m))
        upd(ex, r, ('ret', keep, n))
    return UNIT


def _mapiter_map(ex, it, f):
    """`iter().map(|(l, _)| l)` is `left_values()`: f is run once on a marked pair"""
    m, which = it.data[:2]
    if len(it.data) > 2 or which != 'pairs' or not ex.stateless(f):
        return None
    a, b = Opaque('mapkey', 0), Opaque('mapkey', 1)
    try:
        x = ex.callv(f, [tup(ex.mkref(a), ex.mkref(b))])
    except Unsupported:
        return None
    if isinstance(x, Ref) and unref(x) is a:
        return It('mapiter', m, 'left')
    if isinstance(x, Ref) and unref(x) is b:
        return It('mapiter', m, 'right')
    if isinstance(x, Struct) and len(x.fs) == 2 and all(isinstance(y, Ref) for y in x.fs) \
            and unref(x.fs[0]) is a and unref(x.fs[1]) is b:
        return It('mapiter', m, 'pairs')
    return None


def rejected(ex, i):
    i = leaf_of(i)
    if i.kind == 'mapiter' and len(i.data) > 2 and i.data[2][0] == 'stop':
        raise MapStop()


def search(ex, i, how, f, back):
    """`filter(f).next()` over a fresh map iterator is `find(f)`"""
    lf = leaf_of(i)
    if back or lf.kind != 'mapiter' or len(lf.data) > 2 or lf.data[0].base is None or stateful(ex, f):
        return None
    ref = ex.mkref(i)
    x = shim(ex, how, ref, f)
    return (x.fs[0] if x.var == 'Some' else None), ex.load(ref)


def _count(ex, it):
    if len(it.data) > 2:
        raise Unsupported('count of the rest of a map')
    return size(ex, it.data[0])


def filters(it):
    """the closures of a stack of filters over a fresh map iterator"""
    fs = []
    while isinstance(it, It) and it.kind == 'filter':
        fs.append(it.data[1])
        it = it.data[0]
    if not isinstance(it, It) or it.kind != 'mapiter' or len(it.data) > 2:
        return None
    return it, fs[::-1]


def seq_iter(ex, a, b):
    """equality of the sequences that two map iterators (possibly filtered) give"""
    a, b = filters(a), filters(b)
    if a is None or b is None or a[0].data[1] != b[0].data[1]:
        return None
    (a, fa), (b, fb) = a, b
    (m, which), n = a.data, M(b.data[0])
    m = M(m)
    # an item may be a copy of the other's only in that it compares equal, which for the texts
    # here is being the same
    if stateful(ex, *fa) or stateful(ex, *fb):
        raise Unsupported('stateful filter over a map')
    if all_pairs(ex, m) is not None and all_pairs(ex, n) is not None:
        raise Unsupported('equality of iterators over known pairs')
    if not fa and not fb:
        if which == 'pairs':
            return map_eq(ex, m, n)
        return same_keys(ex, m, n, which == 'left')
    if map_eq(ex, m, n) is not True:
        raise Unsupported('equality of filtered iterators over different maps')

    def accepts(e, fs, p):
        x = map_item(p, which)
        return all(e.ctx.branch(e.callv(f, [e.mkref(x)])) for f in fs)

    def same(e, p):
        return accepts(e, fa, p) == accepts(e, fb, p)
    if ex.ctx.choose(2) == 0:
        if same(ex, any_elem(ex, m, True)):
            raise Infeasible()
        return False

    def refute(e, p):
        if not same(e, p):
            raise Infeasible()
    no_elem(ex, m, refute)
    return True


def same_keys(ex, a, b, left):
    """do two maps have the same left (right) values?"""
    if a is b:
        return True
    if a.base != b.base or any(o[0] == 'ret' for o in a.ops + b.ops):
        raise Unsupported('keys of two arbitrary maps')
    (la, ra), (lb, rb) = touched(a), touched(b)
    ks = list(la + lb if left else ra + rb)
    for k in (ra + rb if left else la + lb):
        # the pairs that a key on the other side belongs to
        for m in (a, b):
            p = get(ex, m, k, not left)
            if p is not None:
                ks.append(p[0 if left else 1])
        if a.base is not None:
            p = base_get(ex, a.base, k, not left)
            if p is not None:
                ks.append(p[0 if left else 1])
    seen = []
    for k in ks:
        if any(k is s for s in seen):
            continue
        seen.append(k)
        if (get(ex, a, k, left) is None) != (get(ex, b, k, left) is None):
            return False
    return True


STD['seq_iter'] = seq_iter
STD['rejected'] = rejected
STD['search'] = search
STD['count/mapiter'] = _count
STD['map/mapiter'] = _mapiter_map
STD['next/mapiter'] = _mapiter_next


# ------------------------------------------------------------------ uuid
HEX = A_DIGIT | cs((97, 102))


@std('Uuid::new_v4')
def _(ex, cal):
    return Opaque('Uuid', ex.ctx.fresh_id())


@std('Uuid::simple', 'Uuid::as_simple', 'Uuid::into_simple')
def _(ex, cal, u):
    return Opaque('Simple', unref(u).key)


@std('Uuid::hyphenated', 'Uuid::as_hyphenated')
def _(ex, cal, u):
    return Opaque('Hyphenated', unref(u).key)


@std('Uuid::encode_buffer', 'Simple::encode_buffer', 'Uuid::to_bytes_le')
def _(ex, cal):
    return Arr((), 'bytes')


def uuid_text(ex, k):
    ctx = ex.ctx
    L = ctx.side.get('uuid', ())
    for k2, w in L:
        if k2 == k:
            return w
    v = ctx.fresh_sv('uuid', HEX)
    ctx.add(z3.And(v.cl == 32, v.bl == 32))
    c = ctx.fresh_char(HEX)
    r = ctx._sub(v, 'uuid')
    ctx.assign(v, (c, r))
    for _, w in L:                      # U8: v4 identifiers do not repeat
        if ctx.word_eq(w, (v,)):
            raise Infeasible()
    ctx.side['uuid'] = L + ((k, (v,)),)
    return (v,)


@std('Simple::encode_lower', 'Simple::to_string', 'Simple::encode_upper')
def _(ex, cal, s, *buf):
    if cal.name == 'encode_upper':
        raise Unsupported('encode_upper')
    return (Own if cal.name == 'to_string' else Str)(uuid_text(ex, unref(s).key))


_opaque_text0 = opaque_text


def _optext(ex, x):
    if x.ty == 'Simple':
        return uuid_text(ex, x.key)
    return _opaque_text0(ex, x)


import std as _stdmod
_stdmod.opaque_text = _optext
__all__ = [n for n in globals() if not n.startswith('__')]
