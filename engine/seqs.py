"""Whole-vector operations of the standard library on sequences of known (bounded) length: used by the bounded stand-in."""
import z3
from core import *
from interp import prim
from prims import some, none, slice_window, guard


def unknown(I, n):
    """no small bound on a length follows from what is assumed"""
    return I.bound is None and isz(n) and not I.ex.must(zlt(n, 4))


def elems(I, rope, what):
    if unknown(I, I.rope_len(rope)):
        raise Unsupported(what + ' of a sequence of unknown length')
    n = I.rope_len(rope)
    out = []
    i = 0
    while I.ex.choose(zlt(i, n)):
        out.append(I.rope_get(rope, i))
        i += 1
        guard(I, i)
    return out


def slice_elems(I, r, what):
    w = slice_window(I, r)
    rope = I.load(r.cell, r.path)
    if not isinstance(rope, Rope):
        raise Unsupported(what + ' of ' + type(rope).__name__)
    if unknown(I, w[1]):
        raise Unsupported(what + ' of a sequence of unknown length')
    out = []
    i = 0
    while I.ex.choose(zlt(i, w[1])):
        out.append(I.rope_get(rope, zadd(w[0], i)))
        i += 1
        guard(I, i)
    return rope, w, out


def put(I, r, rope, w, vals):
    """writes the elements of a slice back"""
    for i, v in enumerate(vals):
        rope = I.rope_set(rope, zadd(w[0], i), v)
    I.write(Ref(r.cell, r.path), rope)


def fcl(fn):
    return Ref(Cell(fn)) if isinstance(fn, Agg) else fn


def less(I, a, b):
    """derived / primitive order of values"""
    a, b = I.strip(a), I.strip(b)
    if isinstance(a, Sym):
        a = I.force(a)
    if isinstance(b, Sym):
        b = I.force(b)
    if isinstance(a, Agg) and isinstance(b, Agg):
        if a.v != b.v:
            return a.v < b.v
        for x, y in zip(a.f, b.f):
            if less(I, x, y):
                return True
            if less(I, y, x):
                return False
        return False
    if isinstance(a, (Agg, Rope, Opaque)) or isinstance(b, (Agg, Rope, Opaque)):
        raise Unsupported('order of values')
    if z3.is_bool(a) or isinstance(a, bool):
        return I.ex.choose(zand(znot(a), b))
    return I.ex.choose(zlt(a, b))


def insertion(xs, lt):
    out = []
    for x in xs:
        k = len(out)
        while k > 0 and lt(x, out[k - 1]):
            k -= 1
        out.insert(k, x)
    return out


def plain(I, ty, depth=0):
    """is the order of the type the primitive / lexicographic one?"""
    t = I.T(ty)
    if t['k'] in ('int', 'bool'):
        return True
    if t['k'] == 'tuple':
        return all(plain(I, f, depth + 1) for f in t['f'])
    if t['k'] == 'ref':
        return plain(I, t['e'], depth + 1)
    return False


@prim('std::slice::<impl [T]>::sort', 'core::slice::<impl [T]>::sort_unstable')
def _(I, f, a):
    rope, w, xs = slice_elems(I, a[0], 'sort')
    lt = lambda x, y: less(I, x, y)
    if not plain(I, rope.ety):
        # the order of the element type itself
        name = '<%s as std::cmp::PartialOrd>::lt' % I.T(rope.ety)['n']
        fn = next((i for i, g in enumerate(I.P.fns) if g['n'] == name and g['body']), None)
        if fn is None:
            raise Unsupported('order of elements')
        lt = lambda x, y: I.ex.choose(I.tobool(I.call(fn, [Ref(Cell(x)), Ref(Cell(y))])))
    put(I, a[0], rope, w, insertion(xs, lt))
    return UNIT


@prim('std::slice::<impl [T]>::sort_by', 'core::slice::<impl [T]>::sort_unstable_by')
def _(I, f, a):
    rope, w, xs = slice_elems(I, a[0], 'sort_by')
    fc = fcl(a[1])
    put(I, a[0], rope, w, insertion(xs, lambda x, y: I.variant(I.call_value(fc, [Ref(Cell(x)), Ref(Cell(y))])).v == 0))
    return UNIT


@prim('std::slice::<impl [T]>::sort_by_key', 'core::slice::<impl [T]>::sort_unstable_by_key')
def _(I, f, a):
    rope, w, xs = slice_elems(I, a[0], 'sort_by_key')
    fc = fcl(a[1])
    ks = [(I.call_value(fc, [Ref(Cell(x))]), x) for x in xs]
    put(I, a[0], rope, w, [x for _, x in insertion(ks, lambda x, y: less(I, x[0], y[0]))])
    return UNIT


@prim('core::slice::<impl [T]>::reverse')
def _(I, f, a):
    rope, w, xs = slice_elems(I, a[0], 'reverse')
    put(I, a[0], rope, w, xs[::-1])
    return UNIT


def dedup(I, r, same):
    rope = I.deref(r)
    out = []
    for x in elems(I, rope, 'dedup'):
        if out and same(out[-1], x):
            continue
        out.append(x)
    I.write(r, Rope(rope.ety, [('e', x) for x in out]))
    return UNIT


@prim('std::vec::Vec::<T, A>::dedup')
def _(I, f, a):
    return dedup(I, a[0], lambda x, y: I.ex.choose(I.tobool(I.equal(x, y))))


@prim('std::vec::Vec::<T, A>::dedup_by')
def _(I, f, a):
    fc = fcl(a[1])
    return dedup(I, a[0], lambda x, y: I.ex.choose(I.tobool(I.call_value(fc, [Ref(Cell(y)), Ref(Cell(x))]))))


@prim('std::vec::Vec::<T, A>::dedup_by_key')
def _(I, f, a):
    fc = fcl(a[1])
    return dedup(I, a[0], lambda x, y: I.ex.choose(I.tobool(I.equal(I.call_value(fc, [Ref(Cell(x))]), I.call_value(fc, [Ref(Cell(y))])))))


@prim('std::vec::Vec::<T, A>::split_off')
def _(I, f, a):
    rope = I.deref(a[0])
    if not I.ex.choose(zle(a[1], I.rope_len(rope))):
        raise PathEnd('panic', 'Vec::split_off index out of bounds')
    left, right = I.rope_split(rope, a[1])
    I.write(a[0], Rope(rope.ety, left))
    return Rope(rope.ety, right)
