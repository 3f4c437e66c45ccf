"""Iterator algebra: the documented meaning of the standard library's lazy iterators and of the consumers that
are loops over an unbounded sequence (collect, retain, find, any, all, position, max_by_key, count, extend)."""
import z3
from core import *
from interp import Interp, prim
from prims import some, none, slice_window, elem_ref, guard, it_next, fold_inv, pred_term
from loops import mentions

U32 = (1 << 32) - 1


class Gen:
    """element function of a sequence that is not a plain symbolic vector"""
    def __init__(self, I, fn):
        self.fn = fn
        self.st = {k: list(v) for k, v in I.storage.items()}

    def get(self, I, i):
        if I.storage == self.st:
            return self.fn(i)
        cur = I.storage
        I.storage = {k: list(v) for k, v in self.st.items()}
        try:
            return self.fn(i)
        finally:
            I.storage = cur


class Seq:
    """n elements; with `keep`, only those satisfying it, in order (get(i) then has a meaning only for kept i).
    effs: accumulators the closures of the chain write, (reference, declared invariant)"""
    def __init__(self, n, get, keep=None, base=None, effs=()):
        self.n, self.get, self.keep, self.base, self.effs = n, get, keep, base, effs


def freeze(I, v, depth=0):
    """copy of a value in which every reference points to a private cell"""
    if depth > 6:
        raise Unsupported('deep closure capture')
    if isinstance(v, Ref):
        if v.sl is not None:
            return Ref(Cell(freeze(I, I.load(v.cell, v.path), depth + 1)), (), v.sl)
        return Ref(Cell(freeze(I, I.load(v.cell, v.path), depth + 1)))
    if isinstance(v, Agg):
        return Agg(v.ty, v.v, [freeze(I, x, depth + 1) for x in v.f])
    return v


def aname(I, v):
    v = I.force(v) if isinstance(v, Sym) else v
    if isinstance(v, Ref):
        return None
    if isinstance(v, Opaque) and v.tag == 'mapiter':
        return 'MapIter'
    if isinstance(v, Agg) and isinstance(v.ty, int):
        t = I.T(v.ty)
        if t['k'] == 'adt':
            return t['p'].rsplit('::', 1)[1]
    return None


def closure(I, fn):
    fn = freeze(I, fn)
    return Ref(Cell(fn)) if isinstance(fn, Agg) else fn


def muts(I, fn):
    """positions of the captured integers a closure may write"""
    if not isinstance(fn, Agg) or not isinstance(fn.ty, int):
        return []
    t = I.T(fn.ty)
    if t['k'] != 'closure' or t.get('ck') != 'FnMut':
        return []
    r = []
    for k, x in enumerate(t['f']):
        u = I.T(x)
        if u['k'] == 'ref' and u['n'].startswith('&mut ') and isinstance(fn.f[k], Ref):
            r.append((k, u['e']))
    return r


class Acc:
    """an accumulator captured by a closure of an iterator chain: its value in the run under way"""
    def __init__(self, ref, ty, inv):
        self.ref, self.ty, self.inv, self.cell = ref, ty, inv, None


def stateful(I, fn, base):
    """(function to call the closure anew, accumulators): the closure is copied for every call, its accumulators are
    arbitrary unless a run sets them"""
    ms = muts(I, fn)
    if not ms:
        fc = closure(I, fn)
        return (lambda args: I.call_value(fc, args)), ()
    accs = []
    for k, ty in ms:
        for inv in I.invs:
            if inv['kind'] == 'acc' and inv['ety'] in base and inv['acc'] == I.tyname(ty):
                break
        else:
            raise Unsupported('an iterator closure writes what it captures')
        accs.append((k, Acc(fn.f[k], ty, inv)))

    def call(args):
        f = freeze(I, fn)
        fs = list(f.f)
        for k, a in accs:
            fs[k] = Ref(a.cell if a.cell is not None else Cell(I.mk(a.ty, 'acc!any')))
        return I.call_value(Ref(Cell(Agg(f.ty, f.v, fs))), args)
    return call, tuple(a for _, a in accs)


def run_effects(I, s):
    """prove that the accumulators keep their invariant over the elements; they then have a value that satisfies it"""
    if not s.effs:
        return
    if s.base is None:
        raise Unsupported('an iterator closure writes what it captures')
    vals = [I.deref(a.ref) for a in s.effs]
    holds = lambda a, k, v: I.tobool(I.call_value(a.inv['fn'], [k, v]))
    for a, v in zip(s.effs, vals):
        I.side('initially', holds(a, 0, v))
    if I.ex.choose(z3.Bool(I.fresh('step'))):
        k = I.leaf(I.fresh('lk'), (), z3.IntSort(), 0, U32)
        I.ex.assume(zlt(k, s.n))
        I.guards.append((Cell.count[0], set()))
        for a in s.effs:
            a.cell = Cell(I.mk(a.ty, I.fresh('acc')))
            I.ex.assume(holds(a, k, a.cell.v))
        st = {p: len(v) for p, v in I.storage.items()}
        I.tobool(s.keep(k)) if s.keep else s.get(k)
        if any(len(v) > st.get(p, 0) for p, v in I.storage.items()):
            raise Unsupported('an iterator closure writes storage')
        for a in s.effs:
            I.lastinst = True
            try:
                c = holds(a, zadd(k, 1), a.cell.v)
            finally:
                I.lastinst = False
            I.side('preserved', c)
        raise PathEnd('done')
    for a in s.effs:
        v = I.mk(a.ty, I.fresh('acc'))
        I.ex.assume(holds(a, s.n, v))
        I.write(a.ref, v)


def norm(I, s):
    """the sequence of the kept elements"""
    if s is None or not s.keep:
        if s is not None and s.effs:
            raise Unsupported('an iterator closure writes what it captures')
        return s
    run_effects(I, s)
    return filtered(I, s, s.keep, s.get)


def pure(I, n, fn):
    """evaluate fn once at an arbitrary index: it must neither write nor panic"""
    if not isz(n) and n <= 0:
        return
    i = z3.Int(I.fresh('el'))
    snap = I.snapshot()
    I.boundvars.append(i)
    base = {p: len(v) for p, v in I.storage.items()}

    def run():
        I.restore(snap)
        I.guards.append((Cell.count[0], set()))
        I.ex.fact(z3.And(i >= 0, i < n))
        try:
            fn(i)
        except PathEnd as e:
            # a panicking path may only be excluded by what is known of every element
            if e.kind == 'panic' and I.ex.entailed(z3.BoolVal(False))[0] == 'proved':
                raise PathEnd('assume')
            raise
        if any(len(v) > base.get(p, 0) for p, v in I.storage.items()):
            raise Unsupported('an iterator closure writes storage')
        return True
    try:
        outs = I.ex.nested(run)
    finally:
        I.boundvars.pop()
        I.restore(snap)
    I.lift_axioms(outs)
    for c, (k, r), fs in outs:
        if k == 'panic':
            raise Unsupported('an iterator closure may panic: %s' % (r,))


def deref_all(I, e):
    return I.deref(e) if isinstance(e, Ref) else e


def seq(I, v):
    """the sequence an iterator value stands for, or None when it is not understood"""
    return norm(I, lazy(I, v))


def lazy(I, v):
    nm = aname(I, v)
    if nm == 'MapIter':
        return Seq(v.v.n, v.v.get)
    if nm in ('Iter', 'IterMut') and len(v.f) == 1 and isinstance(v.f[0], Ref):
        r = v.f[0]
        if nm == 'IterMut':
            return None
        w = slice_window(I, r)
        r2 = Ref(Cell(I.load(r.cell, r.path)), (), w)
        return Seq(w[1], lambda i: elem_ref(I, r2, i))
    if nm == 'IntoIter' and len(v.f) == 1 and isinstance(v.f[0], Rope):
        rope = v.f[0]
        return Seq(I.rope_len(rope), lambda i: I.rope_get(rope, i))
    if nm == 'Range':
        a, b = v.f[0], v.f[1]
        if not (isz(a) or isinstance(a, int)) or not (isz(b) or isinstance(b, int)):
            return None
        n = zsub(b, a)
        if isz(n):
            n = z3.If(n < 0, z3.IntVal(0), n) if not I.ex.must(zle(a, b)) else n
        else:
            n = max(0, n)
        return Seq(n, lambda i: zadd(a, i))
    if nm in ('Map', 'FilterMap', 'Filter', 'Inspect') and len(v.f) == 2:
        s = lazy(I, v.f[0])
        if s is None:
            return None
        base = s.base or base_types(I, v.f[0])
        call, effs = stateful(I, v.f[1], base)
        effs = s.effs + effs
        keep0 = s.keep or (lambda i: True)
        if nm == 'Map':
            if effs:
                return None
            g = Gen(I, lambda i: call([s.get(i)]))
            get = lambda i: g.get(I, i)
            pure(I, s.n, (lambda i: get(i) if I.ex.choose(keep0(i)) else None) if s.keep else get)
            return Seq(s.n, get, s.keep, base, effs)
        if nm == 'Filter':
            g = Gen(I, lambda i: I.tobool(call([Ref(Cell(s.get(i)))])))
            keep = lambda i: g.get(I, i) if I.ex.choose(keep0(i)) else False
            return Seq(s.n, s.get, keep, base, effs)
        if nm == 'FilterMap':
            if effs:
                return None
            g = Gen(I, lambda i: call([s.get(i)]))
            keep = lambda i: I.ex_is_some(g.get(I, i)) if I.ex.choose(keep0(i)) else False

            def payload(i):
                o = I.variant(g.get(I, i))
                if o.v != 1:
                    raise PathEnd('assume')
                return o.f[0]
            return Seq(s.n, payload, keep, base, effs)
        return None
    if nm in ('Copied', 'Cloned'):
        s = lazy(I, v.f[0])
        return s and Seq(s.n, lambda i: deref_all(I, s.get(i)), s.keep, s.base, s.effs)
    if nm == 'Enumerate':
        s = seq(I, v.f[0])
        c = v.f[1]
        return s and Seq(s.n, lambda i: Agg(None, 0, (zadd(c, i), s.get(i))))
    if nm == 'Rev':
        s = seq(I, v.f[0])
        return s and Seq(s.n, lambda i: s.get(zsub(zsub(s.n, 1), i)))
    if nm == 'Take':
        s = seq(I, v.f[0])
        if s is None:
            return None
        k = v.f[1]
        return Seq(k if I.ex.choose(zle(k, s.n)) else s.n, s.get)
    if nm == 'Skip':
        s = seq(I, v.f[0])
        if s is None:
            return None
        k = v.f[1]
        if I.ex.choose(zle(k, s.n)):
            return Seq(zsub(s.n, k), lambda i: s.get(zadd(k, i)))
        return Seq(0, s.get)
    if nm == 'Zip':
        s, t = seq(I, v.f[0]), seq(I, v.f[1])
        if s is None or t is None:
            return None
        return Seq(s.n if I.ex.choose(zle(s.n, t.n)) else t.n, lambda i: Agg(None, 0, (s.get(i), t.get(i))))
    if nm == 'Chain':
        x, y = I.force(v.f[0]), I.force(v.f[1])
        s = seq(I, x.f[0]) if x.v == 1 else Seq(0, None)
        t = seq(I, y.f[0]) if y.v == 1 else Seq(0, None)
        if s is None or t is None:
            return None
        return Seq(zadd(s.n, t.n), lambda i: s.get(i) if I.ex.choose(zlt(i, s.n)) else t.get(zsub(i, s.n)))
    return None


def base_types(I, v):
    """names of the type arguments of the iterator under the adapters"""
    while aname(I, v) in ('Map', 'FilterMap', 'Filter', 'Inspect', 'Copied', 'Cloned', 'Enumerate', 'Rev', 'Take', 'Skip'):
        v = v.f[0]
    t = I.T(v.ty) if isinstance(v, Agg) and isinstance(v.ty, int) else {}
    return [I.tyname(x) for x in t.get('a', ()) if isinstance(x, int)] or ['?']


def ex_is_some(I, o):
    if isinstance(o, Agg):
        return o.v == 1
    return zeq(I.disc_leaf(o), 1)


Interp.ex_is_some = ex_is_some


def filtered(I, s, pred, val=None):
    """order-preserving selection: new positions k < L correspond one to one to the old positions with pred"""
    val = val or s.get
    if not isz(s.n) and s.n <= 0:
        return Seq(0, val)
    pure(I, s.n, pred)
    t = pred_term(I, s.n, pred, 'flt!ph') if I.bound is None else None
    if t is not None:
        if isz(t) and mentions([t], z3.Int('acc!any')):
            raise Unsupported('which elements are kept depends on an accumulator')
        if t is True or isz(t) and I.ex.must(z3.Implies(z3.And(z3.Int('flt!ph') >= 0, z3.Int('flt!ph') < s.n), t)):
            return Seq(s.n, val)
        for n2, t2, L, g in I.filters:
            # the same selection as an earlier one
            if not z3.eq(Z(n2), Z(s.n)):
                continue
            if isz(t) and isz(t2) and (t.eq(t2) or I.ex.must(z3.Implies(z3.And(z3.Int('flt!ph') >= 0, z3.Int('flt!ph') < s.n), t == t2))):
                return selected(I, s, L, g, val)
    nm = I.fresh('flt')
    L = I.leaf(nm + '.n', (), z3.IntSort(), 0, U32)
    I.ex.fact(zle(L, s.n))
    g = lambda k: I.leaf(nm + '.g', (k,), z3.IntSort(), 0, U32)
    h = lambda i: I.leaf(nm + '.h', (i,), z3.IntSort(), 0, U32)

    I.inverse[g(z3.Int('k')).decl().name()] = h

    def ga(k):
        p = g(k)
        I.ex.fact(z3.Implies(z3.And(Z(k) >= 0, Z(k) < L), z3.And(p >= 0, p < s.n, p >= k, h(p) == k)))
        return p
    conj = lambda *xs: zand(*[simp(x) for x in xs])
    I.ex.fact(I.quantify(L, lambda k: conj(zlt(g(k), s.n), zle(k, g(k)), zeq(h(g(k)), k)), True))
    I.ex.fact(I.quantify(L, lambda k: at(I, s.n, pred, g(k)), True))
    I.ex.fact(I.quantify(s.n, lambda i: zor(znot(pred(i)), conj(zle(0, h(i)), zlt(h(i), L), zeq(g(h(i)), i))), True))
    I.ex.fact(I.quantify(L, lambda k: I.quantify(k, lambda j: zlt(g(j), g(k)), True), True))

    I.ex.fact(z3.Implies(L > 0, z3.And(h(g(0)) == 0, g(0) >= 0)))
    # all are kept or there are fewer
    I.ex.fact(zor(zlt(L, s.n), I.quantify(s.n, pred, True)))
    if I.ex.must(zlt(0, s.n)):
        I.ex.fact(zor(zlt(L, s.n), pred_at(I, s.n, pred, t, 0)))
    if t is not None and not I.boundvars:
        I.filters.append((s.n, t, L, g))
    return selected(I, s, L, g, val)


def pred_at(I, n, pred, t, i):
    return z3.substitute(t, (z3.Int('flt!ph'), Z(i))) if isz(t) else pred(i)


def selected(I, s, L, g, val):
    def get(k):
        p = g(k)
        I.ex.fact(z3.Implies(z3.And(Z(k) >= 0, Z(k) < L), z3.And(p >= 0, p < s.n)))
        return val(p)
    return Seq(L, get)


def at(I, n, pred, p):
    I.ex.fact(zlt(p, n))
    return pred(p)


def rope_of(I, s, ety):
    if not isz(s.n) and s.n <= 8:
        return Rope(ety, [('e', s.get(i)) for i in range(s.n)])
    return Rope(ety, [('b', ety, Gen(I, s.get), (), 0, s.n)])


def walk(I, v):
    """elements in order, forking on the end (bounded exploration or concrete length); None if not understood"""
    nm = aname(I, v)
    if nm in ('Iter', 'IterMut') and isinstance(v.f[0], Ref):
        n = 0
        while True:
            x = it_next(I, v)
            if x is None:
                return
            e, v = x
            yield e
            n += 1
            guard(I, n)
    elif nm == 'MapIter':
        n = 0
        while I.ex.choose(zlt(n, v.v.n)):
            yield v.v.get(n)
            n += 1
            guard(I, n)
    elif nm == 'IntoIter' and isinstance(v.f[0], Rope):
        rope = v.f[0]
        n, L = 0, I.rope_len(rope)
        while I.ex.choose(zlt(n, L)):
            yield I.rope_get(rope, n)
            n += 1
            guard(I, n)
    elif nm == 'Range':
        a, b = v.f[0], v.f[1]
        n = 0
        while I.ex.choose(zlt(a, b)):
            yield a
            a = zadd(a, 1)
            n += 1
            guard(I, n)
    elif nm == 'Map':
        fc = Ref(Cell(v.f[1])) if isinstance(v.f[1], Agg) else v.f[1]
        for x in walk(I, v.f[0]):
            yield I.call_value(fc, [x])
    elif nm == 'Filter':
        fc = Ref(Cell(v.f[1])) if isinstance(v.f[1], Agg) else v.f[1]
        for x in walk(I, v.f[0]):
            if I.ex.choose(I.tobool(I.call_value(fc, [Ref(Cell(x))]))):
                yield x
    elif nm == 'FilterMap':
        fc = Ref(Cell(v.f[1])) if isinstance(v.f[1], Agg) else v.f[1]
        for x in walk(I, v.f[0]):
            o = I.variant(I.call_value(fc, [x]))
            if o.v == 1:
                yield o.f[0]
    elif nm in ('Copied', 'Cloned'):
        for x in walk(I, v.f[0]):
            yield deref_all(I, x)
    elif nm == 'Enumerate':
        c = v.f[1]
        for x in walk(I, v.f[0]):
            yield Agg(None, 0, (c, x))
            c = zadd(c, 1)
    elif nm == 'Take':
        k = v.f[1]
        for x in walk(I, v.f[0]):
            if not I.ex.choose(zlt(0, k)):
                return
            k = zsub(k, 1)
            yield x
    elif nm == 'Skip':
        k = v.f[1]
        for x in walk(I, v.f[0]):
            if I.ex.choose(zlt(0, k)):
                k = zsub(k, 1)
                continue
            yield x
    elif nm == 'Rev':
        for x in reversed(list(walk(I, v.f[0]))):
            yield x
    elif nm == 'Zip':
        w = walk(I, v.f[1])
        for x in walk(I, v.f[0]):
            try:
                y = next(w)
            except StopIteration:
                return
            yield Agg(None, 0, (x, y))
    elif nm == 'Chain':
        for o in v.f:
            o = I.force(o)
            if o.v == 1:
                for x in walk(I, o.f[0]):
                    yield x
    else:
        raise Unsupported('iterator ' + repr(v)[:80])


KNOWN = {'MapIter', 'Iter', 'IterMut', 'IntoIter', 'Range', 'Map', 'Filter', 'FilterMap', 'Copied', 'Cloned', 'Enumerate', 'Take',
         'Skip', 'Rev', 'Zip', 'Chain'}


def known(I, v):
    nm = aname(I, v)
    if nm not in KNOWN:
        return False
    if nm in ('Iter', 'IterMut'):
        return isinstance(v.f[0], Ref)
    if nm == 'IntoIter':
        return isinstance(v.f[0], Rope)
    if nm in ('Range', 'MapIter'):
        return True
    if nm == 'Zip':
        return known(I, v.f[0]) and known(I, v.f[1])
    if nm == 'Chain':
        return all(I.force(o).v == 0 or known(I, I.force(o).f[0]) for o in v.f)
    return known(I, v.f[0])


def finite(I, v):
    """the sequence under the adapters has a known, small number of elements"""
    nm = aname(I, v)
    while nm in ('Map', 'FilterMap', 'Filter', 'Inspect', 'Copied', 'Cloned', 'Enumerate', 'Rev', 'Take', 'Skip'):
        v = v.f[0]
        nm = aname(I, v)
    if nm == 'IntoIter' and len(v.f) == 1 and isinstance(v.f[0], Rope):
        n = I.rope_len(v.f[0])
    elif nm == 'Iter' and len(v.f) == 1 and isinstance(v.f[0], Ref):
        n = slice_window(I, v.f[0])[1]
    else:
        return False
    return not isz(n) and n <= 8


def abstract(I, v):
    """Seq when the iterator has symbolic length and we are in unbounded mode, else None"""
    if I.bound is not None or finite(I, v):
        return None
    s = seq(I, v)
    if s is None or not isz(s.n):
        return None
    return s


def vec_elem(I, ty):
    t = I.T(ty)
    if t['k'] == 'adt' and t['p'] in ('std::vec::Vec', 'alloc::vec::Vec'):
        return t['a'][0]
    return None


@prim('std::iter::Iterator::collect', '<std::vec::Vec<T> as std::iter::FromIterator<T>>::from_iter')
def _(I, f, a):
    ety = vec_elem(I, f['sig'][1])
    if ety is None or not known(I, a[0]):
        return NotImplemented
    s = abstract(I, a[0])
    if s is not None:
        return rope_of(I, s, ety)
    return Rope(ety, [('e', x) for x in walk(I, a[0])])


@prim('std::vec::Vec::<T, A>::retain', 'std::vec::Vec::<T, A>::retain_mut')
def _(I, f, a):
    rope = I.deref(a[0])
    n = I.rope_len(rope)
    fn = a[1]
    if I.bound is None and isz(n):
        fc = closure(I, fn)
        g = Gen(I, lambda i: I.tobool(I.call_value(fc, [Ref(Cell(I.rope_get(rope, i)))])))
        s = filtered(I, Seq(n, lambda i: I.rope_get(rope, i)), lambda i: g.get(I, i))
        I.write(a[0], rope_of(I, s, rope.ety))
        return UNIT
    fc = Ref(Cell(fn)) if isinstance(fn, Agg) else fn
    out = []
    i = 0
    while I.ex.choose(zlt(i, n)):
        e = I.rope_get(rope, i)
        c = Cell(e)
        if I.ex.choose(I.tobool(I.call_value(fc, [Ref(c)]))):
            out.append(('e', c.v))
        i += 1
        guard(I, i)
    I.write(a[0], Rope(rope.ety, out))
    return UNIT


def first(I, s, pred):
    none_ = I.quantify(s.n, lambda i: znot(pred(i)), True)
    b = I.leaf(I.fresh('found'), (), z3.BoolSort())
    if not I.ex.choose(b):
        I.ex.assume(none_)
        return None
    k = I.leaf(I.fresh('pos'), (), z3.IntSort(), 0, U32)
    I.ex.assume(zlt(k, s.n))
    I.ex.assume(pred(k))
    I.ex.assume(I.quantify(k, lambda i: znot(pred(i)), True))
    return k


def gen_pred(I, s, fn, byref):
    fc = closure(I, fn)
    g = Gen(I, lambda i: I.tobool(I.call_value(fc, [Ref(Cell(s.get(i))) if byref else s.get(i)])))
    p = lambda i: g.get(I, i)
    pure(I, s.n, p)
    return p


def holder(I, x):
    return I.deref(x) if isinstance(x, Ref) else x


@prim('std::iter::Iterator::find', 'std::iter::Iterator::position')
def _(I, f, a):
    v = holder(I, a[0])
    if not known(I, v):
        return NotImplemented
    isfind = f['p'].endswith('find')
    ot = f['sig'][1]
    s = abstract(I, v)
    if s is None:
        fc = Ref(Cell(a[1])) if isinstance(a[1], Agg) else a[1]
        i = 0
        for x in walk(I, v):
            if I.ex.choose(I.tobool(I.call_value(fc, [Ref(Cell(x)) if isfind else x]))):
                return some(I, ot, x if isfind else i)
            i += 1
        return none(I, ot)
    p = gen_pred(I, s, a[1], isfind)
    k = first(I, s, p)
    if isinstance(a[0], Ref):
        I.write(a[0], Opaque('consumed iterator'))
    if k is None:
        return none(I, ot)
    return some(I, ot, s.get(k) if isfind else k)


@prim('std::iter::Iterator::any', 'std::iter::Iterator::all')
def _(I, f, a):
    v = holder(I, a[0])
    if not known(I, v):
        return NotImplemented
    isany = f['p'].endswith('any')
    s = abstract(I, v)
    if s is None:
        fc = Ref(Cell(a[1])) if isinstance(a[1], Agg) else a[1]
        for x in walk(I, v):
            if I.ex.choose(I.tobool(I.call_value(fc, [x]))) == isany:
                return isany
        return not isany
    p = gen_pred(I, s, a[1], False)
    if isinstance(a[0], Ref):
        I.write(a[0], Opaque('consumed iterator'))
    return I.quantify(s.n, p, not isany)


@prim('std::iter::Iterator::count', '<std::iter::Filter<I, P> as std::iter::Iterator>::count')
def _(I, f, a):
    v = holder(I, a[0])
    if not known(I, v):
        return NotImplemented
    s = abstract(I, v)
    if s is None:
        return len(list(walk(I, v)))
    return s.n


@prim('std::iter::Iterator::max_by_key', 'std::iter::Iterator::min_by_key')
def _(I, f, a):
    v = holder(I, a[0])
    if not known(I, v):
        return NotImplemented
    ismax = f['p'].endswith('max_by_key')
    ot = f['sig'][1]
    s = abstract(I, v)
    if s is None:
        fc = Ref(Cell(a[1])) if isinstance(a[1], Agg) else a[1]
        best = None
        for x in walk(I, v):
            k = I.call_value(fc, [Ref(Cell(x))])
            if not (isz(k) or isinstance(k, int)):
                raise Unsupported('max_by_key of a structured key')
            # max_by_key keeps the last maximum, min_by_key the first minimum
            if best is None or I.ex.choose(zle(best[0], k) if ismax else zlt(k, best[0])):
                best = (k, x)
        return none(I, ot) if best is None else some(I, ot, best[1])
    fc = closure(I, a[1])

    def kk(i):
        k = I.call_value(fc, [Ref(Cell(s.get(i)))])
        if not (isz(k) or isinstance(k, int)):
            raise Unsupported('max_by_key of a structured key')
        return k
    g = Gen(I, kk)
    key = lambda i: g.get(I, i)
    pure(I, s.n, key)
    if not I.ex.choose(zlt(0, s.n)):
        return none(I, ot)
    w = I.leaf(I.fresh('best'), (), z3.IntSort(), 0, U32)
    I.ex.assume(zlt(w, s.n))
    kw = key(w)
    if ismax:
        I.ex.fact(I.quantify(s.n, lambda i: zle(key(i), kw), True))
        I.ex.fact(I.quantify(s.n, lambda i: zor(zle(i, w), zlt(key(i), kw)), True))
    else:
        I.ex.fact(I.quantify(s.n, lambda i: zle(kw, key(i)), True))
        I.ex.fact(I.quantify(w, lambda i: zlt(kw, key(i)), True))
    return some(I, ot, s.get(w))


@prim('<std::vec::Vec<T, A> as std::iter::Extend<T>>::extend')
def _(I, f, a):
    rope = I.deref(a[0])
    v = a[1]
    if isinstance(v, Rope):
        I.write(a[0], Rope(rope.ety, list(rope.segs) + list(v.segs)))
        return UNIT
    if not known(I, v):
        return NotImplemented
    s = abstract(I, v)
    segs = list(rope_of(I, s, rope.ety).segs) if s is not None else [('e', x) for x in walk(I, v)]
    I.write(a[0], Rope(rope.ety, list(rope.segs) + segs))
    return UNIT


# =============================================================== iterating over a storage map
class MapIter:
    """the stored entries of a map (those whose key starts with `fixed`) in an unknown order, the same every time:
    n pairwise different keys, every one of them present"""
    def __init__(self, I, prefix, kty, vty, fixed=(), suffix=None, values=False, off=0, seen=None):
        log = I.storage.get(prefix)
        if log and not (seen and all(v is not None and any(self.same_key(I, ls, k) for k in seen) for ls, v in log)):
            # (entries that were already visited may be replaced on the way)
            raise Unsupported('iteration over a map written before')
        self.seen = seen or []
        self.I, self.prefix, self.kty, self.vty, self.values, self.off = I, prefix, kty, vty, values, off
        self.fixed = tuple(Z(x) for x in I.flatten(Agg(None, 0, fixed))) if fixed else ()
        self.fixedv, self.suffix = fixed, suffix
        self.nm = 'mi:%s:%d' % (prefix, len(fixed))
        self.all = I.leaf(self.nm + '.n', self.fixed, z3.IntSort(), 0, I.bound if I.bound is not None else U32)
        pos, n = self.pos, self.all
        me = (self.nm, tuple(x.ast.value for x in self.fixed))
        for m in I.mapiters:
            if m.me == me:
                self.me = me
                return
        self.me = me
        if I.bound is None:
            I.ex.fact(I.quantify(n, lambda i: zeq(pos(self.key(i)), i), True))
            k = I.mk(kty, self.nm + '.k', (z3.Int('k'),)) if not fixed else None
            if isz(k):
                I.inverse[k.decl().name()] = lambda k: self.where((k,))
        else:
            for i in range(I.bound):
                I.ex.fact(z3.Implies(Z(i) < n, pos(self.key(i)) == i))
        for (p, _), (key, pres, v, t) in list(I.reads.items()):
            if p == prefix:
                self.where(key.leaves)
        I.mapiters.append(self)

    @staticmethod
    def same_key(I, a, b):
        return len(a) == len(b) and I.ex.entailed(zand(*[zeq(x, y) for x, y in zip(a, b)]))[0] == 'proved'

    @property
    def n(self):
        return simp(zsub(self.all, self.off)) if self.off else self.all

    def pos(self, ls):
        return self.I.leaf(self.nm + '.pos', tuple(ls), z3.IntSort(), 0, U32)

    def pres(self, ls):
        return self.I.leaf('st:' + self.prefix + '?', tuple(ls), z3.BoolSort())

    def rest(self, i):
        """the part of the i-th key that varies"""
        return self.I.mk(self.suffix if self.fixedv else self.kty, self.nm + '.k', self.fixed + (i,))

    def key(self, i):
        return list(self.fixed) + list(self.I.flatten(self.rest(i)))

    def where(self, ls):
        """position of a key; every stored key has one"""
        p = self.pos(ls)
        k = len(self.fixed)
        c = z3.And(p >= 0, p < self.all, *[Z(zeq(a, b)) for a, b in zip(self.key(p)[k:], ls[k:])])
        self.I.ex.fact(z3.Implies(z3.And(self.pres(ls), *[Z(zeq(a, b)) for a, b in zip(self.fixed, ls)]), c))
        return p

    def get(self, i):
        I = self.I
        i = zadd(i, self.off)
        r = self.rest(i)
        ls = list(self.fixed) + list(I.flatten(r))
        inr = z3.And(Z(i) >= 0, Z(i) < self.all)
        I.ex.fact(z3.Implies(inr, z3.And(self.pos(ls) == Z(i), self.pres(ls))))
        k = r
        if self.fixedv:
            st = I.T(self.suffix)
            k = Agg(None, 0, list(self.fixedv) + (list(I.as_variant(r, 0).f if isinstance(r, Sym) else r.f) if st['k'] == 'tuple' else [r]))
        key = Key(self.prefix, ls, k, None)
        cur = I.storage
        I.storage = {a: b for a, b in cur.items() if a != self.prefix}
        try:
            p, v = I.st_read(key, self.vty)
        finally:
            I.storage = cur
        if not p:
            raise PathEnd('assume')
        I.note_read(key, self.pres(ls), v, self.vty)
        return v if self.values else Agg(None, 0, (r, v))


def map_type(I, f, kind):
    from prims import prefix_name, sv_type
    for g in f['a']:
        t = I.T(g) if isinstance(g, int) else None
        if t and t['k'] == 'adt' and t['p'].endswith(kind):
            return prefix_name(I, g), t
    g = sv_type(I, f)
    return prefix_name(I, g), I.T(g)


@prim('frame_support::storage::generator::map::<impl frame_support::IterableStorageMap<K, V> for G>::iter')
def _(I, f, a):
    nm, t = map_type(I, f, 'StorageMap')
    return Opaque('mapiter', MapIter(I, nm, t['a'][2], t['a'][3]))


def nmap_keys(I, t):
    """the key types of a map with several keys"""
    k = I.T(t['a'][1])
    return [I.T(x)['a'][1] for x in (k['f'] if k['k'] == 'tuple' else [t['a'][1]])]


def prefix_iter(I, f, a, values):
    nm, t = map_type(I, f, 'StorageNMap')
    p = I.force(I.strip(a[0]))
    fixed = list(p.f)
    ks = nmap_keys(I, t)
    rest = ks[len(fixed):]
    if len(rest) == 1:
        suffix = rest[0]
    else:
        for i, u in enumerate(I.P.tys):
            if u['k'] == 'tuple' and list(u['f']) == list(rest):
                suffix = i
                break
        else:
            u = dict(k='tuple', f=list(rest), n='(%s)' % ', '.join(I.tyname(x) for x in rest), atom=False)
            I.P.tys.append(u)
            suffix = len(I.P.tys) - 1
    return Opaque('mapiter', MapIter(I, nm, None, t['a'][2], fixed, suffix, values))


NM = 'frame_support::storage::generator::nmap::'


@prim(NM + '<impl frame_support::StorageNMap<K, V> for G>::iter_prefix_values')
def _(I, f, a):
    return prefix_iter(I, f, a, True)


@prim(NM + '<impl frame_support::IterableStorageNMap<K, V> for G>::iter_prefix')
def _(I, f, a):
    return prefix_iter(I, f, a, False)


@prim('<frame_support::storage::PrefixIterator<T, OnRemoval> as std::iter::Iterator>::next',
      '<frame_support::storage::PrefixIterator<T> as std::iter::Iterator>::next',
      '<frame_support::pallet_prelude::PrefixIterator<T, OnRemoval> as std::iter::Iterator>::next')
def _(I, f, a):
    v = I.deref(a[0])
    if not isinstance(v, Opaque) or v.tag != 'mapiter':
        return NotImplemented
    m = v.v
    if not I.ex.choose(zlt(0, m.n)):
        return none(I, f['sig'][1])
    x = m.get(0)
    I.write(a[0], Opaque('mapiter', MapIter(I, m.prefix, m.kty, m.vty, m.fixedv, m.suffix, m.values, m.off + 1, m.seen + [m.key(m.off)])))
    return some(I, f['sig'][1], x)


@prim('std::iter::Iterator::try_for_each')
def _(I, f, a):
    v = holder(I, a[0])
    if not known(I, v):
        return NotImplemented
    ot = f['sig'][1]
    t = I.T(ot)
    if t['k'] != 'adt' or t['p'].rsplit('::', 1)[1] != 'Result':
        return NotImplemented
    fc = Ref(Cell(a[1])) if isinstance(a[1], Agg) else a[1]
    s = abstract(I, v)
    if s is None:
        for x in walk(I, v):
            r = I.variant(I.call_value(fc, [x]))
            if r.v == 1:
                return r
        return Agg(ot, 0, (UNIT,))
    fz = closure(I, a[1])

    def body(i):
        r = I.variant(I.call_value(fz, [s.get(i)]))
        if r.v == 1:
            raise Unsupported('an iteration may stop early')
    if not I.bulk_calls(s.n, body):
        raise Unsupported('iterations of try_for_each may interfere')
    return Agg(ot, 0, (UNIT,))
