"""Specifications of the functions the verifier does not execute from MIR: language intrinsics, std collections,
host storage, hashing.  Each entry is part of the trusted base (listed in every evidence file)."""
import re
import z3
from core import *
from interp import Interp, prim

STRUCT_OPT = 'std::option::Option'


def opt_ty(I, f):
    return f['sig'][1]


def some(I, ty, v):
    return Agg(ty, 1, (v,))


def none(I, ty):
    return Agg(ty, 0, ())


# =============================================================== contract language (harness rt::)
@prim('rt::any')
def _any(I, f, a):
    ty = f['a'][0]
    n = len(I.anys)
    v = I.mk(ty, 'any%d' % n)
    I.anys.append((v, ty))
    return v


POSITIVE = {}


@prim('rt::positive')
def _(I, f, a):
    v = I.leaf('any%d' % len(I.anys), (), z3.IntSort(), 1, (1 << 128) - 1)
    I.anys.append((v, f['sig'][1]))
    POSITIVE[v.ast.value] = v
    return v


@prim('rt::assume')
def _assume(I, f, a):
    I.ex.assume(a[0])
    return UNIT


@prim('rt::check')
def _check(I, f, a):
    I.runner.obligation(I, I.strip(a[0]).s, a[1])
    return UNIT


@prim('rt::cover')
def _cover(I, f, a):
    I.runner.cover(I, I.strip(a[0]).s)
    return UNIT


@prim('rt::note')
def _note(I, f, a):
    I.notes.append(I.strip(a[0]).s)
    return UNIT


@prim('rt::forall')
def _forall(I, f, a):
    return I.quantify(a[0], lambda i: I.call_value(a[1], [i]), True)


@prim('rt::exists')
def _exists(I, f, a):
    return I.quantify(a[0], lambda i: I.call_value(a[1], [i]), False)


@prim('rt::imp')
def _imp(I, f, a):
    return zor(znot(a[0]), a[1])


@prim('rt::and')
def _and(I, f, a):
    return zand(a[0], a[1])


@prim('rt::or')
def _or(I, f, a):
    return zor(a[0], a[1])


@prim('rt::iff')
def _iff(I, f, a):
    return zeq(a[0], a[1])


@prim('rt::split')
def _split(I, f, a):
    return I.ex.choose(a[0])


@prim('rt::ite_u128', 'rt::ite_u64', 'rt::ite_u32', 'rt::ite')
def _ite(I, f, a):
    return zite(a[0], a[1], a[2])


@prim('rt::same')
def _same(I, f, a):
    return I.equal(a[0], a[1])


@prim('rt::view')
def _(I, f, a):
    return Agg(f['sig'][1], 0, I.force(I.strip(a[0])).f)


@prim('rt::invariant')
def _(I, f, a):
    I.invs.append({'kind': 'seq', 'ety': I.tyname(f['a'][0]), 'fn': a[0]})
    return UNIT


@prim('rt::invariant_acc')
def _(I, f, a):
    I.invs.append({'kind': 'acc', 'ety': I.tyname(f['a'][0]), 'acc': I.tyname(f['a'][1]), 'fn': a[0]})
    return UNIT


@prim('rt::invariant_args1')
def _(I, f, a):
    I.invs.append({'kind': 'args', 'args': [I.tyname(f['a'][0])], 'fn': a[0]})
    return UNIT


@prim('rt::invariant_args4')
def _(I, f, a):
    I.invs.append({'kind': 'args', 'args': [I.tyname(f['a'][0])] * 4, 'fn': a[0]})
    return UNIT


@prim('rt::by_contract')
def _(I, f, a):
    I.invs.append({'kind': 'contract', 'name': I.strip(a[0]).s})
    return UNIT


@prim('rt::by_cases')
def _(I, f, a):
    I.invs.append({'kind': 'cases', 'name': I.strip(a[0]).s})
    return UNIT


@prim('rt::count')
def _(I, f, a):
    n, i, r = a[0], 0, 0
    if I.bound is None and isz(n):
        # C(0) = 0, C(k+1) = C(k) + [pred k], unfolded once at n
        t = pred_term(I, n, lambda i: I.call_value(a[1], [i]), 'count!ph')
        ph = z3.Int('count!ph')
        nm = 'count%d' % t.ast.value if isz(t) else 'count%s' % t
        I.counts.append(t)
        C = lambda k: I.leaf(nm, (k,), z3.IntSort(), 0, (1 << 32) - 1)
        n1 = zsub(n, 1)
        if isz(t):
            p1 = z3.substitute(t, (ph, Z(n1)))
        else:
            p1 = z3.BoolVal(t)
        c, c1 = C(n), C(n1)
        I.ex.fact(z3.And(Z(c) <= n, Z(C(0)) == 0))
        I.ex.fact(z3.Implies(Z(zlt(0, n)), c == c1 + z3.If(p1, z3.IntVal(1), z3.IntVal(0))))
        return c
    while I.ex.choose(zlt(i, n)):
        r = zadd(r, zite(I.tobool(I.call_value(a[1], [i])), 1, 0))
        i = zadd(i, 1)
    return r


@prim('rt::sum')
def _(I, f, a):
    """saturating sum of a function of the index over the first a[1] of a[0] elements"""
    n, k, fn = a
    mx = (1 << 128) - 1
    sat = lambda x, y: zite(zle(zadd(x, y), mx), zadd(x, y), mx)
    if I.bound is None and isz(n):
        # S(0) = 0, S(j+1) = min(max, S(j) + x(j)), unfolded once at k
        ph = z3.Int('sum!ph')
        t = Z(val_term(I, n, lambda i: I.call_value(fn, [i]), 'sum!ph'))
        rng = z3.And(ph >= 0, ph < n)
        for n2, t2 in I.sums:
            # the same sum as an earlier one
            if t.eq(t2) or zeq(n, n2) is True and I.ex.must(z3.Implies(rng, t == t2)):
                t = t2
                break
        else:
            if not I.boundvars:
                I.sums.append((n, t))
        nm = 'sum%d' % t.ast.value
        I.counts.append(t)
        S = lambda k: I.leaf(nm, (k,), z3.IntSort(), 0, mx)
        k1 = simp(zsub(k, 1)) if isz(k) else k - 1
        x = z3.substitute(t, (ph, Z(k1)))
        s = S(k)
        I.ex.fact(Z(S(0)) == 0)
        if isz(k) or k > 0:
            I.ex.fact(z3.Implies(z3.And(Z(k) > 0, Z(k) <= n), z3.And(s == Z(sat(S(k1), x)), x >= 0, x <= mx)))
        return s
    i, r = 0, 0
    while I.ex.choose(zlt(i, k)):
        r = sat(r, I.call_value(fn, [i]))
        i = zadd(i, 1)
    return r


def val_term(I, n, fn, name):
    """the pure integer function fn(i), 0 <= i < n, as one term over the variable `name`"""
    ph = z3.Int(name)
    snap = I.snapshot()
    I.boundvars.append(ph)

    def run():
        I.restore(snap)
        I.ex.fact(z3.And(ph >= 0, ph < n))
        r = fn(ph)
        if not (isz(r) or isinstance(r, int)):
            raise Unsupported('sum of something else than integers')
        return r
    try:
        outs = I.ex.nested(run)
    finally:
        I.boundvars.pop()
        I.restore(snap)
    I.lift_axioms(outs)
    r = None
    for conds, (kind, x), fs in outs:
        if kind == 'assume':
            continue
        if kind == 'panic':
            raise Unsupported('panic inside a sum: %s' % (x,))
        r = x if r is None else zite(zand(*conds), x, r)
    return 0 if r is None else simp(r) if isz(r) else r


def pred_term(I, n, fn, name):
    """the pure predicate fn(i), 0 <= i < n, as one formula over the variable `name`"""
    ph = z3.Int(name)
    snap = I.snapshot()
    I.boundvars.append(ph)

    def run():
        I.restore(snap)
        I.ex.fact(z3.And(ph >= 0, ph < n))
        return I.tobool(fn(ph))
    try:
        outs = I.ex.nested(run)
    finally:
        I.boundvars.pop()
        I.restore(snap)
    terms = []
    I.lift_axioms(outs)
    for conds, (kind, r), fs in outs:
        if kind == 'assume':
            continue
        if kind == 'panic':
            raise Unsupported('panic inside a counted predicate: %s' % (r,))
        terms.append(zand(*(list(conds) + [r])))
    return zor(*terms) if terms else False


@prim('rt::isqrt')
def _(I, f, a):
    return isqrt(I, a[0])


def isqrt(I, x):
    """integer square root: the unique r with r*r <= x < (r+1)*(r+1)"""
    if not isz(x):
        import math
        return math.isqrt(x)
    if I.bound is not None:
        I.ex.assume(zlt(x, 64))
        r = 0
        for k in range(1, 8):
            r = zite(zle(k * k, x), k, r)
        return simp(r)
    # the unbounded argument needs only that both sides take the root of the same number
    r = I.leaf('isqrt', (x,), z3.IntSort(), 0, (1 << 64) - 1)
    I.ex.fact(z3.And(r <= x, (r == 0) == (x == 0)))
    return r


@prim('sp_runtime::traits::IntegerSquareRoot::integer_sqrt', 'integer_sqrt::IntegerSquareRoot::integer_sqrt')
def _(I, f, a):
    return isqrt(I, I.strip(a[0]))


# codec primitives: appending to / reading from a byte sequence
@prim('<W as parity_scale_codec::Output>::write')
def _(I, f, a):
    r = I.deref(a[0])
    if not isinstance(r, Rope):
        raise Unsupported('codec output')
    I.write(a[0], Rope(r.ety, r.segs + slice_rope(I, a[1], r.ety).segs))
    return UNIT


@prim("<&'a [u8] as parity_scale_codec::Input>::read")
def _(I, f, a):
    inp = I.deref(a[0])
    w, d = slice_window(I, inp), slice_window(I, a[1])
    t = I.T(f['sig'][1])
    if I.ex.choose(zlt(w[1], d[1])):
        return Agg(f['sig'][1], 1, (Opaque('codec error'),))
    if isz(d[1]):
        raise Unsupported('codec read of symbolic length')
    for i in range(d[1]):
        I.write(elem_ref(I, a[1], i), I.deref(elem_ref(I, inp, i)))
    I.write(a[0], Ref(inp.cell, inp.path, (zadd(w[0], d[1]), zsub(w[1], d[1]))))
    return Agg(f['sig'][1], 0, (UNIT,))


@prim('<parity_scale_codec::Error as std::convert::From<&\'static str>>::from')
def _(I, f, a):
    return Opaque('codec error')


def gprefix(I, f):
    return prefix_name(I, f['a'][0])


@prim('rt::changed_only_at')
def _(I, f, a):
    """every key of storage item G written so far, except the listed ones, holds its initial value again"""
    nm = gprefix(I, f)
    ks = slice_rope(I, a[0])
    allowed = [I.flatten(s[1]) for s in ks.segs]
    r = True
    seen = []
    log = list(I.storage.get(nm, ()))
    for n, (lv, val) in enumerate(log):
        if lv is None:
            raise Unsupported('frame condition over a summarised loop')
        if any(all(zeq(x, y) is True for x, y in zip(lv, o)) for o in seen):
            continue
        seen.append(lv)
        c = zor(*[zand(*[zeq(x, y) for x, y in zip(lv, k)]) for k in allowed])
        if c is True:
            continue
        key = Key(nm, list(lv), None, None)
        vt = value_ty(I, I.T(I.prefixes[nm]))
        p1, v1 = I.st_read(key, vt)
        del I.storage[nm]
        try:
            p0, v0 = I.st_read(key, vt)
        finally:
            I.storage[nm] = log
        same = False if p0 != p1 else (I.equal(v0, v1) if p0 else True)
        r = zand(r, zor(c, same))
    return r


@prim('rt::frame')
def _(I, f, a):
    """no storage item outside the listed ones (Pallet.Item) has been written"""
    ok = set(I.strip(a[0]).s.split())
    for nm, log in I.storage.items():
        if log and storage_name(nm) not in ok:
            for lv, val in log:
                return bool(I.notes.append('frame: %s written' % storage_name(nm)))
    return True


PALLETS = {'pallet_democracy': 'Democracy', 'pallet_elections_phragmen': 'Elections', 'frame_system': 'System',
           'pallet_vesting': 'Vesting', 'ghost': 'Ghost', 'slash': 'Ghost', 'lin': 'Ghost', 'prox': 'Ghost', 'fund': 'Ghost', 'disp': 'Ghost', 'coins': 'Ghost', 'recv': 'Ghost', 'polimec_receiver': 'PolimecReceiver', 'pallet_funding': 'Funding',
           'pallet_linear_release': 'LinearRelease', 'pallet_proxy_bonding': 'ProxyBonding', 'pallet_dispenser': 'Dispenser', 'pallet_parachain_staking': 'ParachainStaking', 'stake': 'Ghost', 'pallet_xcm': 'PolkadotXcm'}


def storage_name(nm):
    """Pallet.Item of a prefix type name"""
    m = re.match(r'(\w+)::(?:pallet::)?_GeneratedPrefixForStorage(\w+)', nm)
    if m:
        return PALLETS.get(m.group(1), m.group(1)) + '.' + m.group(2)
    m = re.match(r'(\w+)::(\w+)_Storage_Instance', nm)
    if m:
        return PALLETS.get(m.group(1), m.group(1)) + '.' + m.group(2)
    return nm


@prim('rt::param')
def _param(I, f, a):
    i = a[0]
    if i not in I.params:
        w = 64 if i in (1, 2, 3, 4, 6, 7, 15, 16) else 32 if i in (8, 9, 10, 11, 13, 14, 17, 18, 19) else 128
        # a limit, or the launch period, of zero is no configuration of the system
        I.params[i] = I.leaf('param%d' % i, (), z3.IntSort(), 1 if i in (2, 8, 9, 10, 11, 13, 17, 18, 19) else 0, (1 << w) - 1)
    return I.params[i]


@prim('rt::panics')
def _panics(I, f, a):
    """true iff the closure panics (used by contracts that specify panics)"""
    try:
        I.call_value(a[0], [])
        return False
    except PathEnd as e:
        if e.kind == 'panic':
            return True
        raise


# mathematical integers for contract text: add/sub/mul without overflow; a Math value is an Int
@prim('rt::m')
def _m(I, f, a):
    return Agg(f['sig'][1], 0, (a[0],))


def _mv(I, x):
    return I.force(I.strip(x)).f[0]


@prim('rt::Math::add')
def _madd(I, f, a):
    return Agg(f['sig'][1], 0, (zadd(_mv(I, a[0]), _mv(I, a[1])),))


@prim('rt::Math::sub')
def _msub(I, f, a):
    return Agg(f['sig'][1], 0, (zsub(_mv(I, a[0]), _mv(I, a[1])),))


@prim('rt::Math::mul')
def _mmul(I, f, a):
    return Agg(f['sig'][1], 0, (zmul(_mv(I, a[0]), _mv(I, a[1])),))


@prim('rt::Math::le')
def _mle(I, f, a):
    return zle(_mv(I, a[0]), _mv(I, a[1]))


@prim('rt::Math::lt')
def _mlt(I, f, a):
    return zlt(_mv(I, a[0]), _mv(I, a[1]))


@prim('rt::Math::eq')
def _meq(I, f, a):
    return zeq(_mv(I, a[0]), _mv(I, a[1]))


# =============================================================== intrinsics
def _ints(I, f):
    return I.T(f['a'][0])


@prim('intr::saturating_add')
def _(I, f, a):
    lo, hi = I.int_range(_ints(I, f))
    s = zadd(a[0], a[1])
    if lo == 0:
        return simp(zite(zlt(hi, s), hi, s))
    return simp(zite(zlt(hi, s), hi, zite(zlt(s, lo), lo, s)))


@prim('intr::saturating_sub')
def _(I, f, a):
    lo, hi = I.int_range(_ints(I, f))
    s = zsub(a[0], a[1])
    if lo == 0:
        return simp(zite(zlt(s, lo), lo, s))
    return simp(zite(zlt(hi, s), hi, zite(zlt(s, lo), lo, s)))


def _ovf(op):
    def g(I, f, a):
        t = _ints(I, f)
        lo, hi = I.int_range(t)
        s = op(a[0], a[1])
        if I.ex.choose(zor(zlt(s, lo), zlt(hi, s))):
            return Agg(None, 0, (I.wrap(s, t), True))
        return Agg(None, 0, (s, False))
    return g


prim('intr::add_with_overflow')(_ovf(zadd))
prim('intr::sub_with_overflow')(_ovf(zsub))
prim('intr::mul_with_overflow')(_ovf(zmul))


@prim('intr::wrapping_add', 'intr::unchecked_add')
def _(I, f, a):
    return I.wrap(zadd(a[0], a[1]), _ints(I, f))


@prim('intr::wrapping_sub', 'intr::unchecked_sub')
def _(I, f, a):
    return I.wrap(zsub(a[0], a[1]), _ints(I, f))


@prim('intr::wrapping_mul', 'intr::unchecked_mul')
def _(I, f, a):
    return I.wrap(zmul(a[0], a[1]), _ints(I, f))


@prim('intr::unchecked_div', 'intr::exact_div')
def _(I, f, a):
    return I.binop('Div', a[0], a[1], _ints(I, f))


@prim('intr::unchecked_rem')
def _(I, f, a):
    return I.binop('Rem', a[0], a[1], _ints(I, f))


@prim('intr::unchecked_shl')
def _(I, f, a):
    return I.binop('Shl', a[0], a[1], _ints(I, f))


@prim('intr::unchecked_shr')
def _(I, f, a):
    return I.binop('Shr', a[0], a[1], _ints(I, f))


@prim('intr::three_way_compare')
def _(I, f, a):
    return I.cmp3(a[0], a[1])


@prim('intr::likely', 'intr::unlikely', 'intr::black_box')
def _(I, f, a):
    return a[0]


@prim('intr::cold_path', 'intr::assume', 'intr::assert_inhabited', 'intr::assert_zero_valid', 'intr::forget',
      'intr::assert_mem_uninitialized_valid')
def _(I, f, a):
    return UNIT


@prim('intr::unreachable')
def _(I, f, a):
    raise PathEnd('assume', 'unreachable')


@prim('intr::needs_drop', 'intr::is_val_statically_known', 'intr::ub_checks', 'intr::overflow_checks',
      'intr::contract_checks')
def _(I, f, a):
    return False


@prim('intr::size_of', 'intr::align_of', 'intr::min_align_of')
def _(I, f, a):
    t = I.T(f['a'][0])
    if t['k'] == 'int':
        return t['b'] // 8
    raise Unsupported('size_of ' + t['n'])


@prim('intr::read_via_copy', 'intr::volatile_load')
def _(I, f, a):
    return I.deref(a[0])


@prim('intr::write_via_move')
def _(I, f, a):
    I.write(a[0], a[1])
    return UNIT


@prim('intr::discriminant_value')
def _(I, f, a):
    v = I.deref(a[0])
    t = I.T(f['a'][0])
    if isinstance(v, Sym):
        v = I.variant(v)
    return int(t['v'][v.v]['d']) if t['k'] == 'adt' else 0


@prim('log::max_level', 'frame_support::__private::log::max_level')
def _log_level(I, f, a):
    # a log line changes no state: logging is off
    return Agg(f['sig'][1], 0, ())


@prim('intr::ctpop')
def _(I, f, a):
    if isz(a[0]):
        raise Unsupported('ctpop')
    return bin(a[0]).count('1')


@prim('intr::ctlz', 'intr::ctlz_nonzero')
def _(I, f, a):
    b = _ints(I, f)['b']
    if isz(a[0]):
        # fork on the bit length
        for n in range(b):
            if I.ex.choose(zlt(a[0], 1 << n)):
                return b - n
        return 0
    return b - a[0].bit_length()


@prim('intr::cttz', 'intr::cttz_nonzero')
def _(I, f, a):
    b = _ints(I, f)['b']
    x = a[0]
    if isz(x):
        raise Unsupported('cttz')
    return b if x == 0 else (x & -x).bit_length() - 1


@prim('intr::type_name')
def _(I, f, a):
    return Str(I.tyname(f['a'][0]))


@prim('intr::type_id')
def _(I, f, a):
    return f['a'][0]


@prim('intr::select_unpredictable')
def _(I, f, a):
    return a[1] if I.ex.choose(a[0]) else a[2]


@prim('intr::ptr_offset_from_unsigned', 'intr::offset', 'intr::arith_offset', 'intr::ptr_offset_from')
def _(I, f, a):
    raise Unsupported('pointer arithmetic in ' + (I.callstack[-3] if len(I.callstack) > 2 else '?'))


@prim('std::ub_checks::check_language_ub', 'core::ub_checks::check_language_ub')
def _(I, f, a):
    return False


# =============================================================== integers
@prim('<T as std::convert::TryInto<U>>::try_into_never')
def _(I, f, a):
    return NotImplemented


def zmax(x, y):
    c, v = (y, x) if isz(x) else (x, y)
    if not isz(c) and c <= 1 and isz(v) and v.ast.value in POSITIVE:
        return v
    return simp(zite(zle(x, y), y, x))


def int_minmax(which):
    def g(I, f, a):
        t = I.T(f['a'][0])
        if t['k'] != 'int':
            return NotImplemented
        x, y = a
        if which == 'max':
            return zmax(x, y)
        return simp(zite(zle(x, y), x, y))
    return g


prim('std::cmp::Ord::max')(int_minmax('max'))
prim('std::cmp::Ord::min')(int_minmax('min'))


@prim('std::cmp::max', 'std::cmp::min')
def _(I, f, a):
    t = I.T(f['a'][0])
    if t['k'] != 'int':
        return NotImplemented
    return int_minmax(f['p'][-3:])(I, f, a)


for w in (8, 16, 32, 64, 128):
    @prim('std::cmp::impls::<impl std::cmp::Ord for u%d>::max' % w)
    def _(I, f, a):
        return zmax(*a)

    @prim('std::cmp::impls::<impl std::cmp::Ord for u%d>::min' % w)
    def _(I, f, a):
        x, y = a
        return simp(zite(zle(x, y), x, y))


# =============================================================== clone / eq on derived impls
@prim('std::clone::Clone::clone')
def _(I, f, a):
    return NotImplemented


@prim('std::mem::replace', 'core::mem::replace')
def _(I, f, a):
    old = I.deref(a[0])
    I.write(a[0], a[1])
    return old


@prim('std::mem::swap')
def _(I, f, a):
    x, y = I.deref(a[0]), I.deref(a[1])
    I.write(a[0], y)
    I.write(a[1], x)
    return UNIT


@prim('std::mem::drop', 'std::mem::forget', 'core::mem::drop')
def _(I, f, a):
    return UNIT


@prim('std::boxed::Box::<T>::new')
def _(I, f, a):
    return Ref(Cell(a[0]))


# =============================================================== Vec / slices
def vec_of(I, r):
    """(rope, ref) behind &Vec / &mut Vec"""
    v = I.deref(r)
    if not isinstance(v, Rope):
        raise Unsupported('not a vec: %r' % (v,))
    return v


@prim('std::vec::Vec::<T>::new', 'std::vec::Vec::<T>::with_capacity', 'std::vec::Vec::<T, A>::new_in',
      'std::vec::Vec::<T, A>::with_capacity_in')
def _(I, f, a):
    return Rope(f['a'][0], [])


@prim('<std::vec::Vec<T> as std::default::Default>::default')
def _(I, f, a):
    return Rope(f['a'][0], [])


@prim('std::vec::Vec::<T, A>::push', '<std::vec::Vec<T, A> as std::iter::Extend<T>>::extend_one')
def _(I, f, a):
    r = vec_of(I, a[0])
    I.write(a[0], Rope(r.ety, r.segs + (('e', a[1]),)))
    return UNIT


@prim('std::vec::Vec::<T, A>::pop')
def _(I, f, a):
    r = vec_of(I, a[0])
    n = I.rope_len(r)
    ot = f['sig'][1]
    if not I.ex.choose(zlt(0, n)):
        return none(I, ot)
    left, v = I.rope_unback(list(r.segs))
    I.write(a[0], Rope(r.ety, left))
    return some(I, ot, v)


@prim('std::vec::Vec::<T, A>::len')
def _(I, f, a):
    return I.rope_len(vec_of(I, a[0]))


@prim('std::vec::Vec::<T, A>::is_empty')
def _(I, f, a):
    return zeq(I.rope_len(vec_of(I, a[0])), 0)


@prim('std::vec::Vec::<T, A>::capacity')
def _(I, f, a):
    return I.rope_len(vec_of(I, a[0]))


@prim('std::vec::Vec::<T, A>::reserve', 'std::vec::Vec::<T, A>::reserve_exact', 'std::vec::Vec::<T, A>::shrink_to_fit')
def _(I, f, a):
    return UNIT


@prim('std::vec::Vec::<T, A>::clear')
def _(I, f, a):
    r = vec_of(I, a[0])
    I.write(a[0], Rope(r.ety, []))
    return UNIT


@prim('std::vec::Vec::<T, A>::truncate')
def _(I, f, a):
    r = vec_of(I, a[0])
    n = I.rope_len(r)
    if I.ex.choose(zlt(a[1], n)):
        left, _ = I.rope_split(r, a[1])
        I.write(a[0], Rope(r.ety, left))
    return UNIT


@prim('std::vec::Vec::<T, A>::insert')
def _(I, f, a):
    r = vec_of(I, a[0])
    if not I.ex.choose(zle(a[1], I.rope_len(r))):
        raise PathEnd('panic', 'Vec::insert index out of bounds')
    left, right = I.rope_split(r, a[1])
    I.write(a[0], Rope(r.ety, left + [('e', a[2])] + right))
    return UNIT


@prim('std::vec::Vec::<T, A>::remove')
def _(I, f, a):
    r = vec_of(I, a[0])
    if not I.ex.choose(zlt(a[1], I.rope_len(r))):
        raise PathEnd('panic', 'Vec::remove index out of bounds')
    left, right = I.rope_split(r, a[1])
    v, rest = I.rope_unfront(right)
    I.write(a[0], Rope(r.ety, left + rest))
    return v


@prim('std::vec::Vec::<T, A>::swap_remove')
def _(I, f, a):
    r = vec_of(I, a[0])
    n = I.rope_len(r)
    if not I.ex.choose(zlt(a[1], n)):
        raise PathEnd('panic', 'Vec::swap_remove index out of bounds')
    v = I.rope_get(r, a[1])
    left, last = I.rope_unback(list(r.segs))
    r2 = Rope(r.ety, left)
    if I.ex.choose(zeq(a[1], zsub(n, 1))):
        I.write(a[0], r2)
    else:
        I.write(a[0], I.rope_set(r2, a[1], last))
    return v


@prim('std::vec::Vec::<T, A>::append')
def _(I, f, a):
    r, o = vec_of(I, a[0]), vec_of(I, a[1])
    I.write(a[0], Rope(r.ety, r.segs + o.segs))
    I.write(a[1], Rope(r.ety, []))
    return UNIT


@prim('std::vec::Vec::<T, A>::extend_from_slice')
def _(I, f, a):
    r = vec_of(I, a[0])
    I.write(a[0], Rope(r.ety, r.segs + slice_rope(I, a[1], r.ety).segs))
    return UNIT


@prim('std::vec::from_elem')
def _(I, f, a):
    if isz(a[1]) or a[1] > 64:
        raise Unsupported('vec![x; n]')
    return Rope(f['a'][0], [('e', a[0])] * a[1])


def slice_rope(I, r, ety=None):
    """contents of a slice reference (or &Vec / &array) as a rope"""
    v = I.deref(r)
    sl = r.sl if isinstance(r, Ref) else None
    if isinstance(v, Rope):
        if sl is None:
            return v
        if not isz(sl[0]) and sl[0] == 0 and zeq(sl[1], I.rope_len(v)) is True:
            return v
        return I.rope_sub(v, sl[0], sl[1])
    if isinstance(v, Sym):
        v = I.as_variant(v, 0)
    if isinstance(v, Agg):
        segs = [('e', x) for x in v.f]
        if sl is not None:
            if isz(sl[0]) or isz(sl[1]):
                return I.rope_sub(Rope(ety, segs), sl[0], sl[1])
            segs = segs[sl[0]:sl[0] + sl[1]]
        return Rope(ety, segs)
    raise Unsupported('slice of %r' % (v,))


def slice_window(I, r):
    if isinstance(r, Ref) and r.sl is not None:
        return r.sl
    v = I.deref(r)
    if isinstance(v, Rope):
        return (0, I.rope_len(v))
    if isinstance(v, Sym):
        v = I.as_variant(v, 0)
    if isinstance(v, Agg):
        return (0, len(v.f))
    if isinstance(v, Str):
        return (0, len(v.s.encode()))
    raise Unsupported('slice window of %r' % (v,))


@prim('<std::vec::Vec<T, A> as std::ops::Deref>::deref', '<std::vec::Vec<T, A> as std::ops::DerefMut>::deref_mut',
      'std::vec::Vec::<T, A>::as_slice', 'std::vec::Vec::<T, A>::as_mut_slice',
      '<std::vec::Vec<T, A> as std::convert::AsRef<[T]>>::as_ref',
      '<std::vec::Vec<T, A> as std::convert::AsMut<[T]>>::as_mut',
      '<std::vec::Vec<T, A> as std::borrow::Borrow<[T]>>::borrow')
def _(I, f, a):
    v = I.deref(a[0])
    if isinstance(v, Key):
        return Ref(Cell(v))
    return Ref(a[0].cell, a[0].path, (0, I.rope_len(vec_of(I, a[0]))))


@prim('<std::vec::Vec<T, A> as std::convert::AsRef<std::vec::Vec<T, A>>>::as_ref')
def _(I, f, a):
    return a[0]


@prim('<std::vec::Vec<T, A> as std::clone::Clone>::clone', 'std::slice::<impl [T]>::to_vec',
      'std::slice::<impl [T]>::into_vec', 'std::borrow::ToOwned::to_owned', '<[T] as std::borrow::ToOwned>::to_owned',
      'std::slice::<impl std::borrow::ToOwned for [T]>::to_owned')
def _(I, f, a):
    v = I.deref(a[0])
    if isinstance(v, (Key, Opaque, Str)):
        return v
    return slice_rope(I, a[0], f['a'][0])


@prim('core::slice::<impl [T]>::len')
def _(I, f, a):
    return slice_window(I, a[0])[1]


@prim('core::slice::<impl [T]>::is_empty')
def _(I, f, a):
    return zeq(slice_window(I, a[0])[1], 0)


def elem_ref(I, r, i):
    w = slice_window(I, r)
    return Ref(r.cell, r.path + (('i', zadd(w[0], i)),))


def idx(I, r, i):
    w = slice_window(I, r)
    if not I.ex.choose(zlt(i, w[1])):
        raise PathEnd('panic', 'index out of bounds')
    return elem_ref(I, r, i)


@prim('<std::vec::Vec<T, A> as std::ops::Index<I>>::index', '<std::vec::Vec<T, A> as std::ops::IndexMut<I>>::index_mut',
      'core::slice::index::<impl std::ops::Index<I> for [T]>::index',
      'core::slice::index::<impl std::ops::IndexMut<I> for [T]>::index_mut',
      'std::array::<impl std::ops::Index<I> for [T; N]>::index',
      'std::array::<impl std::ops::IndexMut<I> for [T; N]>::index_mut')
def _(I, f, a):
    i = a[1]
    if isinstance(i, (int,)) or isz(i):
        return idx(I, a[0], i)
    i = I.force(i)
    t = I.T(i.ty) if isinstance(i.ty, int) else None
    w = slice_window(I, a[0])
    nm = t['n'] if t else ''
    if 'RangeFull' in nm:
        return Ref(a[0].cell, a[0].path, w)
    if 'RangeTo<' in nm:
        s, e = 0, i.f[0]
    elif 'RangeFrom<' in nm:
        s, e = i.f[0], w[1]
    elif 'ops::Range<' in nm:
        s, e = i.f[0], i.f[1]
    else:
        raise Unsupported('index by ' + nm)
    if not I.ex.choose(zand(zle(s, e), zle(e, w[1]))):
        raise PathEnd('panic', 'slice index out of bounds')
    return Ref(a[0].cell, a[0].path, (zadd(w[0], s), zsub(e, s)))


@prim('core::slice::<impl [T]>::get', 'core::slice::<impl [T]>::get_mut')
def _(I, f, a):
    i = a[1]
    if not (isinstance(i, int) or isz(i)):
        raise Unsupported('slice::get range')
    w = slice_window(I, a[0])
    ot = f['sig'][1]
    if I.ex.choose(zlt(i, w[1])):
        return some(I, ot, elem_ref(I, a[0], i))
    return none(I, ot)


@prim('core::slice::<impl [T]>::first', 'core::slice::<impl [T]>::first_mut')
def _(I, f, a):
    w = slice_window(I, a[0])
    if I.ex.choose(zlt(0, w[1])):
        return some(I, f['sig'][1], elem_ref(I, a[0], 0))
    return none(I, f['sig'][1])


@prim('core::slice::<impl [T]>::last', 'core::slice::<impl [T]>::last_mut')
def _(I, f, a):
    w = slice_window(I, a[0])
    if I.ex.choose(zlt(0, w[1])):
        return some(I, f['sig'][1], elem_ref(I, a[0], zsub(w[1], 1)))
    return none(I, f['sig'][1])


@prim('core::slice::<impl [T]>::swap')
def _(I, f, a):
    x, y = idx(I, a[0], a[1]), idx(I, a[0], a[2])
    vx, vy = I.deref(x), I.deref(y)
    I.write(x, vy)
    I.write(y, vx)
    return UNIT


@prim('core::slice::<impl [T]>::split_at')
def _(I, f, a):
    w = slice_window(I, a[0])
    if not I.ex.choose(zle(a[1], w[1])):
        raise PathEnd('panic', 'split_at')
    r = a[0]
    return Agg(None, 0, (Ref(r.cell, r.path, (w[0], a[1])), Ref(r.cell, r.path, (zadd(w[0], a[1]), zsub(w[1], a[1])))))


@prim('core::slice::<impl [T]>::contains')
def _(I, f, a):
    w = slice_window(I, a[0])
    x = I.deref(a[1])
    return I.quantify(w[1], lambda i: I.equal(I.deref(elem_ref(I, a[0], i)), x), False)


# ---- slice iterators: Agg(ty, 0, (Ref with window,))
@prim('core::slice::<impl [T]>::iter', 'core::slice::<impl [T]>::iter_mut')
def _(I, f, a):
    w = slice_window(I, a[0])
    return Agg(f['sig'][1], 0, (Ref(a[0].cell, a[0].path, w),))


@prim('std::slice::iter::<impl std::iter::IntoIterator for &\'a [T]>::into_iter',
      'std::slice::iter::<impl std::iter::IntoIterator for &\'a mut [T]>::into_iter',
      'core::slice::iter::<impl std::iter::IntoIterator for &\'a [T]>::into_iter',
      'core::slice::iter::<impl std::iter::IntoIterator for &\'a mut [T]>::into_iter',
      '<&\'a std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter',
      '<&\'a mut std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter',
      'std::array::<impl std::iter::IntoIterator for &\'a [T; N]>::into_iter')
def _(I, f, a):
    w = slice_window(I, a[0])
    return Agg(f['sig'][1], 0, (Ref(a[0].cell, a[0].path, w),))


def it_state(I, it):
    """(holder ref, window ref) of &mut Iter or Iter by value"""
    v = I.deref(it) if isinstance(it, Ref) else it
    return v


SI = ["<std::slice::Iter<'a, T> as std::iter::%s>::%s", "<std::slice::IterMut<'a, T> as std::iter::%s>::%s"]


def si(*names):
    out = []
    for n in names:
        tr, m = n.split('.')
        for s in SI:
            out.append(s % (tr, m))
    return out


@prim(*si('Iterator.next'))
def _(I, f, a):
    v = I.deref(a[0])
    r = v.f[0]
    ot = f['sig'][1]
    if not I.ex.choose(zlt(0, r.sl[1])):
        return none(I, ot)
    e = elem_ref(I, r, 0)
    I.write(a[0], Agg(v.ty, 0, (Ref(r.cell, r.path, (zadd(r.sl[0], 1), zsub(r.sl[1], 1))),)))
    return some(I, ot, e)


@prim(*si('DoubleEndedIterator.next_back'))
def _(I, f, a):
    v = I.deref(a[0])
    r = v.f[0]
    ot = f['sig'][1]
    if not I.ex.choose(zlt(0, r.sl[1])):
        return none(I, ot)
    n1 = zsub(r.sl[1], 1)
    e = elem_ref(I, r, n1)
    I.write(a[0], Agg(v.ty, 0, (Ref(r.cell, r.path, (r.sl[0], n1)),)))
    return some(I, ot, e)


@prim(*si('Iterator.size_hint'))
def _(I, f, a):
    r = I.deref(a[0]).f[0]
    out = I.T(f['sig'][1])['f'][1]
    return Agg(None, 0, (r.sl[1], some(I, out, r.sl[1])))


@prim("<std::slice::Iter<'_, T> as std::iter::ExactSizeIterator>::len", *si('ExactSizeIterator.len'))
def _(I, f, a):
    return I.deref(a[0]).f[0].sl[1]


@prim(*si('Iterator.count'))
def _(I, f, a):
    return a[0].f[0].sl[1]


@prim("<std::slice::Iter<'_, T> as std::clone::Clone>::clone", "<std::slice::Iter<'a, T> as std::clone::Clone>::clone")
def _(I, f, a):
    return I.deref(a[0])


@prim("std::slice::Iter::<'a, T>::as_slice")
def _(I, f, a):
    return I.deref(a[0]).f[0]


def it_next(I, v):
    """(element ref, rest) or None; v is the Iter value"""
    r = v.f[0]
    if not I.ex.choose(zlt(0, r.sl[1])):
        return None
    return elem_ref(I, r, 0), Agg(v.ty, 0, (Ref(r.cell, r.path, (zadd(r.sl[0], 1), zsub(r.sl[1], 1))),))


def guard(I, n):
    if n > I.loop_limit:
        raise Unsupported('iteration over an unbounded sequence without an invariant')


def fold_inv(I, w, acc, fc, f):
    """fold with a declared invariant over (elements done, accumulator)"""
    if I.bound is not None or not isz(w.sl[1]):
        return None
    ety = None
    for t in f['a']:
        if isinstance(t, int):
            ety = I.tyname(t)
            break
    aty = f['sig'][1]
    for inv in I.invs:
        if inv['kind'] == 'acc' and inv['ety'] == ety and inv['acc'] == I.tyname(aty):
            break
    else:
        return None
    holds = lambda k, a: I.tobool(I.call_value(inv['fn'], [k, a]))
    n = w.sl[1]
    I.side('initially', holds(0, acc))
    if I.ex.choose(z3.Bool(I.fresh('step'))):
        k = I.leaf(I.fresh('lk'), (), z3.IntSort(), 0, (1 << 32) - 1)
        I.ex.assume(zlt(k, n))
        a0 = I.mk(aty, I.fresh('acc'))
        I.ex.assume(holds(k, a0))
        st = {p: len(v) for p, v in I.storage.items()}
        I.guards.append((Cell.count[0], set()))
        a1 = I.call_value(fc, [a0, elem_ref(I, w, k)])
        if any(len(v) > st.get(p, 0) for p, v in I.storage.items()):
            raise Unsupported('fold with storage effects')
        I.side('preserved', holds(zadd(k, 1), a1))
        raise PathEnd('done')
    a = I.mk(aty, I.fresh('acc'))
    I.ex.assume(holds(n, a))
    return a


@prim(*si('Iterator.fold'))
def _(I, f, a):
    it, acc, fn = a
    fc = Ref(Cell(fn)) if isinstance(fn, Agg) else fn
    r = fold_inv(I, it.f[0], acc, fc, f)
    if r is not None:
        return r
    n = 0
    while True:
        x = it_next(I, it)
        if x is None:
            return acc
        e, it = x
        acc = I.call_value(fc, [acc, e])
        n += 1
        guard(I, n)


@prim(*si('Iterator.for_each'))
def _(I, f, a):
    it, fn = a
    fc = Ref(Cell(fn)) if isinstance(fn, Agg) else fn
    n = 0
    while True:
        x = it_next(I, it)
        if x is None:
            return UNIT
        e, it = x
        I.call_value(fc, [e])
        n += 1
        guard(I, n)


def symbolic_window(I, r):
    return I.bound is None and isz(r.sl[1])


def set_consumed(I, it, v, k):
    r = v.f[0]
    I.write(it, Agg(v.ty, 0, (Ref(r.cell, r.path, (zadd(r.sl[0], k), zsub(r.sl[1], k))),)))


@prim(*si('Iterator.any', 'Iterator.all'))
def _(I, f, a):
    isany = f['p'].endswith('any')
    v = I.deref(a[0])
    r = v.f[0]
    fn = a[1]
    fc = Ref(Cell(fn)) if isinstance(fn, Agg) else fn
    if symbolic_window(I, r):
        res = I.quantify(r.sl[1], lambda i: I.call_value(fc, [elem_ref(I, r, i)]), not isany)
        # the position of the iterator afterwards is not tracked
        I.write(a[0], Opaque('consumed iterator'))
        return res
    n = 0
    while True:
        x = it_next(I, v)
        if x is None:
            I.write(a[0], v)
            return not isany
        e, v = x
        if I.ex.choose(I.call_value(fc, [e])) == isany:
            I.write(a[0], v)
            return isany
        n += 1
        guard(I, n)


def first_match(I, r, pred):
    """index of the first element satisfying the pure predicate in an unbounded window, or None (forks)"""
    ex = I.quantify(r.sl[1], pred, False)
    none_ = I.quantify(r.sl[1], lambda i: znot(pred(i)), True)
    b = I.leaf(I.fresh('found'), (), z3.BoolSort())
    if not I.ex.choose(b):
        I.ex.assume(none_)
        return None
    k = I.leaf(I.fresh('pos'), (), z3.IntSort(), 0, (1 << 32) - 1)
    I.ex.assume(zlt(k, r.sl[1]))
    I.ex.assume(pred(k))
    I.ex.assume(I.quantify(k, lambda i: znot(pred(i)), True))
    return k


@prim(*si('Iterator.position', 'Iterator.find'))
def _(I, f, a):
    isfind = f['p'].endswith('find')
    v = I.deref(a[0])
    r = v.f[0]
    fn = a[1]
    fc = Ref(Cell(fn)) if isinstance(fn, Agg) else fn
    ot = f['sig'][1]

    def call(e):
        return I.tobool(I.call_value(fc, [Ref(Cell(e)) if isfind else e]))
    if symbolic_window(I, r):
        k = first_match(I, r, lambda i: call(elem_ref(I, r, i)))
        if k is None:
            set_consumed(I, a[0], v, r.sl[1])
            return none(I, ot)
        set_consumed(I, a[0], v, zadd(k, 1))
        return some(I, ot, elem_ref(I, r, k) if isfind else k)
    n = 0
    while True:
        x = it_next(I, v)
        if x is None:
            I.write(a[0], v)
            return none(I, ot)
        e, v = x
        if I.ex.choose(call(e)):
            I.write(a[0], v)
            return some(I, ot, e if isfind else n)
        n += 1
        guard(I, n)


@prim(*si('Iterator.find_map'))
def _(I, f, a):
    v = I.deref(a[0])
    fn = a[1]
    fc = Ref(Cell(fn)) if isinstance(fn, Agg) else fn
    n = 0
    while True:
        x = it_next(I, v)
        if x is None:
            I.write(a[0], v)
            return none(I, f['sig'][1])
        e, v = x
        o = I.variant(I.call_value(fc, [e]))
        if o.v == 1:
            I.write(a[0], v)
            return o
        n += 1
        guard(I, n)


@prim(*si('Iterator.rposition'))
def _(I, f, a):
    v = I.deref(a[0])
    r = v.f[0]
    fn = a[1]
    fc = Ref(Cell(fn)) if isinstance(fn, Agg) else fn
    i = r.sl[1]
    n = 0
    while I.ex.choose(zlt(0, i)):
        i = zsub(i, 1)
        if I.ex.choose(I.call_value(fc, [elem_ref(I, r, i)])):
            return some(I, f['sig'][1], i)
        n += 1
        guard(I, n)
    return none(I, f['sig'][1])


@prim(*si('Iterator.nth'))
def _(I, f, a):
    v = I.deref(a[0])
    r = v.f[0]
    if not I.ex.choose(zlt(a[1], r.sl[1])):
        set_consumed(I, a[0], v, r.sl[1])
        return none(I, f['sig'][1])
    e = elem_ref(I, r, a[1])
    set_consumed(I, a[0], v, zadd(a[1], 1))
    return some(I, f['sig'][1], e)


@prim(*si('Iterator.last'))
def _(I, f, a):
    r = a[0].f[0]
    if I.ex.choose(zlt(0, r.sl[1])):
        return some(I, f['sig'][1], elem_ref(I, r, zsub(r.sl[1], 1)))
    return none(I, f['sig'][1])


# binary search: what std's algorithm guarantees for ANY slice: Ok(i): element i is Equal;
# Err(i): element i-1 (if any) is Less and element i (if any) is Greater.
@prim('core::slice::<impl [T]>::binary_search_by')
def _(I, f, a):
    r = a[0]
    w = slice_window(I, r)
    fn = a[1]
    fc = Ref(Cell(fn)) if isinstance(fn, Agg) else fn
    rt = f['sig'][1]
    n = w[1]

    def order(i):
        return I.variant(I.call_value(fc, [elem_ref(I, r, i)])).v   # 0 Less 1 Equal 2 Greater
    if I.boundvars and I.bound is None:
        # inside a quantified predicate: in an ordered slice an equal element is found iff there is one
        def rank(i):
            o = I.call_value(fc, [elem_ref(I, r, i)])
            return I.variant(o).v
        mono = I.quantify(n, lambda i: I.quantify(i, lambda j: zle(rank(j), rank(i)), True), True)
        if isz(mono) and I.ex.entailed(mono)[0] != 'proved':
            raise Unsupported('binary search of a slice not known to be ordered, inside a quantified expression')
        if I.ex.choose(I.quantify(n, lambda i: zeq(rank(i), 1), False)):
            return Agg(rt, 0, (Opaque('index found'),))
        return Agg(rt, 1, (Opaque('index to insert at'),))
    found = I.leaf(I.fresh('bsf'), (), z3.BoolSort())
    k = I.leaf(I.fresh('bsi'), (), z3.IntSort(), 0, (1 << 32) - 1)
    if I.ex.choose(found):
        I.ex.assume(zlt(k, n))
        if order(k) != 1:
            raise PathEnd('assume')
        return Agg(rt, 0, (k,))
    I.ex.assume(zle(k, n))
    if I.ex.choose(zlt(0, k)):
        if order(zsub(k, 1)) != 0:
            raise PathEnd('assume')
    if I.ex.choose(zlt(k, n)):
        if order(k) != 2:
            raise PathEnd('assume')
    return Agg(rt, 1, (k,))


# ---- vec::IntoIter : Agg(ty,0,(Rope,))
@prim('<std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter')
def _(I, f, a):
    return Agg(f['sig'][1], 0, (a[0],))


@prim('<std::vec::IntoIter<T, A> as std::iter::Iterator>::next')
def _(I, f, a):
    v = I.deref(a[0])
    r = v.f[0]
    if not I.ex.choose(zlt(0, I.rope_len(r))):
        return none(I, f['sig'][1])
    e, rest = I.rope_unfront(list(r.segs))
    I.write(a[0], Agg(v.ty, 0, (Rope(r.ety, rest),)))
    return some(I, f['sig'][1], e)


@prim('<std::vec::IntoIter<T, A> as std::iter::DoubleEndedIterator>::next_back')
def _(I, f, a):
    v = I.deref(a[0])
    r = v.f[0]
    if not I.ex.choose(zlt(0, I.rope_len(r))):
        return none(I, f['sig'][1])
    rest, e = I.rope_unback(list(r.segs))
    I.write(a[0], Agg(v.ty, 0, (Rope(r.ety, rest),)))
    return some(I, f['sig'][1], e)


@prim('<std::vec::IntoIter<T, A> as std::iter::Iterator>::size_hint')
def _(I, f, a):
    n = I.rope_len(I.deref(a[0]).f[0])
    return Agg(None, 0, (n, some(I, I.T(f['sig'][1])['f'][1], n)))


@prim('<std::vec::IntoIter<T, A> as std::iter::ExactSizeIterator>::len')
def _(I, f, a):
    return I.rope_len(I.deref(a[0]).f[0])


@prim('<std::vec::IntoIter<T, A> as std::iter::Iterator>::fold')
def _(I, f, a):
    it, acc, fn = a
    fc = Ref(Cell(fn)) if isinstance(fn, Agg) else fn
    segs = list(it.f[0].segs)
    n = 0
    while I.ex.choose(zlt(0, I.rope_len(Rope(None, segs)))):
        e, segs = I.rope_unfront(segs)
        acc = I.call_value(fc, [acc, e])
        n += 1
        guard(I, n)
    return acc


@prim('<std::vec::IntoIter<T, A> as std::iter::Iterator>::try_fold')
def _(I, f, a):
    ref, acc, fn = a
    fc = Ref(Cell(fn)) if isinstance(fn, Agg) else fn
    ot = f['sig'][1]
    name = I.tyname(ot)
    if name.startswith('std::option::Option<'):
        more = 1
    elif name.startswith(('std::result::Result<', 'std::ops::ControlFlow<')):
        more = 0
    else:
        raise Unsupported('try_fold to ' + name)
    n = 0
    while True:
        it = I.deref(ref)
        segs = list(it.f[0].segs)
        if not I.ex.choose(zlt(0, I.rope_len(Rope(None, segs)))):
            return Agg(ot, more, (acc,))
        e, segs = I.rope_unfront(segs)
        I.write(ref, Agg(it.ty, it.v, (Rope(it.f[0].ety, segs),) + tuple(it.f[1:])))
        r = I.variant(I.call_value(fc, [acc, e]))
        if r.v != more:
            return r
        acc = r.f[0]
        n += 1
        guard(I, n)


# ---- comparison of slices / vecs
@prim('<std::vec::Vec<T, A1> as std::cmp::PartialEq<std::vec::Vec<U, A2>>>::eq',
      'std::vec::partial_eq::<impl std::cmp::PartialEq<std::vec::Vec<U, A2>> for std::vec::Vec<T, A1>>::eq')
def _(I, f, a):
    return I.equal(a[0], a[1])


# =============================================================== hashing and codec
@prim('sp_runtime::traits::Hash::hash_of', '<sp_runtime::traits::BlakeTwo256 as sp_runtime::traits::Hash>::hash_of')
def _(I, f, a):
    return hash_atom(I, a[0])


def hash_atom(I, v):
    ls = I.flatten(v)
    fn = I.leaf('blake2_256', tuple(ls), z3.IntSort(), 0, (1 << 256) - 1)
    return fn


@prim('<primitive_types::H256 as std::cmp::PartialEq>::eq', '<primitive_types::H256 as std::cmp::PartialEq<primitive_types::H256>>::eq')
def _(I, f, a):
    return zeq(I.strip(a[0]), I.strip(a[1]))


# =============================================================== storage
def keyof(I, v):
    v = I.strip(v)
    if isinstance(v, Key):
        return v
    raise Unsupported('not an abstract storage key: %r' % (v,))


def prefix_name(I, selfty):
    t = I.T(selfty)
    # storage alias / pallet storage type: the first generic argument is the prefix type
    if t['k'] == 'adt' and t['a']:
        p = I.T(t['a'][0])['n']
        nm = p
    else:
        nm = t['n']
    I.prefixes[nm] = selfty
    return nm


@prim('frame_support::storage::generator::StorageMap::storage_map_final_key',
      'frame_support::storage::generator::StorageDoubleMap::storage_double_map_final_key',
      'frame_support::storage::generator::StorageNMap::storage_n_map_final_key')
def _(I, f, a):
    v = a[0] if len(a) == 1 else Agg(None, 0, a)
    return Key(prefix_name(I, f['a'][0]), I.flatten(v), v, None)


def sv_type(I, f):
    """the storage type of a method of `impl StorageValue<..> for pallet_prelude::StorageValue<Prefix, Value, ..>`"""
    kind = re.search(r'pallet_prelude::(\w+)<', f['p']).group(1)
    key = (kind, tuple(map(str, f['a'])))
    c = I.prefixes_of.get(key)
    if c is None:
        for i, t in enumerate(I.P.tys):
            if t['k'] == 'adt' and t['p'].endswith('::' + kind) and list(map(str, t['a']))[:2] == list(map(str, f['a']))[:2]:
                c = i
                break
        else:
            raise Unsupported('storage type of ' + f['n'])
        I.prefixes_of[key] = c
    return c


@prim('<frame_support::pallet_prelude::StorageValue<Prefix, Value, QueryKind, OnEmpty> as frame_support::storage::generator::StorageValue<Value>>::storage_value_final_key')
def _(I, f, a):
    return Key(prefix_name(I, sv_type(I, f)), [], None, None)


@prim('frame_support::storage::generator::StorageValue::storage_value_final_key')
def _(I, f, a):
    return Key(prefix_name(I, f['a'][0]), [], None, None)


UH = 'frame_support::storage::unhashed::'


@prim(UH + 'get')
def _(I, f, a):
    p, v = I.st_read(keyof(I, a[0]), f['a'][0])
    return some(I, f['sig'][1], v) if p else none(I, f['sig'][1])


@prim(UH + 'take')
def _(I, f, a):
    k = keyof(I, a[0])
    p, v = I.st_read(k, f['a'][0])
    if p:
        I.st_write(k, None)
    return some(I, f['sig'][1], v) if p else none(I, f['sig'][1])


@prim(UH + 'put')
def _(I, f, a):
    I.st_write(keyof(I, a[0]), I.strip(a[1]))
    return UNIT


@prim(UH + 'kill')
def _(I, f, a):
    I.st_write(keyof(I, a[0]), None)
    return UNIT


@prim(UH + 'exists')
def _(I, f, a):
    k = keyof(I, a[0])
    vt = None
    st = I.T(I.prefixes[k.prefix])
    return st_exists(I, k, st)


def value_ty(I, st):
    # StorageMap<Prefix, Hasher, Key, Value, ..> ; StorageValue<Prefix, Value, ..> ; DoubleMap<P,H1,K1,H2,K2,V>
    n = st['p'].rsplit('::', 1)[1]
    return {'StorageMap': lambda: st['a'][3], 'CountedStorageMap': lambda: st['a'][3], 'StorageValue': lambda: st['a'][1],
            'StorageDoubleMap': lambda: st['a'][5], 'StorageNMap': lambda: st['a'][2]}[n]()


def st_exists(I, k, st):
    if I.st_info(k.prefix):
        # an item with a default value: stored or not is a fact of its own
        vt = value_ty(I, st)
        for lv, val in reversed(I.storage.get(k.prefix, ())):
            if lv is None:
                if not hasattr(val, 'cache'):
                    raise Unsupported('existence of a summarised item')
                hit, p, _ = I.bulk_read(k, vt, val, lambda k: st_exists(I, k, st))
                if hit:
                    return p
                continue
            if I.ex.choose(zand(*[zeq(x, y) for x, y in zip(lv, k.leaves)])):
                return val is not None
        pres = I.leaf('st:' + k.prefix + '?', k.leaves, z3.BoolSort())
        v = I.mk(vt, 'st:' + k.prefix, k.leaves)
        if isz(v):
            I.ex.fact(z3.Or(pres, v == (False if z3.is_bool(v) else 0)))
        I.note_read(k, pres, v, vt)
        return I.ex.choose(pres)
    p, v = I.st_read(k, value_ty(I, st))
    return p


@prim('frame_support::storage::generator::map::<impl frame_support::StorageMap<K, V> for G>::decode_len_never')
def _(I, f, a):
    return NotImplemented


@prim('frame_support::StorageDecodeLength::decode_len', 'frame_support::storage::StorageDecodeLength::decode_len',
      'parity_scale_codec::DecodeLength::len')
def _(I, f, a):
    raise Unsupported('decode_len')


# transactions
@prim('sp_io::storage::start_transaction')
def _(I, f, a):
    I.txn.append({k: list(v) for k, v in I.storage.items()})
    return UNIT


@prim('sp_io::storage::rollback_transaction')
def _(I, f, a):
    I.storage = I.txn.pop()
    return UNIT


@prim('sp_io::storage::commit_transaction')
def _(I, f, a):
    I.txn.pop()
    return UNIT


@prim('frame_support::storage::transactional::inc_transaction_level')
def _(I, f, a):
    t = I.T(f['sig'][1])
    ok = t['a'][0]
    return Agg(f['sig'][1], 0, (Agg(ok, 0, ()),))


@prim('frame_support::storage::transactional::is_transactional')
def _(I, f, a):
    return True


# =============================================================== events, logging
@prim('frame_system::Pallet::<T>::deposit_event', 'pallet_democracy::Pallet::<T>::deposit_event',
      'pallet_elections_phragmen::Pallet::<T>::deposit_event', 'pallet_vesting::Pallet::<T>::deposit_event',
      'pallet_linear_release::Pallet::<T>::deposit_event', 'pallet_dispenser::Pallet::<T>::deposit_event', 'polimec_receiver::Pallet::<T>::deposit_event', 'pallet_parachain_staking::Pallet::<T>::deposit_event', 'pallet_funding::Pallet::<T>::deposit_event', 'pallet_proxy_bonding::Pallet::<T>::deposit_event',
      'frame_system::Pallet::<T>::deposit_event_indexed')
def _(I, f, a):
    I.events.append(a)
    return UNIT


# trace output
@prim('tracing_core::*', 'tracing::*', 'log::*', 'std::fmt::*', 'core::fmt::*', 'frame_support::runtime_print*',
      'sp_runtime::print*', '<std::fmt::*', 'frame_support::print*', 'sp_io::misc::print*')
def _(I, f, a):
    p = f['p']
    out = I.T(f['sig'][1]) if f['sig'] else None
    if out is None:
        return UNIT
    return dummy(I, f['sig'][1])


def dummy(I, ty):
    t = I.T(ty)
    k = t['k']
    if k == 'bool':
        return False
    if k == 'int':
        return 0
    if k == 'tuple' and not t['f']:
        return UNIT
    return Opaque('dummy ' + t['n'])


import re


@prim('<T as std::convert::Into<U>>::into')
def _(I, f, a):
    return NotImplemented


def pallet_error(I, f, a):
    """From<Error<T>> for DispatchError: an injective constructor of the pallet's error variant"""
    v = I.force(a[0])
    return Agg(f['sig'][1], -1, (a[0],))


ERRFROM = re.compile(r'::<impl std::convert::From<.*::Error<T>> for sp_runtime::DispatchError>::from$')
_old_call = Interp.call


def _lookup_extra(f):
    if ERRFROM.search(f['p']):
        return pallet_error
    return None


Interp.EXTRA = staticmethod(_lookup_extra)


Interp.MERGE |= {'pallet_linear_release::VestingInfo::<Balance, BlockNumber>::' + x for x in (
    'locked_at', 'releaseble_at', 'is_valid', 'ending_block_as_balance')}
Interp.MERGE |= {
    'pallet_democracy::Conviction::votes', 'pallet_democracy::Conviction::lock_periods',
    'pallet_democracy::AccountVote::<Balance>::balance',
    'pallet_vesting::VestingInfo::<Balance, BlockNumber>::locked_at', 'pallet_vesting::VestingInfo::<Balance, BlockNumber>::is_valid',
    'pallet_vesting::VestingInfo::<Balance, BlockNumber>::ending_block_as_balance',
}
