"""Further models: partial decoding and appending of stored values, hashing of inline calls."""
import math
import z3
from core import *
from interp import Interp, prim
from prims import some, none, keyof, value_ty, slice_rope


@prim('<sp_core::H256 as std::cmp::PartialEq>::eq')
def _(I, f, a):
    return zeq(I.strip(a[0]), I.strip(a[1]))


def stored(I, k):
    return I.st_read(k, value_ty(I, I.T(I.prefixes[k.prefix])))


def vec_len(I, v):
    """length of a (possibly wrapped) vector"""
    v = I.strip(v)
    while True:
        if isinstance(v, Rope):
            return I.rope_len(v)
        v = I.force(v)
        if isinstance(v, Agg) and v.f:
            v = I.strip(v.f[0])
            continue
        raise Unsupported('length prefix of %r' % (v,))


@prim('frame_support::storage::StorageDecodeLength::decode_len', 'frame_support::StorageDecodeLength::decode_len')
def _(I, f, a):
    k = keyof(I, a[0])
    ot = f['sig'][1]
    p, v = stored(I, k)
    if not p:
        return none(I, ot)
    n = vec_len(I, v)
    if I.st_info(k.prefix) and not I.ex.choose(zlt(0, n)):
        # an empty default value may or may not be stored
        if I.ex.choose(I.leaf('stored?' + k.prefix, k.leaves, z3.BoolSort())):
            return some(I, ot, 0)
        return none(I, ot)
    return some(I, ot, n)


@prim('sp_io::storage::read')
def _(I, f, a):
    k = keyof(I, a[0])
    ot = f['sig'][1]
    if isz(a[2]) or a[2] != 0:
        raise Unsupported('partial storage read')
    p, v = stored(I, k)
    if not p:
        return none(I, ot)
    buf = a[1]
    rope = slice_rope(I, buf)
    n = I.rope_len(rope)
    if isz(n):
        raise Unsupported('partial storage read into an unsized buffer')
    for j in range(n):
        I.write(Ref(buf.cell, buf.path + (('i', zadd(buf.sl[0] if buf.sl else 0, j)),)), Opaque('encoded', (v, j)))
    b = I.leaf(I.fresh('encsize'), (), z3.IntSort(), n, (1 << 32) - 1)
    return some(I, ot, b)


@prim('<parity_scale_codec::Compact<u32> as parity_scale_codec::Decode>::decode')
def _(I, f, a):
    s = I.deref(a[0])
    if isinstance(s, Ref):
        rope = slice_rope(I, s)
        if I.rope_len(rope) is not None and rope.segs and rope.segs[0][0] == 'e' and isinstance(rope.segs[0][1], Opaque) \
                and rope.segs[0][1].tag == 'encoded' and rope.segs[0][1].v[1] == 0:
            n = vec_len(I, rope.segs[0][1].v[0])
            t = I.T(f['sig'][1])
            return Agg(f['sig'][1], 0, (Agg(t['a'][0], 0, (n,)),))
    return NotImplemented


@prim('sp_io::hashing::blake2_256')
def _(I, f, a):
    if I.bound is not None:
        # native counterexamples avoid inline calls: their hash cannot be chosen
        raise PathEnd('assume')
    rope = slice_rope(I, a[0])
    segs = [s for s in rope.segs if not (s[0] == 'b' and not isz(s[5]) and s[5] == 0)]
    if len(segs) == 1 and segs[0][0] == 'b' and isinstance(segs[0][2], str):
        s = segs[0]
        return I.leaf('blake2_256#' + s[2], tuple(s[3]) + (s[4], s[5]), z3.IntSort(), 0, (1 << 256) - 1)
    raise Unsupported('hash of assembled bytes')


Interp.MERGE |= {'frame_support::traits::Bounded::<T, H>::hash'}


@prim('std::boxed::Box::<T>::new_uninit')
def _(I, f, a):
    return Ref(Cell(Agg(None, 0, (None, Agg(None, 0, (None,))))))


@prim('std::boxed::box_assume_init_into_vec_unsafe')
def _(I, f, a):
    arr = I.deref(a[0]).f[1].f[0]
    if isinstance(arr, Sym):
        arr = I.force(arr)
    t = I.T(f['sig'][1])
    return Rope(t['a'][0], [('e', x) for x in arr.f])


@prim('<StorageValueT as frame_support::storage::TryAppendValue<T, I>>::try_append')
def _(I, f, a):
    return NotImplemented


@prim('parity_scale_codec::Encode::encode')
def _(I, f, a):
    """the encoding of a value, not looked into: only appended to storage or hashed"""
    v = I.strip(a[0])
    t = I.T(f['a'][0])
    if t['k'] == 'ref':
        t = I.T(t['e'])
    if t['k'] == 'tuple':
        b = fixed_bytes(I, v, f['a'][0])
        if b is not None:
            return Rope(I.T(f['sig'][1])['a'][0], [('e', x) for x in b])
        return Opaque('encode', v)
    return NotImplemented


@prim('sp_io::storage::append')
def _(I, f, a):
    k = keyof(I, a[0])
    e = a[1]
    e = I.strip(e)
    if not (isinstance(e, Opaque) and e.tag == 'encode'):
        raise Unsupported('append of %r' % (e,))
    p, v = stored(I, k)
    vt = value_ty(I, I.T(I.prefixes[k.prefix]))
    if not p:
        raise Unsupported('append to an absent value')
    I.st_write(k, push_into(I, v, e.v))
    return UNIT


def push_into(I, v, x):
    if isinstance(v, Rope):
        return Rope(v.ety, list(v.segs) + [('e', x)])
    v = I.force(v)
    if isinstance(v, Agg) and v.f:
        return Agg(v.ty, v.v, (push_into(I, v.f[0], x),) + tuple(v.f[1:]))
    raise Unsupported('append to %r' % (v,))


def fixed_bytes(I, v, ty):
    """SCALE bytes of a value built from fixed-size byte arrays and little-endian integers, or None"""
    t = I.T(ty)
    while t['k'] == 'ref':
        ty = t['e']
        t = I.T(ty)
        v = I.strip(v)
    if t['k'] == 'tuple':
        v = I.force(v)
        r = []
        for x, xt in zip(v.f, t['f']):
            b = fixed_bytes(I, I.strip(x), xt)
            if b is None:
                return None
            r += b
        return r
    if t['k'] == 'array' and I.T(t['e']).get('b') == 8 and t['len'] < 16:
        v = I.force(v) if not isinstance(v, Agg) else v
        return list(v.f)
    if t['k'] == 'int':
        n = t['b'] // 8
        if isinstance(v, int):
            return list((v % (1 << t['b'])).to_bytes(n, 'little'))
        return [I.leaf('le', (v, j), z3.IntSort(), 0, 255) for j in range(n)]
    return None


@prim('rt::task_index')
def _(I, f, a):
    """the number whose little-endian bytes are bytes 8..12 of the name"""
    v = a[0]
    if isinstance(v, Agg):
        b = [I.strip(x) for x in v.f[8:12]]
        if all(isinstance(x, int) for x in b):
            return int.from_bytes(bytes(b), 'little')
        if all(isz(x) and z3.is_app(x) and x.num_args() == 2 for x in b):
            n = b[0].arg(0)
            if all(x.decl().eq(b[0].decl()) and x.arg(0).eq(n) and x.arg(1).eq(z3.IntVal(j)) for j, x in enumerate(b)):
                return n
    raise Unsupported('name of a task: %r' % (v,))


@prim('core::slice::<impl [T]>::copy_from_slice', 'core::slice::<impl [T]>::clone_from_slice')
def _(I, f, a):
    dst, src = a[0], slice_rope(I, a[1])
    if not isinstance(dst, Ref) or dst.sl is None or any(isz(x) for x in dst.sl) or any(s[0] != 'e' for s in src.segs):
        return NotImplemented
    if dst.sl[1] != len(src.segs):
        raise PathEnd('panic', 'copy_from_slice: lengths differ')
    v = I.load(dst.cell, dst.path)
    if isinstance(v, int) and not isinstance(v, bool):
        # a 32-byte value kept as one number: take it apart
        I.write(Ref(dst.cell, dst.path), Agg(None, 0, list(v.to_bytes(32, 'big'))))
    elif not isinstance(v, (Agg, Rope)):
        return NotImplemented
    for j, s in enumerate(src.segs):
        I.write(Ref(dst.cell, dst.path + (('i', dst.sl[0] + j),)), s[1])
    return UNIT


# =============================================================== exact rational arithmetic
@prim('sp_arithmetic::helpers_128bit::multiply_by_rational_with_rounding', 'sp_runtime::helpers_128bit::multiply_by_rational_with_rounding')
def _(I, f, a):
    """a * b / c in exact arithmetic, rounded; None when it does not fit or c is zero"""
    ot = f['sig'][1]
    x, y, c, mode = a[0], a[1], a[2], I.force(a[3]).v
    if not I.ex.choose(zlt(0, c)):
        return none(I, ot)
    if isz(mode):
        raise Unsupported('symbolic rounding mode')
    if not isz(c) or not (isz(x) ^ isz(y)):
        p = zmul(x, y)
        q, r = simp(Z(p) / Z(c)), simp(Z(p) % Z(c))
        up = {0: zlt(0, r), 1: False, 2: zle(c, zmul(2, r)), 3: zlt(c, zmul(2, r))}[mode]
        q = simp(zadd(q, zite(up, 1, 0)))
    else:
        # x*K/c with a constant K: x = t*c + r gives t*K + r*K/c, and the last term is between 0 and K
        k, v = (y, x) if isz(x) else (x, y)
        t = simp(Z(v) / Z(c))
        e = I.leaf('ratio', (v, c, k, mode), z3.IntSort(), 0, k)
        I.ex.fact(z3.Implies(z3.Or(mode == 1, Z(c) <= k), e < k))
        I.ex.fact(z3.Implies(Z(v) % Z(c) == 0, e == 0))
        q = simp(zadd(zmul(t, k), e))
        if isz(q):
            I.ratios[q.ast.value] = (q, v, k, c, mode)
        I.ex.weak = True
    if not I.ex.choose(zle(q, (1 << 128) - 1)):
        return none(I, ot)
    return some(I, ot, q)


@prim('sp_arithmetic::per_things::overflow_prune_mul')
def _(I, f, a):
    """x * part / accuracy in exact arithmetic, rounded; what the function computes for every part up to the accuracy"""
    x, part, mode = a[0], a[1], I.force(a[2]).v
    t = I.T(f['a'][1])['n']
    d = {'Percent': 100, 'Permill': 10**6, 'Perbill': 10**9, 'Perquintill': 10**18}.get(t.split('::')[-1])
    if d is None or isz(mode) or not (isz(x) or isz(part)):
        return NotImplemented
    if isz(x) and isz(part) and d < 10**18 or I.ex.entailed(zle(part, d))[0] != 'proved':
        return NotImplemented
    up = {0: d - 1, 1: 0, 2: d // 2, 3: d // 2 - 1}[mode]
    if not (isz(x) and isz(part)):
        k, v = (part, x) if isz(x) else (x, part)
        g = math.gcd(k, d)
        if g == d:
            return simp(zmul(v, k // d))
        return simp(Z(zadd(zmul(v, k // g), up // g)) / (d // g))
    e = I.leaf('share', (x, part, d, mode), z3.IntSort(), 0, (1 << 128) - 1)
    I.ex.fact(z3.And(e >= 0, e <= x, z3.Implies(part == d, e == x), z3.Implies(z3.Or(part == 0, x == 0), e == 0)))
    I.ex.weak = True
    return e


@prim('<Id as sp_runtime::traits::AccountIdConversion<T>>::into_sub_account_truncating')
def _(I, f, a):
    """the harness' account ids: four bytes naming the pallet, then the four bytes of the path"""
    t = I.T(f['a'][2])
    if t['n'] not in ('u32', '&()'):
        raise Unsupported('sub-account of ' + t['n'])
    if t['n'] == '&()':
        # the account of the pallet itself
        a = [a[0], 0]
    who = I.force(I.strip(a[0]))
    if any(I.T(x)['n'].endswith('Sibling') for x in f['a'][:2]):
        # 32 bytes: the marker, the number of the chain (little endian), zeros
        n = I.force(I.force(who.f[0]).f[0])
        v = 0x7369626c << 224
        for k in range(4):
            v = zadd(v, zmul(Z(n) / (1 << 8 * k) % 256, 1 << (216 - 8 * k)))
        return Agg(f['sig'][1], 0, [simp(v)])
    if isinstance(who, Agg) and who.f:
        # a pallet's account: the marker, the eight bytes of its name, the number
        b = I.force(who.f[0])
        n = int.from_bytes(bytes(b.f), 'little') if isinstance(b, Agg) else b
        return simp(zadd(0x6c646f6d + (n << 32), zmul(a[1], 1 << 96)))
    return simp(zadd(0x786f7270, zmul(a[1] if not hasattr(a[1], 'leaves') else a[1], 1 << 32)))


@prim('rt::muldiv')
def _(I, f, a):
    x, y, c = a
    q = simp(Z(zmul(x, y)) / Z(c))
    m = (1 << 128) - 1
    return q if I.ex.choose(zle(q, m)) else m


# =============================================================== identifiers: bounded byte strings that are only compared
def atom(v):
    return isz(v) or isinstance(v, int) and not isinstance(v, bool)


@prim('<frame_support::BoundedVec<T, S> as std::clone::Clone>::clone')
def _(I, f, a):
    v = I.strip(a[0])
    return v if atom(v) else NotImplemented


@prim('<frame_support::BoundedVec<T, BoundSelf> as std::cmp::PartialEq<frame_support::BoundedVec<T, BoundRhs>>>::eq',
      '<frame_support::BoundedVec<T, S> as std::cmp::PartialEq>::eq')
def _(I, f, a):
    x, y = I.strip(a[0]), I.strip(a[1])
    return zeq(x, y) if atom(x) and atom(y) else NotImplemented


@prim('<frame_support::BoundedVec<T, S> as std::default::Default>::default')
def _(I, f, a):
    return 0 if I.T(f['sig'][1])['atom'] else NotImplemented


ACCOUNT = None


@prim('rt::account_bytes')
def _(I, f, a):
    return a[0]


# =============================================================== powers of a constant
def powers(I, f, a):
    """the powers of a constant base that the type can hold, or None"""
    b, e = a
    if isz(b) or not isz(e) or b < 2:
        return None
    hi = I.int_range(I.T(f['sig'][0][0]))[1]
    ps = [1]
    while ps[-1] * b <= hi:
        ps.append(ps[-1] * b)
    return ps, hi


@prim('core::num::<impl u128>::saturating_pow', 'core::num::<impl u64>::saturating_pow', 'core::num::<impl u32>::saturating_pow')
def _(I, f, a):
    p = powers(I, f, a)
    if p is None:
        return NotImplemented
    v = z3.IntVal(p[1])
    for i in reversed(range(len(p[0]))):
        v = z3.If(a[1] == i, z3.IntVal(p[0][i]), v)
    return v


@prim('core::num::<impl u128>::checked_pow', 'core::num::<impl u64>::checked_pow', 'core::num::<impl u32>::checked_pow')
def _(I, f, a):
    p = powers(I, f, a)
    if p is None:
        return NotImplemented
    for i, x in enumerate(p[0]):
        if I.ex.choose(a[1] == i):
            return some(I, f['sig'][1], x)
    return none(I, f['sig'][1])
