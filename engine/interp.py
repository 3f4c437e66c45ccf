"""Symbolic interpreter of the exported MIR (rustc's own monomorphic MIR of the code in /repo)."""
import json
import re
import os
import sys
import time
import z3
from core import *
from loops import Loops, Havoc, Bulk, loops_of

sys.setrecursionlimit(60000)

# identifiers of at most 57 and 96 bytes (credential subjects, documents): compared, never taken apart
ATOMIC = re.compile(r'frame_support::BoundedVec<u8, sp_core::ConstU32<(57|96)>>$')
ATOMS = {'primitive_types::H256', 'sp_core::H256', 'sp_core::crypto::AccountId32'}
VEC = ('std::vec::Vec', 'alloc::vec::Vec')


DEBUG_MERGE = bool(os.environ.get('VERIF_MERGE'))


AXQ = {}     # range axioms of uninterpreted functions: valid everywhere


class Program:
    def __init__(self, path):
        d = json.load(open(path))
        self.fns = d['fns']
        self.tys = d['tys']
        self.roots = dict(d['roots'])
        self.byname = {}
        for i, t in enumerate(self.tys):
            self.byname.setdefault(t['n'], i)
        for i, f in enumerate(self.fns):
            f['id'] = i
        self.tag = {}
        for t in self.tys:
            t['atom'] = t['k'] == 'adt' and (t['p'] in ATOMS or bool(ATOMIC.match(t['n'])))
            if t['k'] == 'adt' and t['kind'] == 'enum':
                t['dmap'] = {int(v['d']): i for i, v in enumerate(t['v'])}


PANIC_PREFIX = ('core::panicking::', 'std::rt::begin_panic', 'core::option::unwrap_failed',
                'core::option::expect_failed', 'core::result::unwrap_failed', 'std::panicking::', 'std::rt::panic',
                'core::slice::index::slice_', 'std::option::unwrap_failed', 'std::option::expect_failed',
                'std::result::unwrap_failed', 'core::str::slice_error', 'core::cell::panic', 'std::process::abort',
                'alloc::raw_vec::capacity_overflow', 'core::num::int_log10::panic', 'core::num::flt2dec',
                'core::intrinsics::abort', 'std::intrinsics::abort', 'core::slice::copy_from_slice_impl::len_mismatch_fail')


class Interp(Loops):
    PRIMS = {}
    PREFIX = []

    def __init__(self, prog, ex, bound=None, quiet=True):
        self.P = prog
        self.ex = ex
        self.bound = bound       # None: sequences of any length; N: bounded stand-in, len <= N
        self.ufs = {}
        self.leafs = {}
        self.mergecache = {}
        self.stinfo = {}
        self.prefixes = {}
        self.prefixes_of = {}
        self.qparts = {}
        self.counts = []
        self.max_steps = 400000
        self.loop_limit = 60
        self.used = {}           # function path -> body executed
        self.prim_used = {}
        self.ratios = {}         # quotients v*k/c with a constant k
        self.reset()

    def reset(self):
        self.names = {}
        self.steps = 0
        self.storage = {}        # prefix -> [(leaves, value|None)]
        self.txn = []
        self.anys = []           # (value, ty) in order of any() calls
        self.params = {}
        self.reads = {}          # initial storage read: (prefix, leaves) -> info
        self.notes = []
        self.callstack = []
        self.axioms = set()
        self.boundvars = []
        self.events = []
        self.covers = []
        self.log = []
        self.invs = []
        self.sums = []           # sums named on this path: (length, term)
        self.filters = []        # selections made on this path: (length, predicate, kept, positions)
        self.inverse = {}
        self.mapiters = []
        self.guards = []
        self.readlog = None
        self.havocn = 0
        self.lastinst = False
        self.noloop = 0
        self.results = getattr(self, 'results', None)

    def fresh(self, base):
        if self.boundvars and base not in ('bv', 'el'):
            raise Unsupported('an underdetermined operation (%s) inside a quantified expression' % base)
        n = self.names.get(base, 0)
        self.names[base] = n + 1
        return '%s!%d' % (base, n)

    # ------------------------------------------------------------ types
    def T(self, t):
        return self.P.tys[t]

    def tyname(self, t):
        return self.P.tys[t]['n']

    def int_range(self, t):
        b, s = t['b'], t['s']
        if s:
            return -(1 << (b - 1)), (1 << (b - 1)) - 1
        return 0, (1 << b) - 1

    # ------------------------------------------------------------ arbitrary values
    def leaf(self, name, args, sort, lo=None, hi=None):
        ck = (name, tuple(x.ast.value if isz(x) else ('c', x) for x in args), sort.ast.value, lo, hi)
        c = self.leafs.get(ck)
        if c is None:
            c = self.leaf0(name, args, sort, lo, hi)
            self.leafs[ck] = c + (args,)
        e, fact = c[0], c[1]
        if fact is not None:
            self.ex.fact(fact)
            if args and self.boundvars and name not in self.axioms and \
                    any(isz(x) and self.mentions(x) for x in args):
                self.axioms.add(name)
                f = self.ufs[(name, len(args))]
                vs = [z3.Int('ax!%d' % i) for i in range(len(args))]
                fa = f(*vs)
                q = z3.ForAll(vs, z3.And(fa >= lo, fa <= hi), patterns=[fa])
                AXQ[q.ast.value] = q
                self.ex.qfact(q)
        return e

    def leaf0(self, name, args, sort, lo=None, hi=None):
        if args:
            key = (name, len(args))
            f = self.ufs.get(key)
            if f is None:
                f = z3.Function(name, *([z3.IntSort()] * len(args) + [sort]))
                self.ufs[key] = f
            a = [Z(x) for x in args]
            a = [z3.If(x, z3.IntVal(1), z3.IntVal(0)) if z3.is_bool(x) else x for x in a]
            e = f(*a)
        else:
            e = z3.Const(name, sort)
        return e, (z3.And(e >= lo, e <= hi) if lo is not None else None)

    def mentions(self, e):
        ids = {b.ast.value for b in self.boundvars}
        seen = set()
        st = [e]
        while st:
            x = st.pop()
            i = x.ast.value
            if i in ids:
                return True
            if i in seen:
                continue
            seen.add(i)
            st.extend(x.children())
        return False

    def mk(self, ty, name, args=()):
        t = self.T(ty)
        k = t['k']
        if k == 'int':
            lo, hi = self.int_range(t)
            return self.leaf(name, args, z3.IntSort(), lo, hi)
        if k == 'bool':
            return self.leaf(name, args, z3.BoolSort())
        if k == 'char':
            return self.leaf(name, args, z3.IntSort(), 0, 0x10ffff)
        if k == 'adt':
            if t['atom']:
                return self.leaf(name, args, z3.IntSort(), 0, (1 << 256) - 1)
            if t['p'] in VEC:
                return self.mkrope(t['a'][0], name, args)
            if t['kind'] == 'struct' and not t['v'][0]['f']:
                return Agg(ty, 0, ())
            if t['box']:
                return Ref(Cell(self.mk(t['a'][0], name + '.b', args)))
            return Sym(ty, name, args)
        if k == 'tuple':
            if not t['f']:
                return UNIT
            return Sym(ty, name, args)
        if k == 'array':
            if t['len'] >= 16 and self.T(t['e']).get('b') == 8:
                return self.leaf(name, args, z3.IntSort(), 0, (1 << (8 * t['len'])) - 1)
            return Sym(ty, name, args)
        if k == 'ref':
            inner = self.T(t['e'])
            if inner['k'] == 'slice':
                r = self.mkrope(inner['e'], name, args)
                return Ref(Cell(r), (), (0, self.rope_len(r)))
            return Ref(Cell(self.mk(t['e'], name + '.&', args)))
        raise Unsupported('arbitrary value of type ' + t['n'])

    def mkrope(self, ety, name, args):
        n = self.leaf(name + '.len', args, z3.IntSort(), 0, self.bound if self.bound is not None else (1 << 32) - 1)
        return Rope(ety, [('b', ety, name + '[]', tuple(args), 0, n)])

    def as_variant(self, s, v):
        t = self.T(s.ty)
        if t['k'] == 'adt':
            fs = t['v'][v]['f']
            pre = s.name + ('.%d.' % v if t['kind'] == 'enum' else '.')
        elif t['k'] in ('tuple', 'closure'):
            fs = t['f']
            pre = s.name + '.'
        elif t['k'] == 'array':
            fs = [t['e']] * t['len']
            pre = s.name + '.'
        else:
            raise Unsupported('expand ' + t['n'])
        return Agg(s.ty, v, [self.mk(f, pre + str(i), s.args) for i, f in enumerate(fs)])

    def disc_leaf(self, s):
        t = self.T(s.ty)
        return self.leaf(s.name + '#', s.args, z3.IntSort(), 0, len(t['v']) - 1)

    def variant(self, s):
        """fork on the variant of an enum value, return Agg"""
        if isinstance(s, Agg):
            return s
        if not isinstance(s, Sym):
            raise Unsupported('variant of %r' % (s,))
        t = self.T(s.ty)
        n = len(t['v']) if t['k'] == 'adt' and t['kind'] == 'enum' else 1
        if n <= 1:
            return self.as_variant(s, 0)
        d = self.disc_leaf(s)
        live = [i for i in range(n) if not self.void_variant(t['v'][i])]
        for i in live[:-1]:
            if self.ex.choose(zeq(d, i)):
                return self.as_variant(s, i)
        self.ex.fact(zeq(d, live[-1]))
        return self.as_variant(s, live[-1])

    def void_variant(self, v):
        for f in v['f']:
            t = self.T(f)
            if t['k'] == 'never' or (t['k'] == 'adt' and t['kind'] == 'enum' and not t['v']):
                return True
        return False

    def force(self, v):
        """expand the top level of a Sym"""
        if isinstance(v, Sym):
            return self.variant(v)
        return v

    # ------------------------------------------------------------ ropes
    def seg_len(self, s):
        return 1 if s[0] == 'e' else s[5]

    def rope_len(self, r):
        n = 0
        for s in r.segs:
            n = zadd(n, self.seg_len(s))
        return n

    def seg_get(self, s, i):
        if not isinstance(s[2], str):
            return s[2].get(self, zadd(s[4], i))
        return self.mk(s[1], s[2], tuple(s[3]) + (zadd(s[4], i),))

    def rope_get(self, r, i):
        acc = 0
        segs = [s for s in r.segs if not (s[0] == 'b' and not isz(s[5]) and s[5] == 0)]
        for j, s in enumerate(segs):
            last = j == len(segs) - 1
            if s[0] == 'e':
                if last or self.ex.choose(zeq(i, acc)):
                    return s[1]
                acc = zadd(acc, 1)
            else:
                end = zadd(acc, s[5])
                if last or self.ex.choose(zlt(i, end)):
                    return self.seg_get(s, zsub(i, acc))
                acc = end
        raise PathEnd('panic', 'index out of bounds')

    def rope_split(self, r, i):
        acc = 0
        left = []
        segs = list(r.segs)
        for j, s in enumerate(segs):
            if self.ex.choose(zeq(i, acc)):
                return left, segs[j:]
            L = self.seg_len(s)
            if s[0] == 'b':
                end = zadd(acc, L)
                if self.ex.choose(zlt(i, end)):
                    k = zsub(i, acc)
                    a = ('b', s[1], s[2], s[3], s[4], k)
                    b = ('b', s[1], s[2], s[3], zadd(s[4], k), zsub(s[5], k))
                    return left + [a], [b] + segs[j + 1:]
            left.append(s)
            acc = zadd(acc, L)
        return left, []

    def rope_unfront(self, segs):
        """first element and rest of a non-empty segment list"""
        for j, s in enumerate(segs):
            if s[0] == 'e':
                return s[1], segs[j + 1:]
            if self.ex.choose(zlt(0, s[5])):
                rest = ('b', s[1], s[2], s[3], zadd(s[4], 1), zsub(s[5], 1))
                return self.seg_get(s, 0), [rest] + segs[j + 1:]
        raise Unsupported('unfront of empty rope')

    def rope_unback(self, segs):
        for j in range(len(segs) - 1, -1, -1):
            s = segs[j]
            if s[0] == 'e':
                return segs[:j], s[1]
            if self.ex.choose(zlt(0, s[5])):
                n1 = zsub(s[5], 1)
                return segs[:j] + [('b', s[1], s[2], s[3], s[4], n1)], self.seg_get(s, n1)
        raise Unsupported('unback of empty rope')

    def rope_set(self, r, i, v):
        left, right = self.rope_split(r, i)
        _, rest = self.rope_unfront(right)
        return Rope(r.ety, left + [('e', v)] + rest)

    def rope_sub(self, r, start, n):
        _, right = self.rope_split(r, start)
        mid, _ = self.rope_split(Rope(r.ety, right), n)
        return Rope(r.ety, mid)

    # ------------------------------------------------------------ memory
    def proj(self, v, st):
        if isinstance(st, int):
            if isinstance(v, Sym):
                t = self.T(v.ty)
                if t['k'] == 'adt' and t['kind'] == 'enum' and len(t['v']) > 1:
                    v = self.variant(v)
                else:
                    v = self.as_variant(v, 0)
            if isinstance(v, Agg):
                if st >= len(v.f):
                    raise Unsupported('field %d of %r' % (st, v))
                return v.f[st]
            if isinstance(v, Ref) and st == 0:
                return v        # the pointer inside a box
            raise Unsupported('field of %r' % (v,))
        if st[0] == 'd':
            if isinstance(v, Sym):
                return self.as_variant(v, st[1])
            if isinstance(v, Agg):
                if v.v != st[1]:
                    raise Unsupported('downcast mismatch')
                return v
            raise Unsupported('downcast of %r' % (v,))
        if st[0] == 'i':
            if isinstance(v, Rope):
                return self.rope_get(v, st[1])
            if isinstance(v, Sym):
                v = self.as_variant(v, 0)
            if isinstance(v, Agg):
                i = st[1]
                if isz(i):
                    for k in range(len(v.f) - 1):
                        if self.ex.choose(i == k):
                            return v.f[k]
                    return v.f[-1]
                return v.f[i]
            if isinstance(v, Str):
                return v.s.encode()[st[1]]
            raise Unsupported('index of %r' % (v,))
        raise Unsupported('proj')

    def load(self, cell, path):
        v = cell.v
        for st in path:
            v = self.proj(v, st)
        return v

    def upd(self, v, path, new):
        if not path:
            return new
        st = path[0]
        if isinstance(st, int):
            if v is None:
                raise Unsupported('partial init')
            if isinstance(v, Sym):
                v = self.variant(v)
            if not isinstance(v, Agg):
                raise Unsupported('store into %r' % (v,))
            f = list(v.f)
            f[st] = self.upd(f[st], path[1:], new)
            return Agg(v.ty, v.v, f)
        if st[0] == 'd':
            if isinstance(v, Sym):
                v = self.as_variant(v, st[1])
            return self.upd(v, path[1:], new)
        if st[0] == 'i':
            if isinstance(v, Rope):
                if len(path) == 1:
                    return self.rope_set(v, st[1], new)
                return self.rope_set(v, st[1], self.upd(self.rope_get(v, st[1]), path[1:], new))
            if isinstance(v, Sym):
                v = self.as_variant(v, 0)
            i = st[1]
            if isz(i):
                for k in range(len(v.f)):
                    if k == len(v.f) - 1 or self.ex.choose(i == k):
                        i = k
                        break
            f = list(v.f)
            f[i] = self.upd(f[i], path[1:], new)
            return Agg(v.ty, v.v, f)
        raise Unsupported('upd')

    def store_at(self, cell, path, val):
        for stamp, ok in self.guards:
            if cell.n <= stamp and id(cell) not in ok:
                raise Unsupported('a loop modifies state outside its summary')
        cell.v = self.upd(cell.v, path, val) if path else val

    def deref(self, r):
        """value behind a reference"""
        if isinstance(r, Ref):
            return self.load(r.cell, r.path)
        if isinstance(r, (Str, Key, Opaque)):
            return r
        raise Unsupported('deref of %r' % (r,))

    def strip(self, v):
        while isinstance(v, Ref):
            v = self.load(v.cell, v.path)
        return v

    def write(self, r, val):
        if not isinstance(r, Ref):
            raise Unsupported('write through %r' % (r,))
        self.store_at(r.cell, r.path, val)

    def resolve(self, fr, place):
        cell = fr[place[0]]
        path = ()
        sl = None
        for st in place[1]:
            o = st[0]
            if o == '*':
                v = self.load(cell, path)
                if isinstance(v, Ref):
                    cell, path, sl = v.cell, v.path, v.sl
                elif isinstance(v, (Str, Key, Opaque)):
                    cell, path, sl = Cell(v), (), None
                else:
                    raise Unsupported('deref of %r' % (v,))
            elif o == 'f':
                path = path + (st[1],)
                sl = None
            elif o == 'd':
                path = path + (('d', st[1]),)
            elif o == 'i':
                i = fr[st[1]].v
                if sl is not None:
                    i = zadd(i, sl[0])
                path = path + (('i', i),)
                sl = None
            elif o == 'ci':
                off, _, fe = st[1], st[2], st[3]
                if sl is not None:
                    i = zadd(sl[0], off) if not fe else zsub(zadd(sl[0], sl[1]), off)
                else:
                    v = self.force(self.load(cell, path))
                    n = len(v.f) if isinstance(v, Agg) else self.rope_len(v)
                    i = off if not fe else zsub(n, off)
                path = path + (('i', i),)
                sl = None
            elif o == 'ss':
                frm, to, fe = st[1], st[2], st[3]
                if sl is None:
                    v = self.force(self.load(cell, path))
                    sl = (0, len(v.f) if isinstance(v, Agg) else self.rope_len(v))
                n = zsub(zsub(sl[1], frm), to) if fe else to - frm
                sl = (zadd(sl[0], frm), n)
            else:
                pass
        return cell, path, sl

    # ------------------------------------------------------------ operands
    def const(self, c, ty):
        k = c[0]
        t = self.T(ty)
        if k == 'i':
            n = int(c[1])
            if t['k'] == 'bool':
                return bool(n)
            return n
        if k == 'agg':
            if t['k'] == 'adt' and t['p'] in VEC:
                return Rope(t['a'][0], [])
            if t['atom']:
                bs = self.const(c[2][0][0], c[2][0][1])
                if isinstance(bs, int):
                    return bs
                return int.from_bytes(bytes(bs.f), 'big')
            if t['k'] == 'array' and t['len'] >= 16 and self.T(t['e']).get('b') == 8:
                return int.from_bytes(bytes(self.const(x[0], x[1]) for x in c[2]), 'big')
            return Agg(ty, c[1], [self.const(x, xt) for x, xt in c[2]])
        if k == 'fn':
            return Fn(c[1])
        if k == 'str':
            return Str(c[1])
        if k == 'bytes':
            return Ref(Cell(Agg(None, 0, c[1])), (), (0, len(c[1])))
        if k == 'ref':
            return Ref(Cell(self.const(c[1], c[2])))
        if k == 'fnx':
            return Opaque('fnx ' + c[1])
        return Opaque('const ' + t['n'])

    def op(self, fr, o):
        if o[0] == 'k':
            return self.const(o[1], o[2])
        if o[0] == 'rtc':
            return False
        pl = o[1]
        if not pl[1]:
            return fr[pl[0]].v
        cell, path, sl = self.resolve(fr, pl)
        return self.load(cell, path)

    # ------------------------------------------------------------ calls
    def err(self, m):
        return Unsupported(m)

    def call(self, fid, args):
        f = self.P.fns[fid]
        p = f['p']
        h = f.get('_h', 0)
        if h == 0:
            h = self.PRIMS.get(p)
            if h is None:
                for pre, g in self.PREFIX:
                    if p.startswith(pre):
                        h = g
                        break
            if h is None:
                h = self.EXTRA(f)
            if h is None and p.startswith(PANIC_PREFIX):
                h = lambda I, f, a: self_panic(f)
            if h is None and f['kind'] == 'intrinsic' and not f['body']:
                nm = p.rsplit('::', 1)[1]
                h = self.PRIMS.get('intr::' + nm)
            f['_h'] = h
        self.callstack.append(p)
        try:
            if h is not None:
                r = h(self, f, args)
                if r is not NotImplemented:
                    self.prim_used[p] = 1
                    return r
            if not f['body']:
                r = self.ctor(f, args)
                if r is not None:
                    return r
                raise Unsupported('no body: ' + f['n'] + ' [' + f['kind'] + ']')
            self.used[p] = f
            if self.invs and self.bound is None and any(v['kind'] == 'contract' and v['name'] in (p, f['n']) for v in self.invs):
                # the callee's contract: a function of its arguments (its meaning is the subject of its own contract)
                args = [self.strip(x) for x in args]
                return self.mk(f['sig'][1], 'fn:' + f['n'], tuple(y for x in args for y in self.flatten(x, True)))
            if f.get('drv'):
                r = self.derived(f, args)
                if r is not NotImplemented:
                    return r
            if not self.nomerge and (p in self.MERGE or p.startswith('spec::') or any(v['kind'] == 'cases' and v['name'] == p for v in self.invs)):
                return self.merged(f, args)
            return self.body(f, args)
        except Unsupported as e:
            if not hasattr(e, 'where'):
                e.where = list(self.callstack)
            raise
        except PathEnd as e:
            if not hasattr(e, 'where'):
                e.where = list(self.callstack)
            raise
        finally:
            self.callstack.pop()

    MERGE = {'sp_arithmetic::per_things::rational_mul_correction'}
    nomerge = 0

    def merged(self, f, args):
        """explore a pure function on its actual arguments and merge the results of its paths into one value"""
        try:
            ck = (f['id'],) + tuple(self.vkey(a) for a in args)
        except Unsupported:
            ck = None
        if ck is not None:
            hit = self.mergecache.get(ck)
            if hit is None:
                hit = self.mergecache[ck] = self.merged_cold(f, args) + (args,)
            if hit[0]:
                for x in hit[2]:
                    self.ex.fact(x)
                return self.pick(hit[1])
        snap = self.snapshot()

        def run():
            self.restore(snap)
            return self.body(f, args)
        self.nomerge += 1
        try:
            outs = self.ex.nested(run)
        except Unsupported:
            self.restore(snap)
            return self.body(f, args)
        finally:
            self.nomerge -= 1
        self.restore(snap)
        live = [(zand(*conds), r[1], fs) for conds, r, fs in outs if r[0] != 'assume']
        if any(r[0] == 'panic' for _, r, _ in outs) or not live:
            return self.body(f, args)
        try:
            acc = self.grouped([(c, v) for c, v, _ in live])
        except Unsupported:
            return self.body(f, args)
        for c, _, fs in live:
            for x in fs:
                self.ex.fact(x if isz(x) and x.ast.value in AXQ else zor(znot(c), x))
        return self.pick(acc)

    def grouped(self, live):
        """the cases of a result, one for each of its variants: [(condition, value)]"""
        groups = {}
        for c, v in live:
            groups.setdefault(v.v if isinstance(v, Agg) else None, []).append((c, v))
        out = []
        for g in groups.values():
            acc = g[-1][1]
            for c, v in reversed(g[:-1]):
                acc = self.merge(c, v, acc)
            out.append((zor(*[c for c, _ in g]), acc))
        return out

    def pick(self, groups):
        for c, v in groups[:-1]:
            if self.ex.choose(c):
                return v
        return groups[-1][1]

    def derived(self, f, args):
        """#[derive(Clone / PartialEq)] impls: the derived meaning (component-wise copy / equality)"""
        p = f['p']
        try:
            if p.endswith(' as std::cmp::PartialEq>::eq'):
                return self.equal(args[0], args[1])
            if p.endswith(' as std::clone::Clone>::clone'):
                v = self.deref(args[0])
                self.noref(v)
                return v
        except Unsupported:
            pass
        return NotImplemented

    def noref(self, v):
        if isinstance(v, Agg):
            for x in v.f:
                self.noref(x)
        elif isinstance(v, (Ref, Opaque)):
            raise Unsupported('clone of a box')

    def vkey(self, v):
        if isz(v):
            return v.ast.value
        if isinstance(v, bool):
            return ('b', v)
        if isinstance(v, int):
            return ('c', v)
        if isinstance(v, Sym):
            return ('S', v.ty, v.name) + tuple(self.vkey(x) for x in v.args)
        if isinstance(v, Agg):
            return ('A', v.ty, v.v) + tuple(self.vkey(x) for x in v.f)
        if isinstance(v, Ref) and v.sl is None:
            return ('R', self.vkey(self.load(v.cell, v.path)))
        if isinstance(v, Fn):
            return ('F', v.id)
        raise Unsupported('no key')

    def merged_cold(self, f, args):
        """context-free merge of a pure function (cached per argument values)"""
        real = self.ex
        ex = Explorer(deadline=real.deadline)
        stamp = Cell.count[0]
        self.ex = ex
        snap = self.snapshot()
        outs = []

        def run():
            self.restore(snap)
            self.guards.append((stamp, set()))
            n0 = len(ex.factlist)
            try:
                r = ('ok', self.body(f, args))
            except PathEnd as e:
                r = (e.kind, e.msg)
            outs.append((list(ex.path_conds), r, list(ex.factlist)))
        self.nomerge += 1
        try:
            ex.explore(run, limit=400)
            live = [(zand(*conds), r[1]) for conds, r, fs in outs if r[0] != 'assume']
            if any(r[0] == 'panic' for _, r, _ in outs) or not live:
                return False, None, None
            acc = self.grouped(live)
            facts = []
            for conds, r, fs in outs:
                pc = zand(*conds)
                for x in fs:
                    facts.append(x if isz(x) and x.ast.value in AXQ else zor(znot(pc), x))
            uniq = {}
            for x in facts:
                if isz(x):
                    uniq[x.ast.value] = x
            return True, acc, list(uniq.values())
        except Unsupported as e:
            if DEBUG_MERGE:
                print('merge failed', f['n'], e)
            return False, None, None
        finally:
            self.nomerge -= 1
            self.ex = real
            real.nchecks += ex.nchecks
            real.solver_time += ex.solver_time
            self.restore(snap)

    def merge(self, c, a, b):
        if a is b:
            return a
        if isz(a) or isz(b) or isinstance(a, (int, bool)):
            if isinstance(b, (int, bool)) or isz(b):
                if isz(a) and isz(b) and a.eq(b):
                    return a
                return zite(c, a, b)
            raise Unsupported('merge')
        if isinstance(a, Agg) and isinstance(b, Agg) and a.v == b.v and len(a.f) == len(b.f):
            return Agg(a.ty, a.v, [self.merge(c, x, y) for x, y in zip(a.f, b.f)])
        raise Unsupported('merge')

    def ctor(self, f, args):
        if not f['sig']:
            return None
        out = f['sig'][1]
        t = self.T(out)
        if t['k'] != 'adt':
            return None
        last = f['p'].rsplit('::', 1)[1]
        for i, v in enumerate(t['v']):
            if v['n'] == last and len(v['f']) == len(args):
                return Agg(out, i, args)
        return None

    def call_value(self, fv, args):
        """call a function value / closure value (possibly behind a reference) with a list of arguments"""
        v = fv
        while isinstance(v, Ref):
            nv = self.load(v.cell, v.path)
            if isinstance(nv, Agg) or isinstance(nv, Fn):
                break
            v = nv
        if isinstance(v, Fn):
            return self.call(v.id, args)
        tgt = self.load(v.cell, v.path) if isinstance(v, Ref) else v
        if isinstance(tgt, Fn):
            return self.call(tgt.id, args)
        t = self.T(tgt.ty)
        if t['k'] != 'closure' or 'call' not in t:
            raise Unsupported('call of %r' % (tgt,))
        if t['ck'] == 'FnOnce':
            return self.call(t['call'], [tgt] + self.closure_args(t['call'], args))
        if not isinstance(v, Ref):
            v = Ref(Cell(tgt))
        return self.call(t['call'], [v] + self.closure_args(t['call'], args))

    def closure_args(self, fid, args):
        return [Agg(None, 0, args)]

    def body(self, f, args):
        b = f['body']
        locs = b['locals']
        fr = [Cell() for _ in locs]
        argc = b['argc']
        if b['spread'] is not None:
            sp = b['spread']
            n = sp - 1
            fixed, rest = args[:n], args[n:]
            for i, a in enumerate(fixed):
                fr[i + 1].v = a
            if len(rest) == 1 and argc == sp:
                fr[sp].v = rest[0]
            else:
                fr[sp].v = Agg(None, 0, rest)
        else:
            if len(args) != argc:
                # closure called through the rust-call ABI: untuple the last argument
                if len(args) == 2:
                    tup = self.force(args[1])
                    args = [args[0]] + list(tup.f)
                if len(args) != argc:
                    raise Unsupported('arity of ' + f['n'])
            elif argc == 2 and '{closure' in f['p']:
                tup = args[1]
                lt = self.T(locs[2])
                if isinstance(tup, Agg) and tup.ty is None and len(tup.f) == 1:
                    args = [args[0], tup.f[0]]
                elif isinstance(tup, Agg) and isinstance(tup.ty, int) and self.T(tup.ty)['k'] == 'tuple' and tup.ty != locs[2]:
                    args = [args[0], tup.f[0]]
                elif isinstance(tup, Sym) and tup.ty != locs[2] and self.T(tup.ty)['k'] == 'tuple':
                    args = [args[0], self.force(tup).f[0]]
            for i, a in enumerate(args):
                fr[i + 1].v = a
        r = self.exec_blocks(f, fr, 0, None)
        return r[1]

    def exec_blocks(self, f, fr, bi, stop):
        b = f['body']
        locs = b['locals']
        blocks = b['blocks']
        visits = {}
        marks = {}
        lps = loops_of(f)
        entered = stop is not None
        while True:
            bl = blocks[bi]
            self.steps += 1
            if self.steps > self.max_steps:
                raise Unsupported('step limit in ' + f['p'])
            if bl is None:
                raise Unsupported('cleanup block')
            for pl, rv in bl['s']:
                if pl is None:
                    raise Unsupported(str(rv))
                if rv[0] == 'setdisc':
                    cell, path, _ = self.resolve(fr, pl)
                    v = self.load(cell, path)
                    if isinstance(v, Agg):
                        self.store_at(cell, path, Agg(v.ty, rv[1], v.f))
                        continue
                    raise Unsupported('setdisc')
                v = self.rvalue(fr, rv, f, pl)
                if not pl[1]:
                    fr[pl[0]].v = v
                else:
                    cell, path, _ = self.resolve(fr, pl)
                    if cell.v is None and path:
                        cell.v = self.uninit(locs[pl[0]])
                    self.store_at(cell, path, v)
            t = bl['t']
            k = t[0]
            if k == 'goto':
                nb = t[1]
            elif k == 'switch':
                nb = self.switch(fr, t)
            elif k == 'ret':
                r = fr[0].v
                if r is None:
                    r = UNIT
                return 'ret', r
            elif k == 'call':
                fn = t[1]
                a = [self.op(fr, x) for x in t[2]]
                self.where = bl['l']
                if isinstance(fn, int):
                    r = self.call(fn, a)
                elif isinstance(fn, str):
                    raise Unsupported('unresolved call ' + fn)
                else:
                    fv = self.op(fr, fn)
                    if not isinstance(fv, Fn):
                        raise Unsupported('indirect call of %r' % (fv,))
                    r = self.call(fv.id, a)
                if t[4] is None:
                    raise PathEnd('panic', 'diverging call')
                pl = t[3]
                if not pl[1]:
                    fr[pl[0]].v = r
                else:
                    cell, path, _ = self.resolve(fr, pl)
                    if cell.v is None and path:
                        cell.v = self.uninit(locs[pl[0]])
                    self.store_at(cell, path, r)
                nb = t[4]
            elif k == 'assert':
                c = self.op(fr, t[1])
                ok = self.ex.choose(c if t[2] else znot(c))
                if not ok:
                    e = PathEnd('panic', '%s at %s' % (t[3], bl['l']))
                    raise e
                nb = t[4]
            elif k == 'unreachable':
                raise PathEnd('assume', 'unreachable')
            else:
                raise Unsupported('terminator ' + str(t)[:80])
            if nb in lps:
                if bi in lps[nb]:
                    if nb == stop:
                        return 'stop', None
                    if nb in marks:
                        marks[nb]()
                    n = visits.get(nb, 0) + 1
                    visits[nb] = n
                    if n > self.loop_limit:
                        raise Unsupported('loop without a bound in %s (%s)' % (f['p'], bl['l']))
                elif self.bound is None:
                    visits[nb] = 0
                    self.enter_loop(fr, f, nb, lps[nb], marks)
            bi = nb

    def uninit(self, ty):
        t = self.T(ty)
        if t['k'] == 'tuple':
            return Agg(ty, 0, [None] * len(t['f']))
        if t['k'] == 'closure':
            return Agg(ty, 0, [None] * len(t['f']))
        if t['k'] == 'adt' and t['kind'] != 'enum':
            return Agg(ty, 0, [None] * len(t['v'][0]['f']))
        if t['k'] == 'array':
            return Agg(ty, 0, [None] * t['len'])
        raise Unsupported('uninit ' + t['n'])

    def switch(self, fr, t):
        v = self.op(fr, t[1])
        ty = self.T(t[2])
        if not isz(v):
            if v is None:
                raise Unsupported('switch on uninit')
            if isinstance(v, bool):
                v = int(v)
            if not isinstance(v, int):
                raise Unsupported('switch on %r' % (v,))
            if v < 0:
                v &= (1 << ty['b']) - 1
            for x, bb in t[3]:
                if int(x) == v:
                    return bb
            return t[4]
        if z3.is_bool(v):
            tb = fb = None
            for x, bb in t[3]:
                if int(x) == 0:
                    fb = bb
                else:
                    tb = bb
            if tb is None:
                tb = t[4]
            if fb is None:
                fb = t[4]
            return tb if self.ex.choose(v) else fb
        for x, bb in t[3]:
            x = int(x)
            if ty['k'] == 'int' and ty['s'] and x >= 1 << (ty['b'] - 1):
                x -= 1 << ty['b']
            if self.ex.choose(zeq(v, x)):
                return bb
        return t[4]

    # ------------------------------------------------------------ rvalues
    def rvalue(self, fr, rv, f, pl):
        k = rv[0]
        if k == 'use':
            return self.op(fr, rv[1])
        if k == 'ref':
            cell, path, sl = self.resolve(fr, rv[2])
            v = None
            if not path and isinstance(cell.v, (Str, Key)):
                return Ref(cell, (), sl)
            return Ref(cell, path, sl)
        if k == 'bin':
            return self.binop(rv[1], self.op(fr, rv[2]), self.op(fr, rv[3]), self.T(rv[4]))
        if k == 'un':
            v = self.op(fr, rv[2])
            if rv[1] == 'Not':
                if isinstance(v, bool) or (isz(v) and z3.is_bool(v)):
                    return znot(v)
                t = self.T(rv[3])
                if t['s']:
                    return zsub(-1, v)
                return zsub((1 << t['b']) - 1, v)
            if rv[1] == 'Neg':
                return zsub(0, v)
            if rv[1] == 'PtrMetadata':
                if isinstance(v, Ref):
                    if v.sl is not None:
                        return v.sl[1]
                    tgt = self.deref(v)
                    if isinstance(tgt, Str):
                        return len(tgt.s.encode())
                    return UNIT
                if isinstance(v, Str):
                    return len(v.s.encode())
            raise Unsupported('unop ' + rv[1])
        if k == 'disc':
            cell, path, _ = self.resolve(fr, rv[1])
            v = self.load(cell, path)
            t = self.T(rv[2])
            if t['k'] != 'adt' or t['kind'] != 'enum':
                return 0
            if isinstance(v, Sym):
                v = self.variant(v)
                if not any(isinstance(x, tuple) and x[0] == 'i' for x in path):
                    try:
                        self.store_at(cell, path, v)
                    except Unsupported:
                        pass
            if not isinstance(v, Agg):
                raise Unsupported('discriminant of %r' % (v,))
            d = int(t['v'][v.v]['d'])
            D = self.T(f['body']['locals'][pl[0]]) if not pl[1] else None
            if D and D['k'] == 'int' and D['s'] and d >= 1 << (D['b'] - 1):
                d -= 1 << D['b']
            return d
        if k == 'agg':
            fs = [self.op(fr, x) for x in rv[4]]
            if rv[1] == 'adt':
                t = self.T(rv[2])
                if t['atom']:
                    return fs[0] if not isinstance(fs[0], Agg) else self.pack_bytes(fs[0])
                if t['kind'] == 'union':
                    return Agg(rv[2], 0, fs * len(t['v'][0]['f']))
                return Agg(rv[2], rv[3], fs)
            if rv[1] == 'tuple':
                return Agg(None, 0, fs)
            if rv[1] == 'closure':
                return Agg(rv[2], 0, fs)
            if rv[1] == 'array':
                if len(fs) >= 16 and self.T(rv[2]).get('b') == 8:
                    return self.pack_bytes(Agg(None, 0, fs))
                return Agg(None, 0, fs)
            if rv[1] == 'rawptr':
                if isinstance(fs[0], Ref):
                    n = fs[1]
                    if isinstance(n, Agg):
                        return fs[0]
                    r = fs[0]
                    return Ref(r.cell, r.path, ((r.sl[0] if r.sl else 0), n))
            raise Unsupported('aggregate ' + rv[1])
        if k == 'cast':
            return self.cast(rv[1], self.op(fr, rv[2]), rv[3], rv[4], rv[5])
        if k == 'rep':
            n = rv[2]
            v = self.op(fr, rv[1])
            if n >= 16 and not isz(v) and isinstance(v, int) and not isinstance(v, bool):
                et = self.T(f['body']['locals'][pl[0]]) if not pl[1] else None
                if et is None or (et['k'] == 'array' and self.T(et['e']).get('b') == 8):
                    return int.from_bytes(bytes([v]) * n, 'big')
            if n > 4096:
                raise Unsupported('big array')
            return Agg(None, 0, [v] * n)
        raise Unsupported('rvalue ' + str(rv)[:120])

    def pack_bytes(self, a):
        r = 0
        for x in a.f:
            if isz(x):
                r = zadd(zmul(r, 256), x)
            else:
                r = zadd(zmul(r, 256), int(x))
        return r

    def wrap(self, v, t):
        """wrap an integer result into the range of type t (forks when it may be out of range)"""
        lo, hi = self.int_range(t)
        if not isz(v):
            v &= (1 << t['b']) - 1
            if t['s'] and v > hi:
                v -= 1 << t['b']
            return v
        if self.ex.choose(z3.And(v >= lo, v <= hi)):
            return v
        m = v % (1 << t['b'])
        if t['s']:
            m = z3.If(m > hi, m - (1 << t['b']), m)
        return m

    def cast(self, kind, v, ft, tt, extra):
        F, T = self.T(ft), self.T(tt)
        if kind.startswith('IntToInt'):
            if isinstance(v, bool):
                v = int(v)
            if isz(v) and z3.is_bool(v):
                v = z3.If(v, z3.IntVal(1), z3.IntVal(0))
            if F['k'] == 'adt':
                if isinstance(v, Agg):
                    v = int(F['v'][v.v]['d'])
            if T['k'] == 'char':
                return v
            lo, hi = self.int_range(T)
            if F['k'] == 'int':
                flo, fhi = self.int_range(F)
                if flo >= lo and fhi <= hi:
                    return v
            if F['k'] in ('bool', 'char'):
                return v
            return self.wrap(v, T)
        if 'Unsize' in kind:
            if isinstance(v, Ref):
                to = self.T(T['e']) if 'e' in T else None
                frm = self.T(F['e']) if 'e' in F else None
                if to and to['k'] == 'slice' and frm and frm['k'] == 'array':
                    return Ref(v.cell, v.path, (0, frm['len']))
                return v
            return v
        if 'ReifyFnPointer' in kind or 'ClosureFnPointer' in kind:
            if extra is not None:
                return Fn(extra)
            return v
        if kind.startswith(('PtrToPtr', 'PointerCoercion', 'Subtype')):
            if isinstance(v, Ref) and 'e' in T and self.T(T['e'])['k'] not in ('slice', 'str') and v.sl is not None:
                # slice pointer to element pointer
                if self.T(F['e'])['k'] == 'slice':
                    return Ref(v.cell, v.path + (('i', v.sl[0]),))
            return v
        if 'Transmute' in kind:
            if F == T:
                return v
            if F['k'] == 'int' and T['k'] == 'int':
                return self.wrap(v, T)
            if F['k'] in ('ref', 'ptr') and T['k'] in ('ref', 'ptr'):
                return v
            if isinstance(v, Ref):
                if T['k'] == 'int':
                    return 1 << 40      # some aligned, non-null address
                return v
            if T['k'] == 'adt' and T['kind'] == 'enum' and F['k'] == 'int':
                # via discriminant
                for d, i in T['dmap'].items():
                    if self.ex.choose(zeq(v, d)):
                        return Agg(tt, i, ())
            raise Unsupported('transmute %s -> %s' % (F['n'], T['n']))
        raise Unsupported('cast %s %s -> %s' % (kind, F['n'], T['n']))

    def bits_and(self, a, b, t):
        if not isz(a) and not isz(b):
            return a & b
        if isz(a) and isz(b):
            return self.bv(a, b, t, lambda x, y: x & y)
        if not isz(a):
            a, b = b, a
        # b const
        b &= (1 << t['b']) - 1
        if b == 0:
            return 0
        r = 0
        lo = 0
        while b >> lo:
            while not (b >> lo) & 1:
                lo += 1
            hi = lo
            while (b >> hi) & 1:
                hi += 1
            r = zadd(r, zmul((Z(a) / (1 << lo)) % (1 << (hi - lo)) if hi < t['b'] else Z(a) / (1 << lo), 1 << lo))
            lo = hi
        return simp(r)

    def bv(self, a, b, t, fn):
        n = t['b']
        if n > 16:
            raise Unsupported('bit operation on symbolic operands')
        r = fn(z3.Int2BV(Z(a), n), z3.Int2BV(Z(b), n))
        return z3.BV2Int(r)

    def ratio_fact(self, q, n):
        """a quotient v*k/c compared with a constant: the comparison of the products, which is linear"""
        if not isz(q) or isz(n) or q.ast.value not in self.ratios:
            return
        _, v, k, c, mode = self.ratios[q.ast.value]
        if mode == 1:
            for j in (n, n + 1):
                self.ex.fact((q < j) == (Z(v) * k < Z(c) * j))
        elif mode == 0:
            for j in (n, n - 1):
                self.ex.fact((q <= j) == (Z(v) * k <= Z(c) * j))

    def binop(self, o, a, b, t):
        isb = t['k'] == 'bool'
        if self.ratios and o in ('Lt', 'Le', 'Gt', 'Ge', 'Cmp'):
            self.ratio_fact(a, b)
            self.ratio_fact(b, a)
        if o in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
            if isinstance(a, Agg) and isinstance(b, Agg) and not a.f and not b.f:
                r = a.v == b.v
                return r if o == 'Eq' else not r
            if isinstance(a, (Ref, Agg, Opaque, Fn)) or isinstance(b, (Ref, Agg, Opaque, Fn)):
                raise Unsupported('comparison of %r %r' % (a, b))
            if isb and o in ('Lt', 'Le', 'Gt', 'Ge'):
                a = zite(a, 1, 0)
                b = zite(b, 1, 0)
            if o == 'Eq':
                return zeq(a, b)
            if o == 'Ne':
                return znot(zeq(a, b))
            if o == 'Lt':
                return zlt(a, b)
            if o == 'Le':
                return zle(a, b)
            if o == 'Gt':
                return zlt(b, a)
            return zle(b, a)
        if o == 'Cmp':
            d = self.cmp3(a, b)
            return d
        if isb:
            if o == 'BitAnd':
                return zand(a, b)
            if o == 'BitOr':
                return zor(a, b)
            if o == 'BitXor':
                return znot(zeq(a, b))
        if t['k'] != 'int':
            raise Unsupported('binop %s on %s' % (o, t['n']))
        lo, hi = self.int_range(t)
        if o.endswith('WithOverflow'):
            base = {'A': zadd, 'S': zsub, 'M': zmul}[o[0]](a, b)
            ov = zor(zlt(base, lo), zlt(hi, base))
            ov = simp(ov)
            if isz(ov) and self.ex.must(z3.Not(ov)):
                ov = False
            return Agg(None, 0, [base, ov])
        if o in ('Add', 'Sub', 'Mul'):
            base = {'A': zadd, 'S': zsub, 'M': zmul}[o[0]](a, b)
            return self.wrap(base, t)
        if o in ('AddUnchecked', 'SubUnchecked', 'MulUnchecked'):
            return {'A': zadd, 'S': zsub, 'M': zmul}[o[0]](a, b)
        if o in ('Div', 'Rem'):
            if not isz(a) and not isz(b):
                q = abs(a) // abs(b)
                if (a < 0) != (b < 0):
                    q = -q
                return q if o == 'Div' else a - q * b
            if t['s']:
                raise Unsupported('signed symbolic division')
            return simp(Z(a) / Z(b)) if o == 'Div' else simp(Z(a) % Z(b))
        if o == 'BitAnd':
            return self.bits_and(a, b, t)
        if o == 'BitOr':
            if not isz(a) and not isz(b):
                return a | b
            if isz(a) and isz(b):
                return self.bv(a, b, t, lambda x, y: x | y)
            if not isz(a):
                a, b = b, a
            return zadd(zsub(a, self.bits_and(a, b, t)), b)
        if o == 'BitXor':
            if not isz(a) and not isz(b):
                return a ^ b
            if isz(a) and isz(b):
                return self.bv(a, b, t, lambda x, y: x ^ y)
            if not isz(a):
                a, b = b, a
            return zadd(a, zsub(b, zmul(2, self.bits_and(a, b, t))))
        if o in ('Shl', 'Shr', 'ShlUnchecked', 'ShrUnchecked'):
            if isz(b):
                raise Unsupported('shift by symbolic amount')
            b = b % t['b']
            if o.startswith('Shr'):
                if not isz(a):
                    return a >> b
                return simp(Z(a) / (1 << b))
            return self.wrap(zmul(a, 1 << b), t)
        raise Unsupported('binop ' + o)

    def ordering_ty(self):
        return self.P.byname.get('std::cmp::Ordering')

    def cmp3(self, a, b):
        ot = self.ordering_ty()
        if isinstance(a, bool) or (isz(a) and z3.is_bool(a)):
            a, b = zite(a, 1, 0), zite(b, 1, 0)
        if self.ex.choose(zlt(a, b)):
            return Agg(ot, 0, ())
        if self.ex.choose(zeq(a, b)):
            return Agg(ot, 1, ())
        return Agg(ot, 2, ())

    # ------------------------------------------------------------ equality, flattening
    def equal(self, a, b):
        """structural equality as a formula"""
        a, b = self.strip(a), self.strip(b)
        if a is b:
            return True
        if isinstance(a, (int, bool)) or isz(a):
            return zeq(a, b)
        if isinstance(a, Str) and isinstance(b, Str):
            return a.s == b.s
        if isinstance(a, Rope) and isinstance(b, Rope):
            return self.rope_equal(a, b)
        if isinstance(a, Sym) and isinstance(b, Sym) and a.name == b.name and len(a.args) == len(b.args) and \
                all((x is y) or (not isz(x) and not isz(y) and x == y) or (isz(x) and isz(y) and x.eq(y))
                    for x, y in zip(a.args, b.args)):
            return True
        if isinstance(a, Sym) or isinstance(b, Sym):
            s = a if isinstance(a, Sym) else b
            o = b if s is a else a
            t = self.T(s.ty)
            if t['k'] == 'adt' and t['kind'] == 'enum' and len(t['v']) > 1:
                if isinstance(o, Agg):
                    if o.ty is not None and len(o.f) == 0:
                        return self.disc_leaf(s) == o.v
                    sv = self.as_variant(s, o.v)
                    return zand(self.disc_leaf(s) == o.v, *[self.equal(x, y) for x, y in zip(sv.f, o.f)])
                if isinstance(o, Sym):
                    cs = [self.disc_leaf(s) == self.disc_leaf(o)]
                    for v in range(len(t['v'])):
                        if t['v'][v]['f']:
                            x, y = self.as_variant(s, v), self.as_variant(o, v)
                            cs.append(zor(znot(self.disc_leaf(s) == v),
                                          zand(*[self.equal(p, q) for p, q in zip(x.f, y.f)])))
                    return zand(*cs)
            if isinstance(a, Sym):
                a = self.as_variant(a, 0)
            if isinstance(b, Sym):
                b = self.as_variant(b, 0)
        if isinstance(a, Agg) and isinstance(b, Agg):
            if a.v != b.v or len(a.f) != len(b.f):
                return False
            return zand(*[self.equal(x, y) for x, y in zip(a.f, b.f)])
        if isinstance(a, Opaque) and isinstance(b, Opaque):
            if a.tag == b.tag and a.v is b.v:
                return True
        raise Unsupported('equality of %r and %r' % (a, b))

    def seg_same(self, s, t):
        if s is t:
            return True
        if s[0] != t[0]:
            return False
        if s[0] == 'e':
            try:
                return self.equal(s[1], t[1]) is True
            except Unsupported:
                return False
        if s[2] != t[2] or len(s[3]) != len(t[3]):
            return False
        return all(zeq(x, y) is True for x, y in zip(list(s[3]) + [s[4], s[5]], list(t[3]) + [t[4], t[5]]))

    def rope_equal(self, a, b):
        sa, sb = list(a.segs), list(b.segs)
        sa = [s for s in sa if not (s[0] == 'b' and not isz(s[5]) and s[5] == 0)]
        sb = [s for s in sb if not (s[0] == 'b' and not isz(s[5]) and s[5] == 0)]
        while sa and sb and self.seg_same(sa[0], sb[0]):
            sa.pop(0)
            sb.pop(0)
        while sa and sb and self.seg_same(sa[-1], sb[-1]):
            sa.pop()
            sb.pop()
        if not sa and not sb:
            return True
        cs = []
        while sa and sb and sa[0][0] == 'e' and sb[0][0] == 'e':
            cs.append(self.equal(sa[0][1], sb[0][1]))
            sa.pop(0)
            sb.pop(0)
        while sa and sb and sa[-1][0] == 'e' and sb[-1][0] == 'e':
            cs.append(self.equal(sa[-1][1], sb[-1][1]))
            sa.pop()
            sb.pop()
        ra, rb = Rope(a.ety, sa), Rope(b.ety, sb)
        if not sa and not sb:
            return zand(*cs)
        la, lb = self.rope_len(ra), self.rope_len(rb)
        if self.bound is not None:
            # bounded: decide lengths by forking, compare element-wise
            if not self.ex.choose(zeq(la, lb)):
                return False
            i = 0
            while self.ex.choose(zlt(i, la)):
                cs.append(self.equal(self.rope_get(ra, i), self.rope_get(rb, i)))
                i += 1
            return zand(*cs)
        cs.append(zeq(la, lb))
        if all(s[0] == 'e' for s in sa) or all(s[0] == 'e' for s in sb):
            n = len(sa) if all(s[0] == 'e' for s in sa) else len(sb)
            if not self.ex.choose(cs[-1]):
                return False
            for i in range(n):
                cs.append(self.equal(self.rope_get(ra, i), self.rope_get(rb, i)))
            return zand(*cs)
        q = self.quantify(la, lambda i: self.equal(self.rope_get(ra, i), self.rope_get(rb, i)), True)
        cs.append(q)
        return zand(*cs)

    def quantify(self, n, fn, universal, start=0):
        """ForAll/Exists i in start..n of the pure predicate fn(i) (a python callable giving a formula)"""
        if not isz(n) and not isz(start) and n - start <= 8:
            r = [self.tobool(fn(i)) for i in range(start, n)]
            return zand(*r) if universal else zor(*r)
        if self.bound is not None:
            i = start
            r = []
            while self.ex.choose(zlt(i, n)):
                r.append(self.tobool(fn(i)))
                i = zadd(i, 1)
            return zand(*r) if universal else zor(*r)
        b = z3.Int(self.fresh('bv'))
        rng = z3.And(b >= start, b < n)
        self.boundvars.append(b)
        snap = self.snapshot()
        try:
            def run():
                self.restore(snap)
                self.ex.fact(rng)
                return self.tobool(fn(b))
            outs = self.ex.nested(run)
        finally:
            self.boundvars.pop()
            self.restore(snap)
        terms = []
        self.lift_axioms(outs)
        for conds, (kind, r), fs in outs:
            if kind == 'assume':
                continue
            if kind == 'panic':
                raise Unsupported('panic inside a quantified predicate: %s' % (r,))
            terms.append(zand(*(list(conds) + [r])))
        body = zor(*terms) if terms else True
        if not isz(body):
            if universal:
                return True if body else simp(z3.Not(zlt(start, n)) if isz(zlt(start, n)) else not zlt(start, n))
            return simp(zlt(start, n)) if body else False
        pats = patterns(body, b)
        if universal:
            inner = self.qparts.get(body.ast.value)
            if inner is not None:
                # forall i. forall j. P  is stated as one quantifier over (i, j)
                vs, irng, ibody, _ = inner
                vs = [b] + vs
                rng = z3.And(rng, irng)
                body = ibody
                mp = [patterns(body, v)[:1] for v in vs]
                if all(mp):
                    ts = {}
                    for x in mp:
                        ts[x[0].ast.value] = x[0]
                    mp = [z3.MultiPattern(*ts.values())] if len(ts) > 1 else list(ts.values())
                    q = z3.ForAll(vs, z3.Implies(rng, body), patterns=mp)
                else:
                    q = z3.ForAll(vs, z3.Implies(rng, body))
                self.qparts[q.ast.value] = (vs, rng, body, q)
                return q
            q = z3.ForAll([b], z3.Implies(rng, body), patterns=pats) if pats else z3.ForAll([b], z3.Implies(rng, body))
            if self.lastinst and isz(n) and not self.boundvars:
                # the instance an inductive step needs: the last element
                self.ex.fact(z3.Implies(q, z3.substitute(z3.Implies(rng, body), (b, simp(zsub(n, 1))))))
            self.qparts[q.ast.value] = ([b], rng, body, q)
        else:
            q = z3.Exists([b], z3.And(rng, body), patterns=pats) if pats else z3.Exists([b], z3.And(rng, body))
        return q

    def lift_axioms(self, outs):
        for _, _, fs in outs:
            for x in fs:
                if isz(x) and x.ast.value in AXQ:
                    self.ex.fact(x)

    def tobool(self, v):
        if isinstance(v, bool) or (isz(v) and z3.is_bool(v)):
            return v
        raise Unsupported('not a boolean: %r' % (v,))

    def snapshot(self):
        return ({k: list(v) for k, v in self.storage.items()}, list(self.callstack), dict(self.names), len(self.anys), len(self.guards), len(self.invs), len(self.filters), len(self.sums))

    def restore(self, s):
        self.storage = {k: list(v) for k, v in s[0].items()}
        self.callstack = list(s[1])
        self.names = dict(s[2])
        del self.anys[s[3]:]
        del self.guards[s[4]:]
        del self.invs[s[5]:]
        del self.filters[s[6]:]
        del self.sums[s[7]:]

    def flatten(self, v, lists=False):
        """scalar leaves of a value used as a storage key / hash preimage; with `lists`, equal leaves stand for equal values"""
        v = self.strip(v)
        if isinstance(v, (int, bool)) or isz(v):
            if isinstance(v, bool):
                return [int(v)]
            return [v]
        if isinstance(v, Str):
            return [int.from_bytes(v.s.encode(), 'big')]
        if isinstance(v, Sym):
            v = self.variant(v)
        if isinstance(v, Agg):
            r = []
            if isinstance(v.ty, int):
                t = self.T(v.ty)
                if t['k'] == 'adt' and t['kind'] == 'enum':
                    r.append(v.v)
            for x in v.f:
                r += self.flatten(x, lists)
            return r
        if lists and isinstance(v, Rope):
            r = [len(v.segs)]
            for s in v.segs:
                if s[0] == 'e':
                    r += [1] + self.flatten(s[1], True)
                elif isinstance(s[2], str):
                    r += [2, int.from_bytes(s[2].encode(), 'big'), *s[3], s[4], s[5]]
                else:
                    raise Unsupported('key %r' % (v,))
            return r
        raise Unsupported('key %r' % (v,))

    # ------------------------------------------------------------ storage
    def st_info(self, prefix):
        """(is ValueQuery) of the storage item with this prefix"""
        r = self.stinfo.get(prefix)
        if r is None:
            t = self.T(self.prefixes[prefix]) if prefix in self.prefixes else None
            r = bool(t and t['k'] == 'adt' and any(isinstance(x, int) and self.T(x)['n'].endswith('ValueQuery')
                                                   for x in t['a']))
            self.stinfo[prefix] = r
        return r

    def st_read(self, key, vty):
        """Some-ness and value of a storage cell: returns (present, value)"""
        log = self.storage.get(key.prefix, ())
        vq = self.st_info(key.prefix)
        T = self.T(vty)
        if self.readlog is not None:
            self.readlog.append((key.prefix, list(key.leaves)))
        if vq and T['k'] in ('int', 'bool') and not any(lv is None and isinstance(o, Bulk) for lv, o in log):
            todo = []
            v = None
            for lv, val in reversed(log):
                if lv is None:
                    v = self.mk(vty, 'hv%d:%s' % (val.n, key.prefix), key.leaves)
                    break
                c = zand(*[zeq(a, b) for a, b in zip(lv, key.leaves)])
                if c is False:
                    continue
                x = (0 if T['k'] == 'int' else False) if val is None else val
                if c is True:
                    v = x
                    break
                todo.append((c, x))
            if v is None:
                v = self.st_init(key, vty)
            for c, x in reversed(todo):
                v = simp(zite(c, x, v))
            return True, v
        for lv, val in reversed(log):
            if lv is None:
                if isinstance(val, Havoc):
                    nm = 'hv%d:%s' % (val.n, key.prefix)
                    if vq or self.ex.choose(self.leaf(nm + '?', key.leaves, z3.BoolSort())):
                        return True, self.mk(vty, nm, key.leaves)
                    return False, None
                hit, p, v = self.bulk_read(key, vty, val)
                if hit:
                    return p, v
                continue
            if self.ex.choose(zand(*[zeq(a, b) for a, b in zip(lv, key.leaves)])):
                if vq and val is None and T['k'] in ('int', 'bool'):
                    return True, (0 if T['k'] == 'int' else False)
                return (val is not None), val
        if vq:
            if T['k'] == 'adt' and self.ex.decided.get(self.leaf('st:' + key.prefix + '?', key.leaves, z3.BoolSort()).ast.value) is False:
                return False, None
            return True, self.st_init(key, vty)
        nm = 'st:' + key.prefix
        pres = self.leaf(nm + '?', key.leaves, z3.BoolSort())
        if self.ex.choose(pres):
            v = self.mk(vty, nm, key.leaves)
            self.note_read(key, pres, v, vty)
            return True, v
        self.note_read(key, pres, None, vty)
        return False, None

    def st_init(self, key, vty):
        v = self.mk(vty, 'st:' + key.prefix, key.leaves)
        self.note_read(key, True, v, vty)
        return v

    def note_read(self, key, pres, v, vty):
        k = (key.prefix, tuple(str(x) for x in key.leaves))
        old = self.reads.get(k)
        if old is None or old[1] is True and pres is not True:
            self.reads[k] = (key, pres, v, vty)
        if old is None:
            for m in self.mapiters:
                if m.prefix == key.prefix:
                    m.where(key.leaves)

    def st_write(self, key, val):
        self.storage.setdefault(key.prefix, []).append((tuple(key.leaves), val))


def self_panic(f):
    raise PathEnd('panic', f['p'])


def patterns(body, b):
    """candidate triggers: applications of uninterpreted functions that have the bound variable as an argument"""
    out = {}
    seen = set()
    st = [body]
    while st:
        e = st.pop()
        i = e.ast.value
        if i in seen:
            continue
        seen.add(i)
        if z3.is_app(e):
            if e.decl().kind() == z3.Z3_OP_UNINTERPRETED and e.num_args() > 0:
                if any(a.eq(b) for a in e.children()):
                    out[e.decl().name()] = e
            st.extend(e.children())
        elif z3.is_quantifier(e):
            pass
    ps = list(out.values())
    return ps[:4]


def prim(*names):
    def deco(f):
        for n in names:
            if n.endswith('*'):
                Interp.PREFIX.append((n[:-1], f))
            else:
                Interp.PRIMS[n] = f
        return f
    return deco
