"""Loops over sequences of any length: user invariants (havoc / assume / preserve) and automatic summaries of loops whose
iterations touch pairwise different storage keys."""
import z3
from core import *

ITER = ('std::slice::Iter', 'std::slice::IterMut', 'std::vec::IntoIter', 'core::slice::Iter')


def loops_of(f):
    """header -> (blocks of the natural loop)"""
    r = f.get('_loops')
    if r is not None:
        return r
    bl = f['body']['blocks']
    succ = []
    for b in bl:
        s = []
        if b:
            t = b['t']
            if t[0] == 'goto':
                s = [t[1]]
            elif t[0] == 'switch':
                s = [x[1] for x in t[3]] + ([t[4]] if t[4] is not None else [])
            elif t[0] in ('call', 'assert'):
                s = [t[4]] if t[4] is not None else []
        succ.append(s)
    pred = {}
    for a, ss in enumerate(succ):
        for s in ss:
            pred.setdefault(s, []).append(a)
    color = [0] * len(bl)
    back = []
    st = [(0, iter(succ[0]))]
    color[0] = 1
    while st:
        a, it = st[-1]
        for s in it:
            if color[s] == 1:
                back.append((a, s))
            elif color[s] == 0:
                color[s] = 1
                st.append((s, iter(succ[s])))
                break
        else:
            color[a] = 2
            st.pop()
    r = {}
    for a, h in back:
        body = r.setdefault(h, {h})
        work = [a]
        while work:
            x = work.pop()
            if x not in body:
                body.add(x)
                work += pred.get(x, [])
    f['_loops'] = r
    return r


def assigned(f, blocks):
    """locals assigned (or mutably borrowed) inside the loop"""
    asg, bor = set(), set()
    for b in blocks:
        bl = f['body']['blocks'][b]
        if not bl:
            continue
        for pl, rv in bl['s']:
            if pl is None:
                continue
            if not any(s[0] == '*' for s in pl[1]):
                asg.add(pl[0])
            if rv[0] == 'ref' and rv[1] != 'shared' and not any(s[0] == '*' for s in rv[2][1]):
                bor.add(rv[2][0])
        t = bl['t']
        if t[0] == 'call' and t[3] is not None and not any(s[0] == '*' for s in t[3][1]):
            asg.add(t[3][0])
    return asg, bor


class Havoc:
    def __init__(self, n):
        self.n = n


class Bulk:
    """iterations i in 0..n each write (at most) the keys K(i), pairwise different"""
    def __init__(self, n, i, keys, run, storage):
        self.n, self.i, self.keys, self.run, self.storage = n, i, keys, run, storage
        self.cache = []
        self.ecache = []


def mentions(key, i):
    work = [Z(a) for a in key]
    while work:
        x = work.pop()
        if x.eq(i):
            return True
        work += x.children()
    return False


class Loops:
    # ------------------------------------------------------------ deep copy of reachable memory
    def copy_cells(self, cells):
        memo = {}

        def cv(v):
            if isinstance(v, Ref):
                return Ref(cc(v.cell), v.path, v.sl)
            if isinstance(v, Agg):
                fs = tuple(cv(x) for x in v.f)
                return v if all(a is b for a, b in zip(fs, v.f)) else Agg(v.ty, v.v, fs)
            if isinstance(v, Rope):
                if not any(s[0] == 'e' and isinstance(s[1], (Ref, Agg)) for s in v.segs):
                    return v
                return Rope(v.ety, tuple(('e', cv(s[1])) if s[0] == 'e' else s for s in v.segs))
            return v

        def cc(c):
            n = memo.get(id(c))
            if n is None:
                n = memo[id(c)] = Cell()
                keep.append(c)
                n.v = cv(c.v)
            return n
        keep = []
        return [cc(c) for c in cells]

    # ------------------------------------------------------------ iterators
    def iter_find(self, v, depth=0):
        """(path of field indices, kind, length) of the sequence iterator inside a value"""
        if not isinstance(v, Agg) or not isinstance(v.ty, int) or depth > 3:
            return None
        t = self.T(v.ty)
        if t['k'] != 'adt':
            return None
        p = t['p']
        if p in ITER:
            x = v.f[0]
            if isinstance(x, Ref) and x.sl is not None:
                return (), 'slice', x.sl[1], t['a'], 0
            if isinstance(x, Rope):
                return (), 'vec', self.rope_len(x), t['a'], 0
            return None
        if p == 'std::ops::Range' and len(v.f) == 2:
            if self.T(t['a'][0])['k'] == 'int':
                return (), 'range', None, t['a'], 0
            return None
        if p.rsplit('::', 1)[-1] in ('Enumerate', 'Map', 'Copied', 'Cloned') and p.startswith(('std::iter::', 'core::iter::')):
            r = self.iter_find(v.f[0], depth + 1)
            if r:
                return (0,) + r[0], r[1], r[2], r[3], 0
        return None

    def iter_at(self, v, k):
        """the iterator advanced by k elements"""
        t = self.T(v.ty)
        p = t['p']
        x = v.f[0]
        if p in ITER:
            if isinstance(x, Ref):
                return Agg(v.ty, 0, (Ref(x.cell, x.path, (zadd(x.sl[0], k), zsub(x.sl[1], k))),))
            _, right = self.rope_split(x, k)
            return Agg(v.ty, 0, (Rope(x.ety, right),))
        if p == 'std::ops::Range':
            return Agg(v.ty, 0, (zadd(x, k), v.f[1]))
        fs = list(v.f)
        fs[0] = self.iter_at(x, k)
        if p.endswith('Enumerate'):
            fs[1] = zadd(fs[1], k)
        return Agg(v.ty, 0, fs)

    def loop_iter(self, fr, f, blocks):
        _, bor = assigned(f, blocks)
        for l in sorted(bor):
            v = fr[l].v
            r = self.iter_find(v) if v is not None else None
            if r:
                path, kind, n, targs, _ = r
                if kind == 'range':
                    n = zsub(v.f[1], v.f[0])
                    if not self.ex.choose(zle(0, n)):
                        n = 0
                return l, n, targs
        return None

    # ------------------------------------------------------------ entry point, called when a loop header is first reached
    def enter_loop(self, fr, f, h, blocks, marks):
        if self.bound is not None or self.noloop:
            return
        it = self.loop_iter(fr, f, blocks)
        if it is None:
            for inv in self.invs:
                if inv['kind'] == 'args' and self.args_match(fr, f, inv):
                    return self.args_invariant(fr, f, h, blocks, marks, inv)
            return
        l, n, targs = it
        if not isz(n):
            return
        tn = [self.tyname(t) for t in targs if isinstance(t, int)]
        for inv in self.invs:
            if inv['kind'] in ('seq', 'acc') and inv['ety'] in tn:
                if inv['kind'] == 'acc':
                    a = self.acc_local(fr, f, blocks, l, inv)
                    if a is None:
                        continue
                else:
                    a = None
                return self.seq_invariant(fr, f, h, blocks, marks, inv, l, n, a)
        self.try_bulk(fr, f, h, blocks, l, n)

    def acc_local(self, fr, f, blocks, l, inv):
        asg, _ = assigned(f, blocks)
        c = [x for x in asg if x != l and fr[x].v is not None and self.tyname(f['body']['locals'][x]) == inv['acc']]
        return c[0] if len(c) == 1 else None

    def side(self, label, c):
        if self.ex.replaying():
            return
        st, _ = self.ex.entailed(self.tobool(c))
        self.runner.sides = getattr(self.runner, 'sides', 0) + 1
        if st != 'proved':
            raise Unsupported('loop invariant not established (%s)' % label)

    def havoc_locals(self, fr, f, asg, skip):
        for x in sorted(asg):
            if x in skip or fr[x].v is None:
                continue
            try:
                fr[x] = Cell(self.mk(f['body']['locals'][x], self.fresh('hv')))
            except Unsupported:
                fr[x] = Cell(None)

    def dry(self, fr, f, h, l, n):
        """one arbitrary iteration, explored without effect; returns index, outcomes"""
        i = z3.Int(self.fresh('it'))
        snap = self.snapshot()
        saved = self.readlog

        def run():
            self.restore(snap)
            self.readlog = []
            self.ex.fact(z3.And(i >= 0, i < n))
            fr2 = self.copy_cells(fr)
            fr2[l].v = self.iter_at(fr2[l].v, i)
            n0 = {k: len(v) for k, v in self.storage.items()}
            r = self.exec_blocks(f, fr2, h, h)
            ws = {k: v[n0.get(k, 0):] for k, v in self.storage.items() if len(v) > n0.get(k, 0)}
            return r[0], ws, list(self.readlog)
        try:
            outs = self.ex.nested(run)
        finally:
            self.restore(snap)
            self.readlog = saved
        return i, outs

    def seq_invariant(self, fr, f, h, blocks, marks, inv, l, n, acc):
        def holds(k, a=None):
            args = [k] if acc is None else [k, a]
            return self.call_value(inv['fn'], args)
        self.side('initially', holds(0, fr[acc].v if acc is not None else None))
        i, outs = self.dry(fr, f, h, l, n)
        W = set()
        for conds, (kind, r), fs in outs:
            if kind == 'ok':
                W |= set(r[1])
        asg, bor = assigned(f, blocks)
        it0 = fr[l].v
        self.havoc_locals(fr, f, asg | bor, {l} | ({acc} if acc is not None else set()))
        self.havocn += 1
        for p in sorted(W):
            self.storage.setdefault(p, []).append((None, Havoc(self.havocn)))
        k = self.leaf(self.fresh('lk'), (), z3.IntSort(), 0, (1 << 32) - 1)
        self.ex.fact(zle(k, n))
        fr[l] = Cell(self.iter_at(it0, k))
        if acc is not None:
            fr[acc] = Cell(self.mk(f['body']['locals'][acc], self.fresh('acc')))
        self.ex.assume(self.tobool(holds(k, fr[acc].v if acc is not None else None)))
        marks[h] = lambda: self.back_edge(lambda: holds(zadd(k, 1), fr[acc].v if acc is not None else None), W, len0, stamp, ok)
        len0 = {p: len(v) for p, v in self.storage.items()}
        stamp = Cell.count[0]
        ok = {id(c) for c in fr}
        self.guards.append((stamp, ok))

    def back_edge(self, inv, W, len0, stamp, ok):
        for p, v in self.storage.items():
            if len(v) > len0.get(p, 0) and p not in W:
                raise Unsupported('the loop writes storage outside its summary')
        self.side('preserved', inv())
        raise PathEnd('done')

    def args_match(self, fr, f, inv):
        if '{closure' in f['p']:
            lo = 2
        else:
            lo = 1
        argc = f['body']['argc']
        vs = []
        for x in range(lo, argc + 1):
            t = self.T(f['body']['locals'][x])
            ty = f['body']['locals'][x]
            while self.T(ty)['k'] == 'ref':
                ty = self.T(ty)['e']
            vs.append(self.tyname(ty))
        return vs == inv['args']

    def args_invariant(self, fr, f, h, blocks, marks, inv):
        lo = 2 if '{closure' in f['p'] else 1
        argc = f['body']['argc']
        idx = list(range(lo, argc + 1))

        def vals():
            return [self.strip(fr[x].v) for x in idx]
        self.side('initially', self.call_value(inv['fn'], vals()))
        asg, bor = assigned(f, blocks)
        for x in idx:
            ty = f['body']['locals'][x]
            if self.T(ty)['k'] == 'ref':
                self.write(fr[x].v, self.mk(self.T(ty)['e'], self.fresh('hv')))
        self.havoc_locals(fr, f, asg | bor, set())
        self.ex.assume(self.tobool(self.call_value(inv['fn'], vals())))
        len0 = {p: len(v) for p, v in self.storage.items()}
        marks[h] = lambda: self.back_edge(lambda: self.call_value(inv['fn'], vals()), set(), len0, 0, None)
        stamp = Cell.count[0]
        ok = {id(c) for c in fr}
        for x in idx:
            v = fr[x].v
            while isinstance(v, Ref):
                ok.add(id(v.cell))
                v = self.load(v.cell, v.path)
        self.guards.append((stamp, ok))

    def nobulk(self, why):
        import os
        if os.environ.get('VERIF_BULK'):
            print('NOBULK', why, self.callstack[-1][-60:])

    def bulk_keys(self, i, n, outs):
        """the one key per storage item every iteration writes, or None when the iterations may interfere"""
        keys = {}
        occ = []
        for conds, (kind, r), fs in outs:
            if kind == 'assume':
                continue
            if kind != 'ok' or r[0] != 'stop':
                return self.nobulk('%s %s' % (kind, r))
            for p, ws in r[1].items():
                for lv, val in ws:
                    if lv is None:
                        return self.nobulk('inner summary')
                    k = keys.get(p)
                    if k is None or not mentions(k, i):
                        keys[p] = lv
                    occ.append((conds, fs, p, lv))

        def eqkey(conds, fs, k, lv):
            """the same key on this path"""
            if len(k) != len(lv):
                return False
            e = [c for c in (zeq(a, b) for a, b in zip(k, lv)) if c is not True]
            return not e or all(isz(c) for c in e) and self.ex.must(z3.Implies(z3.And(*[Z(c) for c in list(conds) + list(fs)]), z3.And(*e)))
        for conds, fs, p, lv in occ:
            if not eqkey(conds, fs, keys[p], lv):
                return self.nobulk('two keys %s %s %s' % (p, keys[p], lv))
        for conds, (kind, r), fs in outs:
            if kind == 'ok':
                for p, lv in r[2]:
                    if p in keys and not eqkey(conds, fs, keys[p], lv):
                        return self.nobulk('reads another key')
        j = z3.Int(self.fresh('jt'))
        dom = z3.And(i >= 0, i < n, j >= 0, j < n, i != j)
        for p, lv in keys.items():
            diff = zor(*[znot(zeq(a, z3.substitute(Z(a), (i, j)))) for a in lv])
            if not isz(diff) and not diff or not lv:
                return self.nobulk('same key')
            if not self.ex.must(z3.Implies(dom, diff)):
                return self.nobulk('keys not shown different')
        return keys

    def try_bulk(self, fr, f, h, blocks, l, n):
        i, outs = self.dry(fr, f, h, l, n)
        keys = self.bulk_keys(i, n, outs)
        if keys is None:
            return
        # one summary entry per written item
        frozen_fr = self.copy_cells(fr)
        store = {k: list(v) for k, v in self.storage.items()}

        def run(x):
            fr2 = self.copy_cells(frozen_fr)
            fr2[l].v = self.iter_at(fr2[l].v, x)
            self.exec_blocks(f, fr2, h, h)
        for p, lv in keys.items():
            self.storage.setdefault(p, []).append((None, Bulk(n, i, lv, run, store)))
        asg, bor = assigned(f, blocks)
        for x in (asg | bor) - {l}:
            fr[x] = Cell(None)
        fr[l] = Cell(self.iter_at(fr[l].v, n))

    def bulk_calls(self, n, body):
        """body(0), body(1), .. body(n - 1), which write pairwise different keys; False when that cannot be shown"""
        i = z3.Int(self.fresh('it'))
        snap = self.snapshot()
        saved = self.readlog

        def dry():
            self.restore(snap)
            self.readlog = []
            self.ex.fact(z3.And(i >= 0, i < n))
            n0 = {k: len(v) for k, v in self.storage.items()}
            self.guards.append((Cell.count[0], set()))
            body(i)
            ws = {k: v[n0.get(k, 0):] for k, v in self.storage.items() if len(v) > n0.get(k, 0)}
            return 'stop', ws, list(self.readlog)
        try:
            outs = self.ex.nested(dry)
        finally:
            self.restore(snap)
            self.readlog = saved
        keys = self.bulk_keys(i, n, outs)
        if keys is None:
            return False
        store = {k: list(v) for k, v in self.storage.items()}
        for p, lv in keys.items():
            self.storage.setdefault(p, []).append((None, Bulk(n, i, lv, body, store)))
        return True

    # ------------------------------------------------------------ reading through summaries
    def unify(self, b, key):
        """the index x with keys(x) == key, when it can be read off the terms"""
        x = []

        def match(a, k):
            if a.eq(b.i):
                if x and not x[0].eq(k):
                    return False
                x.append(k)
                return True
            if a.eq(k):
                return True
            if not (z3.is_app(a) and z3.is_app(k)) or not a.decl().eq(k.decl()) or a.num_args() != k.num_args():
                return False
            return a.num_args() > 0 and all(match(p, q) for p, q in zip(a.children(), k.children()))
        if not all(match(Z(a), Z(k)) for a, k in zip(b.keys, key.leaves)) or not x:
            return None
        return x[0] if self.ex.must(zand(zle(0, x[0]), zlt(x[0], b.n))) else None

    def solve(self, a, k, i):
        """the value of i with a(i) == k, going back through selections; None when not of that form"""
        while not a.eq(i):
            if not z3.is_app(a) or not mentions([a], i):
                return None
            ch = a.children()
            if a.decl().kind() == z3.Z3_OP_ADD:
                w = [c for c in ch if mentions([c], i)]
                if len(w) != 1:
                    return None
                for c in ch:
                    if not c.eq(w[0]):
                        k = zsub(k, c)
                a = w[0]
            elif len(ch) == 1 and a.decl().name() in self.inverse:
                k = self.inverse[a.decl().name()](k)
                a = ch[0]
            else:
                return None
        return k

    def bulk_read(self, key, vty, b, exists=None):
        """(hit?, present, value) of a key after a bulk update"""
        cache = b.cache if exists is None else b.ecache
        for lv, r in cache:
            if all(zeq(x, y) is True for x, y in zip(lv, key.leaves)):
                return r
        hit = z3.Bool(self.fresh('hit'))
        r = None
        x = self.unify(b, key)
        if x is not None or self.ex.choose(hit):
            if x is None:
                x = self.leaf(self.fresh('hi'), (), z3.IntSort(), 0, (1 << 32) - 1)
                self.ex.assume(zlt(x, b.n))
                self.ex.assume(zand(*[zeq(z3.substitute(Z(a), (b.i, Z(x))), k) for a, k in zip(b.keys, key.leaves)]))
            cur = self.storage
            log = self.readlog
            self.storage = {k: list(v) for k, v in b.storage.items()}
            self.readlog = None
            try:
                b.run(x)
                p, v = self.st_read(key, vty) if exists is None else (exists(key), None)
            finally:
                self.storage = cur
                self.readlog = log
            r = (True, p, v)
        else:
            q = z3.Int(self.fresh('bv'))
            ks = [z3.substitute(Z(a), (b.i, q)) for a in b.keys]
            body = z3.Or(*[z3.Not(Z(zeq(a, k))) for a, k in zip(ks, key.leaves)])
            import interp
            pats = interp.patterns(z3.And(*[a == a + 1 for a in ks]), q)
            self.ex.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < b.n), body), patterns=pats) if pats else
                           z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < b.n), body)))
            for a, k in zip(b.keys, key.leaves):
                c = self.solve(Z(a), Z(k), b.i)
                if c is not None:
                    self.ex.assume(z3.substitute(z3.Implies(z3.And(q >= 0, q < b.n), body), (q, Z(c))))
            r = (False, None, None)
        if not self.boundvars:
            cache.append((list(key.leaves), r))
        return r
