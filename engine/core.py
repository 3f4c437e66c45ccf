"""Values, memory and the path explorer of the MIR verifier."""
import time
import z3

z3.set_param('smt.random_seed', 1)
z3.set_param('smt.auto_config', False)
z3.set_param('smt.mbqi', False)


class Unsupported(Exception):
    pass


class PathEnd(Exception):
    """the current path stops (kind: 'panic' | 'assume' | 'done')"""
    def __init__(self, kind, msg=''):
        self.kind, self.msg = kind, msg


# ---------------------------------------------------------------- scalars
def isz(x):
    return isinstance(x, z3.ExprRef)


_smemo = {}


def simp(x):
    if not isz(x):
        return x
    k = x.ast.value
    r = _smemo.get(k)
    if r is not None:
        return r[0]
    r = simp0(x)
    _smemo[k] = (r, x)
    if isz(r):
        _smemo[r.ast.value] = (r, r)
    return r


def simp0(x):
    if isz(x):
        x = z3.simplify(x)
        if z3.is_int_value(x):
            return x.as_long()
        if z3.is_true(x):
            return True
        if z3.is_false(x):
            return False
    return x


def Z(x):
    if isz(x):
        return x
    if isinstance(x, bool):
        return z3.BoolVal(x)
    return z3.IntVal(x)


def zeq(a, b):
    if not isz(a) and not isz(b):
        return a == b
    if isz(a) and isz(b) and a.eq(b):
        return True
    return simp(Z(a) == Z(b))


def zlt(a, b):
    if not isz(a) and not isz(b):
        return a < b
    return simp(Z(a) < Z(b))


def zle(a, b):
    if not isz(a) and not isz(b):
        return a <= b
    return simp(Z(a) <= Z(b))


def zadd(a, b):
    if not isz(a) and not isz(b):
        return a + b
    if not isz(b) and b == 0:
        return a
    if not isz(a) and a == 0:
        return b
    return simp(Z(a) + Z(b))


def zsub(a, b):
    if not isz(a) and not isz(b):
        return a - b
    if not isz(b) and b == 0:
        return a
    return simp(Z(a) - Z(b))


def zmul(a, b):
    if not isz(a) and not isz(b):
        return a * b
    return simp(Z(a) * Z(b))


def zand(*xs):
    r = []
    for x in xs:
        if not isz(x):
            if not x:
                return False
            continue
        r.append(x)
    if not r:
        return True
    return r[0] if len(r) == 1 else z3.And(*r)


def zor(*xs):
    r = []
    for x in xs:
        if not isz(x):
            if x:
                return True
            continue
        r.append(x)
    if not r:
        return False
    return r[0] if len(r) == 1 else z3.Or(*r)


def znot(x):
    if not isz(x):
        return not x
    if z3.is_not(x):
        return x.arg(0)
    return z3.Not(x)


_memo = {}


def _memo2(op):
    def g(a, b):
        ia = a.ast.value if isz(a) else ('c', a, type(a) is bool)
        ib = b.ast.value if isz(b) else ('c', b, type(b) is bool)
        k = (op, ia, ib)
        r = _memo.get(k)
        if r is not None:
            return r[0]
        r = op(a, b)
        _memo[k] = (r, a, b)
        return r
    return g


zeq, zlt, zle, zadd, zsub, zmul = map(_memo2, (zeq, zlt, zle, zadd, zsub, zmul))


def zite(c, a, b):
    if not isz(c):
        return a if c else b
    if not isz(a) and not isz(b) and a == b and type(a) == type(b):
        return a
    return z3.If(c, Z(a), Z(b))


# ---------------------------------------------------------------- structured values
class Agg:
    """struct / tuple / closure / array / enum variant; immutable"""
    __slots__ = ('ty', 'v', 'f')

    def __init__(self, ty, v, f):
        self.ty, self.v, self.f = ty, v, tuple(f)

    def __repr__(self):
        return 'Agg(%s,%s,%s)' % (self.ty, self.v, list(self.f))


class Sym:
    """arbitrary value of a type, expanded on demand; leaves are name(args)"""
    __slots__ = ('ty', 'name', 'args')

    def __init__(self, ty, name, args):
        self.ty, self.name, self.args = ty, name, args

    def __repr__(self):
        return 'Sym(%s,%s)' % (self.name, list(self.args))


class Rope:
    """Vec contents: concatenation of segments
       ('e', value) | ('b', ety, name, args, start, len) : elements name(args.., start..start+len)"""
    __slots__ = ('ety', 'segs')

    def __init__(self, ety, segs):
        self.ety, self.segs = ety, tuple(segs)

    def __repr__(self):
        return 'Rope%s' % (list(self.segs),)


class Ref:
    """reference / raw pointer; path steps are ints (fields), ('d',v) , ('i',idx), ('b',)
       sl = (start,len) for slices"""
    __slots__ = ('cell', 'path', 'sl')

    def __init__(self, cell, path=(), sl=None):
        self.cell, self.path, self.sl = cell, path, sl

    def __repr__(self):
        return 'Ref(%x%s%s)' % (id(self.cell) & 0xffff, self.path, self.sl or '')


class Cell:
    __slots__ = ('v', 'n')
    count = [0]

    def __init__(self, v=None):
        self.v = v
        Cell.count[0] += 1
        self.n = Cell.count[0]


class Fn:
    __slots__ = ('id',)

    def __init__(self, id):
        self.id = id

    def __repr__(self):
        return 'Fn(%d)' % self.id


class Str:
    __slots__ = ('s',)

    def __init__(self, s):
        self.s = s

    def __repr__(self):
        return 'Str(%r)' % self.s


class Opaque:
    """a value nobody looks into (tag for diagnostics)"""
    __slots__ = ('tag', 'v')

    def __init__(self, tag, v=None):
        self.tag, self.v = tag, v

    def __repr__(self):
        return 'Opaque(%s)' % self.tag


class Key:
    """abstract storage key: (prefix type name, key value leaves, key value)"""
    __slots__ = ('prefix', 'leaves', 'val', 'kty')

    def __init__(self, prefix, leaves, val, kty):
        self.prefix, self.leaves, self.val, self.kty = prefix, leaves, val, kty

    def __repr__(self):
        return 'Key(%s,%s)' % (self.prefix, self.leaves)


UNIT = Agg(None, 0, ())


_nmemo = {}


def strip_not(c):
    k = c.ast.value
    r = _nmemo.get(k)
    if r is None:
        x, neg = c, False
        while z3.is_not(x):
            x = x.arg(0)
            neg = not neg
        r = (x, neg, c)
        _nmemo[k] = r
    return r[0], r[1]


# ---------------------------------------------------------------- exploration of paths
class Explorer:
    def __init__(self, deadline=None, feas_ms=400, check_ms=20000):
        self.solver = z3.Solver()
        self.feas_ms, self.check_ms = feas_ms, check_ms
        self.solver.set('timeout', feas_ms)
        self.deadline = deadline
        self.solver_time = 0.0
        self.nchecks = 0
        self.nest = 0
        self.ncache = {}
        self.second = False      # ask cvc5 when z3 gives up
        self.stack = []          # conditions pushed on the solver: list of (cond ast)
        self.reset_path([])

    # -- path bookkeeping
    def reset_path(self, prefix):
        # common prefix of pushed (non-forced) decisions
        new = prefix
        k = 0
        keep = 0
        old = getattr(self, 'dec', [])
        n = min(len(old), len(new))
        while k < n and old[k] == new[k]:
            if old[k][0] == 'B':
                keep += 1
            k += 1
        nlev = self.solver.num_scopes()
        if nlev > keep:
            self.solver.pop(nlev - keep)
        del self.stack[keep:]
        self.facts = getattr(self, 'facts', [set()])
        del self.facts[keep + 1:]
        self.keep = keep
        self.depth = 0           # number of B decisions taken on this path
        self.prefix = list(new)
        self.dec = []
        self.pending = []
        self.nestno = 0
        self.decided = {}
        self.factlist = []
        self.path_conds = []
        self.weak = False       # a value on this path is described, not defined: a refutation may be spurious

    def tick(self):
        if self.deadline and time.time() > self.deadline:
            raise Unsupported('time budget exhausted')

    def _check(self, *extra):
        self.nchecks += 1
        t = time.time()
        r = self.solver.check(*extra)
        self.solver_time += time.time() - t
        return r

    def fact(self, c):
        """add a fact (true on this path) """
        if not isz(c):
            if not c:
                raise PathEnd('assume')
            return
        i = c.ast.value
        if i in self.decided:
            if self.decided[i]:
                return
            raise PathEnd('assume')
        self.decided[i] = True
        self.factlist.append(c)   # keeps the ast alive
        lev = self.depth
        if i in self.facts[lev]:
            return
        self.solver.add(c)
        if lev >= self.keep:
            self.facts[lev].add(i)

    def qfact(self, c):
        self.nq = getattr(self, 'nq', 0) + 1
        return self.fact(c)

    def choose(self, c, note=''):
        """decide a boolean on this path (forks when both sides are feasible)"""
        c = simp(c)
        if not isz(c):
            return bool(c)
        neg = False
        c, neg = strip_not(c)
        i = c.ast.value
        if i in self.decided:
            return self.decided[i] != neg
        pos = len(self.dec)
        if pos < len(self.prefix):
            kind, val = self.prefix[pos]
            self.dec.append((kind, val))
            if kind == 'B':
                self._enter(c if val else z3.Not(c))
        else:
            self.tick()
            rt = self._check(c)
            if rt == z3.unsat:
                kind, val = 'F', False
            else:
                rf = self._check(z3.Not(c))
                if rf == z3.unsat:
                    kind, val = 'F', True
                else:
                    kind, val = 'B', True
            self.dec.append((kind, val))
            if kind == 'B':
                self.pending.append(self.dec[:-1] + [('B', False)])
                self._enter(c if val else z3.Not(c))
        self.decided[i] = val
        self.path_conds.append(c if val else z3.Not(c))
        return val != neg

    def _enter(self, cond):
        self.depth += 1
        if self.depth <= self.keep:
            return
        self.solver.push()
        self.solver.add(cond)
        self.stack.append(cond)
        self.facts.append(set())
        self.keep = self.depth if self.keep < self.depth else self.keep

    def assume(self, c):
        c = simp(c)
        if not isz(c):
            if not c:
                raise PathEnd('assume')
            return
        # an assumption is recorded as a forced decision
        pos = len(self.dec)
        if pos < len(self.prefix):
            self.dec.append(self.prefix[pos])
            self.fact(c)
            return
        i = c.ast.value
        r = self._check(c)
        if r == z3.unsat:
            raise PathEnd('assume')
        self.dec.append(('A', True))
        self.fact(c)

    def entailed(self, c):
        """('proved'|'refuted'|'unknown', model)"""
        c = simp(c)
        if not isz(c):
            if c:
                return 'proved', None
            c = z3.BoolVal(False)
        self.tick()
        self.solver.set('timeout', self.check_ms)
        self.solver.push()
        self.solver.add(z3.Not(c))
        r = self._check()
        m = None
        if r != z3.unsat:
            try:
                m = self.solver.model()
            except z3.Z3Exception:
                pass
        self.solver.pop()
        self.solver.set('timeout', self.feas_ms)
        if r == z3.unsat:
            return 'proved', None
        if r == z3.sat:
            return ('unknown' if self.weak else 'refuted'), m
        # without the state of the incremental solver, and with other instantiation orders
        s = None
        for seed in (0, 7, 23):
            s = z3.Solver()
            s.set('timeout', 2000)
            s.set('random_seed', seed)
            s.add(*self.solver.assertions())
            s.add(z3.Not(c))
            t = time.time()
            r = s.check()
            self.solver_time += time.time() - t
            if r == z3.unsat:
                return 'proved', None
            if r == z3.sat:
                return ('unknown' if self.weak else 'refuted'), s.model()
        if not self.second:
            return 'unknown', m
        r2 = cvc5_check(s, self.check_ms)
        if r2 == 'unsat':
            return 'proved', None
        return 'unknown', m

    def must(self, c):
        """is c entailed by the quantifier-free path condition? (no fork)"""
        c = simp(c)
        if not isz(c):
            return bool(c)
        pos = len(self.dec)
        if pos < len(self.prefix):
            r = self.prefix[pos][1]
        else:
            r = self._check(z3.Not(c)) == z3.unsat
        self.dec.append(('M', r))
        return r

    def replaying(self):
        return len(self.dec) < len(self.prefix)

    # -- top level and nested exploration
    def explore(self, thunk, limit=20000):
        """run thunk on every feasible path"""
        work = [[]]
        n = 0
        while work:
            p = work.pop()
            self.reset_path(p)
            n += 1
            if n > limit:
                raise Unsupported('path limit')
            thunk()
            work.extend(self.pending)
        return n

    def nested(self, thunk, limit=400):
        """explore a pure computation below the current path; returns [(cond list, outcome)]
        (the result is remembered for the replays of this path prefix, which keeps replays deterministic)"""
        if self.nest:
            return self.nested0(thunk, limit)
        self.nestno += 1
        k = (tuple(self.dec), self.nestno)
        r = self.ncache.get(k)
        if r is None:
            self.nest = 1
            try:
                r = self.nested0(thunk, limit)
            finally:
                self.nest = 0
            self.ncache[k] = r
        return r

    def nested0(self, thunk, limit):
        saved = (self.prefix, self.dec, self.pending, self.decided, self.facts, self.keep, self.depth, self.stack,
                 self.factlist, self.path_conds)
        base_scopes = self.solver.num_scopes()
        outs = []
        work = [[]]
        try:
            while work:
                p = work.pop()
                if len(outs) > limit:
                    raise Unsupported('nested path limit')
                self.solver.push()
                lvl0 = self.solver.num_scopes()
                self.prefix, self.dec, self.pending = list(p), [], []
                self.decided = dict(saved[3])
                self.facts = [set() for _ in range(lvl0 + 1)]
                self.depth = lvl0
                self.keep = lvl0
                self.stack = list(saved[7])
                self.factlist = list(saved[8])
                self.path_conds = []
                nf = len(self.factlist)
                try:
                    r = ('ok', thunk())
                except PathEnd as e:
                    r = (e.kind, e.msg)
                outs.append((list(self.path_conds), r, self.factlist[nf:]))
                work.extend(self.pending)
                self.solver.pop(self.solver.num_scopes() - lvl0 + 1)
        finally:
            extra = self.solver.num_scopes() - base_scopes
            if extra > 0:
                self.solver.pop(extra)
            (self.prefix, self.dec, self.pending, self.decided, self.facts, self.keep, self.depth, self.stack,
             fl, self.path_conds) = saved
            self.factlist = fl
        return outs


_qcache = {}


def has_quant(e):
    i = e.ast.value
    r = _qcache.get(i)
    if r is not None and r[0].eq(e):
        return r[1]
    if z3.is_quantifier(e):
        v = True
    else:
        v = any(has_quant(c) for c in e.children())
    _qcache[i] = (e, v)
    return v


def cvc5_check(s, ms):
    import subprocess
    txt = '(set-logic ALL)\n' + s.to_smt2()
    try:
        p = subprocess.run(['cvc5', '--lang=smt2', '--tlimit=%d' % ms, '-'], input=txt, capture_output=True, text=True,
                           timeout=ms / 1000 + 5)
        return p.stdout.strip().split('\n')[0] if p.stdout else 'unknown'
    except Exception:
        return 'unknown'
