"""SCALE encoding of a counterexample (solver model -> bytes the native replay decodes)."""
import z3
from core import *


class Encoder:
    def __init__(self, I, m):
        self.I, self.m = I, m
        self.leaves = None

    def num(self, v, w=None):
        if isz(v):
            if self.leaves is not None and (z3.is_int(v) or z3.is_bool(v)):
                self.leaves.append((v, w))
            r = self.m.eval(v, model_completion=True)
            if z3.is_true(r):
                return 1
            if z3.is_false(r):
                return 0
            r = z3.simplify(r)
            return r.as_long()
        return int(v)

    def compact(self, n):
        if n < 64:
            return bytes([n << 2])
        if n < 1 << 14:
            return ((n << 2) | 1).to_bytes(2, 'little')
        if n < 1 << 30:
            return ((n << 2) | 2).to_bytes(4, 'little')
        k = (n.bit_length() + 7) // 8
        return bytes([((k - 4) << 2) | 3]) + n.to_bytes(k, 'little')

    def enc(self, ty, v):
        I = self.I
        t = I.T(ty)
        k = t['k']
        v = I.strip(v) if not (k == 'ref') else v
        if k == 'ref':
            return self.enc(t['e'], I.strip(v))
        if k == 'int':
            n = self.num(v, t['b'])
            return (n % (1 << t['b'])).to_bytes(t['b'] // 8, 'little')
        if k == 'bool':
            return bytes([self.num(v)])
        if k == 'tuple':
            if isinstance(v, Sym):
                v = I.as_variant(v, 0)
            return b''.join(self.enc(f, x) for f, x in zip(t['f'], v.f))
        if k == 'array':
            et = I.T(t['e'])
            if isz(v) or isinstance(v, int):
                return self.num(v).to_bytes(t['len'], 'big')
            if isinstance(v, Sym):
                v = I.as_variant(v, 0)
            return b''.join(self.enc(t['e'], x) for x in v.f)
        if k == 'adt':
            if I.P.tys[ty]['atom'] and 'BoundedVec' in t['n']:
                n = self.num(v, 'h')
                b = n.to_bytes((n.bit_length() + 7) // 8, 'little')
                return self.compact(len(b)) + b
            if isz(v) or (isinstance(v, int) and not isinstance(v, bool)):
                return self.num(v, 'h').to_bytes(32, 'big')
            if isinstance(v, Rope):
                return self.rope(v)
            if t['p'].endswith('marker::PhantomData'):
                return b''
            if t['box']:
                return self.enc(t['a'][0], v)
            if t['kind'] == 'enum':
                if isinstance(v, Sym):
                    d = self.num(I.disc_leaf(v), 'disc%s' % ty)
                    v = I.as_variant(v, d)
                body = b''.join(self.enc(f, x) for f, x in zip(t['v'][v.v]['f'], v.f))
                if t['p'].endswith('bool::Option'):
                    pass
                return bytes([v.v]) + body
            if isinstance(v, Sym):
                v = I.as_variant(v, 0)
            if t['p'] == 'pallet_democracy::Vote':
                aye, conv = None, None
                for f, x in zip(t['v'][0]['f'], v.f):
                    if I.T(f)['k'] == 'bool':
                        aye = self.num(x)
                    else:
                        conv = self.enc(f, x)[0]
                return bytes([(aye << 7) | conv])
            return b''.join(self.enc(f, x) for f, x in zip(t['v'][0]['f'], v.f))
        raise Unsupported('encode ' + t['n'])

    def rope(self, r):
        out = []
        n = 0
        for s in r.segs:
            if s[0] == 'e':
                out.append(self.enc(r.ety, s[1]))
                n += 1
            else:
                k = self.num(s[5], 'len')
                if k > 64:
                    raise Unsupported('long sequence in the counterexample')
                for i in range(k):
                    out.append(self.enc(r.ety, self.I.mk(s[1], s[2], tuple(s[3]) + (zadd(s[4], i),))))
                n += k
        return self.compact(n) + b''.join(out)

    def cex(self):
        import prims
        I = self.I
        d = {'anys': [self.enc(ty, v).hex() for v, ty in I.anys], 'params': [], 'storage': []}
        d['params'] = [str(self.num(I.params[i])) if i in I.params else '1000' for i in range(40)]
        if I.params:
            pass
        for (prefix, _), (key, pres, v, vty) in I.reads.items():
            if key.leaves and any(isz(x) and I.boundvars and I.mentions(x) for x in key.leaves):
                continue
            if v is None or not self.num(pres):
                continue
            st = I.T(I.prefixes[prefix])
            d['storage'].append({'item': prims.storage_name(prefix), 'keys': self.keys(st, key), 'value': self.enc(vty, v).hex()})
        return d

    def keys(self, st, key):
        I = self.I
        n = st['p'].rsplit('::', 1)[1]
        if n in ('StorageValue',):
            return []
        if n in ('StorageMap', 'CountedStorageMap'):
            return [[I.tyname(st['a'][1]).rsplit('::', 1)[1], self.enc(st['a'][2], key.val).hex()]]
        if n == 'StorageDoubleMap':
            return [[I.tyname(st['a'][1]).rsplit('::', 1)[1], self.enc(st['a'][2], key.val.f[0]).hex()],
                    [I.tyname(st['a'][3]).rsplit('::', 1)[1], self.enc(st['a'][4], key.val.f[1]).hex()]]
        if n == 'StorageNMap':
            k = I.T(st['a'][1])
            ks = k['f'] if k['k'] == 'tuple' else [st['a'][1]]
            xs = list(I.force(key.val).f) if k['k'] == 'tuple' else [key.val]
            return [[I.tyname(I.T(t)['a'][0]).rsplit('::', 1)[1], self.enc(I.T(t)['a'][1], x).hex()] for t, x in zip(ks, xs)]
        raise Unsupported('key of ' + n)
