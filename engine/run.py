"""Contract runner: explores all paths of contract functions in parallel, discharges obligations, extracts
counterexamples."""
import json
import os
import random
import re
import select
import sys
import time
import traceback
import z3
from core import *
import interp
import prims
import prims2
import seqs
import iters
import models
from interp import Interp, Program
from encode import Encoder

NPROC = int(os.environ.get('VERIF_JOBS', '8'))


class Runner:
    """explores one subtree of a contract's paths; used inside worker processes"""

    def __init__(self, prog):
        self.P = prog
        self.I = {}

    def obligation(self, I, label, c):
        if I.ex.replaying():
            return
        c = I.tobool(c)
        st, m = I.ex.entailed(c)
        o = self.obl.setdefault(label, [0, 0, 0])
        o[('proved', 'refuted', 'unknown').index(st)] += 1
        if st == 'unknown':
            self.probe(I, label)
        if st != 'proved' and sum(1 for f in self.fails if f['label'] == label) < self.maxfail:
            self.fail(I, label, st, c, m)

    def fail(self, I, label, st, c, m):
        d = {'label': label, 'status': st, 'cond': str(c)[:2000],
             'path': [str(x).replace('\n', ' ')[:int(__import__("os").environ.get("W","400"))] for x in I.ex.path_conds][-60:]}
        if m is not None and I.bound is not None:
            try:
                d['cex'] = Encoder(I, m).cex()
            except Exception as e:      # the counterexample stays symbolic
                d['cexerr'] = '%s: %s' % (type(e).__name__, e)
        self.fails.append(d)

    def probe(self, I, label):
        """concrete inputs that reach the end of the current path: run natively when the path cannot be followed further"""
        if I.bound is None or len(self.probes) >= 100:
            return
        ex = I.ex
        rnd = random.Random(len(self.probes) * 7919 + len(ex.path_conds))
        try:
            ex.solver.set('timeout', 2000)
            if ex._check() != z3.sat:
                return
            m = ex.solver.model()
            for n in range(10):
                E = Encoder(I, m)
                E.leaves = []
                c = E.cex()
                if c not in [p['cex'] for p in self.probes]:
                    self.probes.append({'cex': c, 'label': label})
                groups = {}
                for x, w in E.leaves:
                    groups.setdefault(w if not z3.is_bool(x) else 'bool', []).append(x)
                gs = [k for k in groups if k is not None]
                if not gs:
                    break
                extra = []

                def nudge(k):
                    nonlocal m
                    if ex._check(*(extra + [k])) == z3.sat:
                        extra.append(k)
                        m = ex.solver.model()
                for _ in range(2 if n % 2 else 8):
                    g = rnd.choice(gs)
                    xs = groups[g]
                    x = rnd.choice(xs)
                    if g == 'bool':
                        nudge(x == z3.BoolVal(rnd.random() < 0.5))
                    elif n % 2:     # make values of one type coincide
                        if rnd.random() < 0.6:
                            nudge(x >= rnd.choice([1, 10, 1000]))
                        for y in rnd.sample(xs, min(len(xs), 6)):
                            if not y.eq(x):
                                nudge(y == x)
                    else:
                        nudge(rnd.choice([lambda: x == rnd.choice(xs), lambda: x == rnd.choice([0, 1, 2, 3, 5, 10, 100]),
                                          lambda: x == m.eval(x, model_completion=True) + 1, lambda: x > rnd.choice(xs),
                                          lambda: x >= 1000])())
        except (Unsupported, z3.Z3Exception, AttributeError, KeyError, IndexError, TypeError, ValueError):
            pass
        finally:
            ex.solver.set('timeout', ex.feas_ms)

    def cover(self, I, label):
        self.covers[label] = self.covers.get(label, 0) + 1

    def task(self, root, bound, prefixes, slice_s, deadline, second=False, maxfail=3, loops=None):
        self.obl, self.fails, self.covers, self.panics = {}, [], {}, {}
        self.probes = []
        self.maxfail = maxfail
        key = (root, bound)
        if key not in self.I:
            ex = Explorer()
            self.I[key] = I = Interp(self.P, ex, bound)
            I.runner = self
        I = self.I[key]
        I.havocsets = loops if loops is not None else {}
        ex = I.ex
        ex.second = second
        ex.deadline = deadline
        n0, t0, c0 = 0, ex.solver_time, ex.nchecks
        fid = self.P.roots[root]
        work = [list(map(tuple, p)) for p in prefixes]
        end = time.time() + slice_s
        err = None
        where = None
        while work:
            if time.time() > end:
                break
            p = work.pop()
            ex.reset_path(p)
            ex.ncache = {k: v for k, v in ex.ncache.items() if len(k[0]) <= len(p)} if len(ex.ncache) > 4000 else ex.ncache
            n0 += 1
            I.reset()
            try:
                I.call(fid, [])
            except PathEnd as e:
                if e.kind == 'panic':
                    st, m = ex.entailed(False)
                    if st != 'proved':
                        k = 'no panic: ' + e.msg + ' in ' + clean(getattr(e, 'where', []))
                        self.panics[k] = self.panics.get(k, 0) + 1
                        if sum(1 for f in self.fails if f['label'] == k) < maxfail:
                            self.fail(I, k, st, False, m)
            except Unsupported as e:
                err = str(e)
                where = getattr(e, 'where', [])[-8:]
                if os.environ.get('VERIF_TB'):
                    traceback.print_exc()
            except z3.Z3Exception as e:
                err = 'z3: %s' % e
                where = [traceback.format_exc()[-600:]]
            except (AttributeError, KeyError, IndexError, TypeError, RecursionError, ValueError, AssertionError) as e:
                err = 'engine: %s %s' % (type(e).__name__, e)
                where = [traceback.format_exc()[-1500:]] + list(I.callstack[-4:])
            if err:
                self.probe(I, err)
            work.extend(ex.pending)
            if err and (bound is None or len(self.probes) >= 100 or time.time() > end):
                break
        return {'root': root, 'obl': self.obl, 'fails': self.fails, 'covers': self.covers, 'panics': self.panics, 'probes': self.probes,
                'paths': n0, 'work': work if not err or bound is not None and len(self.probes) < 100 else [], 'err': err, 'where': where,
                'loops': I.havocsets if err is None else I.havocsets,
                'solver': ex.solver_time - t0, 'checks': ex.nchecks - c0,
                'used': list(I.used), 'prims': list(I.prim_used)}


def clean(where):
    ws = [re.sub(r'<impl [^>]*>', '', w) for w in where if not w.startswith(('std::', 'core::', '<std::', '<core::'))]
    return ws[-1] if ws else '?'


class Pool:
    """fork-based workers"""

    def __init__(self, prog, n=NPROC):
        self.n = n
        self.w = []
        for _ in range(n):
            r1, w1 = os.pipe()
            r2, w2 = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(w1)
                os.close(r2)
                for p in self.w:
                    os.close(p['out'])
                    os.close(p['inp'])
                self.child(prog, os.fdopen(r1, 'rb'), os.fdopen(w2, 'wb'))
                os._exit(0)
            os.close(r1)
            os.close(w2)
            self.w.append({'pid': pid, 'out': w1, 'inp': r2, 'buf': b'', 'busy': None})

    def child(self, prog, inp, out):
        R = Runner(prog)
        for line in inp:
            job = json.loads(line)
            try:
                res = R.task(**job)
            except BaseException as e:
                res = {'root': job['root'], 'obl': {}, 'fails': [], 'covers': {}, 'panics': {}, 'probes': [], 'paths': 0, 'work': [],
                       'err': 'engine: %s %s' % (type(e).__name__, e), 'where': [traceback.format_exc()[-1500:]],
                       'solver': 0, 'checks': 0, 'used': [], 'prims': [], 'loops': {}}
            out.write(json.dumps(res).encode() + b'\n')
            out.flush()

    def close(self):
        for w in self.w:
            try:
                os.kill(w['pid'], 9)
            except OSError:
                pass
            try:
                os.waitpid(w['pid'], 0)
            except OSError:
                pass

    def run(self, jobs, progress=None):
        """jobs: list of dict(root,bound,deadline,second,maxfail); returns {root: merged result}"""
        res = {}
        queue = []
        left = {}
        for j in jobs:
            res[j['root']] = {'root': j['root'], 'bound': j['bound'], 'obl': {}, 'fails': [], 'covers': {}, 'panics': {}, 'probes': [],
                              'paths': 0, 'err': None, 'where': None, 'solver': 0.0, 'checks': 0, 'used': set(),
                              'prims': set(), 'wall': 0.0, 'start': None}
            left[j['root']] = 0
            jj = dict(j)
            jj['prefixes'] = [[]]
            queue.append(jj)
        while queue or any(w['busy'] for w in self.w):
            for w in self.w:
                if w['busy'] is None and queue:
                    j = queue.pop(0)
                    r = res[j['root']]
                    if r['err'] and (j['bound'] is None or len(r['probes']) >= 500):
                        continue
                    if time.time() > min(j['deadline'], r.get('cut', 1e18)):
                        r['err'] = r['err'] or 'time budget exhausted'
                        continue
                    if r['start'] is None:
                        r['start'] = time.time()
                    j['slice_s'] = 1.0 if len(queue) < self.n else 6.0
                    w['busy'] = j
                    os.write_all(w['out'], json.dumps(j).encode() + b'\n') if hasattr(os, 'write_all') else wr(w['out'], json.dumps(j).encode() + b'\n')
            busy = [w for w in self.w if w['busy']]
            if not busy:
                continue
            rl, _, _ = select.select([w['inp'] for w in busy], [], [], 5)
            for w in busy:
                if w['inp'] not in rl:
                    dl = w['busy']['deadline']
                    if time.time() > dl + 60:
                        os.kill(w['pid'], 9)
                    continue
                b = os.read(w['inp'], 1 << 20)
                if not b:
                    j = w['busy']
                    res[j['root']]['err'] = res[j['root']]['err'] or 'worker died'
                    w['busy'] = None
                    self.respawn(w)
                    continue
                w['buf'] += b
                if not w['buf'].endswith(b'\n'):
                    continue
                o = json.loads(w['buf'])
                w['buf'] = b''
                j = w['busy']
                w['busy'] = None
                r = res[j['root']]
                merge(r, o)
                if j['bound'] is None and o['fails']:
                    # the contract is not proved: go on to the bounded search for a counterexample soon
                    r['cut'] = min(r.get('cut', 1e18), time.time() + 15)
                work = o['work']
                if work and (not r['err'] or j['bound'] is not None and len(r['probes']) < 500):
                    k = max(1, min(len(work), 2 * self.n))
                    for i in range(k):
                        c = work[i::k]
                        if c:
                            jj = dict(j)
                            jj['prefixes'] = c
                            queue.append(jj)
                if progress:
                    progress(r, len(queue))
        return res

    def respawn(self, w):
        w['busy'] = {'root': None, 'deadline': 1e18}     # dead worker: never used again
        w['inp'] = os.open('/dev/null', os.O_RDONLY)
        self.w.remove(w)


def wr(fd, b):
    while b:
        n = os.write(fd, b)
        b = b[n:]


def merge(r, o):
    for k, v in o['obl'].items():
        x = r['obl'].setdefault(k, [0, 0, 0])
        for i in range(3):
            x[i] += v[i]
    for k in ('covers', 'panics'):
        for a, b in o[k].items():
            r[k][a] = r[k].get(a, 0) + b
    r['fails'] += o['fails']
    r['probes'] += o['probes'][:max(0, 600 - len(r['probes']))]
    r['paths'] += o['paths']
    r['solver'] += o['solver']
    r['checks'] += o['checks']
    r['used'] |= set(o['used'])
    r['prims'] |= set(o['prims'])
    r['wall'] = time.time() - (r['start'] or time.time())
    if o['err'] and not r['err']:
        r['err'], r['where'] = o['err'], o['where']


def show(r):
    print('%s bound=%s paths %d wall %.1fs solver %.1fs checks %d' % (r['root'], r['bound'], r['paths'], r['wall'],
                                                                     r['solver'], r['checks']))
    for k, v in r['obl'].items():
        print('   ', v, k)
    print('    covers', r['covers'])
    for k, v in r['panics'].items():
        print('    PANIC', v, k)
    if r['err']:
        print('    UNSUPPORTED', r['err'])
        for w in r['where'] or []:
            print('        ', w)
    seen = set()
    for f in r['fails']:
        if f['label'] in seen:
            continue
        seen.add(f['label'])
        print('    FAIL', f['label'], f['status'], f.get('cexerr', ''), 'cex' if 'cex' in f else '')


if __name__ == '__main__':
    P = Program(sys.argv[1])
    bound = None
    names = []
    for x in sys.argv[2:]:
        if x.startswith('-b'):
            bound = int(x[2:])
        else:
            names.append(x)
    roots = [r for r in P.roots if any(n in r for n in names)] if names else list(P.roots)
    pool = Pool(P)
    t0 = time.time()
    res = pool.run([dict(root=r, bound=bound, deadline=time.time() + float(os.environ.get('BUDGET', '200')), second=False,
                         maxfail=2) for r in roots])
    for r in roots:
        show(res[r])
        if os.environ.get('V'):
            for f in res[r]['fails'][:int(os.environ['V'])]:
                print(json.dumps(f, indent=1)[:6000])
    print('total %.1fs' % (time.time() - t0))
    pool.close()
