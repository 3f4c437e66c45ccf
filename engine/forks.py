"""fork profile of one contract: python3-vt engine/forks.py DUMP ROOT [seconds]"""
import sys, time, collections
import run
from core import *
P = run.Program(sys.argv[1])
r = run.Runner(P)
C = collections.Counter()
cond = {}
old = Explorer.choose
cur = {}


def choose(self, c, note=''):
    n = len(self.pending)
    v = old(self, c, note)
    if len(self.pending) > n:
        I = cur.get('I')
        k = tuple(x.split('::')[-1] if not x.startswith('<') else x[-60:] for x in I.callstack[-3:]) if I else ()
        C[k] += 1
        cond.setdefault(k, collections.Counter())[str(self.path_conds[-1])[:150].replace('\n', ' ')] += 1
    return v


Explorer.choose = choose
import interp
oi = interp.Interp.__init__


def init(self, *a, **k):
    oi(self, *a, **k)
    cur['I'] = self


interp.Interp.__init__ = init
t = time.time()
sec = float(sys.argv[3]) if len(sys.argv) > 3 else 60
o = r.task([x for x in P.roots if x.endswith(sys.argv[2])][0], None, [[]], sec, t + sec)
print(o['paths'], o['err'])
for k, n in C.most_common(25):
    print(n, ' > '.join(k))
    for a, b in cond[k].most_common(3):
        print('      ', b, a)
