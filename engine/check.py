"""check.py PROPERTY: verify every contract of a property against /repo's current source."""
import concurrent.futures
import json
import os
import re
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import run
from interp import Program


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def known(pid):
    """(kind, root, label-regex, text) of the known findings of this property"""
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'known: property=(\S+) contract=(\S+) obligation="([^"]*)" (.*)', line.strip())
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3), m.group(4)))
    return out


BINARY = []


FEATURE = {'L': 'polimec', 'P': 'polimec', 'C': 'polimec', 'G': 'polimec', 'K': 'stake', 'F': 'fund', 'R': 'recv'}


def native_replay(items, pid):
    """items: list of replay dicts; returns list of outcomes (dict) or None when the binary cannot be built"""
    if not BINARY:
        r = sh(os.path.join(VERIF, 'tools/native.sh') + ' ' + FEATURE.get(pid[0], 'gov'))
        if r.returncode != 0:
            sys.stderr.write(r.stderr[-2000:])
            BINARY.append(None)
        else:
            BINARY.append(r.stdout.strip().split('\n')[-1])
    if BINARY[0] is None:
        return None
    with tempfile.TemporaryDirectory() as d:
        def one(i):
            f = os.path.join(d, '%d.json' % i)
            json.dump(items[i], open(f, 'w'))
            try:
                q = subprocess.run([BINARY[0], f], capture_output=True, text=True, timeout=60)
                return json.loads(q.stdout.strip().split('\n')[-1])
            except Exception as e:
                return {'outcome': 'replay error %s' % e, 'failed': []}
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            return list(ex.map(one, range(len(items))))


def confirms(label, o):
    if label.startswith('no panic: '):
        return o['outcome'].startswith('panic')
    return label in o['failed']


def spurious(f):
    o = f.get('native')
    return bool(o) and o['outcome'] == 'returned' and not o['failed']


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv:
        tier = 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    budget = int(os.environ.get('VERIF_BUDGET', 480)) if tier == 'quick' else 3000
    feature = FEATURE.get(pid[0], 'gov')
    dump = os.path.join(VERIF, 'build', 'd.json' if feature == 'gov' else feature + '.json')
    os.makedirs(os.path.join(VERIF, 'build'), exist_ok=True)
    r = sh('%s %s %s' % (os.path.join(VERIF, 'tools/dump.sh'), dump, feature))
    if r.returncode != 0:
        sys.stderr.write(r.stderr[-4000:])
        print('ERROR: the code under verification did not compile with the contracts')
        return 2
    P = Program(dump)
    roots = [x for x in P.roots if x.rsplit('::', 1)[1].startswith('vc_%s_' % pid.lower())]
    if not roots:
        print('ERROR: no contracts for', pid)
        return 2
    pool = run.Pool(P)
    try:
        return decide(pid, tier, seed, t0, budget, P, roots, pool)
    finally:
        pool.close()


def bad(r):
    """failed obligations of a result: label -> status"""
    out = {}
    for k, (p, ref, unk) in r['obl'].items():
        if ref or unk:
            out[k] = 'refuted' if ref else 'unknown'
    for k in r['panics']:
        out[k] = 'refuted'
    return out


def decide(pid, tier, seed, t0, budget, P, roots, pool):
    left = lambda: budget - (time.time() - t0)
    share = budget * 0.45
    res = pool.run([dict(root=x, bound=None, deadline=t0 + share, second=(tier == 'thorough'), maxfail=2) for x in roots])
    report = {}
    rerun = []
    for x in roots:
        r = res[x]
        b = bad(r)
        cov = expected_covers(P, x)
        missing = [c for c in cov if c not in r['covers']] if not r['err'] else []
        report[x] = {'unbounded': r, 'bad': b, 'missing': missing, 'mode': 'proved'}
        for c in r['covers']:
            if c.startswith('bounded: '):
                report[x]['mode'] = 'bounded stand-in (%s)' % c[9:]
        if b or r['err'] or missing:
            rerun.append(x)
    bres = {}
    violations = []
    nofail = []
    kn = known(pid)
    hits = {}
    native = {}
    probed = [0]

    def is_known(x, f):
        for root, rx, text in kn:
            if root == x and re.fullmatch(rx, f['label']):
                hits[text] = 1
                return True
        return False

    def replays(x, r):
        """counterexamples and probes of a bounded run, executed on the compiled code"""
        items = [(f['label'], f['cex'], f) for f in r['fails'] if f.get('cex')]
        items += [(None, p['cex'], None) for p in r['probes'][:600]]
        items = [i for i in items if (x, json.dumps(i[1])) not in native]
        outs = native_replay([dict(root=x, cex=c) for _, c, _ in items], pid) if items else []
        for (label, c, f), o in zip(items, outs or [None] * len(items)):
            native[x, json.dumps(c)] = o
            if o is None:
                continue
            if label is not None:
                f['native'] = o
                if confirms(label, o):
                    violations.append((x, f, o))
                    continue
            if o['outcome'] == 'precondition':
                continue
            probed[0] += label is None
            # a path the verifier cannot follow to its end: the contract is evaluated on the compiled code
            lab = o['failed'][0] if o['failed'] else 'no panic: ' + o['outcome'] if o['outcome'].startswith('panic') else None
            if lab:
                violations.append((x, {'label': lab, 'status': 'fails natively', 'cex': c, 'cond': '', 'path': []}, o))
    if rerun:
        for n, cap, frac in ((2, 45, 1), (3, 60, .4), (2, 1e9, .35), (3, 1e9, .6), (4, 60, .6)):
            todo = [x for x in rerun if not (x in bres and (bres[x]['ok'] is False or bres[x]['bound'] >= n and bres[x]['ok']))]
            if not todo:
                continue
            if left() < 60 or any(not is_known(x, f) for x, f, _ in violations):
                break
            dl = time.time() + max(30, min(cap, left() * frac))
            rr = pool.run([dict(root=x, bound=n, deadline=dl, second=False, maxfail=4) for x in todo])
            for x in todo:
                ok = not bad(rr[x]) and not rr[x]['err']
                if rr[x]['err'] and not bad(rr[x]) and x in bres and bres[x]['ok']:
                    continue
                bres[x] = {'r': rr[x], 'bound': n, 'ok': ok}
                if not bad(rr[x]) and rr[x]['err']:
                    bres[x]['ok'] = None
            for x in todo:
                replays(x, rr[x])
    for x in rerun:
        rep = report[x]
        b = bres.get(x)
        fails = []
        if b and bad(b['r']):
            fails = b['r']['fails']
            nofail += [(x, f) for f in fails if f['status'] == 'refuted' and not (f.get('native') and confirms(f['label'], f['native']))]
        refuted = [f for f in rep['unbounded']['fails'] if f['status'] == 'refuted']
        if b and b['ok']:
            rep['mode'] = 'bounded stand-in (sequences of at most %d elements)' % b['bound']
        elif b and b['ok'] is None:
            rep['mode'] = 'bounded stand-in, incomplete: %s' % b['r']['err']
        elif not b:
            rep['mode'] = 'not decided'
        else:
            rep['mode'] = 'not decided: counterexamples of the verifier do not fail on the compiled code'
        if refuted and not fails and not (b and b['ok']):
            nofail += [(x, f) for f in refuted]
        if rep['missing'] and not rep['unbounded']['err']:
            rep['mode'] += '; unreachable covers: %s' % ', '.join(rep['missing'])
    # a refutation found in a bounded run is dropped when the compiled code, run on that very counterexample to its
    # end, meets the obligation: the counterexample is then an artefact of the encoding, not a behaviour of the code
    nofail = [v for v in nofail if not spurious(v[1])]
    violations = [v for v in violations if not is_known(v[0], v[1])]
    conf = {(x, f['label']) for x, f, _ in violations}
    nofail = [v for v in nofail if not is_known(v[0], v[1]) and (v[0], v[1]['label']) not in conf]
    for text in hits:
        print('KNOWN-FINDING: property=%s %s' % (pid, text))
    rc = 0
    os.makedirs(os.path.join(VERIF, 'build', 'replays'), exist_ok=True)
    if violations or nofail:
        rc = 1
        if violations:
            x, f, o = violations[0]
        else:
            x, f = nofail[0]
            o = f.get('native')
        path = os.path.join(VERIF, 'build', 'replays', '%s.json' % pid)
        json.dump({'property': pid, 'root': x, 'obligation': f['label'], 'status': f['status'], 'cex': f.get('cex'),
                   'native': o, 'formula': f['cond'], 'path': f['path'],
                   'how_to_replay': 'tools/native.sh %s; build/rt/debug/replay <this file>' % FEATURE.get(pid[0], 'gov'),
                   'all': sorted({'%s: %s' % (a, c['label']) for a, c, *_ in violations + nofail})}, open(path, 'w'), indent=1)
        print('failed obligation: %s in contract %s' % (f['label'], x))
        print('VIOLATION property=%s replay=%s%s' % (pid, path, '' if violations else ' no-failing-input-found'))
    evidence(pid, tier, seed, t0, P, roots, report, bres, rc, violations, nofail, hits, native)
    return rc


def expected_covers(P, root):
    """labels of rt::cover calls in the contract body (vacuity guard)"""
    out = set()
    f = P.fns[P.roots[root]]
    for bl in (f['body'] or {}).get('blocks', []):
        if bl and bl['t'][0] == 'call' and isinstance(bl['t'][1], int):
            g = P.fns[bl['t'][1]]
            if g['p'] == 'rt::cover':
                a = bl['t'][2][0]
                if a[0] == 'k' and a[1][0] == 'str':
                    out.add(a[1][1])
    return out


TRUSTED = [
    "rustc's MIR construction and monomorphisation (nightly 1.101); the MIR of /repo's functions is exported unchanged on every run",
    "the verifier itself (engine/*.py): symbolic semantics of MIR, path exploration, quantifier generation",
    "z3 4.x (and cvc5 1.1.2 in the thorough tier) as the discharging back ends",
    "FRAME's dispatch layer: an extrinsic that returns Err has its storage changes rolled back; contracts judge calls that return Ok, and calls that must fail",
    "storage keys of different items or different keys do not collide (FRAME prefixes and hashers are injective)",
    "ghost environment harness/src/ghost.rs: contracts of the fungible, scheduler, preimage and membership traits the pallets are generic over",
    "blake2 hashing as an uninterpreted function; events, logging and weights ignored",
]


def evidence(pid, tier, seed, t0, P, roots, report, bres, rc, violations, nofail, hits, native):
    obl = dis = bobl = 0
    insts = 0
    per = []
    used = set()
    pr = set()
    solver = 0.0
    bounded = []
    for x in roots:
        r = report[x]['unbounded']
        b = bad(r)
        solver += r['solver']
        used |= r['used']
        pr |= r['prims']
        n = len(r['obl']) + 1
        ok = 0 if r['err'] else n - len({k for k in b if not k.startswith('no panic')}) - (1 if r['panics'] else 0)
        if report[x]['mode'].startswith('bounded stand-in') and x not in bres:
            bobl += n
        else:
            obl += n
            dis += ok
        insts += sum(sum(v) for v in r['obl'].values())
        e = {'contract': x, 'mode': report[x]['mode'], 'obligations': n, 'discharged': ok, 'paths': r['paths'],
             'instances': sum(sum(v) for v in r['obl'].values()), 'solver_s': round(r['solver'], 2), 'wall_s': round(r['wall'], 2),
             'covers': sorted(r['covers'])}
        if r['err']:
            e['outside_reach'] = r['err']
        if b:
            e['not_discharged'] = b
        if x in bres or report[x]['mode'].startswith('bounded'):
            bounded.append(x)
        if x in bres:
            e['bounded'] = {'bound': bres[x]['bound'], 'held': bres[x]['ok'], 'paths': bres[x]['r']['paths']}
        per.append(e)
    inrepo = sorted(u for u in used if ('pallet_democracy' in u or 'pallet_elections_phragmen' in u or 'on_slash_vesting' in u
                                         or 'linear_release' in u or 'pallet_funding' in u or 'proxy_bonding' in u or 'dispenser' in u or 'parachain_staking' in u or 'polimec_common' in u or 'polimec_receiver' in u) and 'deposit_event' not in u)
    lvl = json.load(open(os.path.join(VERIF, 'MANIFEST.json')))
    level = next((c['level'] for c in lvl['checks'] if c['property'] == pid), 'proof')
    cov = {
        'native_runs': len(native),
        'obligations': obl, 'discharged': dis,
        'checker_cmd': './check %s' % pid,
        'trusted_base': TRUSTED + ['function specifications used instead of bodies: ' + ', '.join(sorted(
            {p for p in pr if not p.startswith(('rt::',)) and not re.match(r'(core|std)::(intrinsics|panicking|fmt)', p)}))[:6000]],
        'contracts': per,
        'functions_under_contract': inrepo,
        'bounded_stand_ins': bounded,
        'bounded_obligations': bobl,
        'obligation_instances_over_paths': insts,
        'back_end': 'z3' + (' + cvc5' if tier == 'thorough' else ''),
        'solver_s': round(solver, 1),
        'explanation': 'each obligation is one named postcondition (plus absence of panics) of a contract, discharged on every '
                       'path of the MIR of /repo with no bound on sequence lengths unless the contract is listed under bounded_stand_ins',
    }
    if len(json.dumps(cov)) > 55000:
        cov['functions_under_contract'] = inrepo[:150]
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov,
          'assumptions': ['preconditions stated by the contracts (balances, issuance and tallies below 2^120; well-formed stored '
                          'lists where the contract says so)', 'machine arithmetic is exact (wrapping and overflow modelled)'],
          'wall_s': round(time.time() - t0, 2), 'violations': len(violations) + len(nofail)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w'), indent=1)
    print('%s: %d/%d obligations discharged over %d contracts, %d paths, %.1fs%s' % (
        pid, dis, obl, len(roots), sum(report[x]['unbounded']['paths'] for x in roots), time.time() - t0,
        '; bounded: ' + ', '.join(bounded) if bounded else ''))


if __name__ == '__main__':
    sys.exit(main())
