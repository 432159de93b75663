#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough]: decide one property by symbolic execution of the real code.

1. build the executor (engine/) if it is not built;
2. compile /repo's current tree with the property's harnesses to LLVM IR (bin/mkir.sh);
3. execute every harness symbolically: all paths, z3 decides/certifies every branch and assertion;
4. replay each counterexample natively against the real crate (native/), and report what reproduces;
5. replay a random selection of explored paths natively and compare the observed results;
6. write evidence/ID.json.
"""
import fcntl, glob, hashlib, json, os, shutil, subprocess, sys, threading, time
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
from props import PROPS  # noqa: E402
T = os.path.join(V, 'target')
ENV = dict(os.environ, RUSTUP_TOOLCHAIN='stable', CARGO_NET_OFFLINE='true', CARGO_INCREMENTAL='0')
QUIET = ('ok', 'assumed', 'badinput', 'nohar')
t_start = time.time()


def log(*a):
    print(*a, flush=True)


def die(msg):
    log('CHECK-ERROR', msg)
    sys.exit(2)


def solver_env():
    """the newer z3 of the Python tools is about twice as fast with threads; the system's one does as well"""
    new = sorted(glob.glob('/opt/veriftools/pyvenv/lib/python3*/site-packages/z3/lib/libz3.so'))
    return dict(os.environ, LD_PRELOAD=new[-1]) if new else dict(os.environ)


def build_engine():
    r = subprocess.run(['cargo', 'build', '--release', '--offline', '--target-dir', T + '/engine'], cwd=V + '/engine', env=ENV, capture_output=True, text=True)
    if r.returncode:
        die('engine build failed\n' + r.stderr[-3000:])
    return T + '/engine/release/symx'


def build_native(feat, res):
    """dev profile: overflow checks and debug assertions on, real hasher, real std."""
    d = f'{T}/nat-{feat}'
    r = subprocess.run(['cargo', 'build', '--offline', '--no-default-features', '--features', feat, '--target-dir', d], cwd=V + '/native', env=ENV, capture_output=True, text=True)
    res['native'] = d + '/debug/native' if r.returncode == 0 else None
    res['native_log'] = r.stderr[-3000:]


def replay(native, har, hexb, timeout=20):
    """outcome and output hash of one concrete case on the real code, in a process of its own"""
    try:
        r = subprocess.run(['bash', '-c', 'ulimit -v 6000000; ulimit -c 0; exec ' + native], input=f'{har} x{hexb}\n', capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        return 'hang', '0'
    o = r.stdout.split()
    if len(o) < 2:
        return f'crash:{r.returncode}', '0'
    return o[0], o[1]


def replay_many(native, cases):
    """cases: [(harness, hex)] -> [(outcome, hash)], batched; a batch that dies is redone one by one"""
    out = [None] * len(cases)
    step = max(1, (len(cases) + 7) // 8)

    def work(lo):
        part = cases[lo:lo + step]
        inp = ''.join(f'{h} x{b}\n' for h, b in part)
        try:
            r = subprocess.run([native], input=inp, capture_output=True, text=True, timeout=60)
            lines = r.stdout.splitlines()
        except subprocess.TimeoutExpired:
            lines = []
        if len(lines) == len(part):
            for i, l in enumerate(lines):
                out[lo + i] = tuple(l.split()[:2])
        else:
            for i, (h, b) in enumerate(part):
                out[lo + i] = replay(native, h, b, 10)

    ts = [threading.Thread(target=work, args=(lo,)) for lo in range(0, len(cases), step)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    return out


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    P = PROPS[pid]
    feat = pid.lower()
    os.makedirs(T, exist_ok=True)
    lock = open(f'{T}/lock-{pid}', 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    evf = f'{V}/evidence/{pid}.json'
    os.makedirs(V + '/evidence', exist_ok=True)
    if os.path.exists(evf):
        os.remove(evf)
    hs = list(P['harness'])
    if tier == 'thorough':
        hs += P.get('thorough', [])
    budget = P.get('time', 400) if tier == 'quick' else P.get('thorough_time', 3000)
    nat = {}
    nt = threading.Thread(target=build_native, args=(feat, nat))
    nt.start()
    eng = build_engine()
    ll = f'{T}/{pid}.ll'
    t0 = time.time()
    r = subprocess.run([V + '/bin/mkir.sh', ll, feat] + hs, env=dict(ENV, VP_TARGET=f'{T}/sym-{feat}'), capture_output=True, text=True)
    if r.returncode:
        die('harness build failed\n' + (r.stderr or r.stdout)[-4000:])
    t_ir = time.time() - t0
    out = f'{T}/{pid}.json'
    t0 = time.time()
    cmd = [eng, ll, '--harness', ','.join(hs), '--threads', '8', '--time', str(budget), '--seed', str(seed), '--samples', '40', '--viol-samples', '4', '--stop-viols', '400', '--steps', str(P.get('steps', 8000000)), '--out', out]
    r = subprocess.run(cmd, capture_output=True, text=True, env=solver_env())
    if r.returncode:
        die('executor failed\n' + r.stderr[-3000:])
    t_ex = time.time() - t0
    res = json.load(open(out))
    z3v = res['z3']
    res = res['harnesses']
    os.remove(ll)
    nt.join()
    native = nat.get('native')
    if not native:
        die('native replay build failed\n' + nat.get('native_log', ''))

    # --- counterexamples, replayed on the real code
    known = {}
    kf = V + '/known-findings.jsonl'
    if os.path.exists(kf):
        for l in open(kf):
            l = l.strip()
            if l and not l.startswith('#'):
                k = json.loads(l)
                if k.get('status') == 'known' and k['property'] == pid:
                    known[(k['harness'], k['bytes'])] = k
    viol, unconf, seen_known = [], [], {}
    for h in res:
        for v in h['violations']:
            hit = None
            for b in v['samples']:
                if (h['name'], b) in known:
                    seen_known[(h['name'], b)] = 1
                    continue
                o, _ = replay(native, h['name'], b)
                if o not in QUIET:
                    hit = dict(harness=h['name'], bytes=b, engine=f"{v['kind']}:{v['key']}", native=o, paths=v['count'])
                    break
                unconf.append(dict(harness=h['name'], bytes=b, engine=f"{v['kind']}:{v['key']}", native=o))
            if hit:
                viol.append(hit)
        # a path the executor could not finish: its input still runs on the real code
        for e in h['errors']:
            b = e['sample']
            if (h['name'], b) not in known:
                o, _ = replay(native, h['name'], b)
                if o not in QUIET:
                    viol.append(dict(harness=h['name'], bytes=b, engine='unfinished: ' + e['msg'][:120], native=o, paths=e['count']))
    # --- translator validation: explored paths against the real code
    cases = [(h['name'], s['bytes'], s) for h in res for s in h['samples'] if s['outcome'] in ('ok', 'assumed')]
    got = replay_many(native, [(h, b) for h, b, _ in cases])
    mism = []
    nval = 0
    for (h, b, s), g in zip(cases, got):
        same = g is not None and g[0] == s['outcome'] and (s['outcome'] != 'ok' or g[1] == s['hash'])
        nval += same
        if not same and g is not None and g[0] not in QUIET and (h, b) not in known and not any(v['harness'] == h for v in viol):
            # fine in the symbolic build, but the real code (with its real hasher) fails on this input
            o, _ = replay(native, h, b)
            if o not in QUIET:
                viol.append(dict(harness=h, bytes=b, engine=s['outcome'], native=o, paths=1))
        if not same:
            mism.append(dict(harness=h, bytes=b, engine=[s['outcome'], s['hash']], native=g))
    # --- vacuity witnesses
    vac = []
    for h in res:
        for c in P.get('covers', {}).get(h['name'], P.get('cover_all', [])):
            if h['complete'] and str(c) not in h['covers']:
                vac.append(f"{h['name']}:{c}")
    incomplete = [h['name'] for h in res if not h['complete'] or h['errors']]
    tot = lambda k: sum(h[k] for h in res)  # noqa: E731
    fn = sorted({f for h in res for f in h['functions']})
    mine = [f for f in fn if 'yaml_peg' in f]
    samples = []
    for h in res[:8]:
        for s in h['samples'][:3]:
            samples.append(dict(harness=h['name'], input=s['bytes'], outcome=s['outcome'], observed=s['hash']))
    cov = dict(
        states=tot('paths'), transitions=tot('decisions'), traces_validated_against_impl=nval, samples=samples,
        exhaustive=not incomplete and tot('unknown') == 0,
        solver=z3v, technique='symbolic execution of the LLVM IR of /repo (all paths), z3 deciding branch feasibility and assertions',
        bounds=P['bounds'],
        functions_encoded=len(fn), functions_encoded_of_crate=len(mine), crate_functions=[f[-110:] for f in mine][:60],
        queries=dict(total=tot('queries'), unsat=tot('unsat'), sat=tot('sat'), unknown=tot('unknown'), certificates=tot('cert')),
        solver_s=round(tot('solver_s'), 2), engine_s=round(t_ex, 1), ir_build_s=round(t_ir, 1), instructions=tot('instrs'),
        assertions_checked=tot('asserts'), assertions_symbolic=tot('sym_asserts'),
        vacuity_witness_missing=vac, incomplete_harnesses=incomplete, engine_errors=[e for h in res for e in h['errors']][:10],
        native_mismatches=mism[:10], unconfirmed=unconf[:10],
        harnesses=[dict(name=h['name'], complete=h['complete'], paths=h['paths'], assumed=h['assumed'], decisions=h['decisions'], queries=h['queries'],
                        solver_s=h['solver_s'], wall_s=h['wall_s'], input_space_covered=h['measure'] if h['nonbox'] == 0 else None, max_steps=h['max_steps'],
                        witnesses=h['covers']) for h in res])
    ev = dict(property=pid, tier=tier, seed=seed, level='model_checking', coverage=cov, assumptions=P.get('assumptions', []) + COMMON, wall_s=round(time.time() - t_start, 1), violations=len(viol))
    json.dump(ev, open(evf, 'w'), indent=1)
    for h in res:
        log(f"{h['name']}: {'complete' if h['complete'] else 'INCOMPLETE'} paths={h['paths']} queries={h['queries']} solver={h['solver_s']:.1f}s wall={h['wall_s']:.1f}s viol={sum(v['count'] for v in h['violations'])} covers={h['covers']}" + (f" ERRORS {h['errors'][:2]}" if h['errors'] else ''))
    log(f"ir {t_ir:.1f}s exec {t_ex:.1f}s validated {nval}/{len(cases)} total {time.time() - t_start:.1f}s")
    if mism:
        log('WARNING native mismatch', mism[:3])
    if unconf:
        log('WARNING unconfirmed counterexample', unconf[:3])
    if vac:
        log('WARNING vacuity witness missing', vac)
    for k in seen_known:
        log(f"KNOWN-FINDING: property={pid} {known[k]['what']}")
    if viol:
        rd = f'{V}/out/{pid}'
        shutil.rmtree(rd, ignore_errors=True)
        os.makedirs(rd)
        for i, v in enumerate(viol):
            p = f'{rd}/{i}.json'
            v['replay_cmd'] = f"echo '{v['harness']} x{v['bytes']}' | {native}"
            v['bytes_ascii'] = repr(bytes.fromhex(v['bytes']))
            json.dump(v, open(p, 'w'), indent=1)
            log(f"  {v['harness']} input={v['bytes_ascii']} engine={v['engine']} native={v['native']} paths={v['paths']}")
            log(f'VIOLATION property={pid} replay={p}')
        sys.exit(1)
    sys.exit(0)


COMMON = [
    'LLVM IR of a fat-LTO release build (opt-level 1 then O2 passes, overflow checks on, panic=abort) stands for the crate; 64-bit little endian',
    'the default hasher (ahash) is replaced by a constant hash in the symbolic build: the containers see every key collide; native replays use the real hasher',
    'allocation never fails below 64 MB and freed memory is not reused; the 16 MB stack and 3M-step limits are the definitions of runaway recursion and of an endless loop, both confirmed natively before being reported',
    'inputs outside the stated bounds are not covered',
]
if __name__ == '__main__':
    main()
