#!/usr/bin/env python3
"""Decide one property of libswoc: run.py PROPERTY [--tier quick|thorough]

 1. design:      TLC checks the specification's own invariants exhaustively for small constants (MC_*.cfg).
 2. generation:  (some properties) TLC enumerates / simulates behaviours of the specification; they become scripts.
 3. conformance: the harness (built here from /repo's working tree) drives the real code - seeded random, systematic
                 and spec generated operations - and records a trace; TLC validates every event of every episode
                 against the specification's actions.
Exit 0: held on everything explored.  Exit 1 + VIOLATION line: a recorded execution is not a behaviour of the spec
(or the specification itself violates an invariant).  Anything else: an error of the check.
"""
import sys, os, json, re, time, subprocess, hashlib, shutil, tempfile, argparse
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VT_REPO', '/repo')
SPEC = os.path.join(VERIF, 'spec')
HARN = os.path.join(VERIF, 'harness')
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
CXX = 'clang++-18'
BASE_FLAGS = ['-std=c++17', '-O1', '-g1', '-fno-omit-frame-pointer', '-pthread', '-w']
NCPU = os.cpu_count() or 4
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS  # noqa: E402


class CheckError(Exception):
    pass


def log(*a):
    print(*a, flush=True)


# ------------------------------------------------------------------------------------------------- build
def tree_hash(flags):
    h = hashlib.sha256()
    h.update(' '.join([CXX] + flags).encode())
    for root, dirs, files in sorted(os.walk(os.path.join(REPO, 'code'))):
        dirs.sort()
        for f in sorted(files):
            p = os.path.join(root, f)
            h.update(os.path.relpath(p, REPO).encode())
            with open(p, 'rb') as fh:
                h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:20]


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)


def build(harness, san):
    """Compile the library from the working tree and the harness; content addressed, so a stale object is never used."""
    flags = BASE_FLAGS + (['-fsanitize=address'] if san else [])
    th = tree_hash(flags)
    bdir = os.path.join(os.environ.get('VT_BUILD', os.path.join(VERIF, '.build')), th)
    os.makedirs(bdir, exist_ok=True)
    inc = ['-I', os.path.join(REPO, 'code/include'), '-I', HARN]
    jobs = []
    objs = []
    src = os.path.join(REPO, 'code/src')
    for f in sorted(os.listdir(src)):
        if f.endswith('.cc'):
            o = os.path.join(bdir, f + '.o')
            objs.append(o)
            if not os.path.exists(o):
                jobs.append((os.path.join(src, f), o))
    hsrc = os.path.join(HARN, harness)
    hh = hashlib.sha256()
    for f in sorted(os.listdir(HARN)):
        if f == harness or f.endswith('.h'):
            hh.update(open(os.path.join(HARN, f), 'rb').read())
    hh = hh.hexdigest()[:12]
    ho = os.path.join(bdir, f'{harness}.{hh}.o')
    exe = os.path.join(bdir, f'{harness}.{hh}.exe')
    if os.path.exists(exe):
        return exe
    if not os.path.exists(ho):
        jobs.insert(0, (hsrc, ho))

    def comp(job):
        s, o = job
        tmp = o + f'.tmp{os.getpid()}'
        r = sh([CXX] + flags + inc + ['-c', s, '-o', tmp])
        if r.returncode == 0:
            os.rename(tmp, o)
        return s, r
    with ThreadPoolExecutor(NCPU) as ex:
        for s, r in ex.map(comp, jobs):
            if r.returncode != 0:
                raise CheckError(f'compilation of {s} failed:\n' + r.stdout[-6000:])
    tmp = exe + f'.tmp{os.getpid()}'
    r = sh([CXX] + flags + [ho] + objs + ['-o', tmp])
    if r.returncode != 0:
        raise CheckError('link failed:\n' + r.stdout[-6000:])
    os.rename(tmp, exe)
    return exe


# ------------------------------------------------------------------------------------------------- TLC
STATS = re.compile(r'(\d+) states generated, (\d+) distinct states found')
LEFT = re.compile(r'(\d+) states left on queue')
INITS = re.compile(r'Finished computing initial states: (\d+) (?:distinct )?states?')


class TlcResult:
    pass


def tlc(work, module, cfg, env=None, extra=(), timeout=800, workers=None, stop=0):
    """stop: end the exploration, breadth first, after that many seconds. The result says if states were left."""
    md = tempfile.mkdtemp(prefix='md', dir=work)
    e = dict(os.environ)
    e.pop('JAVA_TOOL_OPTIONS', None)
    e.update(env or {})
    cmd = ['java', '-XX:+UseParallelGC', '-Xss64m', '-Xmx10g', '-Djava.io.tmpdir=' + md, *([f'-Dtlc2.TLC.stopAfter={stop}'] if stop else []), '-cp', JARS, 'tlc2.TLC', '-workers', str(workers or NCPU), '-metadir', md,
           '-noGenerateSpecTE', '-config', cfg, *extra, module + '.tla']
    try:
        p = subprocess.run(cmd, cwd=os.path.join(work, 'spec'), env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           errors='replace', timeout=timeout)
    except subprocess.TimeoutExpired as x:
        raise CheckError(f'TLC timed out on {module}/{cfg}: {(x.stdout or b"")[-500:]}')
    r = TlcResult()
    r.rc, r.out = p.returncode, p.stdout
    m = STATS.findall(p.stdout)
    r.generated, r.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
    m = LEFT.findall(p.stdout)
    r.left = int(m[-1]) if m else 0
    m = INITS.search(p.stdout)
    r.inits = int(m.group(1)) if m else 0
    shutil.rmtree(md, ignore_errors=True)
    return r


def last_state(out):
    """(tid, l) of the last state printed in an error trace."""
    tid = re.findall(r'(?:^|\n)\s*(?:/\\ )?tid = (\d+)', out)
    ll = re.findall(r'(?:^|\n)\s*(?:/\\ )?l = (\d+)', out)
    if tid and ll:
        return int(tid[-1]), int(ll[-1])
    return None


CHUNK = 48 << 20  # TLC holds a whole trace file in memory, at many times its size.


def validate(work, module, trace, cfg=None):
    """-> (ok, tlcresult, (line, event) or None)"""
    if os.path.getsize(trace) <= CHUNK:
        return validate_part(work, module, trace, cfg)
    total, base = None, 0
    with open(trace) as f:
        while True:
            lines = f.readlines(CHUNK)
            if not lines:
                return True, total, None
            part = trace + '.part'
            with open(part, 'w') as o:
                o.writelines(lines)
            ok, r, pos = validate_part(work, module, part, cfg)
            os.unlink(part)
            if not ok:
                return False, r, (base + pos[0], pos[1])
            base += len(lines)
            if total is None:
                total = r
            else:
                total.generated += r.generated
                total.distinct += r.distinct
                total.inits += r.inits


def validate_part(work, module, trace, cfg=None):
    r = tlc(work, module, cfg or (module + '.cfg'), env={'VT_TRACE': trace})
    if r.rc == 0:
        return True, r, None
    pos = last_state(r.out)
    # 11 deadlock = event not explained; 12/13 = invariant / property of the spec broken along the trace.
    if r.rc in (11, 12, 13) and pos:
        return False, r, pos
    # A deterministic evaluation failure at an event: the event is not a well formed behaviour of the spec.
    if pos and ('Error evaluating' in r.out or 'Attempted to' in r.out or 'TLC threw' in r.out or 'was not in the domain' in r.out
                or 'The error occurred when TLC was evaluating' in r.out or r.rc in (75, 76, 77, 150, 151, 152, 153)):
        return False, r, pos
    # The same in an initial state, which TLC does not print: find an episode it fails on.
    if not pos and ('Error evaluating' in r.out or 'Attempted to' in r.out or 'The error occurred when TLC was evaluating' in r.out):
        with open(trace) as f:
            eps = f.readlines()
        for i, x in enumerate(eps, 1):
            ev = json.loads(x)['e']
            if ev and ev[0]['op'] in ('CRASH', 'THROW'):
                return False, r, (i, 1)
        if len(eps) == 1:
            return False, r, (1, 1)
        half = len(eps) // 2
        for base, part in ((0, eps[:half]), (half, eps[half:])):
            t = trace + f'.{base}'
            with open(t, 'w') as f:
                f.writelines(part)
            ok, r2, p2 = validate_part(work, module, t, cfg)
            os.unlink(t)
            if not ok:
                return False, r2, (base + p2[0], p2[1])
    raise CheckError(f'TLC failed (rc={r.rc}) on {module}:\n' + r.out[-5000:])


# ------------------------------------------------------------------------------------------------- check
def run_harness(exe, work, tag, tier, seed, mode='', script=None, only=None, episodes=None, nshards=None):
    env = dict(os.environ)
    env['ASAN_OPTIONS'] = 'detect_leaks=0:exitcode=98:allocator_may_return_null=1:detect_stack_use_after_return=0:handle_abort=1:hard_rss_limit_mb=3000'
    env['VT_SCRATCH'] = os.path.join(work, 'scratch')
    os.makedirs(env['VT_SCRATCH'], exist_ok=True)
    n = 1 if only is not None else (nshards or NCPU)
    procs = []
    outs = []
    for i in range(n):
        out = os.path.join(work, f'{tag}.{i}.ndjson')
        outs.append(out)
        cmd = [exe, '--out', out, '--shard', str(i), '--nshards', str(n), '--seed', str(seed), '--tier', tier]
        if mode:
            cmd += ['--mode', mode]
        if script:
            cmd += ['--script', script]
        if only is not None:
            cmd += ['--only', str(only)]
        if episodes is not None:
            cmd += ['--episodes', str(episodes)]
        procs.append(subprocess.Popen(cmd, env=env, cwd=work, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace'))
    for p in procs:
        o, _ = p.communicate()
        if p.returncode != 0:
            raise CheckError(f'harness failed rc={p.returncode}: {o[-2000:]}')
    trace = os.path.join(work, f'{tag}.ndjson')
    with open(trace, 'w') as fo:
        for o in outs:
            with open(o) as fi:
                shutil.copyfileobj(fi, fo)
            os.unlink(o)
    return trace


def read_line(trace, n):
    with open(trace) as f:
        for i, line in enumerate(f, 1):
            if i == n:
                return json.loads(line)
    return None


def abbreviate(x, n=700):
    s = json.dumps(x)
    return s if len(s) <= n else s[:n] + '...'


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--keep', action='store_true')
    ap.add_argument('--conf-only', action='store_true', help='developer aid: skip the design checks')
    ap.add_argument('--episodes', type=int)
    a = ap.parse_args()
    if a.tier not in ('quick', 'thorough'):
        a.tier = 'quick'
    cfg = PROPS[a.prop]
    t0 = time.time()
    work = tempfile.mkdtemp(prefix='vt-%s-' % a.prop)
    shutil.copytree(SPEC, os.path.join(work, 'spec'))
    cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[], events_validated=0, operations={}, design=[], conformance=[])
    violations = []
    try:
        # ---- build in the background of the design check.
        with ThreadPoolExecutor(4) as ex:
            builds = {}
            for c in cfg['conf']:
                key = (c['harness'], c.get('san', True))
                if key not in builds:
                    builds[key] = ex.submit(build, *key)
            if not a.conf_only:
                for mc in cfg.get('mc', []):
                    mcfg = mc.get('thorough', mc['quick']) if a.tier == 'thorough' else mc['quick']
                    r = tlc(work, mc['module'], mcfg, extra=mc.get('extra', ()), stop=360 // len(cfg['mc']) if a.tier == 'thorough' else 0)
                    if r.rc in (10, 11, 12, 13):
                        rp = save_replay(a.prop, dict(kind='design', module=mc['module'], cfg=mcfg, tlc=r.out[-8000:]))
                        violations.append(rp)
                        log('design violation in', mc['module'], mcfg, r.out[-1500:])
                        continue
                    if r.rc != 0:
                        raise CheckError(f"TLC failed (rc={r.rc}) on {mc['module']}/{mcfg}:\n" + r.out[-5000:])
                    cov['states'] += r.distinct
                    cov['transitions'] += max(0, r.generated - r.inits)
                    cov['design'].append(dict(module=mc['module'], cfg=mcfg, states=r.distinct, transitions=max(0, r.generated - r.inits),
                                              what=mc.get('what', ''), exhausted=r.left == 0, left=r.left))
            exes = {k: f.result() for k, f in builds.items()}
        log(f'[{a.prop}] design + build done at {time.time()-t0:.1f}s')
        for n, c in enumerate(cfg['conf']):
            if violations:
                break
            exe = exes[(c['harness'], c.get('san', True))]
            script = None
            gen_n = 0
            if c.get('gen'):
                g = c['gen']
                gcfg = g.get('thorough', g['quick']) if a.tier == 'thorough' else g['quick']
                script, gen_n, gr = generate(work, g, gcfg, n, a)
                cov['design'].append(dict(module=g['module'], cfg=gcfg, generated_behaviours=gen_n, what='behaviours of the specification replayed into the code'))
            tag = f'trace{n}'
            neps_wanted = a.episodes or (c['episodes'][1 if a.tier == 'thorough' else 0] if c.get('episodes') else None)
            trace = run_harness(exe, work, tag, a.tier, a.seed, c.get('mode', ''), script, episodes=neps_wanted)
            ops = {}
            neps = nev = 0
            with open(trace) as f:
                for line in f:
                    neps += 1
                    ep = json.loads(line)
                    nev += len(ep['e'])
                    for e in ep['e']:
                        ops[e['op']] = ops.get(e['op'], 0) + 1
                    if len(cov['samples']) < 3 + n and ep['e']:
                        cov['samples'].append(abbreviate(dict(episode=ep['id'], events=ep['e'][:4])))
            tt = time.time()
            ok, r, pos = validate(work, c['trace'], trace)
            if ok:
                cov['states'] += r.distinct
                cov['transitions'] += max(0, r.generated - r.inits)
                cov['traces_validated_against_impl'] += neps
                cov['events_validated'] += nev
                for k, v in ops.items():
                    cov['operations'][k] = cov['operations'].get(k, 0) + v
                cov['conformance'].append(dict(trace_spec=c['trace'], harness=c['harness'], mode=c.get('mode', ''), episodes=neps, events=nev,
                                               spec_generated_episodes=gen_n, states=r.distinct, validate_s=round(time.time() - tt, 1)))
                log(f"[{a.prop}] {c['trace']} {c.get('mode','')}: {neps} episodes, {nev} events, {r.distinct} states, validated in {time.time()-tt:.1f}s")
                continue
            ep = read_line(trace, pos[0])
            repeated = False
            for attempt in range(3):
                t2 = run_harness(exe, work, f're{n}', a.tier, a.seed, c.get('mode', ''), script, only=ep['id'], episodes=neps_wanted)
                ok2, r2, pos2 = validate(work, c['trace'], t2)
                if not ok2:
                    repeated = True
                    ep, pos, r = read_line(t2, pos2[0]), pos2, r2
                    break
            if not repeated:
                # A recorded execution is still rejected by the specification; accept only if not a crash.
                ev = ep['e'][pos[1] - 1] if pos[1] <= len(ep['e']) else {}
                one = os.path.join(work, 'one.ndjson')
                with open(one, 'w') as f:
                    f.write(json.dumps(ep) + '\n')
                ok3, r3, _ = validate(work, c['trace'], one)
                if ok3 or ev.get('op') == 'CRASH':
                    raise CheckError('rejection did not repeat: ' + abbreviate(ev))
            k = pos[1]
            ev = ep['e'][k - 1] if k <= len(ep['e']) else None
            rp = save_replay(a.prop, dict(kind='conformance', property=a.prop, trace_spec=c['trace'], harness=c['harness'], mode=c.get('mode', ''),
                                          episode=ep['id'], seed=a.seed, tier=a.tier, rejected_event_index=k, rejected_event=ev,
                                          prefix=ep['e'][:k], tlc_tail=r.out[-3000:],
                                          rerun=f"{exe} --out t.ndjson --seed {a.seed} --tier {a.tier} --mode '{c.get('mode','')}' --only {ep['id']}"))
            log(f'[{a.prop}] episode {ep["id"]} event {k} rejected: {abbreviate(ev, 1500)}')
            violations.append(rp)
        for kf in known_findings(a.prop):
            log(kf)
    except CheckError as x:
        log(f'[{a.prop}] CHECK ERROR: {x}')
        cleanup(work, a.keep)
        return 2
    ev = dict(property=a.prop, tier=a.tier, seed=a.seed, level='model_checking', coverage=cov, wall_s=round(time.time() - t0, 2),
              violations=len(violations), assumptions=cfg.get('assumptions', []))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', a.prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    cleanup(work, a.keep)
    for rp in violations:
        log(f'VIOLATION property={a.prop} replay={rp}')
    log(f'[{a.prop}] {"FAILED" if violations else "ok"} in {time.time()-t0:.1f}s')
    return 1 if violations else 0


def generate(work, g, gcfg, n, a):
    """Behaviours of the specification -> script file. The spec prints lines  "@@ tok tok tok"; "@@--" ends a behaviour."""
    extra = list(g.get('extra', ()))
    if g.get('simulate'):
        num = g['simulate'][1 if a.tier == 'thorough' else 0]
        extra += ['-simulate', f'num={num}', '-depth', str(g.get('depth', 20)), '-seed', str(a.seed)]
    r = tlc(work, g['module'], gcfg, extra=extra, workers=1)
    if r.rc != 0:
        raise CheckError(f"generation {g['module']} failed rc={r.rc}:\n" + r.out[-4000:])
    lines = []
    for m in re.finditer(r'^"@@(.*)"$', r.out, re.M):
        lines.append(m.group(1).strip())
    path = os.path.join(work, f'script{n}.txt')
    with open(path, 'w') as f:
        f.write('\n'.join(lines) + '\n')
    return path, sum(1 for x in lines if x == '--') or (1 if lines else 0), r


def known_findings(prop):
    p = os.path.join(VERIF, 'known_findings.txt')
    out = []
    if os.path.exists(p):
        for line in open(p):
            if line.startswith('KNOWN-FINDING: property=%s ' % prop):
                out.append(line.strip())
    return out


def save_replay(prop, data):
    d = os.path.join(VERIF, 'evidence', 'replay')
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, f'{prop}-{os.getpid()}.json')
    with open(p, 'w') as f:
        json.dump(data, f, indent=1)
    return p


def cleanup(work, keep):
    if keep:
        log('work dir', work)
    else:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == '__main__':
    sys.exit(main())
