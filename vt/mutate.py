#!/usr/bin/env python3
"""Authoring tool (not used by any check): random small mutations of /repo's sources, judged by the checks of the properties
anchored there.  mutate.py SEED COUNT [FILE ...]  prints the mutations no check rejects.  Works in /tmp/mutate.<seed>."""
import os, re, sys, random, shutil, subprocess, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = f'/tmp/mutate.{sys.argv[1]}'
CORES = os.environ.get('CORES', '0-7')
H, S = 'code/include/swoc/', 'code/src/'
FILES = {
    H + 'MemArena.h': 'C01 C02 C03', S + 'MemArena.cc': 'C01 C02', H + 'DiscreteRange.h': 'C04 C05', H + 'IPRange.h': 'C11 C06 C08 C07',
    H + 'IPAddr.h': 'C10 C09', H + 'IPSrv.h': 'C12', H + 'IPEndpoint.h': 'C12', S + 'swoc_ip.cc': 'C10 C09 C11 C07 C12', S + 'bw_ip_format.cc': 'C09 C11 C12',
    H + 'TextView.h': 'C13 C14 C15', S + 'TextView.cc': 'C14 C15 C13', S + 'string_view_util.cc': 'C15', H + 'BufferWriter.h': 'C16',
    H + 'ArenaWriter.h': 'C17', S + 'ArenaWriter.cc': 'C17', S + 'bw_format.cc': 'C18 C19', H + 'bwf_base.h': 'C18 C19', H + 'bwf_ex.h': 'C19',
    H + 'bwf_std.h': 'C19', H + 'bwf_ip.h': 'C09 C11 C12', H + 'Errata.h': 'C21', S + 'Errata.cc': 'C21', H + 'Lexicon.h': 'C22',
    H + 'IntrusiveDList.h': 'C23', H + 'IntrusiveHashMap.h': 'C24', H + 'MemSpan.h': 'C25', H + 'Vectray.h': 'C26', H + 'Scalar.h': 'C27',
    H + 'swoc_file.h': 'C28 C29', S + 'swoc_file.cc': 'C28 C29', H + 'swoc_ip_util.h': 'C10 C12', H + 'ext/HashFNV.h': 'C31', S + 'RBTree.cc': 'C20',
    H + 'RBTree.h': 'C20', H + 'swoc_meta.h': 'C30 C26',
}
OPS = [(' < ', ' <= '), (' <= ', ' < '), (' > ', ' >= '), (' >= ', ' > '), (' == ', ' != '), (' != ', ' == '), (' && ', ' || '), (' || ', ' && '),
       (' + ', ' - '), (' - ', ' + '), ('++', '--'), ('--', '++'), (' += ', ' -= '), (' -= ', ' += '), ('true', 'false'), ('false', 'true'),
       ('std::min', 'std::max'), ('std::max', 'std::min'), ('if (', 'if (true || '), ('if (', 'if (false && '), ('!', ''), (' ? ', ' == 0 ? '),
       ('begin()', 'end()'), ('front()', 'back()'), ('_min', '_max'), ('_max', '_min'), (' & ', ' | '), (' << ', ' >> '), ('prefix', 'suffix')]


def candidates(f):
    out = []
    skip = False
    lines = open(f'/repo/{f}').read().split('\n')
    body = 0
    for i, l in enumerate(lines):
        t = l.strip()
        if t.startswith('/*'): skip = True
        if not (skip or t.startswith(('//', '*', '#', 'template', 'static_assert', 'using', 'namespace', '@')) or not t):
            c = l.split('//')[0]
            for a, b in OPS:
                for m in re.finditer(re.escape(a), c):
                    if a in ('++', '--') and 'operator' in c: continue
                    if a == '!' and c[m.end():m.end() + 1] == '=': continue
                    out.append((i, c[:m.start()] + b + c[m.end():]))
            for m in re.finditer(r'(?<![\w.])([01])(?![\w.])', c):
                out.append((i, c[:m.start()] + ('1' if m[1] == '0' else '0') + c[m.end():]))
            if t.endswith(';') and l.startswith('  ') and re.match(r'[\w:*>().\[\]+-]+(\s*(=|\+=|-=)|\(|;|\+\+|--)', t) and not t.startswith(('return', 'break', 'using', 'typedef')):
                out.append((i, '  ;'))
        if '*/' in l: skip = False
    return out


def deps():
    d = {}
    for f in os.listdir('/repo/' + S):
        if f.endswith('.cc'):
            o = subprocess.run(['clang++-18', '-std=c++17', '-MM', '-I/repo/code/include', f'/repo/{S}{f}'], stdout=subprocess.PIPE, text=True).stdout
            d[f] = {os.path.relpath(x, '/repo') for x in o.replace('\\\n', ' ').split()[1:]}
    return d


def main():
    rng = random.Random(int(sys.argv[1]))
    files = sys.argv[3:] or list(FILES)
    shutil.rmtree(W, ignore_errors=True)
    os.makedirs(W)
    shutil.copytree('/repo/code', W + '/tree/code')
    os.environ.update(VT_REPO=W + '/tree', VT_BUILD=W + '/build')
    sys.path.insert(0, V + '/vt')
    import run
    D = deps()
    cfg = run.BASE_FLAGS + ['-fsanitize=address']
    base = {}
    for h in ('fixed.cc', 'arena.cc'): run.build(h, True)
    b0 = f'{W}/build/{run.tree_hash(cfg)}'
    base = {f: f'{b0}/{f}.o' for f in D}
    for f in base.values():
        shutil.copy(f, W)
    pool = {f: candidates(f) for f in files}
    n = 0
    while n < int(sys.argv[2]):
        f = rng.choice([g for g in files for _ in range(1 + min(len(pool[g]), 240) // 12)])
        if not pool[f]: continue
        i, new = pool[f].pop(rng.randrange(len(pool[f])))
        lines = open(f'/repo/{f}').read().split('\n')
        if lines[i].strip() == new.strip(): continue
        n += 1
        old = lines[i]
        lines[i] = new
        open(f'{W}/tree/{f}', 'w').write('\n'.join(lines))
        th = run.tree_hash(cfg)
        b = f'{W}/build/{th}'
        os.makedirs(b, exist_ok=True)
        for s in D:
            if f not in D[s]: os.link(f'{W}/{s}.o', f'{b}/{s}.o')
        res = []
        for p in FILES[f].split():
            try:
                r = subprocess.run(['taskset', '-c', CORES, 'python3', V + '/vt/run.py', p, '--conf-only'], cwd=V, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=400, env=os.environ)
            except subprocess.TimeoutExpired:
                res.append('timeout'); break
            if r.returncode == 1: res.append('killed ' + p); break
            if r.returncode: res.append('invalid' if 'compilation of' in r.stdout else 'ERROR ' + p + r.stdout[-300:]); break
        tag = res[0].split()[0] if res else 'SURVIVED'
        print(f'{tag} {f.split("/")[-1]}:{i + 1}\n    {old.strip()}\n    {new.strip()}' + (f'\n{res[0]}' if tag == 'ERROR' else ''), flush=True)
        shutil.copy(f'/repo/{f}', f'{W}/tree/{f}')
        shutil.rmtree(b, ignore_errors=True)
    shutil.rmtree(W)


main()
