#!/usr/bin/env python3
"""P16: build the library in every configuration, run the same enumeration of
histories (obs/) in each, and compare every estimate with the default build's.
P21: save sketches in every configuration, restore them in every other.
    configs.py P16|P21 quick|thorough        configs.py replay FILE        configs.py build"""
import json, os, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
W = V + '/work'
NIGHTLY = 'nightly-x86_64-unknown-linux-gnu'
STABLE = 'stable-x86_64-unknown-linux-gnu'
WASM = 'wasm32-unknown-unknown'
# name, features of the library, target (None: this machine)
CONFIGS = [
    ('std', 'std', None),
    ('std+const-loop', 'std,const-loop', None),
    ('alloc', 'alloc', None),
    ('alloc+const-loop', 'alloc,const-loop', None),
    ('wasm32 std', 'std', WASM),
    ('wasm32 std+const-loop', 'std,const-loop', WASM),
    ('wasm32 alloc', 'alloc', WASM),
    ('wasm32 alloc+const-loop', 'alloc,const-loop', WASM),
]
# compiled only: with no standard library in sight, and with features combined
COMPILE = [
    ('bare-metal alloc', 'alloc', 'x86_64-unknown-none'),
    ('bare-metal alloc+const-loop', 'alloc,const-loop', 'x86_64-unknown-none'),
    ('std+alloc+const-loop', 'std,alloc,const-loop', None),
]


class Engine(Exception):
    pass


def tag(name):
    return name.replace(' ', '_').replace('+', '-')


def cargo(features, target, lib_only, tdir):
    """None if it compiled, else the compiler's output."""
    env = {k: v for k, v in os.environ.items() if not k.startswith(('RUSTFLAGS', 'CARGO_TARGET', 'CARGO_BUILD', 'CARGO_ENCODED'))}
    env.update(CARGO_TARGET_DIR=tdir, CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never',
               RUSTUP_TOOLCHAIN=NIGHTLY if target else STABLE)
    cmd = ['cargo', 'build', '--release', '--offline', '--no-default-features',
           '--features', features]
    if target == WASM:
        cmd += ['--lib', '--target', target, '-Zbuild-std=std,panic_abort']
    elif target:
        cmd += ['--target', target, '-Zbuild-std=core,alloc']
    if target:
        cmd += ['--config', 'source.crates-io.replace-with="v"', '--config', f'source.v.directory="{W}/vendor"']
    r = subprocess.run(cmd, cwd=V + ('/obs/bare' if lib_only else '/obs'), env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode == 0:
        return None
    return r.stdout


def chain(cfgs, tdir, out, tier):
    """One target directory: build and run its configurations one after another."""
    res = {}
    for name, feats, target in cfgs:
        err = cargo(feats, target, out is None, tdir)
        if err is not None:
            res[name] = ('build', err)
            continue
        if out is None:
            res[name] = ('ok', 0)
            continue
        d = f'{out}/{tag(name)}'
        os.makedirs(d)
        if target is None:
            shutil.copy(tdir + '/release/obs', f'{out}/{tag(name)}.exe')
            res[name] = ('built', [f'{out}/{tag(name)}.exe', 'run', d, tier], [f'{out}/{tag(name)}.exe'], [])
        else:
            shutil.copy(f'{tdir}/{target}/release/obs.wasm', f'{out}/{tag(name)}.wasm')
            pf = '0' if 'std' in feats.split(',') else '1'
            node = ['node', V + '/obs/run_wasm.js', f'{out}/{tag(name)}.wasm']
            res[name] = ('built', node + [d, tier, pf], node, [pf])
    return res


class Hang(Exception):
    pass


def sh(*cmd, limit=None):
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=limit)
    except subprocess.TimeoutExpired:
        raise Hang
    if r.returncode:
        raise Engine(f'{cmd}: {r.stdout[-2000:]}')
    return r.stdout.strip()


def compile_failures(built, cfgs):
    viol = []
    for name, feats, target in cfgs:
        kind, x = built[name][:2]
        if kind == 'build':
            if 'error' in x and ('could not compile `hyperloglogplus`' in x or 'hyperloglogplus' in x or 'could not compile `obs`' in x):
                viol.append((tag(name) + '/build', f'the library does not compile as: {name}', x[-3000:]))
            else:
                raise Engine(f'building {name}:\n{x}')
    return viol


def known(pid):
    try:
        lines = open(V + '/known_findings.txt').read().splitlines()
    except OSError:
        return {}
    k = {}
    for l in lines:
        if l.startswith(f'known: property={pid} case='):
            c, _, d = l[len(f'known: property={pid} case='):].partition(' ')
            k[c] = d
    return k


def build_all(tier):
    os.makedirs(W, exist_ok=True)
    env = dict(os.environ, RUSTUP_TOOLCHAIN=NIGHTLY)
    r = subprocess.run([V + '/obs/vendor.sh', W + '/vendor'], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise Engine('vendor.sh: ' + r.stdout)
    out = W + '/obs-out'
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    groups = [
        ([c for c in CONFIGS if c[2] is None], W + '/obs-native', out),
        ([c for c in CONFIGS if c[2]], W + '/obs-wasm', out),
        (COMPILE, W + '/obs-bare', None),
    ]
    with ThreadPoolExecutor(3) as ex:
        built = {}
        for r in ex.map(lambda g: chain(*g, tier), groups):
            built.update(r)
    return built, out


def explore(tier):
    """-> (violations [(case, message, detail)], coverage)"""
    built, out = build_all(tier)
    if built['std'][0] != 'built':
        raise Engine('the default build fails:\n' + built['std'][1])
    viol = compile_failures(built, CONFIGS + COMPILE)
    ops = 0
    for name, feats, target in CONFIGS + COMPILE:
        kind, x = built[name][:2]
        if kind == 'built':
            try:
                o = sh(*x, limit=150 if tier == 'quick' else 1500)
            except Hang:
                if name == 'std':
                    raise Engine('the default build does not finish')
                viol.append((tag(name) + '/hang', f'{name}: the histories the default build finishes do not finish', ''))
                built[name] = ('hang', '')
                continue
            if target is None:
                ops += int(o.split()[-1])
    ref = f'{out}/std'
    exe = f'{out}/std.exe'
    n, distinct = map(int, sh(exe, 'count', ref, tier).split())
    compared = exact = 0
    per = {}
    for name, feats, target in CONFIGS[1:]:
        if built[name][0] != 'built':
            continue
        pf = '0' if 'std' in feats.split(',') else '1'
        for l in sh(exe, 'compare', ref, f'{out}/{tag(name)}', pf, tier).splitlines():
            f = l.split()
            if f[0] == 'SUMMARY':
                compared += int(f[1])
                exact += int(f[2])
                per[name] = {'estimates_compared': int(f[1]), 'bit_identical': int(f[2]), 'worst_relative_difference': float(f[3])}
            elif f[0] == 'DIFF':
                c, i, rest = f[1], f[2], ' '.join(f[3:])
                try:
                    what = sh(exe, 'describe', c, i, tier) if not rest.startswith(('ran', 'panicked')) else f'case {c}'
                except Engine:
                    what = f'case {c}'
                viol.append((f'{tag(name)}/{c}/{i}', f'{name} differs from the default build after "{what}": default/other = {rest}', ''))
    if compared == 0 and not viol:
        raise Engine('nothing was compared')
    samples = [f'case {c} value {i}: ' + sh(exe, 'describe', str(c), str(i), tier) for c, i in ((1, 40), (3, 300), (55, 2000), (57, 77))]
    cov = {
        'states': n, 'transitions': ops, 'traces_validated_against_impl': compared,
        'evaluations': compared + len(COMPILE) + len(CONFIGS), 'distinct_nontrivial': distinct,
        'rule': 'one fixed enumeration of histories of every precision of both variants (every register in turn '
                'through a list of ranks, every pair of rank values over the registers, every sequence of inserts, counts and merges '
                'on two sketches up to a depth, a counted long stream, every constructor argument and merge '
                'precision pair), executed in each build configuration and compared estimate by estimate; '
                'distinct_nontrivial counts the different estimates of the default build',
        'samples': samples, 'exhaustive': not viol,
        'configurations': [c[0] for c in CONFIGS], 'compile_only': [c[0] for c in COMPILE],
        'per_configuration': per, 'bit_identical': exact,
    }
    shutil.rmtree(out, ignore_errors=True)
    return viol, cov


def exchange(tier):
    """P21: what each configuration saves, each configuration restores."""
    built, out = build_all(tier)
    if built['std'][0] != 'built':
        raise Engine('the default build fails:\n' + built['std'][1])
    exe = f'{out}/std.exe'
    limit = 120 if tier == 'quick' else 900
    viol = []
    live = [c for c in CONFIGS if built[c[0]][0] == 'built']
    if len(live) < 2:
        raise Engine('only one configuration builds')
    # save
    for name, _, _ in live:
        d = f'{out}/save-{tag(name)}'
        os.makedirs(d)
        _, _, cmd, more = built[name]
        try:
            sh(*cmd, 'save', d, *more, limit=limit)
        except Hang:
            viol.append((f'{tag(name)}/save', f'{name}: saving does not finish', ''))
    blobs = f'{out}/blobs'
    os.makedirs(blobs)
    writers = {}
    saved = 0
    for case in {int(f.split('.')[0]) for name, _, _ in live for f in os.listdir(f'{out}/save-{tag(name)}')}:
        seen = {}
        for name, _, _ in live:
            f = f'{out}/save-{tag(name)}/{case}.bin'
            if os.path.exists(f):
                seen.setdefault(open(f, 'rb').read(), []).append(name)
                saved += 1
            elif os.path.exists(f[:-3] + 'panic'):
                viol.append((f'{tag(name)}/save/{case}', f'{name}: building or saving "{sh(exe, "wirename", str(case), tier)}" does not finish', ''))
        for k, (b, ws) in enumerate(seen.items()):
            open(f'{blobs}/{case}-{k}.bin', 'wb').write(b)
            writers[f'{case}-{k}'] = ws
    # restore
    pairs = compared = loads = 0
    distinct = 0
    per = {}
    for name, _, _ in live:
        d = f'{out}/load-{tag(name)}'
        os.makedirs(d)
        _, _, cmd, more = built[name]
        try:
            sh(*cmd, 'load', blobs, d, *more, limit=limit)
        except Hang:
            viol.append((f'{tag(name)}/load', f'{name}: restoring does not finish', ''))
        for l in sh(exe, 'wirecheck', d, tier).splitlines():
            f = l.split()
            if f[0] == 'SUMMARY':
                loads += int(f[1])
                compared += int(f[2])
                distinct = max(distinct, int(f[3]))
                n = sum(len(writers[x.split('.')[0]]) for x in os.listdir(d))
                pairs += n
                per[name] = {'files_restored': int(f[1]), 'writer_reader_cases': n, 'estimates_compared': int(f[2])}
            else:
                stem, i, what = f[1], f[2], ' '.join(f[3:])
                case = stem.split('-')[0]
                try:
                    how = sh(exe, 'wiredescribe', case, i, f'{blobs}/{stem}.bin', tier)
                except Engine:
                    how = ''
                viol.append((f'{tag(name)}/{case}',
                             f'"{sh(exe, "wirename", case, tier)}" saved by {" / ".join(writers[stem])}, restored by {name}: {how} {what}', ''))
    if compared == 0 and not viol:
        raise Engine('nothing was compared')
    cov = {
        'states': len(writers), 'transitions': saved + loads, 'traces_validated_against_impl': pairs, 'evaluations': compared,
        'distinct_nontrivial': distinct,
        'rule': 'a sketch in each of 12 states, of every precision of both variants, saved by each build configuration in a positional binary '
                'format and as JSON, and restored by each configuration; each restored sketch is then counted, inserted into, merged both ways and '
                'filled, every estimate being compared with a sketch of the same history that was never saved. states: different files; '
                'transitions: saves and restores executed; traces: (writer, reader, case) combinations covered; distinct_nontrivial counts different estimates',
        'samples': [f'case {c}: ' + sh(exe, 'wirename', str(c), tier) for c in (3, 100, 200, 330)], 'exhaustive': not viol,
        'configurations': [c[0] for c in live], 'not_built': [c[0] for c in CONFIGS if c not in live], 'per_reader': per,
    }
    shutil.rmtree(out, ignore_errors=True)
    return viol, cov


ASSUME = {
    'P16': ['wasm32 run by node stands for 32-bit targets; its floating point is IEEE 754 double like the reference\'s',
            'relative differences up to 1e-12, or 8 * 2^p units in the last place, are rounding (1e-9 above 1e9)'],
    'P21': ['wasm32 run by node stands for 32-bit targets', 'relative differences up to 1e-9 are rounding',
            'files of equal content are restored alike, whichever configuration wrote them'],
}
RUN = {'P16': explore, 'P21': exchange}


def main():
    t0 = time.time()
    if sys.argv[1] == 'replay':
        rec = json.load(open(sys.argv[2]))
        viol, _ = RUN[rec['property']](rec['tier'])
        hit = [v for v in viol if v[0] == rec['case']]
        for v in hit or viol:
            print(v[0], v[1], v[2])
        print('reproduced' if hit else 'NOT reproduced')
        if hit:
            print(f'VIOLATION property={rec["property"]} replay={sys.argv[2]}')
        return 1 if hit else 0
    if sys.argv[1] == 'build':
        build_all('quick')
        return 0
    pid, tier = sys.argv[1], sys.argv[2]
    viol, cov = RUN[pid](tier)
    k = known(pid)
    bad = []
    for v in viol:
        if v[0] in k:
            print(f'KNOWN-FINDING: property={pid} case={v[0]} {k[v[0]]}')
        else:
            bad.append(v)
    wall = time.time() - t0
    os.makedirs(V + '/evidence', exist_ok=True)
    json.dump({
        'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'model_checking',
        'coverage': cov,
        'assumptions': ASSUME[pid],
        'wall_s': wall, 'violations': len(bad)}, open(f'{V}/evidence/{pid}.json', 'w'), indent=1)
    print(f"{pid}: states={cov['states']} transitions={cov['transitions']} compared={cov['evaluations']} "
          f"distinct={cov['distinct_nontrivial']} wall={wall:.1f}s")
    for n, c in (cov.get('per_configuration') or cov['per_reader']).items():
        print('  ', n, c)
    os.makedirs(V + '/replays', exist_ok=True)
    for i, v in enumerate(bad[:8]):
        path = f'{V}/replays/{pid}-{i}.json'
        json.dump({'property': pid, 'tier': tier, 'case': v[0], 'message': v[1], 'detail': v[2],
                   'how_to_replay': f'cd /verif && ./check.sh replay {path}'}, open(path, 'w'), indent=1)
        print(v[0] + ': ' + v[1])
        if v[2]:
            print(v[2])
        print(f'VIOLATION property={pid} replay={path}')
    return 1 if bad else 0


try:
    sys.exit(main())
except Engine as e:
    print('ENGINE ERROR:', e)
    sys.exit(3)
