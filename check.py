#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]: decides one property on /repo's current working tree."""
import argparse
import glob
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VC_REPO', '/repo')
sys.path.insert(0, os.path.join(V, 'vc'))
sys.path.insert(0, os.path.join(V, 'specs'))
BUILD = os.path.join(V, 'build')
FLAGS = ['-march=haswell', '-mno-avx512f', '-maes', '-mrdseed', '-w', '-include', 'cstdint', '-include', 'functional', '-include', 'stdexcept', '-include', 'vector']


def sh(cmd, timeout=None, **kw):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True, **kw)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out.decode('utf8', 'replace')
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        out, _ = p.communicate()
        return 'timeout', out.decode('utf8', 'replace')


def exporter():
    exe = os.path.join(BUILD, 'exporter')
    src = os.path.join(V, 'exporter', 'exporter.cpp')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()
    stamp = os.path.join(BUILD, 'exporter.sha')
    if not (os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == h):
        os.makedirs(BUILD, exist_ok=True)
        rc, out = sh(['g++', '-O1', '-std=c++17', '-fno-rtti', '-I/usr/lib/llvm-18/include', src, '-o', exe, '/usr/lib/llvm-18/lib/libclang-cpp.so.18.1', '/usr/lib/llvm-18/lib/libLLVM-18.so'], 600)
        if rc != 0:
            print(out)
            sys.exit(2)
        open(stamp, 'w').write(h)
    return exe


def export(exe, driver, work):
    out = os.path.join(work, driver + '.json')
    rc, txt = sh([exe, out, os.path.join(V, 'drivers', driver + '.cpp'), '-prefix', REPO + '/', '-prefix', os.path.join(V, 'drivers') + '/', '--', '-std=c++20', '-I' + REPO, '-I' + os.path.join(V, 'stubs')] + FLAGS, 300)
    ok = rc == 0 and os.path.exists(out)
    return driver, ok, txt


BFLAGS = ['-O1', '-g0', '-std=c++20', '-D_GLIBCXX_ASSERTIONS', '-Wno-c++11-narrowing', '-include', 'cstring', '-I' + REPO, '-I' + os.path.join(V, 'stubs'), '-I' + os.path.join(V, 'replay')] + FLAGS


def opt_of(src):
    """a battery may ask for another optimisation level: '// OPT: -O0'"""
    for l in open(src, errors='replace'):
        if l.startswith('// OPT:'):
            return l.split(':', 1)[1].split()
    return []


def compile_obj(src, work):
    """object file of one source, reused when the preprocessed text is unchanged"""
    cache = os.path.join(BUILD, 'objcache')
    os.makedirs(cache, exist_ok=True)
    p = subprocess.run(['clang++'] + BFLAGS + ['-E', '-P', src], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if p.returncode:
        return None, p.stderr.decode('utf8', 'replace')
    h = hashlib.sha256(p.stdout + ' '.join(BFLAGS).encode() + src.encode()).hexdigest()
    out = os.path.join(cache, h + '.o')
    if not os.path.exists(out):
        tmp = tempfile.mktemp(dir=work, suffix='.o')
        rc, txt = sh(['clang++'] + BFLAGS + opt_of(src) + ['-c', src, '-o', tmp], 600)
        if rc != 0:
            return None, txt
        os.replace(tmp, out)
    return out, ''


def battery_sources(name):
    src = os.path.join(V, 'replay', name + '.cpp')
    out = [src]
    for l in open(src):
        if l.startswith('// SOURCES:'):
            out += [os.path.join(REPO, x) for x in l.split(':', 1)[1].split()]
    return out


def build_battery(name, work, tp):
    out = os.path.join(work, 'bat_' + name)
    objs = []
    for f in [tp.submit(compile_obj, s, work) for s in battery_sources(name)]:
        o, txt = f.result()
        if o is None:
            return None, txt
        objs.append(o)
    rc, txt = sh(['clang++'] + objs + ['-o', out, '-lfmt', '-lpthread', '-lcrypto', '-lssl', '-lre2'], 600)
    return out if rc == 0 else None, txt


def run_battery(exe, prop, seed, tier, dictfile, timeout, work):
    cwd = tempfile.mkdtemp(dir=work)
    return sh([exe, prop, str(seed), tier, dictfile or '-'], timeout, cwd=cwd)


def worker(t, tier, conn):
    import spec
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
        r = spec.run_task(t, tier)
        conn.send(r)
    except BaseException as ex:      # noqa
        try:
            conn.send(dict(name=t['name'], error='verifier error: %s' % ex, bounded=t['bounded'], obl=[], inlined=set(), contracts=set(), models=set(), assumed=[], partial=[], loop_fail=[], covers=[], solver=0.0, queries=0, wall=0.0, consts=[]))
        except Exception:
            pass
    conn.close()


def failed(t, why, wall):
    return dict(name=t['name'], error=why, bounded=t['bounded'], obl=[], inlined=set(), contracts=set(), models=set(), assumed=[], partial=[], loop_fail=[], covers=[], solver=0.0, queries=0, wall=wall, consts=[])


def pool(tasks, tier, jobs, deadline):
    pend = list(tasks)
    live = []
    res = []
    ctx = mp.get_context('fork')
    while pend or live:
        while pend and len(live) < jobs and time.time() < deadline:
            t = pend.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=worker, args=(t, tier, b))
            p.start()
            b.close()
            live.append((t, p, a, time.time()))
        if pend and time.time() >= deadline:
            for t in pend:
                res.append(failed(t, 'not reached within the time of this run', 0.0))
            pend = []
        time.sleep(0.02)
        nl = []
        for t, p, a, t0 in live:
            if a.poll():
                try:
                    res.append(a.recv())
                except EOFError:
                    res.append(failed(t, 'verifier process ended', time.time() - t0))
                p.join()
            elif not p.is_alive():
                res.append(failed(t, 'verifier process ended', time.time() - t0))
            elif time.time() - t0 > t['timeout'] * (4 if tier == 'thorough' else 1) or time.time() > deadline + 30:
                p.kill()
                p.join()
                res.append(failed(t, 'time limit', time.time() - t0))
            else:
                nl.append((t, p, a, t0))
        live = nl
    return res


def known():
    out = []
    f = os.path.join(V, 'known_findings.txt')
    if os.path.exists(f):
        for l in open(f):
            l = l.strip()
            if l.startswith('finding: property='):
                pid, sig = l[len('finding: property='):].split(' ', 1)
                key, _, text = sig.partition(' ## ')
                out.append((pid, key.strip(), text.strip()))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--setup', action='store_true')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only')
    ap.add_argument('--no-replay', action='store_true')
    ap.add_argument('--no-proof', action='store_true')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    if a.setup:
        exporter()
        print('ready')
        return
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    tier = 'thorough' if a.tier == 'thorough' else 'quick'
    total = 800 if tier == 'quick' else 6000
    os.makedirs(BUILD, exist_ok=True)
    work = tempfile.mkdtemp(prefix='run.', dir=BUILD)
    try:
        rc = decide(a, seed, tier, t0, total, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)


def decide(a, seed, tier, t0, total, work):
    import spec
    prop = a.prop
    for f in sorted(glob.glob(os.path.join(V, 'specs', '*.py'))):
        importlib.import_module(os.path.basename(f)[:-3])
    import batteries
    spec.TU_DIR[0] = work
    tasks = [t for t in spec.TASKS if prop in t['props'] and (tier == 'thorough' or t['tier'] == 'quick')]
    if a.only:
        tasks = [t for t in tasks if a.only in t['name']]
    if a.no_proof:
        tasks = []
    drivers = sorted({d for t in tasks for d in t['drivers']})
    exe = exporter() if tasks else None
    bats = [] if a.no_replay else batteries.BATTERIES.get(prop, [])
    from concurrent.futures import ThreadPoolExecutor
    tp = ThreadPoolExecutor(8)
    fe = [tp.submit(export, exe, d, work) for d in drivers]
    tb = ThreadPoolExecutor(max(1, len(bats)))
    fb = [(b, tb.submit(build_battery, b, work, tp)) for b in bats]
    bad = {}
    for f in fe:
        d, ok, txt = f.result()
        if not ok:
            bad[d] = txt
    results = []
    ready = []
    for t in tasks:
        m = [d for d in t['drivers'] if d in bad]
        if m:
            results.append(failed(t, 'the front end rejects driver %s: %s' % (m[0], bad[m[0]].strip().splitlines()[:3]), 0))
        else:
            ready.append(t)
    for d in drivers:
        if d not in bad:
            try:
                spec.tu(d)
            except Exception as ex:
                bad[d] = str(ex)
    ready.sort(key=lambda t: -t['timeout'])
    battery_out = {}

    def bat(b, f):
        exe_b, txt = f.result()
        if exe_b is None:
            return b, None, txt, None
        rc, out = run_battery(exe_b, prop, seed, tier, None, 300 if tier == 'quick' else 1500, work)
        return b, exe_b, out, rc
    fr = [tp.submit(bat, b, f) for b, f in fb]
    jobs = int(os.environ.get('VC_JOBS', '8'))
    results += pool(ready, tier, jobs, t0 + total * 0.75)
    violations = []      # (text, has_input, detail)
    bat_info = []
    evals = 0
    for f in fr:
        b, exe_b, out, rc = f.result()
        if exe_b is None:
            bat_info.append(dict(battery=b, status='does not build on this tree', output=out[-2000:]))
            continue
        fails, n, samples = parse_battery(out)
        evals += n
        bat_info.append(dict(battery=b, status=str(rc), evaluations=n, samples=samples))
        battery_out[b] = exe_b
        for x in fails:
            violations.append((x, True, 'battery %s' % b))
        if not fails and rc == 'timeout':
            violations.append(('battery-%s does not finish: %s' % (b, out[-600:]), True, 'battery %s' % b))
        elif not fails and rc != 0:
            violations.append(('battery-%s ends with status %s: %s' % (b, rc, out[-600:]), True, 'battery %s' % b))
    refuted = []
    for r in results:
        for o in r['obl']:
            if o[1] == 'refuted':
                refuted.append((r, o))
    kn = known()
    kf = []
    rest = []
    for v in violations:
        m = [k for k in kn if k[0] == prop and v[0].startswith(k[1])]
        if m:
            kf.append(m[0])
        else:
            rest.append(v)
    violations = rest
    if refuted and not violations and battery_out:
        # replay: hand the counterexample's constants to the batteries
        df = os.path.join(work, 'dict.txt')
        cs = sorted({c for r, o in refuted for c in r['consts']})[:4000]
        open(df, 'w').write('\n'.join(str(c & ((1 << 64) - 1)) for c in cs) + '\n')
        for b, e in battery_out.items():
            for k in range(3):
                rc, out = run_battery(e, prop, seed + 1 + k, tier, df, 120, work)
                fails, n, _ = parse_battery(out)
                evals += n
                fails = [x for x in fails if not any(kk[0] == prop and x.startswith(kk[1]) for kk in kn)]
                for x in fails:
                    violations.append((x, True, 'battery %s with counterexample constants' % b))
                if fails:
                    break
            if violations:
                break
    # ------------------------------------------------------------------ evidence
    nobl = sum(len(r['obl']) for r in results)
    ndis = sum(1 for r in results for o in r['obl'] if o[1] == 'proved')
    proved, bounded, undecided = [], [], []
    for r in results:
        st = 'proved' if not r['error'] and r['obl'] and all(o[1] == 'proved' for o in r['obl']) else 'undecided'
        if any(o[1] == 'refuted' for o in r['obl']):
            st = 'refuted'
        if st == 'proved':
            (bounded if r['bounded'] else proved).append(r)
        else:
            undecided.append((r, st))
    bo = sum(len(r['obl']) for r in bounded)
    fns = sorted({x for r in proved for x in r['inlined']})
    trusted = ['clang 18 front end and /verif/exporter (syntax tree of the code that is compiled)', 'the verification-condition generator in /verif/vc (symbolic execution, loop invariants inferred then proved inductive)', 'z3 %s' % z3v()]
    models = sorted({m for r in results for m in r['models']})
    trusted += ['models of library operations: ' + ', '.join(models)] if models else []
    ev = dict(property=prop, tier=tier, seed=seed, level='proof',
              coverage=dict(obligations=nobl - bo, discharged=sum(1 for r in results if not r['bounded'] for o in r['obl'] if o[1] == 'proved'),
                            checker_cmd='python3-vt /verif/check.py %s --tier %s' % (prop, tier), trusted_base=trusted,
                            evaluations=evals,
                            functions_under_contract=['%s (%s:%s)' % x for x in fns], functions_count=len(fns),
                            tasks_proved=[r['name'] for r in proved],
                            bounded_not_proved=[dict(task=r['name'], bound=r['bounded'], obligations=len(r['obl'])) for r in bounded],
                            undecided=[dict(task=r['name'], status=s, reason=r['error'] or '; '.join('%s: %s' % (o[0], o[1]) for o in r['obl'] if o[1] != 'proved')[:600]) for r, s in undecided],
                            back_end='z3 (python bindings)', solver_seconds=round(sum(r['solver'] for r in results), 2), solver_queries=sum(r['queries'] for r in results),
                            reachability_covers=sum(len(r['covers']) for r in results),
                            contracts_used_at_call_sites=sorted({c for r in results for c in r['contracts']}),
                            replay_batteries=bat_info,
                            samples=[o[0] + ' -> ' + o[1] for r in results[:6] for o in r['obl'][:3]]),
              assumptions=sorted({x for r in results for x in r['assumed']} | {x for r in results for x in r['partial']} | {
                  'container lengths are below 2^31', 'destructors have no effect the property depends on', 'std::async work is run in some sequential order (data races are not modelled)'}),
              wall_s=round(time.time() - t0, 2), violations=len(violations) + (1 if refuted and not violations else 0))
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(V, 'evidence', prop + '.json'), 'w'), indent=1, default=str)
    # ------------------------------------------------------------------ report
    if a.v or os.environ.get('VC_VERBOSE'):
        for r in sorted(results, key=lambda r: r['name']):
            print('%-60s %6.1fs obl=%d %s %s' % (r['name'], r['wall'], len(r['obl']), 'BOUNDED' if r['bounded'] else '', r['error'] or ''))
            for o in r['obl']:
                if o[1] != 'proved':
                    print('      ', o[1], o[0], '\n          ' + (o[4] or '').replace('\n', '\n          ')[:1500])
            for c in r['covers']:
                if c[1] != 'sat':
                    print('       cover', c)
            if r['loop_fail'] and a.v:
                print('       loops:', r['loop_fail'][:3])
        for b in bat_info:
            print('battery', b['battery'], b['status'], b.get('evaluations'), b.get('output', '')[-1500:])
    for k in sorted(set(kf)):
        print('KNOWN-FINDING: property=%s %s' % (prop, k[2] or k[1]))
    print('%s: %d obligations, %d discharged, %d tasks proved, %d bounded, %d undecided, %d battery evaluations, %.1f s' % (prop, nobl, ndis, len(proved), len(bounded), len(undecided), evals, time.time() - t0))
    for r, s in undecided:
        print('  undecided: %s: %s' % (r['name'], (r['error'] or s)[:300]))
    if violations or refuted:
        rd = os.path.join(V, 'replays')
        os.makedirs(rd, exist_ok=True)
        path = os.path.join(rd, '%s.txt' % prop)
        with open(path, 'w') as f:
            for t, _, d in violations:
                f.write('FAILING INPUT (%s, seed %d)\n%s\n\n' % (d, seed, t))
            for r, o in refuted:
                f.write('FAILED OBLIGATION %s\nverifier output (z3: sat, counterexample):\n%s\n\n' % (o[0], o[4]))
        if violations:
            print('VIOLATION property=%s replay=%s' % (prop, path))
        else:
            print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, path))
        return 1
    return 0


def z3v():
    import z3
    return z3.get_version_string()


def parse_battery(out):
    fails, n, samples = [], 0, []
    for l in out.splitlines():
        if l.startswith('FAIL '):
            fails.append(l[5:])
        elif l.startswith('COUNT '):
            n += int(l.split()[1])
        elif l.startswith('SAMPLE '):
            samples.append(l[7:])
    return fails[:20], n, samples[:6]


if __name__ == '__main__':
    main()
