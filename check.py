#!/usr/bin/env python3
"""Decides one property: builds /repo and its harnesses to LLVM IR, executes the harnesses symbolically
(engine/), confirms every counterexample on native builds of the same tree, writes evidence/<id>.json."""
import concurrent.futures, os, sys, re, json, time, glob, shutil, subprocess, fcntl, signal

HERE = os.path.dirname(os.path.abspath(__file__))
BUILD = os.path.join(HERE, 'build')
HARN = os.path.join(HERE, 'harness')
ENGINE = os.path.join(HERE, 'engine', 'target', 'release', 'irsym')
TARGET = 'x86_64-unknown-linux-gnu'
SKIP = re.compile(r'^(syn|quote|proc_macro|gimli|object|addr2line|miniz|unicode|rustc_literal)')
# libraries under test: always recompiled, whatever the time stamps say
OURS = re.compile(r'^(lib)?(frozen[-_]collections|maps|mac|vs|replay)')
IRFLAGS = '--emit=llvm-ir,link -Cno-prepopulate-passes -Cpasses=sroa,instsimplify,simplifycfg -Zshare-generics=n'
MEMORY = {'oob', 'uaf', 'null', 'undef', 'align', 'ub', 'double free', 'dealloc', 'free', 'mem', 'intrinsic', 'unreachable'}

PROPS = json.load(open(os.path.join(HERE, 'bounds.json')))
KNOWN = os.path.join(HERE, 'known-findings.txt')


def env(**kw):
    e = dict(os.environ)
    e.pop('RUSTFLAGS', None)
    e['CARGO_NET_OFFLINE'] = 'true'
    e['CARGO_TERM_COLOR'] = 'never'
    e.update(kw)
    return e


def die(msg, code=2):
    print('ERROR ' + msg, flush=True)
    sys.exit(code)


def forget(target):
    """drop what cargo remembers about the code under test, so that it is rebuilt from the working tree"""
    for d in glob.glob(os.path.join(target, '*', '*')) + glob.glob(os.path.join(target, '*')):
        for sub in ('.fingerprint', 'deps', 'incremental'):
            p = os.path.join(d, sub)
            if os.path.isdir(p):
                for f in os.listdir(p):
                    if OURS.match(f):
                        q = os.path.join(p, f)
                        shutil.rmtree(q, ignore_errors=True) if os.path.isdir(q) else os.unlink(q)


def lockfile():
    # the versions of the dependencies are those the repository is built with
    p = os.path.join(HARN, 'Cargo.lock')
    if not os.path.exists(p):
        die('harness/Cargo.lock is missing')


def cargo_ir(crate, feat, variant='checked'):
    # "unchecked" is what release builds execute: no overflow checks, no debug assertions
    t = os.path.join(BUILD, 'ir' if variant == 'checked' else 'iru')
    forget(t)
    return subprocess.Popen(['cargo', '+stable', 'build', '--offline', '--locked', '-q', '--profile', 'dev' if variant == 'checked' else 'unchecked', '-Zbuild-std=core,alloc,std,panic_abort', '--target', TARGET, '--lib', '-p', crate] + feat,
                            cwd=HARN, env=env(RUSTC_BOOTSTRAP='1', RUSTFLAGS=IRFLAGS, CARGO_TARGET_DIR=t), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def cargo_native(crate, feat, profile):
    t = os.path.join(BUILD, 'nat')
    return subprocess.Popen(['cargo', '+stable', 'build', '--offline', '--locked', '-q', '--profile', profile, '-p', crate, '--bin', 'replay-' + crate] + feat,
                            cwd=HARN, env=env(RUSTFLAGS='--cfg vs_native', CARGO_TARGET_DIR=t), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def finish(p, what):
    out, _ = p.communicate()
    if p.returncode != 0:
        errs = [l for l in out.splitlines() if re.match(r'^(error|  -->|  *-->)', l)]
        return '%s failed:\n%s' % (what, '\n'.join(errs[:12]) or out[-1500:])
    return None


def build_engine():
    r = subprocess.run(['cargo', '+stable', 'build', '--offline', '-q', '--release'], cwd=os.path.join(HERE, 'engine'), env=env(), capture_output=True, text=True)
    if r.returncode != 0:
        die('the engine does not build:\n' + r.stderr[-2000:])


def lls(variant):
    d = os.path.join(BUILD, 'ir', TARGET, 'debug', 'deps') if variant == 'checked' else os.path.join(BUILD, 'iru', TARGET, 'unchecked', 'deps')
    fs = [f for f in glob.glob(os.path.join(d, '*.ll')) if not SKIP.match(os.path.basename(f))]
    return sorted(fs, key=os.path.getsize, reverse=True)


def run_native(exe, h, inputs, timeout=20, wrap=()):
    a = list(wrap) + [exe, h] + ['%d:%d' % (w, v) for w, v in inputs]
    try:
        r = subprocess.run(a, capture_output=True, text=True, timeout=timeout, errors='replace')
    except subprocess.TimeoutExpired:
        return ('hang', 'no end within %d s' % timeout)
    last = r.stdout.strip().splitlines()[-1] if r.stdout.strip() else ''
    if r.returncode < 0:
        return ('crash', 'killed by signal %d (%s)' % (-r.returncode, signal.Signals(-r.returncode).name))
    if r.returncode == 0:
        return ('ok', last)
    if r.returncode == 1:
        return ('fail', last + ' ' + ' '.join(r.stderr.split())[:300])
    if r.returncode == 99:
        return ('memory', ' '.join(l for l in r.stderr.splitlines() if 'Invalid' in l or 'ninitialised' in l)[:300])
    if r.returncode in (5, 6, 7):
        return ('diverged', last)
    return ('crash', 'exit status %d %s' % (r.returncode, ' '.join(r.stderr.split())[:300]))


def miri(crate, feat, h, inputs):
    a = ['cargo', '+nightly', 'miri', 'run', '--offline', '--locked', '-q', '-p', crate, '--bin', 'replay-' + crate] + feat + ['--', h] + ['%d:%d' % (w, v) for w, v in inputs]
    try:
        r = subprocess.run(a, cwd=HARN, env=env(RUSTFLAGS='--cfg vs_native', MIRIFLAGS='-Zmiri-disable-stacked-borrows -Zmiri-disable-isolation -Zmiri-ignore-leaks', CARGO_TARGET_DIR=os.path.join(BUILD, 'miri')), capture_output=True, text=True, timeout=400, errors='replace')
    except subprocess.TimeoutExpired:
        return ('ok', 'miri: no answer')
    m = [l for l in r.stderr.splitlines() if 'Undefined Behavior' in l or 'error: ' in l]
    if any('Undefined Behavior' in l for l in m):
        return ('memory', 'miri: ' + m[0])
    return ('ok', '')


def confirm(exes, crate, feat, f):
    """does the real code misbehave on this input?"""
    ins = f['inputs']
    for name, exe in exes:
        r = run_native(exe, f['h'], ins)
        if r[0] in ('fail', 'crash', 'hang'):
            return name, r
    if f['kind'] not in ('assert', 'panic', 'nopanic', 'abort'):
        for name, exe in exes:
            r = run_native(exe, f['h'], ins, 120, ('valgrind', '-q', '--error-exitcode=99', '--exit-on-first-error=yes'))
            if r[0] in ('fail', 'crash', 'memory'):
                return name + ' under valgrind', r
        r = miri(crate, feat, f['h'], ins)
        if r[0] == 'memory':
            return 'miri', r
    return None


def known(pid):
    """the listed findings of a property: [(pattern of 'harness message', what fails)]"""
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r'known: property=(\S+) match=(\S+) (.*)', l)
            if m and m.group(1) == pid:
                out.append((re.compile(m.group(2)), m.group(3).strip()))
    return out


def main():
    if len(sys.argv) >= 2 and sys.argv[1] == 'setup':
        return setup()
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv:
        tier = 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    P = PROPS[pid]
    crate = P.get('crate', 'maps')
    mod = pid.lower()
    feat = ['--no-default-features', '--features', mod]
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    lock = open(os.path.join(BUILD, 'lock'), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    ev = os.path.join(HERE, 'evidence', pid + '.json')
    if os.path.exists(ev):
        os.unlink(ev)
    if not os.path.exists(ENGINE) or os.path.getmtime(ENGINE) < max(os.path.getmtime(f) for f in glob.glob(os.path.join(HERE, 'engine/src/*.rs'))):
        build_engine()
    lockfile()
    src = open(os.path.join(HARN, crate, 'src', mod + '.rs')).read()
    forget(os.path.join(BUILD, 'nat'))
    variants = ['checked'] + (['unchecked'] if P.get('unchecked') or tier == 'thorough' else [])
    pi = [(v, cargo_ir(crate, feat, v)) for v in variants]
    pn = [(prof, cargo_native(crate, feat, prof)) for prof in ('replay', 'replayrel')]
    err = None
    for v, p in pi:
        e = finish(p, 'building to LLVM IR (%s)' % v)
        err = err or e
    for prof, p in pn:
        e = finish(p, 'building natively (%s)' % prof)
        err = err or e
    if err:
        if P.get('compile_is_property'):
            r = subprocess.run(['cargo', '+stable', 'build', '--offline', '-q', '-p', 'frozen-collections', '--manifest-path', '/repo/Cargo.toml', '--target-dir', os.path.join(BUILD, 'lib')], env=env(), capture_output=True, text=True)
            if r.returncode == 0:
                rp = save_replay(pid, dict(kind='compile', msg=err))
                print(err)
                print('VIOLATION property=%s replay=%s' % (pid, rp))
                write_evidence(pid, tier, seed, t0, P, [], [], dict(paths=0), 1, 0, [], 0)
                sys.exit(1)
        die(err)
    build_s = time.time() - t0
    exes = [(prof, os.path.join(BUILD, 'nat', prof, 'replay-' + crate)) for prof in ('replay', 'replayrel')]

    names = subprocess.run([exes[0][1], '--list'], capture_output=True, text=True).stdout.split()
    quick = [n for n in names if not n.endswith('_t')]
    hs = quick if tier == 'quick' else [n for n in names if not n.endswith('_q')]
    if not hs:
        die('no harnesses')
    budget = int(os.environ.get('VERIF_BUDGET', P.get('budget', 420 if tier == 'quick' else 7200)))
    work = os.path.join(BUILD, 'run-' + pid)
    out = work + '.jsonl'
    recs = []
    for v in variants:
        vh = hs if v == 'checked' or tier == 'thorough' else [h for h in hs if re.search(P['unchecked'], h)]
        cmd = [ENGINE, '--jobs', '8', '--dir', work, '--out', out, '--max-time', str(budget), '--seed', str(seed), '--max-fail', '12', '--max-samples', '4']
        cmd += P.get('flags', [])
        for h in vh:
            cmd += ['--h', h]
        r = subprocess.run(cmd + lls(v), capture_output=True, text=True)
        shutil.rmtree(work, ignore_errors=True)
        if r.returncode != 0 or not os.path.exists(out):
            die('the engine failed (%d): %s' % (r.returncode, r.stderr[-1500:]))
        recs += [dict(json.loads(l), v=v) for l in open(out)]
        os.unlink(out)

    per = {h: {} for h in hs}
    tot = {}
    cov = {}
    fails, incs, samples = [], [], []
    reached = {}
    z3 = ''
    for d in recs:
        t = d['t']
        if t == 'stats':
            for k, v in d.items():
                if k == 'reached':
                    for a, b in v.items():
                        reached[int(a)] = reached.get(int(a), 0) + b
                elif isinstance(v, (int, float)):
                    p = per[d['h']]
                    p[k] = max(p.get(k, 0), v) if k.startswith('max') else p.get(k, 0) + v
        elif t == 'engine':
            z3 = d['z3']
            for k, v in d.items():
                if isinstance(v, (int, float)):
                    tot[k] = max(tot.get(k, 0), v) if k.startswith('max') else tot.get(k, 0) + v
        elif t == 'cov':
            c = cov.setdefault(d['fn'] + ('' if d['v'] == 'checked' else ' [unchecked]'), dict(total=d['total'], blocks=set()))
            c['blocks'].update(d['blocks'])
        elif t == 'fail':
            fails.append(d)
        elif t == 'incomplete':
            incs.append(d)
        elif t == 'sample':
            samples.append(d)

    # counterexamples: confirm on the real code
    kn = known(pid)
    violations, knownhits, unconfirmed = [], set(), []
    seen = {}
    for f in sorted(fails, key=lambda f: len(f['inputs'])):
        key = (f['h'], f['kind'], f['id'], f['at'][:200], f['v'])
        if seen.get(key, 0) >= 2 or len(violations) >= 3:
            continue
        seen[key] = seen.get(key, 0) + 1
        c = confirm(exes, crate, feat, f)
        if c is None:
            unconfirmed.append(f)
            continue
        text = '%s %s' % (f['h'], f['msg'])
        hit = next((w for rx, w in kn if rx.search(text)), None)
        if hit is not None:
            knownhits.add(hit)
            continue
        violations.append((f, c))
    # paths that did not end: is it the code that does not end?
    hard = [i for i in incs if 'budget exhausted' not in i['msg'] or 'step' in i['msg']]
    soft = [i for i in incs if i not in hard]
    if not violations:
        for f in hard[:6]:
            if f['kind'] == 'worker':
                continue
            for name, exe in exes:
                r = run_native(exe, f['h'], f['inputs'])
                if r[0] in ('fail', 'crash', 'hang'):
                    violations.append((f, (name, r)))
                    break
            if violations:
                break

    # the translation is validated on sampled paths
    validated, mismatches = 0, []
    jobs, count = [], {}
    for s in samples:
        k = (s['h'], s['v'])
        count[k] = count.get(k, 0) + 1
        if count[k] > 24:
            continue
        for name, exe in exes:
            if (s['panic'] or s['v'] == 'unchecked') and name != ('replay' if s['v'] == 'checked' else 'replayrel'):
                continue
            jobs.append((s, name, exe))
    with concurrent.futures.ThreadPoolExecutor(8) as pool:
        for (s, name, exe), r in zip(jobs, pool.map(lambda j: run_native(j[2], j[0]['h'], j[0]['inputs']), jobs)):
            want = 'PANIC' if s['panic'] else 'OK'
            got = r[1].split()
            ok = r[0] == 'ok' and got and got[0] == want and len(got) - 1 == len(s['obs']) and all(o is None or str(o) == g for o, g in zip(s['obs'], got[1:]))
            if ok:
                validated += 1
            else:
                mismatches.append((s, name, r))

    for f, (name, r) in violations:
        print('%s: %s\n  at %s\n  inputs %s\n  confirmed by the %s build: %s %s' % (f['h'], f['msg'], f['at'][:400], f['inputs'][:60], name, r[0], r[1]))
    nviol = len(violations)
    write_evidence(pid, tier, seed, t0, P, hs, samples, dict(per=per, tot=tot, cov=cov, reached=reached, z3=z3, build_s=build_s, incomplete=[(i['h'], i['msg']) for i in incs], unconfirmed=len(unconfirmed)), nviol, validated, sorted(knownhits), tot.get('queries', 0))
    if nviol:
        f, (name, r) = violations[0]
        rp = save_replay(pid, dict(harness=f['h'], inputs=f['inputs'], kind=f['kind'], msg=f['msg'], at=f['at'], confirmed_by=name, result=r,
                                   command='%s %s %s' % (dict(exes).get(name.split()[0], exes[0][1]), f['h'], ' '.join('%d:%d' % (w, v) for w, v in f['inputs']))))
        print('VIOLATION property=%s replay=%s' % (pid, rp), flush=True)
        sys.exit(1)
    for k in sorted(knownhits):
        print('KNOWN-FINDING: property=%s %s' % (pid, k))
    if mismatches:
        s, name, r = mismatches[0]
        die('symbolic and native run differ: %s %s (%s) obs %s native %s' % (s['h'], s['inputs'], name, s['obs'], r))
    if unconfirmed:
        f = unconfirmed[0]
        die('counterexample not confirmed natively: %s %s %s %s' % (f['h'], f['kind'], f['msg'], f['inputs'][:40]))
    if any(i['kind'] == 'worker' for i in incs):
        die('worker processes died')
    done = sum(p.get('done', 0) + p.get('panics', 0) for p in per.values())
    missing = [h for h in hs if per[h].get('done', 0) + per[h].get('panics', 0) == 0]
    want = required(src, tier)
    noreach = sorted(want - set(reached))
    if (missing or noreach) and not (soft and not hard):
        die('vacuous: no path of %s completes; points not reached: %s; %s' % (missing[:5], noreach, [(i['h'], i['msg'][:200], i['at'][:200]) for i in hard[:2]]))
    note = ''
    if incs:
        note = ' [%d paths not finished: %s]' % (len(incs), sorted({i['msg'][:80] for i in incs})[:3])
    print('%s %s: held on %d paths of %d harnesses, %d queries, solver %.1f s, %d native validations, %.1f s%s' % (pid, tier, done, len(hs), tot.get('queries', 0), tot.get('solver_s', 0), validated, time.time() - t0, note))
    sys.exit(0)


def required(src, tier):
    ids = {int(x) for x in re.findall(r'\b(?:reach|expect_panic)\((\d+)\)', src)} - {0}
    return {i for i in ids if tier == 'thorough' or i < 1000}


def save_replay(pid, d):
    p = os.path.join(BUILD, 'violation-%s.json' % pid)
    json.dump(d, open(p, 'w'), indent=1)
    return p


def write_evidence(pid, tier, seed, t0, P, hs, samples, d, nviol, validated, knownhits, queries):
    per, tot, cov = d.get('per', {}), d.get('tot', {}), d.get('cov', {})
    paths = sum(p.get('done', 0) + p.get('panics', 0) + p.get('fails', 0) for p in per.values())
    e = dict(property=pid, tier=tier, seed=seed, level='model_checking', wall_s=round(time.time() - t0, 2), violations=nviol,
             assumptions=ASSUME + P.get('assume', []),
             coverage=dict(
                 technique='symbolic execution of the LLVM IR of /repo, SMT (z3)',
                 states=paths, transitions=int(tot.get('insts', 0)), traces_validated_against_impl=validated,
                 states_are='symbolic paths decided to their end', transitions_are='LLVM instructions executed symbolically',
                 bounds=P['bounds'], outside_bounds=P.get('outside', ''),
                 queries=int(queries), queries_sat=int(tot.get('sat', 0)), queries_unsat=int(tot.get('unsat', 0)), queries_unknown=int(tot.get('unknown', 0)),
                 solver_s=round(tot.get('solver_s', 0), 2), max_query_s=tot.get('max_query_s', 0), solver=d.get('z3', ''), build_s=round(d.get('build_s', 0), 1),
                 assertions_by_solver=int(tot.get('checks_solver', 0)), assertions_by_constant_folding=int(tot.get('checks_const', 0)),
                 harnesses={h: dict(paths=p.get('done', 0) + p.get('panics', 0), infeasible=p.get('infeasible', 0), assertions=p.get('asserts', 0), cpu_s=round(p.get('time', 0), 2)) for h, p in per.items()},
                 functions_encoded={short(f): '%d/%d blocks' % (len(c['blocks']), c['total']) for f, c in sorted(cov.items())},
                 reached={str(k): v for k, v in sorted(d.get('reached', {}).items())},
                 incomplete=d.get('incomplete', [])[:20], known_findings=knownhits,
                 samples=[dict(harness=s['h'], inputs=s['inputs'][:64], observed=s['obs'][:32], panic=s['panic']) for s in samples[:12]] or [dict(harness=h) for h in hs[:1]] or ['none'],
             ))
    json.dump(e, open(os.path.join(HERE, 'evidence', pid + '.json'), 'w'), indent=1)


def short(f):
    return re.sub(r'frozen_collections_core', 'fcc', f)[:160]


ASSUME = [
    'rustc lowers MIR to LLVM IR correctly; the IR is taken before LLVM optimises it (sroa, instsimplify, simplifycfg only)',
    'the engine (engine/) interprets that IR faithfully; sampled paths are replayed natively and compared on every run',
    'allocation succeeds; panics end the path (no unwinding is executed symbolically)',
    'SipHash of the standard RandomState is modelled as the constant 0 unless stated; hash functions are otherwise arbitrary through the harness hashers',
    'z3 is correct',
]


def setup():
    os.makedirs(BUILD, exist_ok=True)
    build_engine()
    lockfile()
    for crate, feat in (('maps', ['--no-default-features', '--features', 'c01']), ('mac', ['--no-default-features', '--features', 'c22'])):
        if not os.path.isdir(os.path.join(HARN, crate)):
            continue
        ps = [('ir', cargo_ir(crate, feat))] + [(pr, cargo_native(crate, feat, pr)) for pr in ('replay', 'replayrel')]
        ps.append(('iru', cargo_ir(crate, feat, 'unchecked')))
        for n, p in ps:
            err = finish(p, 'setup %s %s' % (crate, n))
            if err:
                print(err)
    print('setup done')
    return 0


if __name__ == '__main__':
    sys.exit(main())
