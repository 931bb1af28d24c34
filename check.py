#!/opt/veriftools/pyvenv/bin/python
"""check one property: python check.py C01   (tier from VERIF_TIER)

The deciding step: the contracts of the property are proved again on /repo's current source.  Exit 0: every obligation
of the property was discharged.  Exit 1 with a VIOLATION line: an obligation failed; a directed search on the compiled
real code supplies the failing input where it finds one."""
import os, sys, json, time, shutil, subprocess, multiprocessing as mp, traceback, resource
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, 'engine'))
REPO = os.environ.get('REPO', '/repo')
T0 = time.time()
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
LIMIT = float(os.environ.get('CHECK_LIMIT', '600' if TIER == 'quick' else '780'))   # proof phase
NCPU = min(8, os.cpu_count() or 4)
sys.setrecursionlimit(100000)


def left():
    return T0 + LIMIT - time.time()


def build_irx():
    exe = os.path.join(VERIF, 'build', 'irx')
    src = os.path.join(VERIF, 'engine', 'irx.cpp')
    if not os.path.exists(exe) or os.path.getmtime(exe) < os.path.getmtime(src):
        os.makedirs(os.path.dirname(exe), exist_ok=True)
        tmp = exe + '.%d' % os.getpid()
        subprocess.run(['g++', '-O1', '-std=c++17', '-I/usr/lib/llvm-18/include', src, '-o', tmp, '-L/usr/lib/llvm-18/lib', '-lLLVM-18'], check=True)
        os.replace(tmp, exe)


# ------------------------------------------------------------------ proof jobs
def do_extract(a):
    inc, work, group, D = a
    import runtask, tasks
    try:
        js = runtask.extract(inc, work, '%s%d' % (group, D), tasks.GROUPS[group] % {'W': 'uint%d_t' % D, 'D': D},
                             flags=tasks.FLAGS.get(group, ()), contracts=tasks.NOINLINE.get(group, '^$$'))
        return group, D, js, ''
    except subprocess.CalledProcessError as e:
        return group, D, None, 'extraction failed: ' + (e.stderr or '')[-2000:]


def job(name, D, js, deadline, out, boost=1, kinds=()):
    resource.setrlimit(resource.RLIMIT_AS, (10 << 30, 10 << 30))
    res = dict(task=name, D=D, error='', obls=[], t=0)
    t0 = time.time()
    x = None
    try:
        import tasks
        t = tasks.TASKS[name]
        x = tasks.Ctx(json.load(open(js)), D)
        x.E.deadline = deadline
        x.E.stop_kinds = kinds
        x.E.sol.timeout *= boost
        x.E.sol.lia_timeout *= boost
        t.fn(x)
        if x.presat == 'unsat':
            res['error'] = 'vacuous: the precondition is unsatisfiable'
        elif not x.nret:
            res['error'] = 'vacuous: no path returns'
    except MemoryError:
        res['error'] = 'out of memory'
    except BaseException as e:
        res['error'] = '%s: %s' % (type(e).__name__, str(e)[:300])
        if os.environ.get('TB'):
            traceback.print_exc()
    if x is not None:
        E = x.E
        for o in E.obls:
            d = [o.kind, o.name, o.status]
            if o.status != 'discharged':
                d.append(model_text(o))
            res['obls'].append(d)
        res.update(nret=x.nret, presat=str(getattr(x, 'presat', '?')), bv=E.sol.n, lia=dict(E.sol.lia.by), bvt=E.sol.time, liat=E.sol.lia_time,
                   paths=E.stats.get('paths', 0), loops=E.stats.get('loops', 0), funcs=sorted(getattr(E, 'entered', ())))
    res['t'] = time.time() - t0
    json.dump(res, open(out, 'w'))


def model_text(o):
    try:
        m = o.model
        if m is None:
            return ''
        return str(m)[:1500]
    except Exception:
        return ''


def run_jobs(jobs, deadline, boost=1, kinds=()):
    """jobs: (name, D, js, out) ; every job is a process of its own"""
    todo, live, results = list(jobs), [], []
    while todo or live:
        while todo and len(live) < NCPU:
            name, D, js, out = todo.pop(0)
            p = mp.Process(target=job, args=(name, D, js, deadline, out, boost, kinds))
            p.start()
            live.append((p, name, D, js, out))
        time.sleep(0.02)
        for it in list(live):
            p, name, D, js, out = it
            if p.is_alive():
                if time.time() > deadline + 15:
                    p.kill()
                continue
            p.join()
            live.remove(it)
            try:
                r = json.load(open(out))
            except Exception:
                r = dict(task=name, D=D, error='verifier process ended without an answer', obls=[], t=0)
            r['js'] = js
            results.append(r)
            if os.environ.get('V'):
                print('   ', r['task'], D, '%.1fs' % r['t'], len(r['obls']), [o[:3] for o in r['obls'] if o[2] != 'discharged'][:4], r['error'], flush=True)
    return results


# ------------------------------------------------------------------ replay on the real code
def native(prop, P, work, inc, secs):
    """directed search on the compiled real code for an input that breaks the property"""
    import props
    builds = {}
    for prog, op in P['native']:
        name, _, fl = prog.partition('+')
        widths = P.get('widths', (8, 16, 32, 64))
        for D in widths:
            exe = os.path.join(work, '%s_%s_%d' % (name, fl or 'plain', D))
            if exe in builds:
                continue
            flags = ['-std=c++17', '-w', '-DWORD=uint%d_t' % D, '-I' + os.path.join(REPO, 'include'), '-O1']
            libs = []
            if 'san' in fl:
                flags += ['-g', '-DEXACT', '-fsanitize=address,undefined', '-fno-sanitize=alignment', '-fno-sanitize-recover=all']
            if 'hwy' in fl:
                flags += ['-DBITLIB_HWY']
                libs = ['-lhwy']
            builds[exe] = subprocess.Popen(['g++'] + flags + [os.path.join(VERIF, 'native', name + '.cpp'), '-o', exe] + libs,
                                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    log = []
    ok = {}
    for exe, p in builds.items():
        try:
            _, err = p.communicate(timeout=200)
        except subprocess.TimeoutExpired:
            p.kill()
            err = 'compile time'
        ok[exe] = p.returncode == 0
        if not ok[exe]:
            log.append('g++ failed for %s: %s' % (os.path.basename(exe), err[-400:]))
    env = dict(os.environ, ASAN_OPTIONS='abort_on_error=1:handle_abort=0:detect_leaks=0:allocator_may_return_null=0', UBSAN_OPTIONS='abort_on_error=1:print_stacktrace=0')
    runs = []
    for prog, op in P['native']:
        name, _, fl = prog.partition('+')
        for D in P.get('widths', (8, 16, 32, 64)):
            exe = os.path.join(work, '%s_%s_%d' % (name, fl or 'plain', D))
            if ok.get(exe):
                runs.append((exe, op, D))
    rounds = max(1, (len(runs) + NCPU - 1) // NCPU)
    each = max(4, secs / rounds)
    live, todo, found = [], runs, None
    while (todo or live) and not found:
        while todo and len(live) < NCPU:
            exe, op, D = todo.pop(0)
            live.append((subprocess.Popen([exe, op, str(SEED), str(each)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env), exe, op, D, time.time()))
        time.sleep(0.05)
        for it in list(live):
            p, exe, op, D, t = it
            if p.poll() is None:
                if time.time() - t > each + 60:
                    p.kill()
                continue
            live.remove(it)
            o, e = p.communicate()
            fails = [l for l in o.splitlines() if l.startswith('FAIL')]
            log += [l for l in o.splitlines() if l.startswith('CASES')]
            if fails:
                if known(prop, fails[0]):
                    continue
                found = (fails[0], e[-1500:], os.path.basename(exe))
    for it in live:
        it[0].kill()
    return found, log


def known_list(prop):
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)) if k.get('property') == prop and k.get('status') == 'open']


def known(prop, text):
    return any(k.get('input') and k['input'] in text for k in known_list(prop))


def main():
    prop = sys.argv[1]
    import props
    import tasks
    if not hasattr(tasks, 'FLAGS'):
        tasks.FLAGS = {}
    P = props.PROPS[prop]
    kinds = P.get('kinds', props.FUNC_KINDS)
    build_irx()
    import runtask
    work = os.path.join(VERIF, 'build', 'run_%s_%d' % (prop, os.getpid()))
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    try:
        code = check(prop, P, kinds, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(code)


def check(prop, P, kinds, work):
    import props, tasks, runtask
    inc = runtask.overlay(REPO, work)
    want = [(t, D) for t in P['tasks'] for D in tasks.TASKS[t].ds]
    ex = sorted({(tasks.TASKS[t].group, D) for t, D in want})
    with mp.Pool(NCPU) as pool:
        got = pool.map(do_extract, [(inc, work, g, D) for g, D in ex], chunksize=1)
    js = {(g, D): (j, err) for g, D, j, err in got}
    results, jobs = [], []
    import costs
    for t, D in sorted(want, key=lambda a: -costs.cost(*a)):
        j, err = js[(tasks.TASKS[t].group, D)]
        if j is None:
            results.append(dict(task=t, D=D, error=err, obls=[], t=0))
        else:
            jobs.append((t, D, j, os.path.join(work, 'res_%s_%d.json' % (t, D))))
    results += run_jobs(jobs, T0 + LIMIT * 0.75, kinds=kinds)

    def bad(r):
        return [o for o in r['obls'] if o[0] in kinds and o[2] != 'discharged']
    # undecided (not refuted) obligations get a second attempt with larger solver budgets
    again = [r for r in results if r.get('js') and (r['error'] or bad(r)) and not any(o[2] == 'refuted' for o in bad(r))]
    if again and left() > 60:
        red = run_jobs([(r['task'], r['D'], r['js'], os.path.join(work, 'res2_%s_%d.json' % (r['task'], r['D']))) for r in again],
                       T0 + LIMIT, boost=3, kinds=kinds)
        byk = {(r['task'], r['D']): r for r in red}
        for i, r in enumerate(results):
            k = (r['task'], r['D'])
            if k in byk:
                byk[k]['t'] += r['t']
                results[i] = byk[k]
    failed = []
    nobl = ndis = 0
    for r in sorted(results, key=lambda r: (r['task'], r['D'])):
        for o in r['obls']:
            if o[0] in kinds:
                nobl += 1
                ndis += o[2] == 'discharged'
        fs = bad(r)
        seen = set()
        for o in fs:
            key = (o[0], o[1], o[2])
            if key not in seen:
                seen.add(key)
                failed.append('%s [uint%d_t] %s: %s: %s%s' % (r['task'], r['D'], o[0], o[1], o[2], ('\n      model: ' + o[3].replace('\n', ' ')) if len(o) > 3 and o[3] else ''))
        if r['error']:
            nobl += 1
            failed.append('%s [uint%d_t] no complete proof: %s' % (r['task'], r['D'], r['error']))
    # bounded stand-ins of functions outside the verifier's reach
    found, nlog = None, []
    standin = P.get('standin')
    if failed:
        found, nlog = native(prop, P, work, inc, 60 if TIER == 'quick' else 80)
    elif standin:
        found, nlog = native(prop, dict(P, native=standin), work, inc, P.get('standin_secs', 20) * (1 if TIER == 'quick' else 6))
    for k in known_list(prop):
        print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    viol = bool(failed or found)
    replay = os.path.join(VERIF, 'replay', prop + '.txt')
    if viol:
        os.makedirs(os.path.dirname(replay), exist_ok=True)
        with open(replay, 'w') as f:
            f.write('property %s\n' % prop)
            f.write('failed obligations (%d):\n' % len(failed))
            for x in failed[:60]:
                f.write('  - %s\n' % x)
            f.write('\nfailing input on the compiled real code (native/*.cpp, bit-by-bit oracle):\n')
            if found:
                f.write('  %s\n  program %s, seed %d\n%s\n' % (found[0], found[2], SEED, found[1]))
            else:
                f.write('  none found\n' + ''.join('  %s\n' % l for l in nlog))
    write_evidence(prop, P, kinds, results, nobl, ndis, failed, found, nlog)
    print('%s: %d obligations, %d discharged, %d tasks, %.0f s' % (prop, nobl, ndis, len(results), time.time() - T0))
    if viol:
        for x in failed[:8]:
            print('  failed: ' + x.split('\n')[0])
        if found:
            print('  ' + found[0])
        print('VIOLATION property=%s replay=%s%s' % (prop, replay, '' if found else ' no-failing-input-found'))
        return 1
    return 0


def write_evidence(prop, P, kinds, results, nobl, ndis, failed, found, nlog):
    import props, tasks
    funcs = sorted({c for t in P['tasks'] for c in tasks.TASKS[t].covers})
    inl = sorted({f for r in results for f in r.get('funcs', ())})
    by = {}
    for r in results:
        for k, v in (r.get('lia') or {}).items():
            by[k] = by.get(k, 0) + v
    cov = dict(
        obligations=nobl, discharged=ndis, checker_cmd='python3-vt /verif/check.py ' + prop,
        trusted_base=props.COMMON + P.get('trusted', []),
        functions_under_contract=funcs, obligation_kinds=list(kinds),
        solver_queries=dict(bitvector_z3=sum(r.get('bv', 0) for r in results), linear_arithmetic=by),
        solver_time_s=round(sum(r.get('bvt', 0) + r.get('liat', 0) for r in results), 1),
        proof_time_s=round(sum(r['t'] for r in results), 1),
        paths=sum(r.get('paths', 0) for r in results), loops_with_inferred_contracts=sum(r.get('loops', 0) for r in results),
        returning_paths=sum(r.get('nret', 0) for r in results),
        tasks=[dict(task=r['task'], word_bits=r['D'], obligations=len([o for o in r['obls'] if o[0] in kinds]),
                    seconds=round(r['t'], 1), precondition=r.get('presat', ''), error=r['error']) for r in sorted(results, key=lambda r: (r['task'], r['D']))],
        failed=failed[:40], bounded_stand_ins=nlog)
    if 'bounded' in P:
        cov['bounded_note'] = P['bounded']
    ev = dict(property=prop, tier=TIER if TIER in ('quick', 'thorough') else 'quick', seed=SEED, level=P.get('level', 'proof'), coverage=cov,
              assumptions=props.ASSUME + P.get('assume', []), wall_s=round(time.time() - T0, 1), violations=1 if (failed or found) else 0)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w'), indent=1)


if __name__ == '__main__':
    main()
