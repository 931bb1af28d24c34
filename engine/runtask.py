"""compile + extract + run tasks (development driver and worker)"""
import os, sys, json, time, subprocess, tempfile, shutil
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
CLANG = '/usr/lib/llvm-18/bin/clang++'


def overlay(repo, dst):
    inc = os.path.join(dst, 'include')
    shutil.copytree(os.path.join(repo, 'include'), inc)
    import re
    for d, _, fs in os.walk(inc):
        for f in fs:
            p = os.path.join(d, f)
            s = open(p, errors='surrogateescape').read()
            t = re.sub(r'constexpr\s+std::string\b([^_])', r'std::string\1', s)
            if t != s:
                open(p, 'w', errors='surrogateescape').write(t)
    return inc


def extract(inc, work, tag, src, flags=(), keep='^H_', contracts='^$$'):
    cpp, ll, js = [os.path.join(work, tag + e) for e in ('.cpp', '.ll', '.json')]
    open(cpp, 'w').write(src)
    subprocess.run([CLANG, '-std=c++17', '-I' + inc, '-O1', '-Xclang', '-disable-llvm-passes', '-S', '-emit-llvm', '-w', cpp, '-o', ll] + list(flags),
                   check=True, capture_output=True, text=True)
    subprocess.run([os.path.join(VERIF, 'build', 'irx'), ll, js, keep, contracts,
                    'always-inline,globaldce,function(sroa,early-cse,instsimplify,dce,loop-simplify)'],
                   check=True, capture_output=True, text=True)
    return js


sys.setrecursionlimit(100000)


def main():
    import tasks, prim, iter, rotraw, vec, text
    from collections import Counter
    names = sys.argv[1].split(',')
    ds = [int(d) for d in sys.argv[2].split(',')]
    work = tempfile.mkdtemp(prefix='rt', dir='/tmp')
    inc = overlay(os.environ.get('REPO', '/repo'), work)
    for D in ds:
        js = {}
        for n in names:
            t = tasks.TASKS[n]
            if t.group not in js:
                js[t.group] = json.load(open(extract(inc, work, '%s%d' % (t.group, D), tasks.GROUPS[t.group] % {'W': 'uint%d_t' % D, 'D': D}, contracts=tasks.NOINLINE.get(t.group, '^$$'))))
            t0 = time.time()
            x = tasks.Ctx(js[t.group], D, log=print if os.environ.get('V') else None)
            if os.environ.get('TMO'):
                x.E.deadline = time.time() + float(os.environ['TMO'])
            import signal
            def h(*a):
                print('   ..', n, D, '%.0fs' % (time.time() - t0), x.E.stats, len(x.E.obls), x.E.sol.n, x.E.sol.lia_n, '%.0f %.0f' % (x.E.sol.time, x.E.sol.lia_time), x.E.loop_notes[-2:], flush=True)
                signal.alarm(30)
            signal.signal(signal.SIGALRM, h); signal.alarm(30)
            err = ''
            try:
                t.fn(x)
            except Exception as e:
                if os.environ.get('TB'):
                    import traceback; traceback.print_exc()
                err = '%s: %s' % (type(e).__name__, e)
            signal.alarm(0)
            c = Counter((o.kind, o.status) for o in x.E.obls)
            bad = Counter('%s:%s:%s' % (o.kind, o.name, o.status) for o in x.E.obls if o.status != 'discharged')
            print(n, D, '%.1fs' % (time.time() - t0), 'ret', x.nret, 'obls', len(x.E.obls), 'bad', dict(bad), err, x.E.sol.lia.by, 'bv', x.E.sol.n,
                  'slow', sorted([q for q in x.E.sol.slow if not isinstance(q[0], str)], reverse=True)[:2], x.E.loop_notes[:3], flush=True)
    shutil.rmtree(work)


if __name__ == '__main__':
    main()
