#!/usr/bin/env python3
"""run.py <property> : decide one property against /repo's working tree.

Compiles the harnesses of the property from /verif/h against the headers in
/repo (production flags and, where the property asks for it, other vector
back ends or sanitizers), runs them under seeded workloads and judges what the
monitors reported.  Exit 0: held on everything observed.  Exit 1: a line
"VIOLATION property=<id> replay=<path>".  Exit 2: the check itself could not run.
"""
import array, concurrent.futures as cf, json, os, re, shutil, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, HERE)
import checks

BASE = ['-std=c++17', '-W', '-Wall', '-fno-exceptions', '-fno-rtti', '-ffast-math',
        '-ftree-vectorize', '-Wno-vla-cxx-extension', '-Wno-unused', '-Wno-unknown-warning-option', '-w']
CLANG = ['clang++-18', '-stdlib=libc++']
UBSAN = ['-fsanitize=undefined', '-fno-sanitize=float-divide-by-zero', '-fno-sanitize-recover=undefined']
VARIANTS = {
    # the flags of tests/Makefile
    'prod': CLANG + ['-march=x86-64-v3', '-O2'] + BASE,
    'sse':  CLANG + ['-march=x86-64-v2', '-O2'] + BASE,
    'gen':  CLANG + ['-march=x86-64', '-O2'] + BASE,
    # NEON back end executed on this machine through an emulation of arm_neon.h
    'neon': CLANG + ['-march=x86-64-v2', '-O2', '-DVERIF_NEON=1', '-I' + HERE + '/h/neon'] + BASE,
    'neon64': CLANG + ['-march=x86-64-v2', '-O2', '-DVERIF_NEON=2', '-I' + HERE + '/h/neon'] + BASE,
    # the real NEON back end, parsed and instantiated only: nothing here can run it
    'arm': CLANG + ['--target=aarch64-linux-gnu', '-march=armv8-a+crc+simd', '-idirafter', '/usr/aarch64-linux-gnu/include', '-fsyntax-only'] + BASE,
    'asan': CLANG + ['-march=x86-64-v3', '-O1', '-g', '-fno-omit-frame-pointer', '-fsanitize=address'] + UBSAN + BASE,
    'asan_sse': CLANG + ['-march=x86-64-v2', '-O1', '-g', '-fno-omit-frame-pointer', '-fsanitize=address'] + UBSAN + BASE,
    'asan_gen': CLANG + ['-march=x86-64', '-O1', '-g', '-fno-omit-frame-pointer', '-fsanitize=address'] + UBSAN + BASE,
    'tsan': CLANG + ['-march=x86-64-v3', '-O1', '-g', '-fsanitize=thread'] + BASE,
    'msan': CLANG + ['-march=x86-64-v3', '-O1', '-g', '-fno-omit-frame-pointer', '-fsanitize=memory', '-fsanitize-memory-track-origins'] + BASE,
    # run under valgrind (memcheck), with the memory the code may not rely on marked undefined
    'vg':   CLANG + ['-march=x86-64-v3', '-O1', '-g', '-DVH_VALGRIND'] + BASE,
    'O0':   CLANG + ['-march=x86-64-v3', '-O0'] + BASE,
    'gcc':  ['g++', '-march=x86-64-v3', '-O2'] + BASE,
    'gccgen': ['g++', '-march=x86-64', '-O2'] + BASE,
    'o3':   CLANG + ['-march=x86-64-v3', '-O3', '-fno-fast-math'] + [f for f in BASE if f != '-ffast-math'],
}
WRAP = {'vg': ['valgrind', '-q', '--error-exitcode=9', '--num-callers=8', '--main-stacksize=8388608']}
ENV = dict(os.environ)
ENV['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=0:detect_stack_use_after_return=1:allocator_may_return_null=0'
ENV['UBSAN_OPTIONS'] = 'print_stacktrace=0'
ENV['TSAN_OPTIONS'] = 'halt_on_error=0:exitcode=66:report_thread_leaks=0'
ENV['MSAN_OPTIONS'] = 'halt_on_error=1'


class Broken(Exception):
    pass


def limit():
    import resource
    try:
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        resource.setrlimit(resource.RLIMIT_STACK, (256 << 20, resource.RLIM_INFINITY))
    except Exception:
        pass
    os.setpgid(0, 0)


def call(cmd, timeout, cwd=None):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=ENV, cwd=cwd,
                         preexec_fn=limit, errors='replace', text=True)
    try:
        out, err = p.communicate(timeout=timeout)
        return p.returncode, out, err, False
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGTERM)
            time.sleep(1)
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        out, err = p.communicate()
        return -9, out, err, True


def pch_key(job):
    if VARIANTS[job['variant']][0] == 'g++':
        return None
    return (job['variant'],) + tuple(d for d in job['defs'] if d.startswith('-O')) + tuple(job.get('libs', []))


def precompile(keys, tmp):
    """the standard headers of vh.hh (nothing of /repo), parsed once per build flavour"""
    src = os.path.join(tmp, 'std.hh')
    with open(os.path.join(HERE, 'h', 'vh.hh')) as fh, open(src, 'w') as out:
        out.write(''.join(l for l in fh if l.startswith('#include <') and 'valgrind' not in l))

    def one(k):
        pch = os.path.join(tmp, 'std%d.pch' % keys.index(k))
        rc = call([f for f in VARIANTS[k[0]] if f != '-fsyntax-only'] + list(k[1:]) + ['-x', 'c++-header', src, '-o', pch], 300)[0]
        return k, pch if rc == 0 else None
    with cf.ThreadPoolExecutor(8) as ex:
        return dict(ex.map(one, keys))


def compile_unit(job, exe, pch=None):
    srcs = job['src'] if isinstance(job['src'], list) else [job['src']]
    cmd = VARIANTS[job['variant']] + ['-I' + REPO, '-I' + HERE + '/h'] + job['defs'] + \
        [os.path.join(HERE, 'h', s) for s in srcs] + ['-o', exe] + job.get('libs', [])
    if pch:
        rc, out, err, to = call(cmd + ['-include-pch', pch], 800)
        if rc == 0:
            return rc, cmd, out + err, to
    rc, out, err, to = call(cmd, 800)
    return rc, cmd, out + err, to


NEON_H = '/usr/lib/llvm-18/lib/clang/18/include/arm_neon.h'
GAP = re.compile(r"error: (?:use of undeclared identifier|unknown type name|no member named|no matching function for call to) '(\w+)'")


def emulation_gap(job, log):
    """NEON code that needs something of the real arm_neon.h the emulation lacks: not explored, and no verdict"""
    if not job['variant'].startswith('neon'):
        return None
    names = set(GAP.findall(log))
    try:
        with open(NEON_H) as fh:
            real = set(re.findall(r'\bv\w+_[\w]+\b|\b\w+x\d+(?:x\d)?_t\b', fh.read()))
    except OSError:
        return None
    missing = names & real
    return ' '.join(sorted(missing)) if missing else None


SUMM = re.compile(r'SUMMARY: (\w+): (data race|[\w-]+)(?: \(?([^\s:]+))?')
RTE = re.compile(r'([^\s:]+):\d+:\d+: runtime error: (.*)')
ASSERT = re.compile(r"([^\s:/]+\.(?:hh|cc|h)):\d+: .*Assertion `(.*)' failed")
# what a check of memory safety counts: sanitizer reports, crashes, and writes seen outside a buffer
MEMORY = re.compile(r'ubsan:|valgrind:|\w+Sanitizer:|assert:|death:|timeout|compile:|.*(out-of-bounds|writes-outside|touches-more)')
VALGRIND = re.compile(r'==\d+== ((?:Conditional jump|Use of uninit|Invalid|Syscall param|Jump to|Process terminating|Mismatched|Source and dest)[^\n]*)\n==\d+==    at 0x[0-9A-F]+: ([^\n]*)')
OUTPUT = re.compile(r'output|assert:|death:|timeout')
DEATH = re.compile(r'@@DEATH why=(\S+) case=(.*)')


def judge_run(job, rc, out, err, timed_out, cmd):
    """-> (result or None, [violation dicts], error or None)"""
    viol = []
    res = None
    for line in out.splitlines():
        if line.startswith('@@RESULT '):
            try:
                res = json.loads(line[9:])
            except ValueError:
                pass
    if res:
        for v in res['violations']:
            viol.append(dict(key=v['key'], witness=v['witness'], count=v['count']))
    if job.get('only') == 'output' and res and rc == 0:
        rest = ''.join(l + '\n' for l in out.splitlines() if not l.startswith('@@RESULT ')) + err
        if rest:
            viol.append(dict(key='output', witness='%d characters written to the standard streams: %s' % (len(rest), rest[:200].replace('\n', ' ')), count=1))
        res['counters']['silent_runs'] = 1
    death = DEATH.search(err)
    case = death.group(2) if death else ''
    m = RTE.search(err)
    if m:
        viol.append(dict(key='ubsan:%s:%s' % (os.path.basename(m.group(1)), re.sub(r"-?\d[\d.]*", '#', m.group(2))[:70]),
                         witness=m.group(0) + ' | case: ' + case, count=1))
    for m in VALGRIND.finditer(err):
        where = re.search(r'\(([^()]*):\d+\)$', m.group(2))
        key = 'valgrind:%s:%s' % (m.group(1)[:32].strip(), where.group(1) if where else '?')
        if key not in [v['key'] for v in viol]:
            viol.append(dict(key=key, witness=m.group(1) + ' at ' + m.group(2), count=1, detail=err[m.start():m.start() + 6000]))
    s = SUMM.search(err)
    if s and s.group(1) != 'UndefinedBehaviorSanitizer':
        viol.append(dict(key='%s:%s:%s' % (s.group(1), s.group(2).replace(' ', '-'), os.path.basename(s.group(3) or '?')),
                         witness=s.string[s.start():s.end() + 160].splitlines()[0] + ' | case: ' + case, count=1,
                         detail=err[-6000:]))
    if not viol and (res is None or rc != 0):
        a = ASSERT.search(err)
        if a:
            viol.append(dict(key='assert:%s:%s' % (a.group(1), a.group(2)[:80]), witness='assertion failed: ' + a.group(0)[:200] + ' | case: ' + case, count=1))
        elif death and death.group(1) not in ('killed',):
            viol.append(dict(key='death:' + death.group(1), witness='process died (%s) | case: %s' % (death.group(1), case), count=1))
        elif timed_out:
            viol.append(dict(key='timeout', witness='no end within the time limit | case: ' + case, count=1, timeout=True))
        else:
            return res, viol, 'exit status %s without a result: %s\n%s' % (rc, ' '.join(cmd), err[-1500:])
    return res, viol, None


def load_known():
    known, path = [], os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r'known: property=(\S+) key=(\S+) (.*)', line)
            if m:
                known.append(m.groups())
    return known


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv:
        tier = 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    keep = '--keep' in sys.argv
    t0 = time.time()
    spec = checks.CHECKS[prop]
    jobs = checks.jobs(prop, tier)
    tmp = tempfile.mkdtemp(prefix='verif_%s_' % prop)
    workers = os.cpu_count() or 8
    results, violations, errors, runs = [], [], [], 0
    evals = 0
    distinct = set()
    counters, samples, per_variant = {}, [], {}
    gaps = []
    digests = {}	# (name, shard) -> [(job, cmd, shard, values)]
    try:
        keys = [pch_key(j) for j in jobs]
        wanted = sorted({k for k in keys if k and keys.count(k) >= 4}) if len(jobs) >= 12 else []
        pchs = precompile(wanted, tmp)
        with cf.ThreadPoolExecutor(workers) as ex:
            def do_compile(i):
                return i, compile_unit(jobs[i], os.path.join(tmp, 'u%d' % i), pchs.get(keys[i]))

            def do_run(i, sh):
                job = jobs[i]
                hf = os.path.join(tmp, 'h%d_%d' % (i, sh))
                cmd = WRAP.get(job['variant'], []) + [os.path.join(tmp, 'u%d' % i), '--seed', str(seed), '--shard', str(sh), '--shards', str(job['shards']),
                       '--hashes', hf, '--scale', str(job.get('scale', 1.0))]
                if tier == 'thorough':
                    cmd.append('--thorough')
                if job.get('section'):
                    cmd += ['--section', job['section']]
                cmd += job.get('args', [])
                limit_s = job.get('timeout', 420 if tier == 'quick' else 14400)
                r = call(cmd, limit_s, cwd=tmp)
                j = judge_run(job, r[0], r[1], r[2], r[3], cmd)
                if j[2] or any(v.get('timeout') for v in j[1]):
                    r = call(cmd, limit_s, cwd=tmp)	# once more: a loaded machine is not a violation
                    j = judge_run(job, r[0], r[1], r[2], r[3], cmd)
                return i, sh, cmd, j, hf

            pend = {ex.submit(do_compile, i) for i in sorted(range(len(jobs)), key=lambda i: -jobs[i].get('cost', 1))}
            while pend:
                done, pend = cf.wait(pend, return_when=cf.FIRST_COMPLETED)
                for f in done:
                    r = f.result()
                    if len(r) == 2:
                        i, (rc, cmd, log, to) = r
                        gap = emulation_gap(jobs[i], log) if rc != 0 and not to else None
                        if gap:
                            gaps.append('%s (%s): %s' % (jobs[i].get('name') or jobs[i]['src'], jobs[i]['variant'], gap))
                            continue
                        if rc != 0 or to:
                            if jobs[i].get('compile_is_verdict') and not to:
                                first = [l for l in log.splitlines() if 'error' in l or 'multiple definition' in l or 'undefined' in l]
                                violations.append(dict(key='compile:%s:%s' % (jobs[i]['variant'], jobs[i].get('name', '')), count=1,
                                                       witness='does not build: ' + (first[0] if first else log[-300:]), job=jobs[i], cmd=cmd))
                            else:
                                errors.append('cannot compile: %s\n%s' % (' '.join(cmd), log[:1500]))
                            continue
                        if jobs[i].get('compile_is_verdict'):
                            counters['programs_linked_or_compiled'] = counters.get('programs_linked_or_compiled', 0) + 1
                        for sh in range(jobs[i]['shards']):
                            pend.add(ex.submit(do_run, i, sh))
                    else:
                        i, sh, cmd, (res, viol, err), hf = r
                        runs += 1
                        if err:
                            errors.append(err)
                        for v in viol:
                            v.update(job=jobs[i], cmd=cmd, shard=sh)
                            violations.append(v)
                        if res:
                            evals += res['evaluations']
                            pv = per_variant.setdefault(jobs[i]['variant'], 0)
                            per_variant[jobs[i]['variant']] = pv + res['evaluations']
                            for k, n in res['counters'].items():
                                if k.startswith('max_'):
                                    counters[k] = max(counters.get(k, 0), n)
                                else:
                                    counters[k] = counters.get(k, 0) + n
                            for s in res['samples']:
                                if s not in samples:
                                    samples.append(s)
                            for name, vals in res.get('digests', {}).items():
                                digests.setdefault((name, sh), []).append((jobs[i], cmd, sh, vals))
                            if os.path.exists(hf):
                                a = array.array('Q')
                                with open(hf, 'rb') as fh:
                                    a.frombytes(fh.read())
                                distinct.update(a)
                                os.unlink(hf)
    finally:
        if not keep:
            shutil.rmtree(tmp, ignore_errors=True)
    for (name, sh), got in sorted(digests.items(), key=lambda x: x[0]):
        if len(got) < 2:
            counters['digests_without_counterpart'] = counters.get('digests_without_counterpart', 0) + 1
            continue
        got.sort(key=lambda g: jobs.index(g[0]))
        base = got[0]
        for job, cmd, shard, vals in got[1:]:
            n = min(len(vals), len(base[3]))
            counters['outputs_compared_across_builds'] = counters.get('outputs_compared_across_builds', 0) + n
            bad = [k for k in range(n) if vals[k] != base[3][k]]
            if bad or len(vals) != len(base[3]):
                violations.append(dict(key='digest:' + name, count=max(1, len(bad)), job=job, cmd=cmd, shard=shard,
                                       witness='%s: output of case %s differs between the builds %s and %s (%d of %d cases)' % (
                                           name, bad[0] if bad else n, base[0]['variant'], job['variant'], len(bad), n)))
    known = [k for k in load_known() if k[0] == prop]
    listed, fresh = {}, []
    for v in violations:
        if v['job'].get('only') == 'output' and not OUTPUT.match(v['key']):
            continue
        if v['job'].get('only') == 'memory' and not MEMORY.match(v['key']):
            counters['functional_verdicts_left_to_other_checks'] = counters.get('functional_verdicts_left_to_other_checks', 0) + v['count']
            continue
        hit = [k for k in known if k[1] == v['key']]
        if hit:
            listed[v['key']] = hit[0][2]
        else:
            fresh.append(v)
    for k, what in sorted(listed.items()):
        print('KNOWN-FINDING: property=%s %s (%s)' % (prop, what, k))
    wall = time.time() - t0
    # floor on what must have been observed: a run whose monitors saw nothing is not a pass
    if not errors and not fresh and not gaps:
        for name, least in spec.get('floor', {}).items():
            got = evals if name == 'evaluations' else counters.get(name, 0)
            if got < least:
                errors.append('monitors observed too little: %s=%d < %d' % (name, got, least))
    if evals == 0 and not fresh:
        errors.append('no evaluation happened')
    for g in gaps:
        print('NOT EXPLORED: the emulation of arm_neon.h lacks ' + g)
    if gaps:
        counters['programs_not_built_for_lack_of_emulation'] = len(gaps)
    step = max(1, len(samples) // 10)
    samples = samples[::step][:12] or ['(none)']
    ev = dict(property=prop, tier=tier, seed=seed, level='exploration',
              coverage=dict(evaluations=evals, distinct_nontrivial=len(distinct), rule=spec['rule'], samples=samples,
                            observed=counters, evaluations_per_build=per_variant, processes=runs, programs_built=len(jobs)),
              assumptions=spec.get('assumptions', []), wall_s=round(wall, 2), violations=len(fresh))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as fh:
        json.dump(ev, fh, indent=1)
    if fresh:
        os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
        seen = set()
        first = None
        for v in fresh:
            if v['key'] in seen:
                continue
            seen.add(v['key'])
            path = os.path.join(HERE, 'replays', '%s-%s.json' % (prop, re.sub(r'[^\w]+', '_', v['key'])[:60]))
            job = v['job']
            exe = '/tmp/replay'
            srcs = job['src'] if isinstance(job['src'], list) else [job['src']]
            comp = VARIANTS[job['variant']] + ['-I' + REPO, '-I' + HERE + '/h'] + job['defs'] + [os.path.join(HERE, 'h', s) for s in srcs] + ['-o', exe] + job.get('libs', [])
            with open(path, 'w') as fh:
                json.dump(dict(property=prop, key=v['key'], count=v['count'], witness=v['witness'], build=' '.join(comp),
                               run=' '.join(WRAP.get(job['variant'], []) + [exe] + v['cmd'][len(WRAP.get(job['variant'], [])) + 1:]) if 'shard' in v else '', detail=v.get('detail', '')), fh, indent=1)
            print('  %s x%d: %s' % (v['key'], v['count'], v['witness'][:400]))
            first = first or path
            print('VIOLATION property=%s replay=%s' % (prop, path))
        print('%s: %d kinds of violation, %d evaluations, %.1fs' % (prop, len(seen), evals, wall))
        return 1
    if errors:
        for e in errors[:1]:
            print('ERROR: ' + e, file=sys.stderr)
        return 2
    print('%s: held on %d evaluations (%d distinct), %d processes, %.1fs' % (prop, evals, len(distinct), runs, wall))
    return 0


if __name__ == '__main__':
    sys.exit(main())
