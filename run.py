#!/usr/bin/env python3
"""Decides one property of isoalloc with the symbolic executor in engine/.

run.py Pxx [--tier quick|thorough]    one property (what MANIFEST.json registers)
run.py --setup                        build the engine
run.py --job NAME [...]               run single jobs and print what the engine says (development)
run.py --list                         the jobs of every property
"""
import concurrent.futures as cf, copy, hashlib, json, os, re, resource, shutil, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
LLVM = '/usr/lib/llvm-18/bin/'
CPU = 8
BASE = dict(THREAD_SUPPORT=1, PRE_POPULATE_PAGES=0, SMALL_MEM_STARTUP=0, DISABLE_CANARY=0, MALLOC_HOOK=1, ALLOC_SANITY=0,
            MEMCPY_SANITY=0, UNINIT_READ_SANITY=0, CPU_PIN=0, SCHED_GETCPU='', EXPERIMENTAL=0, UAF_PTR_PAGE=0,
            VERIFY_FREE_BIT_SLOTS=0, NAMED_MAPPINGS=0, ABORT_ON_NULL=0, NO_ZERO_ALLOCATIONS=1, ABORT_NO_ENTROPY=1,
            ISO_DTOR_CLEANUP=0, RANDOMIZE_FREELIST=1, USE_SPINLOCK=0, HUGE_PAGES=1, THP_PAGES=1, USE_MLOCK=1,
            MEMORY_TAGGING=0, STRONG_SIZE_ISOLATION=0, MEMSET_SANITY=0, AUTO_CTOR_DTOR=1, SIGNAL_HANDLER=0,
            BIG_ZONE_META_DATA_GUARD=0, BIG_ZONE_GUARD=0, MASK_PTRS=1, SANITIZE_CHUNKS=0, FUZZ_MODE=0,
            PERM_FREE_REALLOC=0, DONT_USE_NEON=1, UNIT_TESTING=1, DEBUG=1, LEAK_DETECTOR=1, MEM_USAGE=1)
# name -> overrides of the configuration that tests/ and the Makefile's test targets use
CONFIGS = {
    'base': {}, 'tagging': dict(MEMORY_TAGGING=1), 'sanity': dict(ALLOC_SANITY=1), 'libc': dict(MEMCPY_SANITY=1, MEMSET_SANITY=1),
    'release': dict(DEBUG=0, LEAK_DETECTOR=0, MEM_USAGE=0, UNIT_TESTING=0), 'sanitize': dict(SANITIZE_CHUNKS=1),
    'nothreads': dict(THREAD_SUPPORT=0), 'spinlock': dict(USE_SPINLOCK=1), 'small': dict(SMALL_MEM_STARTUP=1),
    'profiler': dict(HEAP_PROFILER=1), 'strong': dict(STRONG_SIZE_ISOLATION=1), 'uaf': dict(UAF_PTR_PAGE=1, SIGNAL_HANDLER=1),
    'verify': dict(VERIFY_FREE_BIT_SLOTS=1), 'abortnull': dict(ABORT_ON_NULL=1), 'bigguard': dict(BIG_ZONE_META_DATA_GUARD=1, BIG_ZONE_GUARD=1),
    'nomask': dict(MASK_PTRS=0), 'named': dict(NAMED_MAPPINGS=1), 'cleanup': dict(ALLOC_SANITY=1, AUTO_CTOR_DTOR=0, ISO_DTOR_CLEANUP=1),
    'cleanup0': dict(AUTO_CTOR_DTOR=0, ISO_DTOR_CLEANUP=1), 'experimental': dict(EXPERIMENTAL=1), 'nocanary': dict(DISABLE_CANARY=1),
    'zeroalloc': dict(NO_ZERO_ALLOCATIONS=0), 'permrealloc': dict(PERM_FREE_REALLOC=1), 'norand': dict(RANDOMIZE_FREELIST=0),
    'protbig': dict(PROTECT_FREE_BIG_ZONES=1), 'cpp': {}, 'fuzz': dict(FUZZ_MODE=1), 'noentropy': dict(ABORT_NO_ENTROPY=0),
    'cpupin': dict(CPU_PIN=1), 'nothreads_cleanup': dict(THREAD_SUPPORT=0, AUTO_CTOR_DTOR=0, ISO_DTOR_CLEANUP=1),
    'bigguard_cleanup': dict(BIG_ZONE_META_DATA_GUARD=1, BIG_ZONE_GUARD=1, AUTO_CTOR_DTOR=0, ISO_DTOR_CLEANUP=1),
    'tagging_cleanup': dict(MEMORY_TAGGING=1, AUTO_CTOR_DTOR=0, ISO_DTOR_CLEANUP=1), 'spinlock_cleanup': dict(USE_SPINLOCK=1, AUTO_CTOR_DTOR=0, ISO_DTOR_CLEANUP=1),
}
ENVFN = 'mmap munmap mprotect madvise mlock getrandom prctl sysconf getpid strerror getrusage sched_getcpu sigaction sigemptyset getenv open close write read poll ioctl syscall dladdr pthread_create pthread_mutex_init pthread_mutex_lock pthread_mutex_trylock pthread_mutex_unlock pthread_mutex_destroy'.split()
HOOKFN = 'malloc free calloc realloc reallocarray posix_memalign aligned_alloc memalign malloc_usable_size __libc_malloc __libc_free __libc_calloc __libc_realloc __libc_reallocarray __libc_memalign __posix_memalign'.split()
LIBCFN = 'memcpy memmove memset bzero'.split()


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)


def engine():
    src = [os.path.join(HERE, 'engine', f) for f in ('exec.cpp', 'expr.cpp', 'run.inc', 'expr.h', 'mem.h', 'ir.h', 'build.sh')]
    h = hashlib.sha1(b''.join(open(f, 'rb').read() for f in src)).hexdigest()[:16]
    out = os.path.join(HERE, '.build', 'sx-' + h)
    if not os.path.exists(out):
        os.makedirs(os.path.dirname(out), exist_ok=True)
        r = sh(['bash', os.path.join(HERE, 'engine', 'build.sh'), out + '.%d' % os.getpid()])
        if r.returncode:
            raise RuntimeError('engine build failed: ' + r.stderr[-2000:])
        os.rename(out + '.%d' % os.getpid(), out)
    return out


class Job:
    group = None


def parse_jobs():
    jobs = []
    for f in sorted(os.listdir(os.path.join(HERE, 'h'))):
        if not f.endswith(('.c', '.cpp')):
            continue
        for line in open(os.path.join(HERE, 'h', f)):
            m = re.match(r'\s*//@job\s+(.*)', line)
            if not m:
                continue
            kv = dict((k, v.strip('"')) for k, v in re.findall(r'(\w+)=("[^"]*"|\S+)', m.group(1)))
            for cfg in kv.get('cfg', 'base').split(','):
                j = Job()
                j.file, j.entry, j.cfg = f, kv['entry'], cfg
                j.props = kv['prop'].split(',')
                j.tier = kv.get('tier', 'quick')           # quick: both tiers; thorough: only thorough
                j.timeout = float(kv.get('timeout', '60'))
                j.ttimeout = float(kv.get('ttimeout', str(max(300, j.timeout))))
                j.opts = kv.get('opts', '').split()
                j.defs = kv.get('defs', '').split()
                j.reach = [r for r in kv.get('reach', '').split(',') if r]
                j.bound = kv.get('bound', '')
                j.name = '%s@%s' % (j.entry, cfg) + ('+' + re.sub(r'\W', '_', ' '.join(j.defs)) if j.defs else '')
                n = int(kv.get('split', '0'))              # the same exploration in n parts, by the value of SPLIT
                for i in range(n):
                    k = copy.copy(j)
                    k.defs = j.defs + ['SPLIT=%d' % i]
                    k.name += '+part%d' % i
                    k.group = j.name
                    jobs.append(k)
                if not n:
                    jobs.append(j)
    return jobs


def cflags(cfg):
    d = dict(BASE)
    for c in [cfg] if cfg in CONFIGS else cfg.split('_'):   # a_b: both sets of overrides
        d.update(CONFIGS[c])
    r = ['-std=c11', '-pthread', '-fvisibility=hidden', '-w', '-g', '-O1', '-Xclang', '-disable-llvm-passes', '-fno-strict-aliasing', '-fcommon',
         '-I' + REPO + '/include', '-I' + HERE + '/rt', '-I' + HERE + '/engine', '-I' + HERE + '/h']
    for k, v in d.items():
        r.append('-D%s%s' % (k, '' if v == '' else '=%s' % v))
    return r


def renames(f):
    if f.endswith('.cpp'):   # done by rt/cxx.h, after the standard headers
        return []
    r = ['-Dabort=sx_abort'] + ['-D%s=env_%s' % (x, x) for x in ENVFN]
    r += ['-Denviron=env_environ']
    if f == 'malloc_hook.c':
        r += ['-D%s=hk_%s' % (x, x) for x in HOOKFN]
    if f == 'libc_hook.c':
        r += ['-D%s=hk_%s' % (x, x) for x in LIBCFN]
    return r


class Build:
    """bitcode of the code under test, rebuilt from the working tree on every run"""
    def __init__(self, tmp):
        self.tmp, self.lib, self.mod, self.obj, self.log = tmp, {}, {}, {}, []
        self.glock, self.locks = threading.Lock(), {}

    def cc(self, src, out, flags, cxx=False):
        r = sh([LLVM + ('clang++' if cxx else 'clang')] + flags + ['-emit-llvm', '-c', src, '-o', out])
        if r.returncode:
            self.log.append('%s: %s' % (src, r.stderr[-1500:]))
            return None
        return out

    def plan(self, jobs, ex):
        need = sorted(set((j.file, j.cfg, tuple(j.defs)) for j in jobs))
        fut, parts = {}, {}
        for cfg in sorted(set(n[1] for n in need)):
            fl = cflags(cfg)
            parts[cfg] = []
            for f in sorted(os.listdir(REPO + '/src')):
                if not f.endswith('.c') and not (f.endswith('.cpp') and 'cpp' in cfg.split('_')):
                    continue
                out = '%s/%s.%s.bc' % (self.tmp, cfg, f)
                fl2 = [x for x in fl if x != '-std=c11'] + ['-std=c++17', '-fno-exceptions', '-fno-rtti', '-DCPP_SUPPORT=1', '-include', HERE + '/rt/cxx.h'] if f.endswith('.cpp') else fl
                parts[cfg].append(ex.submit(self.cc, REPO + '/src/' + f, out, fl2 + renames(f), f.endswith('.cpp')))
        for cfg in set(n[1] for n in need):
            fl = cflags(cfg)
            parts[cfg].append(ex.submit(self.cc, HERE + '/rt/env.c', '%s/%s.env.bc' % (self.tmp, cfg), fl))
        for n in need:
            f, cfg, defs = n
            fl = cflags(cfg)
            if f.endswith('.cpp'):
                fl = [x for x in fl if x != '-std=c11'] + ['-std=c++17', '-fno-exceptions', '-fno-rtti']
            out = '%s/%s.%s.%s.bc' % (self.tmp, f, cfg, hashlib.sha1(' '.join(defs).encode()).hexdigest()[:6])
            fut[n] = ex.submit(self.cc, HERE + '/h/' + f, out, fl + ['-D' + d for d in defs] + (renames('x') if 0 else []), f.endswith('.cpp'))
        libs = {}
        for cfg, fs in parts.items():
            ps = [x.result() for x in fs]
            if None in ps:
                continue
            out = '%s/%s.lib.bc' % (self.tmp, cfg)
            libs[cfg] = ex.submit(self.link, ps, out)
        lk = {}
        for n in need:
            l = libs.get(n[1])
            hb = fut[n].result()
            if l is None or l.result() is None or hb is None:
                self.mod[n] = None
                continue
            lk[n] = ex.submit(self.finish, [l.result(), hb], hb[:-3] + '.mod.bc')
        for n, x in lk.items():
            self.mod[n] = x.result()

    def link(self, ps, out):
        r = sh([LLVM + 'llvm-link'] + ps + ['-o', out])
        if r.returncode:
            self.log.append('link: ' + r.stderr[-1500:])
            return None
        return out

    def finish(self, ps, out):
        if not self.link(ps, out + '.l'):
            return None
        ps = 'function(sroa,early-cse,instsimplify,simplifycfg,dce)'
        # where data races are decided no pass may add loads that the source does not have
        fa = ['-force-attribute=sanitize_thread', '-passes=forceattrs,' + ps] if '/conc.c.' in out else ['-passes=' + ps]
        r = sh([LLVM + 'opt'] + fa + [out + '.l', '-o', out])
        if r.returncode:
            self.log.append('opt: ' + r.stderr[-1500:])
            return None
        return out

    def native(self, key, entry):
        """the same module as machine code, for replay"""
        with self.glock:
            lock = self.locks.setdefault(key, threading.Lock())
        with lock:
            return self.native1(key, entry)

    def native1(self, key, entry):
        mod = self.mod[key]
        exe = mod + '.' + entry + '.exe'
        if os.path.exists(exe):
            return exe
        obj = mod + '.o'
        if not os.path.exists(obj):
            t = sh([LLVM + 'llvm-dis', mod, '-o', '-']).stdout
            t = re.sub(r'(?m)^@llvm\.(global_ctors|global_dtors) = .*$', '', t)
            open(mod + '.ll', 'w').write(t)
            r = sh([LLVM + 'clang', '-w', '-O1', '-c', mod + '.ll', '-o', obj])
            if r.returncode:
                self.log.append('native: ' + r.stderr[-800:])
                return None
        r = sh([LLVM + 'clang', '-w', '-O1', '-I' + HERE + '/engine', '-DREPLAY_ENTRY=' + entry, HERE + '/rt/rt_native.c', obj, '-no-pie', '-pthread', '-lm', '-o', exe])
        if r.returncode:
            self.log.append('native link: ' + r.stderr[-800:])
            return None
        return exe


def limit(mb):
    def f():
        resource.setrlimit(resource.RLIMIT_AS, (mb << 20, mb << 20))
    return f


def run_engine(sx, mod, job, timeout, mem):
    t = time.time()
    cmd = [sx, mod, job.entry, '--timeout', str(timeout), '--mem', str(mem)] + job.opts
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout + 60)
        out = p.stdout.strip().split('\n')[-1]
        r = json.loads(out)
        r['stderr'] = p.stderr[-3000:]
    except subprocess.TimeoutExpired:
        r = dict(status='timeout', violations=[], errors=['engine did not stop'], reached={}, witnesses={}, functions=[], assertions={})
    except ValueError:
        r = dict(status='error', violations=[], errors=['engine failed: ' + (p.stderr[-600:] or 'rc %d' % p.returncode)], reached={}, witnesses={}, functions=[], assertions={})
    r['wall'] = time.time() - t
    return r


def write_inputs(path, v, mode='w'):
    with open(path, mode) as f:
        for n, x in v['inputs']:
            f.write('in %s %s\n' % (n, x))
        for s in v['sched']:
            f.write('sched %d\n' % s)


def replay(exe, inp, t=60):
    try:
        p = subprocess.run([exe, inp], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=t, errors='replace')
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return 99, ''


def known():
    r = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) job=(\S+) id="([^"]*)" what="([^"]*)"', l.strip())
            if m:
                r.append(m.groups())
    return r


def belongs(prop, job, v):
    """assertions carry the property they belong to; anything else counts for every property of the job"""
    m = re.match(r'(P\d\d(?:,P\d\d)*)[ :]', v['id'])
    if m:
        return prop in m.group(1).split(',')
    return prop in job.props


def check(prop, tier, only=None):
    t0 = time.time()
    sx = engine()
    jobs = [j for j in parse_jobs() if (only and (j.entry in only or j.name in only)) or (not only and prop in j.props and (tier == 'thorough' or j.tier == 'quick'))]
    if not jobs:
        print('no jobs for', prop)
        return 2
    tmp = tempfile.mkdtemp(prefix='isov-')
    bad, knownhits, unconfirmed, results = [], [], [], []
    replays = os.path.join(HERE, 'evidence', 'replays')
    kf = known()
    found = threading.Event()

    def judge(b, j, r):
        # replay what the solver found as machine code
        key = (j.file, j.cfg, tuple(j.defs))
        mine = [v for v in r['violations'] if not prop or belongs(prop, j, v)]
        tj, slow = time.time(), 0
        for n, v in enumerate(mine):
            v['hit'] = [k for k in kf if k[0] == prop and k[1] == j.name and k[2] in v['id']]
            confirmed, how = False, ''
            if (n >= 12 or slow or time.time() - tj > 40 or time.time() - t0 > 600) and not v['hit'] and any(w.get('confirmed') for w in mine[:n]):
                v['confirmed'], v['replayed'] = True, 'not replayed: enough others were'
                continue
            exe = b.native(key, j.entry) if b.mod[key] else None
            if exe:
                inp = tempfile.mktemp(prefix='in-', dir=tmp)
                write_inputs(inp, v)
                rc, out = replay(exe, inp, 30 if found.is_set() else 60)
                slow += rc == 99
                how = (out.strip().split('\n') or [''])[-1]
                confirmed = rc == 10 or rc in (99, -11, -6, -7, -8)
                if rc == 99:
                    how = 'did not terminate'
            if not confirmed and v['kind'] in ('race', 'fault', 'deadlock', 'relock', 'unlock'):
                confirmed, how = True, 'engine verdict (%s natively)' % how
            v['replayed'], v['confirmed'] = how, confirmed
            if confirmed and not v['hit']:
                found.set()

    try:
        with cf.ThreadPoolExecutor(CPU) as ex:
            b = Build(tmp)
            b.plan(jobs, ex)
            build_s = time.time() - t0
            if b.log:
                print('\n'.join(b.log[:5]), file=sys.stderr)
            budget = 700 if tier == 'quick' else 840
            mem = 3500 if len(jobs) > 2 else 9000
            futs = {}
            for j in sorted(jobs, key=lambda j: -(j.timeout if tier == 'quick' else j.ttimeout)):
                mod = b.mod[(j.file, j.cfg, tuple(j.defs))]
                to = j.timeout if tier == 'quick' else j.ttimeout

                def go(j=j, mod=mod, to=to):
                    if mod is None:
                        return dict(status='error', violations=[], errors=['did not build'], reached={}, witnesses={}, functions=[], assertions={}, wall=0)
                    left = budget - (time.time() - t0)
                    if left < 5:
                        return dict(status='timeout', violations=[], errors=['no time left'], reached={}, witnesses={}, functions=[], assertions={}, wall=0)
                    # once a violation is confirmed the verdict is known: the rest is only sampled
                    r = run_engine(sx, mod, j, min(to, left, 40) if found.is_set() and prop else min(to, left), mem)
                    judge(b, j, r)
                    # the engine is checked against the machine code: a witness of every reached marker must replay
                    key = (j.file, j.cfg, tuple(j.defs))
                    for wid, w in sorted(r['witnesses'].items())[:3]:
                        if r['violations'] or time.time() - t0 > budget + 60:
                            break
                        exe = b.native(key, j.entry)
                        if not exe:
                            break
                        inp = os.path.join(tmp, 'w-%s-%s.txt' % (re.sub(r'\W', '_', j.name), re.sub(r'\W', '_', wid)))
                        write_inputs(inp, w)
                        rc, out = replay(exe, inp, 20)
                        ok = ('REACHED ' + wid + '\n') in out
                        r.setdefault('witness_replay', {})[wid] = 'ok' if ok else 'differs: rc %d %s' % (rc, out[-200:])
                    return r
                futs[j] = ex.submit(go)
            for j in jobs:
                results.append((j, futs[j].result()))
        witn = witok = 0
        shutil.rmtree(replays + '/' + str(prop), ignore_errors=True)
        for j, r in results:
            key = (j.file, j.cfg, tuple(j.defs))
            for v in r['violations']:
                if prop and not belongs(prop, j, v):
                    continue
                hit, confirmed, how = v['hit'], v['confirmed'], v['replayed']
                if hit:
                    knownhits.append((hit[0], j, v))
                elif confirmed:
                    d = os.path.join(replays, str(prop))
                    os.makedirs(d, exist_ok=True)
                    dst = os.path.join(d, '%d.txt' % len(bad))
                    with open(dst, 'w') as f:
                        f.write('# property %s\n# job %s (h/%s, configuration %s)\n# violated: %s [%s]\n# at %s\n# stack %s\n# native replay: %s\n' % (prop, j.name, j.file, j.cfg, v['id'], v['kind'], v['loc'], v['stack'], how))
                    write_inputs(dst, v, 'a')
                    bad.append((j, v, dst))
                else:
                    unconfirmed.append((j, v))
            for wid, w in r.get('witness_replay', {}).items():
                witn += 1
                witok += w == 'ok'
            if r['status'] == 'complete' and not r['violations'] and not r['errors']:
                g = [q for i, q in results if j.group and i.group == j.group] or [r]
                miss = [x for x in j.reach if not any(x in q['reached'] for q in g)] if all(q['status'] == 'complete' and not q['violations'] for q in g) else []
                if miss:
                    r['errors'].append('never reached: ' + ','.join(miss))
                    # the situation the property speaks about cannot arise any more: nothing was decided
                    v = dict(id='the harness can no longer reach: ' + ','.join(miss), kind='vacuous', loc='', stack='', inputs=[], sched=[])
                    d = os.path.join(replays, str(prop))
                    os.makedirs(d, exist_ok=True)
                    dst = os.path.join(d, '%d.txt' % len(bad))
                    open(dst, 'w').write('# property %s\n# job %s\n# %s\n' % (prop, j.name, v['id']))
                    bad.append((j, v, dst))
        if only:
            for j, r in results:
                print('==', j.name, r['status'], {k: r[k] for k in ('paths', 'paths_returned', 'paths_aborted', 'paths_faulted', 'paths_cut_by_assume', 'paths_killed', 'pending', 'forks', 'queries', 'solver_unknown', 'instrs') if k in r}, 'solver %.1f wall %.1f' % (r.get('solver_s', 0), r['wall']))
                print('   reached', r['reached'], 'assertions', r['assertions'], 'witness', r.get('witness_replay'))
                for e in r['errors']:
                    print('   ERR', e)
                for v in r['violations']:
                    print('   VIOL', v['id'], v['kind'], v['loc'], '| replay:', v.get('replayed'))
                    print('      ', v['stack'], 'inputs', v['inputs'][:12], 'sched', v['sched'][:60])
            print('build %.1fs total %.1fs' % (build_s, time.time() - t0))
        if prop:
            evidence(prop, tier, results, bad, knownhits, unconfirmed, witn, witok, build_s, time.time() - t0)
        seen = set()
        for k, j, v in knownhits:
            if k[3] not in seen:
                print('KNOWN-FINDING: property=%s %s' % (prop, k[3]))
                seen.add(k[3])
        for j, v, dst in bad:
            print('  %s: %s [%s] at %s (%s)' % (j.name, v['id'], v['kind'], v['loc'], v.get('replayed', '')))
        if bad:
            print('VIOLATION property=%s replay=%s' % (prop, bad[0][2]))
            return 1
        if prop and all(r['errors'] and not r.get('paths') for j, r in results):
            print('nothing could be explored: ' + '; '.join(sorted(set(e for j, r in results for e in r['errors'])))[:300])
            return 2
        ncomp = sum(r['status'] == 'complete' and not r['errors'] for j, r in results)
        if prop:
            print('%s %s: %d jobs, %d explored completely, %d paths, %.0f s' % (prop, tier, len(results), ncomp, sum(r.get('paths', 0) for j, r in results), time.time() - t0))
        return 0
    finally:
        if not os.environ.get('VERIF_KEEP'):
            shutil.rmtree(tmp, ignore_errors=True)
        else:
            print('kept', tmp)


def evidence(prop, tier, results, bad, knownhits, unconfirmed, witn, witok, build_s, wall):
    fn = set()
    jobs = []
    for j, r in results:
        fn |= set(r['functions'])
        jobs.append(dict(job=j.name, harness='h/' + j.file, configuration=j.cfg, status=r['status'], bound=j.bound, errors=r['errors'][:5],
                         paths=r.get('paths', 0), paths_returned=r.get('paths_returned', 0), paths_ended_by_abort=r.get('paths_aborted', 0),
                         paths_faulted=r.get('paths_faulted', 0), paths_cut_by_assumption=r.get('paths_cut_by_assume', 0), paths_unfinished=r.get('pending', 0),
                         assertions=r['assertions'], reached=r['reached'], solver_queries=r.get('queries', 0), solver_sat=r.get('queries_sat', 0),
                         solver_unsat=r.get('queries_unsat', 0), solver_unknown=r.get('solver_unknown', 0), solver_s=round(r.get('solver_s', 0), 2),
                         symbols=r.get('symbols', 0), instructions=r.get('instrs', 0), wall_s=round(r['wall'], 2), witness_replay=r.get('witness_replay', {})))
    samples = []
    for j, r in results:
        for wid, w in sorted(r['witnesses'].items())[:1]:
            samples.append(dict(job=j.name, reaches=wid, inputs=dict(w['inputs'][:16]), schedule=w['sched'][:40]))
    e = dict(property=prop, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level='model_checking', wall_s=round(wall, 2), violations=len(bad),
             coverage=dict(states=sum(r.get('paths', 0) for j, r in results), transitions=sum(r.get('forks', 0) for j, r in results) + sum(r.get('queries', 0) for j, r in results),
                           traces_validated_against_impl=witok, witnesses_replayed=witn, samples=samples[:8] or [dict(note='no witness')],
                           exhaustive=all(r['status'] == 'complete' and not r['errors'] for j, r in results),
                           explanation='states = symbolic paths explored, transitions = forks plus solver queries; each path stands for every input value that follows it',
                           functions_encoded=sorted(x for x in fn if not x.startswith(('h_', 'hx_', 'env_'))), jobs=jobs, solver_queries=sum(r.get('queries', 0) for j, r in results),
                           solver_s=round(sum(r.get('solver_s', 0) for j, r in results), 2), build_s=round(build_s, 2),
                           known_findings=[k[3] for k, j, v in knownhits], violated=[dict(job=j.name, what=v['id'], at=v['loc'], replay=v.get('replayed', '')) for j, v, d in bad],
                           not_reproduced=[dict(job=j.name, what=v['id'], at=v['loc'], replay=v.get('replayed', '')) for j, v in unconfirmed]),
             assumptions=['rt/env.c models the operating system (DESIGN.md, Environment)', 'bounds of each job are listed under coverage.jobs; behaviour outside them is not decided',
                          'clang front end, the engine in engine/ and Z3 are trusted; counterexamples are replayed as machine code'])
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(e, f, indent=1)


def main():
    a = sys.argv[1:]
    if a and a[0] == '--setup':
        print(engine())
        return 0
    if a and a[0] == '--list':
        for j in parse_jobs():
            print(','.join(j.props), j.tier, j.name, j.timeout)
        return 0
    if a and a[0] == '--job':
        tier = 'quick'
        if '--tier' in a:
            i = a.index('--tier')
            tier = a[i + 1]
            del a[i:i + 2]
        return check(None, tier, only=a[1:])
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in a:
        tier = a[a.index('--tier') + 1]
    return check(a[0], 'thorough' if tier == 'thorough' else 'quick')


if __name__ == '__main__':
    sys.exit(main())
