"""Shared machinery of the checks: building from /repo, running instrumented jobs, verdicts, evidence.

Verdicts are three-valued:
  held          exit 0
  violated      exit 1 and  VIOLATION property=<id> replay=<path>
  inconclusive  exit 2 (harness error; nothing was decided)
"""
import os, sys, json, hashlib, subprocess, threading, time, shutil, re, signal, glob, tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
SRC = os.path.join(VERIF, 'src')
STUBS = os.path.join(VERIF, 'stubs')
CXX = 'g++'
NCPU = max(1, os.cpu_count() or 1)

class HarnessError(Exception):
    pass

# ----------------------------------------------------------------------------- variants
SAN = ['-fsanitize=address,undefined,float-cast-overflow', '-fno-sanitize-recover=all', '-D_GLIBCXX_ASSERTIONS']
VARIANTS = {
    # name: (compile flags, link flags, runtime)   runtime: 'gomp' = libgomp, 'mini' = src/minigomp.cpp
    'rel':   (['-O2', '-g1', '-DNDEBUG'], [], 'gomp'),
    'relm':  (['-O2', '-g1', '-DNDEBUG'], [], 'mini'),
    'dbg':   (['-O1', '-g1'], [], 'gomp'),
    'dbgm':  (['-O1', '-g1'], [], 'mini'),
    'bmi':   (['-O2', '-g1', '-DNDEBUG', '-DUSE_BMI2', '-mbmi2'], [], 'gomp'),
    'asan':  (['-O1', '-g1', '-fno-omit-frame-pointer'] + SAN, ['-fsanitize=address,undefined'], 'gomp'),
    'asanr': (['-O1', '-g1', '-DNDEBUG', '-fno-omit-frame-pointer'] + SAN, ['-fsanitize=address,undefined'], 'gomp'),
    'asanm': (['-O1', '-g1', '-fno-omit-frame-pointer'] + SAN, ['-fsanitize=address,undefined'], 'mini'),
    'asanb': (['-O1', '-g1', '-DUSE_BMI2', '-mbmi2', '-fno-omit-frame-pointer'] + SAN, ['-fsanitize=address,undefined'], 'gomp'),
    'tsan':  (['-O1', '-g1', '-DNDEBUG', '-fno-omit-frame-pointer', '-fsanitize=thread'], ['-fsanitize=thread'], 'mini'),
    'tsand': (['-O1', '-g1', '-fno-omit-frame-pointer', '-fsanitize=thread'], ['-fsanitize=thread'], 'mini'),
    'cov':   (['-O1', '-g1', '-DNDEBUG', '-fsanitize-coverage=trace-pc'], [], 'mini'),
    'covg':  (['-O1', '-g1', '-DNDEBUG', '-fsanitize-coverage=trace-pc'], [], 'gomp'),
    'vg':    (['-O1', '-g1', '-DNDEBUG'], [], 'gomp'),
}
ASAN_OPTIONS = 'abort_on_error=1:detect_leaks=1:detect_stack_use_after_return=1:check_initialization_order=1:strict_string_checks=1:allocator_may_return_null=0'
UBSAN_OPTIONS = 'print_stacktrace=1'
TSAN_OPTIONS = 'halt_on_error=0:exitcode=66:history_size=4:second_deadlock_stack=1'

INC = ['-I' + os.path.join(REPO, 'source/girgs/include'), '-I' + os.path.join(REPO, 'source/hypergirgs/include'),
       '-I' + STUBS, '-I' + SRC]
def lib_sources():
    r = []
    for lib in ('girgs', 'hypergirgs'):
        r += sorted(glob.glob(os.path.join(REPO, 'source', lib, 'source', '**', '*.cpp'), recursive=True))
    if not r: raise HarnessError('no library sources found in ' + REPO)
    return r

_repo_hash = None
def tree_hash():
    """hash of every source file of /repo and /verif/src: the build cache key"""
    global _repo_hash
    if _repo_hash is None:
        h = hashlib.sha256()
        roots = [os.path.join(REPO, 'source'), SRC, STUBS]
        for root in roots:
            for dp, dn, fn in sorted(os.walk(root)):
                dn.sort()
                if root != SRC and os.path.basename(dp) in ('tests', 'benchmarks'): dn[:] = []; continue
                for f in sorted(fn):
                    if f.endswith(('.cpp', '.h', '.inl', '.hpp', '.in', '.c', '.txt')):
                        p = os.path.join(dp, f)
                        if root == SRC and not f.endswith('.h'): continue   # own .cpp hashed per target
                        h.update(p.encode()); h.update(open(p, 'rb').read())
        _repo_hash = h.hexdigest()
    return _repo_hash

def sha(*xs):
    h = hashlib.sha256()
    for x in xs: h.update(repr(x).encode())
    return h.hexdigest()[:20]

_cpu = threading.Semaphore(NCPU)
_locks = {}
_lk = threading.Lock()
def _lock(k):
    with _lk: return _locks.setdefault(k, threading.Lock())

def _run_cc(cmd, what):
    with _cpu:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=600)
    return r.returncode, r.stdout

def compile_obj(src, variant, extra=(), std=None, instrument=True):
    """compile one translation unit; returns the object path"""
    flags, _, _ = VARIANTS[variant]
    own = src.startswith(VERIF)
    if not instrument:
        flags = [f for f in flags if not f.startswith('-fsanitize') and not f.startswith('-fno-sanitize')]
    std = std or ('-std=c++17' if own else '-std=c++11')
    cmd = [CXX, std, '-fopenmp', '-w', '-pthread', '-fno-strict-aliasing' if own else '-fPIC'] + flags + list(extra) + INC
    key = sha(cmd, src, tree_hash(), open(src, 'rb').read())
    out = os.path.join(BUILD, 'obj', os.path.basename(src) + '.' + key + '.o')
    with _lock(out):
        if not os.path.exists(out):
            os.makedirs(os.path.dirname(out), exist_ok=True)
            tmp = out + '.tmp%d' % os.getpid()
            rc, o = _run_cc(cmd + ['-c', src, '-o', tmp], src)
            if rc != 0: raise HarnessError('compile failed: %s [%s]\n%s' % (src, variant, o[-4000:]))
            os.rename(tmp, out)
    return out

def build(name, variant, sources=None, lib=True, extra=(), defs=(), runtime=None, uninstrumented=(), libs=()):
    """link harness src/<name>.cpp (or given sources) with the library sources of /repo, in one variant"""
    sources = [os.path.join(SRC, name + '.cpp')] if sources is None else [s if s.startswith('/') else os.path.join(SRC, s) for s in sources]
    flags, lflags, rt = VARIANTS[variant]
    rt = runtime or rt
    tus = [(s, True) for s in sources] + [(os.path.join(SRC, u), False) for u in uninstrumented]
    if lib: tus += [(s, True) for s in lib_sources()]
    if rt == 'mini': tus.append((os.path.join(SRC, 'minigomp.cpp'), 'tsan' in variant))
    if variant.startswith('cov'): tus.append((os.path.join(SRC, 'covrt.cpp'), False))
    with ThreadPoolExecutor(max(1, len(tus))) as ex:
        objs = list(ex.map(lambda t: compile_obj(t[0], variant, list(extra) + ['-D' + d for d in defs], instrument=t[1]), tus))
    base = [CXX, '-pthread'] + lflags
    tail = (['-fopenmp'] if rt == 'gomp' else []) + list(libs) + ['-ldl']
    key = sha(objs, base, tail)
    exe = os.path.join(BUILD, 'bin', '%s.%s.%s' % (name, variant, key))
    with _lock(exe):
        if not os.path.exists(exe):
            os.makedirs(os.path.dirname(exe), exist_ok=True)
            tmp = exe + '.tmp%d' % os.getpid()
            rc, o = _run_cc(base + objs + tail + ['-o', tmp], exe)
            if rc != 0: raise HarnessError('link failed: %s [%s]\n%s' % (name, variant, o[-4000:]))
            os.rename(tmp, exe)
    return exe

def cli(tool, variant):
    """build a command line tool from /repo in a variant"""
    src = sorted(glob.glob(os.path.join(REPO, 'source/cli', tool, '*.cpp')))
    if not src: raise HarnessError('no sources of ' + tool)
    return build(tool, variant, sources=src)

def build_many(specs):
    """specs: list of (args, kwargs) for build(); parallel; returns exes"""
    with ThreadPoolExecutor(max(1, len(specs))) as ex:
        fs = [ex.submit(build, *a, **k) for a, k in specs]
        return [f.result() for f in fs]

# ----------------------------------------------------------------------------- running
class Job:
    def __init__(self, exe, args=(), env=None, timeout=120, cpus=1, name=None, cwd=None, ok_exit=(0,), wrapper=()):
        self.exe, self.args, self.env, self.timeout, self.cpus = exe, [str(a) for a in args], dict(env or {}), timeout, cpus
        self.name = name or os.path.basename(exe).split('.')[0]
        self.cwd, self.ok_exit, self.wrapper = cwd, ok_exit, list(wrapper)

class Result: pass

class _Cpus:
    def __init__(self, n): self.n, self.free, self.cv = n, n, threading.Condition()
    def take(self, k):
        k = min(k, self.n)
        with self.cv:
            while self.free < k: self.cv.wait()
            self.free -= k
        return k
    def give(self, k):
        with self.cv: self.free += k; self.cv.notify_all()
_slots = _Cpus(NCPU)

def base_env(extra=None):
    e = {k: v for k, v in os.environ.items() if not k.startswith(('OMP_', 'GOMP_', 'ASAN_', 'TSAN_', 'UBSAN_', 'VF_'))}
    e.update(OMP_NUM_THREADS='8', OMP_DYNAMIC='false', OMP_WAIT_POLICY='passive', LC_ALL='C.UTF-8',
             ASAN_OPTIONS=ASAN_OPTIONS, UBSAN_OPTIONS=UBSAN_OPTIONS, TSAN_OPTIONS=TSAN_OPTIONS)
    if extra: e.update({k: str(v) for k, v in extra.items()})
    return e

_abort = threading.Event()     # a hang was confirmed: the verdict is known, everything else stops
_found = []                    # when the first violation was seen: in the quick tier the rest gets one more minute
def _enough(): return _abort.is_set() or (_found and time.time() > _found[0] + 60)
def run_once(job, timeout):
    r = Result(); r.job = job
    k = _slots.take(job.cpus)
    if _enough():
        _slots.give(k); r.timeout, r.skipped, r.rc, r.out, r.err, r.wall = False, True, 0, '', '', 0
        return r
    t0 = time.time()
    with tempfile.TemporaryFile() as fo, tempfile.TemporaryFile() as fe:
        try:
            t0r = time.time()
            p = subprocess.Popen(job.wrapper + [job.exe] + job.args, stdout=fo, stderr=fe, stdin=subprocess.DEVNULL,
                                 env=base_env(job.env), cwd=job.cwd, start_new_session=True)
            r.timeout = r.skipped = False
            while True:
                try: p.wait(min(1.0, max(0.01, t0r + timeout - time.time()))); break
                except subprocess.TimeoutExpired:
                    r.skipped = bool(_enough())
                    r.timeout = not r.skipped and time.time() > t0r + timeout
                    if not (r.timeout or r.skipped): continue
                    try: os.killpg(p.pid, signal.SIGKILL)
                    except ProcessLookupError: pass
                    p.wait(); break
            r.rc = p.returncode
        finally:
            _slots.give(k)
        def rd(f):
            f.seek(0, 2); n = f.tell()
            f.seek(max(0, n - 64*1024*1024)); return f.read().decode('utf-8', 'replace')
        r.out, r.err = rd(fo), rd(fe)
    r.wall = time.time() - t0
    return r

def run_job(job):
    r = run_once(job, job.timeout)
    if r.timeout and _found: r.timeout, r.skipped = False, True; return r
    if not r.skipped and getattr(job, 'quick', False) and not _found:
        if '\nVIOL ' in '\n' + r.out or (not r.timeout and classify(r)) or ('WARNING: ThreadSanitizer' in r.err and re.search(r'/source/(?:girgs|hypergirgs|cli)/[^\s:]+:', r.err)): 
            _found.append(time.time())
            if r.timeout: r.timeout, r.partial, r.rc = False, True, 0     # what it reported before it was stopped is enough
    if r.timeout:                      # a wall-clock limit is no verdict: look again, with far more time
        r2 = run_once(job, job.timeout * 2)
        r2.retried = True
        if r2.timeout: _abort.set()
        return r2
    return r

def classify(r):
    """reason key + text when the process ended abnormally, else None"""
    txt = r.err[-200000:] + '\n' + r.out[-20000:]
    def where():
        m = re.search(r'#\d+ [^\n]*?(?:in )?([\w:~<>, ]+?)(?:\(|<)[^\n]*?/source/(?:girgs|hypergirgs|cli)/([^\s:]+):', txt)
        if m: return os.path.basename(m.group(2)) + ':' + re.sub(r'\W+', '_', m.group(1))[-40:]
        return 'unknown'
    if r.timeout: return 'hang', 'no result within %ds, twice' % r.job.timeout
    m = re.search(r'(DEADLOCK|STEPBUDGET)([^\n]*)', r.err)
    if m and r.rc in (77, 78): return m.group(1).lower(), m.group(0)
    m = re.search(r'ERROR: (AddressSanitizer|LeakSanitizer): ([\w-]+)', txt)
    if m: return 'asan:%s:%s' % (m.group(2), where()), m.group(0) + ' at ' + where()
    if r.rc == 97 and r.job.name == 'memcheck':
        m = re.search(r'== ((?:Conditional|Use of|Invalid|Syscall|Source|Mismatched|Jump|Process|Argument)[^\n]*)', txt)
        w = re.search(r'(?:at|by) 0x[0-9A-F]+: ([^\n(]*)[^\n]*\(([\w.]+\.(?:inl|h|cpp)):(\d+)\)', txt)
        return 'memcheck:%s:%s' % (re.sub(r'\W+', '_', m.group(1))[:50] if m else 'error', w.group(2) if w else 'unknown'), (m.group(1) if m else 'memcheck error') + ((' in ' + w.group(0)) if w else '')
    m = re.search(r'([^\s]*):(\d+):\d+: runtime error: ([^\n]*)', txt)
    if m: return 'ubsan:%s:%s' % (os.path.basename(m.group(1)), re.sub(r'[-+]?\d[\d.e+-]*', '#', m.group(3))[:60]), m.group(0)
    m = re.search(r'([^\s:]+):(\d+): [^\n]*Assertion [`\'"]([^\n]*?)[\'"] failed', txt)
    if m: return 'assert:%s:%s' % (os.path.basename(m.group(1)), m.group(3)[:80]), m.group(0)[:400]
    m = re.search(r'ERROR: ThreadSanitizer: ([\w-]+)', r.err)
    if m: return 'crash:%s:%s' % (m.group(1), where()), m.group(0) + ' at ' + where()
    if 'WARNING: ThreadSanitizer' in r.err: return None      # handled by the race check itself
    if r.rc < 0: return 'signal:%d' % -r.rc, 'killed by signal %d' % -r.rc
    if r.rc not in r.job.ok_exit:
        m = re.search(r'terminate called[^\n]*(\n[^\n]*what[^\n]*)?', txt)
        if m: return 'terminate', m.group(0)
        return 'exit:%d' % r.rc, 'unexpected exit status %d: %s' % (r.rc, r.err[-300:])
    return None

def run_jobs(jobs):
    with ThreadPoolExecutor(max(1, min(len(jobs), 4 * NCPU))) as ex:
        return list(ex.map(run_job, jobs))

# ----------------------------------------------------------------------------- verdicts
def load_known(pid):
    """known_findings.txt: lines  'finding: property=<id> key=<key> <description>'  ('fixed:' lines suppress nothing)"""
    res = {}
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'finding:\s+property=(\S+)\s+key=(\S+)\s+(.*)', line)
            if m and m.group(1) == pid: res[m.group(2)] = m.group(3).strip()
    return res

class Check:
    def __init__(self, pid, tier, seed, level='exploration'):
        self.pid, self.tier, self.seed, self.level = pid, tier, seed, level
        self.quick = tier == 'quick'
        self.t0 = time.time()
        self.stats, self.samples, self.hashes, self.notes = {}, [], set(), []
        self.viol = []            # (key, message, replay dict)
        self.rule = ''
        self.assumptions = []
        self.evaluations = 0
        self.extra_distinct = 0
        self.scratch = None
    def scale(self, q, t): return q if self.quick else t
    def tmp(self):
        if self.scratch is None:
            self.scratch = tempfile.mkdtemp(prefix='vf_%s_' % self.pid)
        return self.scratch
    def violation(self, key, msg, replay=None):
        self.viol.append((key, msg, replay or {}))
    def note(self, s): self.notes.append(s)
    def sample(self, s):
        if len(self.samples) < 12: self.samples.append(s[:400])
    def stat(self, k, v=1): self.stats[k] = self.stats.get(k, 0) + v
    def job_dict(self, job):
        return dict(cmd=job.wrapper + [job.exe] + job.args, env=job.env, cwd=job.cwd)
    def absorb(self, r, abnormal=True):
        """read a job's report lines; abnormal ends are violations"""
        rep = self.job_dict(r.job)
        viols = 0
        if r.skipped: self.stat('jobs_skipped_after_violation'); return 0
        for line in r.out.splitlines():
            if line.startswith('VIOL '):
                key, _, msg = line[5:].partition(' ')
                self.violation(key, msg, dict(rep, message=msg)); viols += 1
            elif line.startswith('STAT '):
                _, k, v = line.split(None, 2); self.stat(k, int(v))
            elif line.startswith('MAX '):
                _, k, v = line.split(None, 2); self.stats[k] = max(self.stats.get(k, 0), float(v))
            elif line.startswith('SAMPLE '): self.sample(line[7:])
            elif line.startswith('H '): self.hashes.update(line[2:].split())
            elif line.startswith('EVAL '): self.evaluations += int(line[5:])
            elif line.startswith('HARNESS-ERROR'): raise HarnessError('%s: %s' % (r.job.name, line))
        if r.rc == 99 and not r.timeout: raise HarnessError('%s %s: %s' % (r.job.name, r.job.args, r.err[-2000:]))
        if abnormal:
            c = classify(r)
            if c and not (viols and c[0] == 'exit:1'):
                self.violation(c[0], '%s [%s]' % (c[1], r.job.name), dict(rep, stderr=r.err[-20000:], message=c[1]))
        if not r.timeout and not getattr(r, 'partial', False) and r.rc == 0 and 'DONE' not in r.out and getattr(r.job, 'need_done', True):
            raise HarnessError('%s ended without DONE' % r.job.name)
        return viols
    def run(self, jobs, need_done=True):
        for j in jobs:
            j.need_done = need_done; j.quick = self.quick and not load_known(self.pid)
            if self.quick: j.timeout = min(j.timeout, 180)   # a hanging job is run twice (180 + 360 s): must fit into the time of one check
        rs = run_jobs(jobs)
        for r in rs:
            if os.environ.get('VF_VERBOSE'): print('  job %-14s %6.1fs rc=%s %s' % (r.job.name, r.wall, r.rc, ' '.join(r.job.args)), file=sys.stderr)
            self.absorb(r)
        return rs
    def finish(self):
        if self.scratch: shutil.rmtree(self.scratch, ignore_errors=True)
        known = load_known(self.pid)
        seen_known, new = {}, {}
        for key, msg, rep in self.viol:
            k = next((kk for kk in known if kk == key), None)
            if k: seen_known.setdefault(k, msg)
            else: new.setdefault(key, []).append((msg, rep))
        cov = dict(evaluations=self.evaluations, distinct_nontrivial=len(self.hashes) + self.extra_distinct, rule=self.rule,
                   samples=self.samples or ['(none)'])
        cov.update({('n_' + k if k in cov else k): v for k, v in sorted(self.stats.items())})
        if self.notes: cov['notes'] = self.notes
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=self.level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(new))
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as f: json.dump(ev, f, indent=1)
        for k, msg in seen_known.items():
            print('KNOWN-FINDING: property=%s %s' % (self.pid, known[k]))
        if new:
            d = os.path.join(VERIF, 'replay', self.pid); shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
            for i, (key, lst) in enumerate(sorted(new.items())):
                path = os.path.join(d, '%02d.json' % i)
                json.dump(dict(property=self.pid, key=key, count=len(lst), message=lst[0][0], **{k: v for k, v in lst[0][1].items() if k != 'message'}),
                          open(path, 'w'), indent=1)
                if i < 20:
                    print('VIOLATION property=%s replay=%s' % (self.pid, path))
                    print('  %s: %s' % (key, lst[0][0][:300]))
            return 1
        if self.evaluations == 0 or not (self.hashes or self.extra_distinct):
            print('INCONCLUSIVE property=%s: nothing was observed' % self.pid); return 2
        print('HELD property=%s evaluations=%d distinct=%d wall=%.1fs' % (self.pid, self.evaluations, len(self.hashes) + self.extra_distinct, time.time() - self.t0))
        return 0
