import core, random, os
TECHNIQUE = 'AddressSanitizer + LeakSanitizer + UndefinedBehaviorSanitizer + libstdc++ assertions + debug assertions + valgrind memcheck over a hostile workload of every public operation and of the command line tools'
NOTE = 'Memory errors and undefined behaviour are detected on executed paths only; memcheck (uninitialised values) runs on smaller inputs than ASan. Supported input per DESIGN.md (finite values in the documented ranges).'
def cli_runs(rng, k, tmp):
    r = []
    for i in range(k):
        n = rng.choice([2, 3, 4, 5, 10, 57, 300, 1000, 12000 if i % 7 == 0 else 700])
        out = os.path.join(tmp, 'o%d' % i)
        deg = rng.choice([1, n - 1, max(1, min(n - 1, 10)), round(rng.uniform(1, n - 1), 3)])
        if n > 1000: deg = rng.choice([1, 5, 20])
        t = rng.choice([1, 2, 3, 8])
        seeds = lambda: rng.choice([0, -1, 2147483647, rng.randrange(1 << 30)])
        if rng.random() < .55:
            d = rng.randint(1, 5)
            if n > 1000: d = rng.randint(1, 3)
            r.append(('gengirg', ['-n', n, '-d', d, '-ple', rng.choice([3, 2.0000001, 2.5, round(rng.uniform(2.01, 3), 3)]),
                      '-alpha', rng.choice(['inf', 'infinity', 1.0001, 1.5, 3, 8, 8.5, 50, 1e6]), '-deg', deg, '-wseed', seeds(), '-pseed', seeds(), '-sseed', seeds(),
                      '-threads', t, '-file', out, '-dot', rng.choice([0, 1]), '-edge', rng.choice([0, 1])]))
        else:
            r.append(('genhrg', ['-n', n, '-alpha', rng.choice([.500001, .51, .75, 1, round(rng.uniform(.52, 1), 3)]), '-t', rng.choice([0, 0, 1e-9, .001, .5, .999999, round(rng.uniform(0, .99), 3)]), '-deg', deg,
                      '-rseed', seeds(), '-aseed', seeds(), '-sseed', seeds(), '-threads', t, '-file', out, '-nkr', rng.choice([0, 1]), '-edge', rng.choice([0, 1]), '-coord', rng.choice([0, 1])]))
    r += [(t, a) for t in ('gengirg', 'genhrg') for a in ([], ['--help'], ['--version'], ['-help'], ['x', 'y'] if t == 'none' else ['-help'])]
    r += [('gengirg', ['-n', 50, '-deg', 3, '-file', os.path.join(tmp, 'a'), '-edge']), ('genhrg', ['-n', 50, '-deg', 3, 'junk', '-file', os.path.join(tmp, 'b'), '-x', '-coord'])]
    return r
def run(c):
    c.rule = 'one evaluation = one operation (library call, incl. nested and concurrent callers, or one run of a command line tool) executed under a sanitizer or with assertions; distinct by operation and arguments'
    c.assumptions = ['sanitizer runtimes of gcc 13 and valgrind 3.22 report every error of their classes on executed paths']
    s = c.seed; J = core.Job; jobs = []; tmp = c.tmp()
    vs = ['asan', 'asanr', 'asanm', 'asanb', 'dbg', 'vg']
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(3) as ex:
        f1 = ex.submit(core.build_many, [(('h_ops', v), {}) for v in vs])
        f2 = [ex.submit(core.cli, t, 'asan') for t in ('gengirg', 'genhrg')]
        exe = dict(zip(vs, f1.result())); cli = dict(zip(('gengirg', 'genhrg'), [f.result() for f in f2]))
    N = c.scale(110, 1500); T = c.scale(200, 2000); t = ['--tmp=' + tmp]
    def add(v, k, nmax, seed, n=N, extra=(), **kw):
        for i in range(k): jobs.append(J(exe[v], [f'--seed={seed}', f'--from={i*n}', f'--to={(i+1)*n}', f'--nmax={nmax}'] + list(extra) + t, timeout=T, name='h_ops.' + v, **kw))
    add('asan', 3, 500, s); add('asan', 2, 12, s + 1, n=2 * N); add('asanr', 2, 700, s + 2); add('asanm', 2, 300, s + 3, extra=['--team=1'])
    add('asanb', 1, 500, s + 4); add('dbg', 2, 3000, s + 5, n=2 * N, extra=['--cells=2e5']); add('asan', 1, 500, s + 6, n=c.scale(3, 20), extra=['--op=11'], cpus=2); add('asanr', 1, 500, s + 7, n=c.scale(2, 10), extra=['--op=12'], cpus=2)
    add('asanr', 2, 500, s + 10, n=c.scale(1, 6), extra=['--op=15'], cpus=2); add('asan', 2, 500, s + 11, n=c.scale(1, 4), extra=['--op=15'], cpus=2)
    add('asan', 1, 2000, s + 8, n=c.scale(60, 1000), extra=['--op=5']); add('asan', 1, 2000, s + 9, n=c.scale(2000, 40000), extra=['--op=6'])
    for i in range(2): jobs.append(J(exe['vg'], [f'--seed={s+20+i}', '--from=0', f'--to={c.scale(33, 330)}', '--nmax=80', '--cells=3000', '--tmax=4', '--sched=0'] + t, timeout=T, name='memcheck',
                    wrapper=['valgrind', '-q', '--error-exitcode=97', '--leak-check=no', '--track-origins=yes', '--fair-sched=yes', '--num-callers=20', '--suppressions=' + os.path.join(core.SRC, 'vg.supp')]))
    rs = c.run(jobs)
    rng = random.Random(s)
    cj = [J(cli[tool], a, timeout=T, name=tool, env={'OMP_NUM_THREADS': 8}) for tool, a in cli_runs(rng, c.scale(60, 900), tmp)]
    for r in c.run(cj, need_done=False):
        c.evaluations += 1; c.stat('cli_runs'); c.hashes.add(core.sha(r.job.name, r.job.args)); c.sample(' '.join([r.job.name] + r.job.args))
    for r in rs: 
        if r.job.name == 'memcheck': c.stat('memcheck_operations', sum(int(l.split()[2]) for l in r.out.splitlines() if l.startswith('STAT op')))
