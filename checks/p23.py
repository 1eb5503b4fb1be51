import core
TECHNIQUE = 'online oracle: output of every call form compared with std::stable_sort; AddressSanitizer, ThreadSanitizer and perturbed thread schedules with smaller teams'
NOTE = 'Both copies of the header; 16, 32 and 64 bit keys; several threads are used by the code above 2^17 elements only.'
def run(c):
    c.rule = 'one evaluation = one sorted sequence; distinct by hash of the result, sequences shorter than 2 not counted'
    c.assumptions = ['keys do not exceed the declared largest key']
    J = core.Job; s = c.seed; jobs = []; TO = c.scale(200, 2500)
    specs = [(lib, v) for lib in ('girgs', 'hypergirgs') for v in ('rel', 'relm', 'asan', 'tsan')]
    exes = core.build_many([(('h_sort', v), dict(lib=False, extra=['-DSORT_HEADER=<%s/IntSort.h>' % l])) for l, v in specs])
    N = c.scale(3000, 60000); B = c.scale(60, 900)
    for (l, v), e in zip(specs, exes):
        k = s * 10 + (l == 'girgs')
        if v == 'rel': jobs += [J(e, [f'--seed={k}', '--from=0', f'--to={N}'], timeout=TO), J(e, ['--big=1', '--nmax=1500000', f'--seed={k}', '--from=0', f'--to={B}'], timeout=TO, cpus=3)]
        if v == 'relm': jobs.append(J(e, ['--big=1', '--nmax=700000', f'--seed={k+2}', '--from=0', f'--to={B}'], timeout=TO, cpus=2))
        if v == 'asan': jobs += [J(e, [f'--seed={k+4}', '--from=0', f'--to={N//4}'], timeout=TO), J(e, ['--big=1', '--nmax=500000', f'--seed={k+4}', '--from=0', f'--to={B//3}'], timeout=TO, cpus=2)]
        if v == 'tsan': jobs.append(J(e, ['--big=1', '--nmax=400000', f'--seed={k+6}', '--from=0', f'--to={B//5}'], timeout=TO, cpus=2))
    c.run(jobs)
