import core
TECHNIQUE = 'online oracle: results of concurrent, reordered and repeated calls compared with the same call alone; read-only input pages; global state compared; ThreadSanitizer and AddressSanitizer with perturbed schedules'
NOTE = 'Two to five application threads, each with its own OpenMP team, sharing the same input objects; scaled weights and radii are compared with relative tolerance 1e-9, everything else bit by bit (edge lists as sets).'
def run(c):
    c.rule = 'one evaluation = one call compared with the same call alone (or run on write-protected inputs); distinct by hash of the results alone'
    c.assumptions = ['calls running at the same time have their own output objects and files', 'the requested teams are granted in full']
    J = core.Job; s = c.seed; TO = c.scale(220, 2500); t = c.tmp(); jobs = []
    rel, relm, tsan, asan = core.build_many([(('h_conc', v), {}) for v in ('rel', 'relm', 'tsan', 'asan')])
    N = c.scale(60, 1500)
    for i in range(3): jobs.append(J(rel, [f'--seed={s}', f'--from={i*N}', f'--to={i*N+N}', f'--tmp={t}', '--nmax=600'], timeout=TO, cpus=2))
    jobs.append(J(relm, [f'--seed={s+10}', '--from=0', f'--to={N}', f'--tmp={t}'], timeout=TO, cpus=2))
    for i in range(3): jobs.append(J(tsan, [f'--seed={s+20}', f'--from={i*N}', f'--to={i*N+N//5}', f'--tmp={t}', '--nmax=150', '--cells=2e4'], timeout=TO, cpus=2))
    jobs.append(J(asan, [f'--seed={s+30}', '--from=0', f'--to={N//2}', f'--tmp={t}', '--nmax=200', '--cells=1.5e4'], timeout=TO, cpus=2))
    jobs.append(J(rel, [f'--seed={s+40}', '--from=0', f'--to={N*3}', '--protect=1', f'--tmp={t}', '--nmax=300'], timeout=TO, cpus=2))
    c.run(jobs)
