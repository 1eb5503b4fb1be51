import core
TECHNIQUE = 'online monitors: closed forms and the NetworKit degree equation re-evaluated in extended precision over random parameters; degrees of sampled graphs against numerical integration of the model'
NOTE = 'The degree of sampled graphs is compared within 9 standard errors + 1.2 % with the model at the returned radius; the finite-size error of the asymptotic formula itself is recorded, not bounded.'
def run(c):
    c.rule = 'one evaluation = one parameter set (both estimators, monotonicity), or one bundle of sampled graphs; distinct by hash of the parameters'
    c.assumptions = ['80-bit long double arithmetic and libm functions are accurate enough for the reference formulas']
    rel, asan = core.build_many([(('h_radius', v), {}) for v in ('rel', 'asan')])
    s = c.seed; J = core.Job; jobs = []; N = c.scale(30000, 1500000); TO = c.scale(200, 3000)
    for i in range(4): jobs.append(J(rel, [f'--seed={s}', f'--from={i*N}', f'--to={(i+1)*N}'], timeout=TO))
    jobs.append(J(asan, [f'--seed={s+1}', '--from=0', f'--to={N//4}'], timeout=TO))
    M = c.scale(12, 150)
    for i in range(3): jobs.append(J(rel, ['--sample=1', f'--seed={s}', f'--from={i*M}', f'--to={(i+1)*M}', f'--N={c.scale(40,100)}', f'--nmax={c.scale(15000,60000)}'], env={'OMP_NUM_THREADS': '4'}, timeout=TO, cpus=2))
    c.run(jobs)
