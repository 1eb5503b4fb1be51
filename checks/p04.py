import core
TECHNIQUE = 'online oracle on recorded edge lists (brute-force hyperbolic distance in extended precision) under hostile inputs, ASan/UBSan and debug assertions'
NOTE = ('Each instance is compared pair by pair with the hyperbolic law of cosines; pairs within the rounding error of double precision around R are skipped and counted. '
        'Exploration only: hostile radii/angles/R, 1-32 threads.')
def run(c):
    c.rule = 'one evaluation = one T=0 instance compared pair by pair; non-trivial = neither empty nor complete; distinct by hash of radii, angles, R, threads'
    c.assumptions = ['pairs with |cosh d - cosh R| below 24 ulp of cosh r1 cosh r2 + cosh R may fall either way (double precision)']
    rel, relm, asan = core.build_many([(('h_hrg_thresh', v), {}) for v in ('rel', 'relm', 'asan')])
    s = c.seed; J = core.Job; jobs = []
    N = c.scale(1200, 20000)
    for i in range(5): jobs.append(J(rel, ['--mode=small', f'--seed={s}', f'--from={i*N}', f'--to={(i+1)*N}'], timeout=c.scale(200, 1500)))
    M = c.scale(40, 400)
    for i in range(4): jobs.append(J(rel, ['--mode=mid', f'--seed={s}', f'--from={i*M}', f'--to={(i+1)*M}'], timeout=c.scale(200, 1500)))
    L = c.scale(3, 30)
    for i in range(2): jobs.append(J(rel, ['--mode=large', f'--seed={s}', f'--from={i*L}', f'--to={(i+1)*L}', f'--nmax={c.scale(25000,60000)}'], timeout=c.scale(200, 1500), cpus=4))
    jobs.append(J(relm, ['--mode=small', f'--seed={s+7}', '--from=0', f'--to={c.scale(600,6000)}'], timeout=c.scale(200, 1500)))
    for i in range(2): jobs.append(J(asan, ['--mode=small', f'--seed={s+9}', f'--from={i*300}', f'--to={i*300+c.scale(300,3000)}'], timeout=c.scale(300, 1500)))
    c.run(jobs)
