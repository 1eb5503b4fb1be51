import core
TECHNIQUE = 'logical-cost monitor: basic blocks executed per stage (compiler instrumentation) compared along doubling series of n and between thread counts'
NOTE = ('Only generated (power-law or nearly uniform) weights and uniform positions, sizes up to about 2.6e5 (2e4 in four dimensions); five dimensions in the thorough tier only, '
        'because the guarantee sets in beyond n = 10^4 there. Work inside libstdc++/libc binaries is not counted.')
def run(c):
    c.rule = 'one evaluation = one stage (sampling, scaling, index, edge generation, buffered list, dot export) measured at n and F*n, F between 8 and 32; distinct by hash of the parameters and the counts'
    c.assumptions = ['basic-block counts are proportional to the work']
    J = core.Job; s = c.seed; TO = c.scale(240, 2500); t = c.tmp(); jobs = []
    e = core.build('h_growth', 'cov')
    K = c.scale(5, 60)
    for i in range(2): jobs.append(J(e, [f'--seed={s}', f'--from={i*K}', f'--to={i*K+K}', f'--tmp={t}', f'--dot={c.scale(100000,300000)}', f'--nmax={c.scale(260000,1000000)}'], timeout=TO, cpus=1))
    for i in range(2): jobs.append(J(e, ['--hrg=1', f'--seed={s+1}', f'--from={i*K}', f'--to={i*K+K}', f'--nmax={c.scale(260000,1000000)}'], timeout=TO, cpus=1))
    jobs.append(J(e, ['--d=3', f'--seed={s+2}', '--from=0', f'--to={c.scale(3,30)}', f'--nmax={c.scale(40000,100000)}'], timeout=TO))
    jobs.append(J(e, ['--d=4', f'--seed={s+3}', '--from=0', f'--to={c.scale(1,8)}', f'--nmax={c.scale(45000,90000)}'], timeout=TO))
    if c.scale(0, 1):
        for i in range(2): jobs.append(J(e, ['--d=5', f'--seed={s+4}', f'--from={i}', f'--to={i+1}', '--nmax=400000'], timeout=TO))
    c.run(jobs)
