import core
TECHNIQUE = 'statistical oracle over recorded edge lists: exact binomial tail bounds per pair, per pair of pairs and per aggregated bin, covariance sums by relation of the pairs, closed forms for far pairs'
NOTE = ('Probabilities and pairwise independence are tested with rigorous tail bounds (false alarm < 1e-7 per run); deviations smaller than the resolution of the '
        'sampled trials (relative ~0.5 % in aggregated bins, more for single pairs) stay invisible. Dependence of pairs of pairs is summed by relation (common node, parallel, apart); bins of far pairs (closed form, 11 standard deviations) judge pairs below 1e-6.')
def run(c):
    c.rule = ('one evaluation = one sampled edge list of a finite-alpha instance; non-trivial = expected number of edges > 0.001; distinct by hash of weights, pair probabilities and threads')
    c.assumptions = ['pairs of probability < 1e-6 may be missing (documented skip rule)', 'mt19937_64 streams of random seeds are independent']
    rel, relm = core.build_many([(('h_girg_binom', v), {}) for v in ('rel', 'relm')])
    s = c.seed; J = core.Job; jobs = []
    M = c.scale(10, 120)
    for i in range(7): jobs.append(J(rel, ['--mode=small', f'--seed={s}', f'--from={i*M}', f'--to={(i+1)*M}', f'--N={c.scale(6000,30000)}', f'--budget={c.scale(1.5,10)}'], timeout=c.scale(200, 2000)))
    jobs.append(J(relm, ['--mode=small', f'--seed={s+5}', '--from=0', f'--to={c.scale(10,100)}', '--N=600'], timeout=c.scale(200, 2000)))
    M = c.scale(10, 100)
    for i in range(3): jobs.append(J(rel, ['--mode=mid', f'--seed={s}', f'--from={i*M}', f'--to={(i+1)*M}', '--N=12'], timeout=c.scale(200, 1500)))
    M = c.scale(3, 30)
    for i in range(3): jobs.append(J(rel, ['--mode=large', f'--seed={s}', f'--from={i*M}', f'--to={(i+1)*M}', '--N=3'], timeout=c.scale(200, 1500), cpus=2))
    M = c.scale(8, 40)
    for i in range(3): jobs.append(J(rel, ['--mode=far', f'--seed={s}', f'--from={i*M}', f'--to={(i+1)*M}', f'--nmax={c.scale(150000, 400000)}'], timeout=c.scale(300, 2500), cpus=2))
    M = c.scale(10, 60)
    for i in range(2): jobs.append(J(rel, ['--mode=rare', f'--seed={s}', f'--from={i*M}', f'--to={(i+1)*M}', f'--budget={c.scale(1.2,10)}'], timeout=c.scale(200, 2000)))
    M = c.scale(16, 120)
    for i in range(4): jobs.append(J(rel, ['--mode=corner', f'--seed={s}', f'--from={i*M}', f'--to={(i+1)*M}', f'--budget={c.scale(.8,6)}'], timeout=c.scale(200, 2000)))
    c.run(jobs)
