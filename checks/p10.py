import core
TECHNIQUE = 'runtime oracle: exact expected average degree (closed form, all pairs, long double) recomputed after every observed scaleWeights call; sampled graphs as second observer'
NOTE = 'Hostile weight vectors up to a few hundred nodes pair by pair, power laws up to 10^6 nodes through prefix sums. The tolerance 0.03 covers the search accuracy of 0.02.'
def run(c):
    c.rule = 'one evaluation = one scaleWeights call whose resulting expected degree was recomputed exactly; distinct by weights and arguments'
    c.assumptions = ['long double arithmetic', 'pair connection probability of the GIRG model, which P01/P02 decide for the sampler']
    rel, dbg = core.build_many([(('h_scale', v), {}) for v in ('rel', 'dbg')])
    s = c.seed; J = core.Job; jobs = []; N = c.scale(700, 12000); TO = c.scale(200, 2000)
    for i in range(5): jobs.append(J(rel, [f'--seed={s}', f'--from={i*N}', f'--to={(i+1)*N}'], timeout=TO))
    for i in range(2): jobs.append(J(rel, [f'--seed={s+1}', f'--from={i*N*6}', f'--to={(i+1)*N*6}', '--nmax=40'], timeout=TO))
    jobs.append(J(dbg, [f'--seed={s+2}', '--from=0', f'--to={N}', '--nmax=120'], timeout=TO))
    for i in range(2): jobs.append(J(rel, [f'--seed={s+3}', f'--from={i*c.scale(12,150)}', f'--to={(i+1)*c.scale(12,150)}', '--big=1', f'--nmax={c.scale(300000,2000000)}'], timeout=TO, cpus=2))
    for i in range(2): jobs.append(J(rel, [f'--seed={s+4}', f'--from={i*c.scale(60,600)}', f'--to={(i+1)*c.scale(60,600)}', '--sample=1', '--nmax=300'], timeout=TO, cpus=2))
    c.run(jobs)
