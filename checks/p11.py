import core
TECHNIQUE = 'online statistical monitors with rigorous bounds (Kolmogorov-Smirnov with DKW, joint bins with Chernoff bounds, repeated values) on recorded samples'
NOTE = 'False-alarm probability below 1e-10 per run; deviations of the distribution function below about 0.01 per call (0.03 per index) are not resolved.'
WHAT = 'weights'
def run(c, what=WHAT):
    c.rule = 'one evaluation = one sampled sequence (or one bundle of samples over many seeds) judged by range, law and independence monitors; distinct by hash of the sample'
    c.assumptions = ['mt19937_64 is a good generator for the bins and lags looked at']
    rel, relm = core.build_many([(('h_dist', v), {}) for v in ('rel', 'relm')])
    s = c.seed; J = core.Job; jobs = []; N = c.scale(100, 1500); TO = c.scale(200, 2000)
    for i in range(4): jobs.append(J(rel, [f'--what={what}', f'--seed={s}', f'--from={i*N}', f'--to={(i+1)*N}', f'--nmax={c.scale(150000,600000)}'], timeout=TO, cpus=1))
    jobs.append(J(relm, [f'--what={what}', f'--seed={s+1}', '--from=0', f'--to={N//2}', '--team=1', '--nmax=100000'], timeout=TO))
    M = c.scale(16, 160)
    for i in range(3): jobs.append(J(rel, [f'--what={what}', '--mode=seeds', f'--seed={s+2}', f'--from={i*M}', f'--to={(i+1)*M}', f'--M={c.scale(40000,100000)}'], timeout=TO))
    c.run(jobs)
