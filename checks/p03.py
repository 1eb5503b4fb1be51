import core
TECHNIQUE = 'trace checker over all reported edges (range, self-loop, exactly-once), pair accounting by the debug assertions, hostile inputs'
NOTE = 'Each edge list of the workload is checked completely; complete graphs (alpha=0, R/2 discs) give exactly-once for every pair. Exploration of inputs and thread counts only.'
def run(c):
    c.rule = 'one evaluation = one generated graph (either model, any alpha/T); non-trivial = has edges; distinct by hash of inputs and edge set'
    c.assumptions = []
    rel, relm, dbg, asan = core.build_many([(('h_simple', v), {}) for v in ('rel', 'relm', 'dbg', 'asan')])
    s = c.seed; J = core.Job; jobs = []
    N = c.scale(600, 8000)
    for i in range(5): jobs.append(J(rel, [f'--seed={s}', f'--from={i*N}', f'--to={(i+1)*N}', '--nmax=3000'], timeout=c.scale(200, 1500)))
    for i in range(2): jobs.append(J(dbg, [f'--seed={s+3}', f'--from={i*N//2}', f'--to={(i+1)*N//2}', '--nmax=900', '--cells=1e5'], timeout=c.scale(200, 1500)))
    jobs.append(J(relm, [f'--seed={s+5}', '--from=0', f'--to={c.scale(400,4000)}'], timeout=c.scale(200, 1500)))
    jobs.append(J(asan, [f'--seed={s+7}', '--from=0', f'--to={c.scale(150,2000)}', '--nmax=300', '--cells=5e4'], timeout=c.scale(200, 1500)))
    c.run(jobs)
