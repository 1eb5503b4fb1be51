import core
TECHNIQUE = 'online protocol monitor in the edge callback (ids, per-id mutual exclusion, end of generation) with injected delays and an own OpenMP runtime, ThreadSanitizer on unsynchronised accumulators, differential comparison of callback, buffered and profiled runs'
NOTE = 'Overlaps are sampled: delays inside the callback and in the OpenMP runtime provoke them, TSan reports conflicting accumulator accesses even without overlap in time.'
def run(c):
    c.rule = 'one evaluation = one instance generated through monitored callback, profiled callback and buffered list; distinct by hash of the edge set, empty ones not counted'
    c.assumptions = ['equal seeds and thread counts reproduce the edge set (P06)']
    rel, relm, tsan, dbg = core.build_many([(('h_callback', v), {}) for v in ('rel', 'relm', 'tsan', 'dbg')])
    s = c.seed; J = core.Job; jobs = []; N = c.scale(120, 2500); TO = c.scale(200, 2500)
    for i in range(2): jobs.append(J(rel, [f'--seed={s}', f'--from={i*N}', f'--to={(i+1)*N}', '--nmax=1500'], timeout=TO, cpus=2))
    for i in range(2): jobs.append(J(relm, [f'--seed={s+1}', f'--from={i*N}', f'--to={(i+1)*N}'], timeout=TO))
    jobs.append(J(dbg, [f'--seed={s+2}', '--from=0', f'--to={N}'], timeout=TO))
    for i in range(2): jobs.append(J(tsan, [f'--seed={s+3}', f'--from={i*N//3}', f'--to={(i+1)*N//3}', '--nmax=200', '--cells=2e4'], timeout=TO))
    for i in range(2): jobs.append(J(rel, ['--flush=1', f'--seed={s}', f'--from={i*c.scale(6,40)}', f'--to={(i+1)*c.scale(6,40)}'], timeout=TO, cpus=2))
    for i in range(2): jobs.append(J(rel, ['--sparse=1', f'--seed={s}', f'--from={i*c.scale(12,300)}', f'--to={(i+1)*c.scale(12,300)}'], timeout=TO, cpus=2))
    c.run(jobs)
