import core
TECHNIQUE = 'progress monitor inside an own OpenMP runtime (all threads blocked = deadlock), executed-basic-block budgets (instrumented build), team-size shortfall and delay injection, differential completeness oracle'
NOTE = 'Deadlock is decided by thread state (not wall clock), endless search by a work budget about 50 times the largest work observed on correct code; schedules and team sizes are sampled.'
def run(c):
    c.rule = 'one evaluation = one operation run to completion under the progress monitor or a work budget; distinct by operation, arguments, threads and team mode'
    c.assumptions = ['a call that executes 50 times the largest work observed for its workload class does not terminate in useful time']
    relm, cov, rel = core.build_many([(('h_ops', v), {}) for v in ('relm', 'cov', 'rel')])
    s = c.seed; J = core.Job; jobs = []; t = ['--tmp=' + c.tmp()]; TO = c.scale(120, 1800)
    N = c.scale(500, 8000)
    for i in range(3): jobs.append(J(relm, [f'--seed={s}', f'--from={i*N}', f'--to={(i+1)*N}', '--nmax=400', '--op=13'] + t, timeout=TO))
    for i in range(2): jobs.append(J(relm, [f'--seed={s+1}', f'--from={i*N}', f'--to={(i+1)*N}', '--nmax=400', '--op=2', '--team=1', '--tmax=64'] + t, timeout=TO))
    jobs.append(J(relm, [f'--seed={s+2}', '--from=0', f'--to={N//2}', '--nmax=300', '--op=9', '--team=1'] + t, timeout=TO))
    jobs.append(J(relm, [f'--seed={s+2}', '--from=0', f'--to={N//2}', '--nmax=300', '--op=10', '--team=1'] + t, timeout=TO))
    jobs.append(J(relm, [f'--seed={s+3}', '--from=0', f'--to={N//20}', '--op=14'] + t, timeout=TO))
    jobs.append(J(relm, [f'--seed={s+4}', '--from=0', f'--to={c.scale(4,30)}', '--op=11', '--team=1'] + t, timeout=TO))
    jobs.append(J(rel, [f'--seed={s+5}', '--from=0', f'--to={N}', '--nmax=400', '--op=2', '--tmax=64'] + t, timeout=TO, cpus=2))      # the real libgomp
    jobs.append(J(rel, [f'--seed={s+5}', '--from=0', f'--to={N//3}', '--nmax=300', '--op=9'] + t, timeout=TO, cpus=2, env={'OMP_THREAD_LIMIT': '3'}))
    jobs.append(J(rel, [f'--seed={s+6}', '--from=0', f'--to={N//3}', '--nmax=300', '--op=13'] + t, timeout=TO, cpus=2, env={'OMP_DYNAMIC': 'true', 'OMP_THREAD_LIMIT': '5'}))
    # work budgets (executed basic blocks): searches and generation
    for i in range(2): jobs.append(J(cov, [f'--seed={s+7}', f'--from={i*N*4}', f'--to={(i+1)*N*4}', '--nmax=1500', '--op=5', '--sched=0', '--steps=3e8'] + t, timeout=TO))
    for i in range(2): jobs.append(J(cov, [f'--seed={s+8}', f'--from={i*N*100}', f'--to={(i+1)*N*100}', '--op=6', '--sched=0', '--steps=5e6'] + t, timeout=TO))
    for op in (0, 1, 2, 3): jobs.append(J(cov, [f'--seed={s+9}', '--from=0', f'--to={N}', '--nmax=250', f'--op={op}', '--steps=2e10', '--cells=1e4'] + t, timeout=TO))
    jobs.append(J(cov, [f'--seed={s+9}', '--from=0', f'--to={N}', '--op=4', '--steps=2e9'] + t, timeout=TO))
    c.run(jobs)
