import core
TECHNIQUE = 'differential monitor: repeated calls, repeated processes, perturbed schedules (own OpenMP runtime), dirtied heap; results compared bit for bit'
NOTE = 'Schedules are sampled by seeded delays at thread start, barriers, critical sections and waits; exploration, not exhaustive. Trusts IEEE determinism of the compiled code.'
def run(c):
    c.rule = 'one evaluation = one call (or object history of 4 calls) repeated with equal arguments; non-trivial = non-empty result; distinct by hash of the result'
    c.assumptions = ['same binary code for the compared runs (libgomp and the own runtime link identically compiled objects)']
    rel, relm, covm = core.build_many([(('h_repro', v), {}) for v in ('rel', 'relm', 'cov')])
    s = c.seed; J = core.Job; jobs = []
    K = c.scale(24, 240); P = 4
    for i in range(P):
        base = [f'--seed={s}', f'--from={i*K}', f'--to={(i+1)*K}']
        jobs.append(J(rel, base + ['--reps=4'], timeout=c.scale(200, 1500), cpus=2))
        jobs.append(J(rel, base + ['--reps=1'], env={'MALLOC_PERTURB_': '165', 'OMP_WAIT_POLICY': 'active', 'OMP_NUM_THREADS': '3'}, timeout=c.scale(200, 1500), cpus=2))
        jobs.append(J(relm, base + [f'--reps={c.scale(6,12)}', f'--sched={s*100+i+1}'], env={'MALLOC_PERTURB_': '90'}, timeout=c.scale(200, 1500)))
    for i in range(2):   # delays inside the library code, small graphs
        jobs.append(J(covm, [f'--seed={s+1}', f'--from={i*K}', f'--to={(i+1)*K}', f'--reps={c.scale(3,8)}', f'--sched={s*77+i+1}', '--nbig=2500'], env={'VF_DELAY': str(s + i + 1)}, timeout=c.scale(200, 1500)))
    rs = c.run(jobs)
    res = {}; cross = 0
    for r in rs:
        seed = r.job.args[0]; grp = (seed, 'small' if any('nbig' in a for a in r.job.args) else '')
        for l in r.out.splitlines():
            if l.startswith('RES '):
                _, k, a, b, ctx = l.split(None, 4)
                o = res.setdefault((grp, k), (a, b, ctx))
                if o[2] is not ctx: cross += 1
                if (o[0], o[1]) != (a, b):
                    c.violation('not-reproducible-across-processes', ctx, c.job_dict(r.job))
    c.stat('cross_process_comparisons', cross)
