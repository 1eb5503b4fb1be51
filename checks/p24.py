import core
TECHNIQUE = 'online oracle: every index query (count, k-th point, range) on all or sampled cells of all layers and levels compared with a direct scan of the points; AddressSanitizer, debug assertions, perturbed schedules with smaller teams'
NOTE = 'The GIRG index is reached through its protected construction function; if that is renamed, only the hyperbolic index is queried directly (stated in the evidence).'
def run(c):
    c.rule = 'one evaluation = one built index with all its queries; distinct by hash of the input'
    c.assumptions = ['angles within 1e-15 * 2 pi of a cell border may be stored on either side']
    vs = ['rel', 'relm', 'asan', 'dbg']
    try: exes = core.build_many([(('h_index', v), {}) for v in vs])
    except core.HarnessError:
        exes = core.build_many([(('h_index', v), dict(defs=['NO_PROBE'])) for v in vs]); c.stat('girg_index_not_reachable', 1)
    rel, relm, asan, dbg = exes; s = c.seed; J = core.Job; jobs = []; N = c.scale(250, 6000); TO = c.scale(220, 2500)
    for i in range(2): jobs.append(J(rel, [f'--seed={s}', f'--from={i*N}', f'--to={(i+1)*N}', '--nmax=3000', '--cells=1e6'], timeout=TO, cpus=1))
    for i in range(2): jobs.append(J(relm, [f'--seed={s+1}', f'--from={i*N}', f'--to={(i+1)*N}'], timeout=TO))
    jobs.append(J(rel, ['--big=1', f'--seed={s}', '--from=0', f'--to={c.scale(6,120)}'], timeout=TO, cpus=2))
    jobs.append(J(rel, ['--deep=1', f'--seed={s}', '--from=0', f'--to={c.scale(40,1500)}'], timeout=TO, cpus=2))
    jobs.append(J(asan, [f'--seed={s+2}', '--from=0', f'--to={N//3}', '--nmax=600', '--cells=1e5'], timeout=TO)); jobs.append(J(dbg, [f'--seed={s+3}', '--from=0', f'--to={N//2}'], timeout=TO))
    c.run(jobs)
