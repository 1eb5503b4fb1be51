import core
TECHNIQUE = 'online oracle on recorded edge lists (brute-force model, exact dyadic ties) under hostile inputs, ASan/UBSan and debug assertions'
NOTE = ('Every generated instance is compared pair by pair with the definition; assurance is that of the explored instances '
        '(hostile weights/positions, dims 1-5, 1-64 threads, several OpenMP runtimes), not a proof. Trusts gcc, libstdc++ and the 40-line oracle.')
def run(c):
    c.rule = ('one evaluation = one generated threshold GIRG (weights x positions x dim x threads x API) compared pair by pair with the definition; '
              'non-trivial = neither empty nor complete; distinct by hash of inputs and thread count')
    c.assumptions = ['weights positive and finite with W/min(w)^2 < 2^31 (documented index size)', 'pairs within 1e-12 relative of the threshold may fall either way unless the arithmetic is exact in double']
    specs = [(('h_girg_thresh', v), {}) for v in ('rel', 'relm', 'asan')]
    rel, relm, asan = core.build_many(specs)
    s = c.seed; J = core.Job; jobs = []
    N = c.scale(1500, 20000); K = 6
    for i in range(K):
        jobs.append(J(rel, ['--mode=small', f'--seed={s}', f'--from={i*N}', f'--to={(i+1)*N}'], timeout=200))
    jobs.append(J(rel, ['--mode=exact', f'--seed={s}', '--from=0', f'--to={c.scale(2000,20000)}'], timeout=200))
    M = c.scale(30, 300)
    for i in range(4): jobs.append(J(rel, ['--mode=mid', f'--seed={s}', f'--from={i*M}', f'--to={(i+1)*M}'], timeout=200, cpus=2))
    L = c.scale(2, 12)
    for i in range(4): jobs.append(J(rel, ['--mode=large', f'--seed={s}', f'--from={i*L}', f'--to={(i+1)*L}'], timeout=300, cpus=4))
    D = c.scale(12, 200)
    for i in range(2): jobs.append(J(rel, ['--mode=deep', f'--seed={s}', f'--from={i*D}', f'--to={(i+1)*D}'], timeout=c.scale(200,1500), cpus=2))
    jobs.append(J(relm, ['--mode=small', f'--seed={s+7}', '--from=0', f'--to={c.scale(800,8000)}'], timeout=200))
    jobs.append(J(relm, ['--mode=mid', f'--seed={s+7}', '--from=0', f'--to={c.scale(20,200)}'], timeout=200))
    # debug assertions and sanitizers watch the same workload
    for i in range(2): jobs.append(J(asan, ['--mode=small', f'--seed={s+9}', f'--from={i*200}', f'--to={i*200+c.scale(200,2000)}'], timeout=300))
    c.run(jobs)
