import core
TECHNIQUE = 'online oracle: bounds returned by the filter and coin flips decided with it compared with the connection probability in long double; UBSan and debug assertions'
NOTE = 'Filters of 7, 10, 100 and 1000 stages, queries at, just below and just above the stage borders. Pairs whose probability equals the coin within rounding are not judged.'
def run(c):
    c.rule = 'one evaluation = one query (both bounds and one coin flip); distinct by hash of all bounds returned by one filter'
    c.assumptions = ['queries and pairs respect the documented range [0, max_prob)', 'cosh of the largest filtered distance is finite']
    J = core.Job; s = c.seed; N = c.scale(48000, 1500000); TO = c.scale(200, 2500)
    r, d, a = core.build_many([(('h_filter', v), dict(lib=False)) for v in ('rel', 'dbg', 'asan')])
    q = N // 4
    jobs = [J(r, [f'--seed={s}', f'--from={i*q}', f'--to={i*q+q}'], timeout=TO) for i in range(4)]
    jobs += [J(d, [f'--seed={s+100}', '--from=0', f'--to={q}'], timeout=TO), J(a, [f'--seed={s+200}', '--from=0', f'--to={q}'], timeout=TO)]
    c.run(jobs)
