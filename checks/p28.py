import core
TECHNIQUE = 'online oracle: long double closed forms, round trips and order relations of every converted value; UBSan'
NOTE = 'R up to 700, radii inside and beyond the disc, scalings from 1e-6 to 1e6, angles including 0, 2*pi and their neighbours.'
def run(c):
    c.rule = 'one evaluation = one pair of points through all maps in both directions; distinct by hash of the converted values of one instance'
    c.assumptions = ['exp((R-r)/2) is finite']
    J = core.Job; s = c.seed; N = c.scale(30000, 1000000); TO = c.scale(200, 2500)
    r, a = core.build_many([(('h_maps', v), dict(lib=False)) for v in ('rel', 'asan')])
    q = N // 4
    jobs = [J(r, [f'--seed={s}', f'--from={i*q}', f'--to={i*q+q}'], timeout=TO) for i in range(4)] + [J(a, [f'--seed={s+200}', '--from=0', f'--to={q}'], timeout=TO)]
    c.run(jobs)
