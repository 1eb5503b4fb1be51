import core
TECHNIQUE = 'online oracle: every result compared with a long double evaluation of the law of cosines, under the release build, debug assertions and AddressSanitizer/UBSan'
NOTE = 'Errors are bounded in cosh space by a multiple of machine epsilon times cosh r1 cosh r2; fast tests within that of the threshold are counted but not judged. Radii up to 300.'
def run(c):
    c.rule = 'one evaluation = one pair of points (nine distance values and up to three threshold tests); distinct by hash of the distances of one instance'
    c.assumptions = ['radii at most 300: beyond about 350 cosh r1 cosh r2 overflows']
    J = core.Job; s = c.seed; N = c.scale(12000, 300000); TO = c.scale(200, 2500)
    r, d, a = core.build_many([(('h_hdist', v), dict(lib=False)) for v in ('rel', 'dbg', 'asan')])
    q = N // 4
    jobs = [J(r, [f'--seed={s}', f'--from={i*q}', f'--to={i*q+q}'], timeout=TO) for i in range(4)]
    jobs += [J(d, [f'--seed={s+100}', '--from=0', f'--to={q}'], timeout=TO), J(a, [f'--seed={s+200}', '--from=0', f'--to={q}'], timeout=TO)]
    c.run(jobs)
