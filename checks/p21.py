import core
TECHNIQUE = 'online differential monitor: every grid function against an independent integer model, exhaustively on small levels and on random and border cells on deep levels; both bit manipulation implementations; debug assertions and UBSan'
NOTE = 'Exhaustive over all cell pairs of the small levels, sampled on deeper levels (cell numbers below 2^30).'
def run(c):
    c.rule = 'one evaluation = one cell pair with its bounds, relatives and points; distinct by dimension, level and cells'
    c.assumptions = ['cell numbers stay below 2^30 as in the library']
    rel, dbg = [core.build('h_geom', v, lib=False, extra=['-mbmi2']) for v in ('rel', 'asan')]; bmi = core.build('h_geom', 'bmi', lib=False)
    s = c.seed; N = c.scale(500000, 30000000); J = core.Job
    jobs = [J(rel, ['--all=1', f'--seed={s}', '--from=0', f'--to={N}'], timeout=2500), J(rel, [f'--seed={s+1}', '--from=0', f'--to={N}'], timeout=2500), J(bmi, ['--all=1', f'--seed={s+2}', '--from=0', f'--to={N}'], timeout=2500), J(dbg, [f'--seed={s+3}', '--from=0', f'--to={N//8}'], timeout=2500)]
    c.run(jobs)
