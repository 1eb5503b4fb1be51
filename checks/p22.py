import core
TECHNIQUE = 'online differential monitor: every angular grid function against an independent integer model, exhaustively up to level 9, random and border cells up to level 29'
NOTE = 'Angles within 1e-15 * 2 pi of a cell border may be assigned to either side (rounding).'
def run(c):
    c.rule = 'one evaluation = one cell with neighbours, relatives and angles, or one cell pair; distinct by cell'
    c.assumptions = []
    rel, asan = core.build_many([(('h_angle', v), {}) for v in ('rel', 'asan')])
    s = c.seed; N = c.scale(400000, 40000000); J = core.Job
    c.run([J(rel, ['--all=1', f'--seed={s}', '--from=0', f'--to={N}'], timeout=2500), J(rel, [f'--seed={s+1}', '--from=0', f'--to={N}'], timeout=2500), J(asan, ['--all=1', f'--seed={s+2}', '--from=0', f'--to={N//10}'], timeout=2500)])
