import core
TECHNIQUE = 'round-trip monitor: every written file is read back by an independent strict parser of the dot language (plus AddressSanitizer/UBSan runs)'
NOTE = 'Random graphs, weights from 1e-308 to 1e308, up to 9 dimensions, replaced files, a foreign global locale.'
def run(c):
    c.rule = 'one evaluation = one saveDot call read back; distinct by file content, empty graphs not counted'
    c.assumptions = ['printf rounds decimal output correctly']
    rel, asan = core.build_many([(('h_dot', v), {}) for v in ('rel', 'asan')])
    s = c.seed; tmp = c.tmp(); N = c.scale(400, 12000); jobs = []
    for i in range(3): jobs.append(core.Job(rel, [f'--tmp={tmp}', f'--seed={s}', f'--from={i*N}', f'--to={(i+1)*N}'], timeout=c.scale(200, 2500)))
    jobs.append(core.Job(asan, [f'--tmp={tmp}', f'--seed={s+1}', '--from=0', f'--to={N//2}'], timeout=c.scale(200, 2500)))
    c.run(jobs)
