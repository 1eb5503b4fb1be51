import core
TECHNIQUE = 'online monitor of unsupported requests: results, captured standard output, exceptions, arguments before and after; AddressSanitizer/UBSan variant'
NOTE = 'Alpha below 0, 0 and 1; dimensions 0 and 6 to 40; seven kinds of unusable paths.'
def run(c):
    c.rule = 'one evaluation = one unsupported request; distinct by request'
    c.assumptions = []
    rel, asan = core.build_many([(('h_unsup', v), {}) for v in ('rel', 'asan')])
    s = c.seed; tmp = c.tmp(); N = c.scale(4000, 200000)
    c.run([core.Job(rel, [f'--tmp={tmp}', f'--seed={s}', '--from=0', f'--to={N}'], timeout=200), core.Job(asan, [f'--tmp={tmp}', f'--seed={s+1}', '--from=0', f'--to={N//4}'], timeout=c.scale(200, 2500))])
