import core
TECHNIQUE = 'process-level monitor of the real tools (also under AddressSanitizer/UBSan): exit status, stderr, scratch directory before and after, on values at, beside and far from every range border'
NOTE = 'Texts that start with a number ("3x") are left to the number parser and not judged.'
def run(c):
    c.rule = 'one evaluation = one run of a tool with valid, out-of-range, non-numeric or help arguments; distinct by command line'
    c.assumptions = ['the accepted ranges are those of the help text (with deg up to and including n-1)']
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(5) as ex:
        f = ex.submit(core.build, 'h_range', 'rel', lib=False); g = {(t, v): ex.submit(core.cli, t, v) for t in ('gengirg', 'genhrg') for v in ('rel', 'asan')}
        exe = f.result(); cli = {k: x.result() for k, x in g.items()}
    s = c.seed; tmp = c.tmp(); jobs = []
    for t in ('gengirg', 'genhrg'):
        for v, n, k in (('rel', c.scale(600, 15000), 2), ('asan', c.scale(250, 6000), 1)):
            for i in range(k): jobs.append(core.Job(exe, [f'--tool={t}', f'--exe={cli[t, v]}', f'--tmp={tmp}', f'--seed={s + (v == "asan")}', f'--from={i*n}', f'--to={(i+1)*n}'], timeout=c.scale(200, 2500), name='h_range.' + v))
    c.run(jobs)
