import core, re, os
TECHNIQUE = 'ThreadSanitizer (happens-before race detection) with an own OpenMP runtime made of pthread primitives, perturbed schedules, hostile workload'
NOTE = 'Every executed pair of conflicting accesses without happens-before order is reported, whatever the timing; code that the workload does not execute is not covered. TSan history size bounds the distance of the two accesses.'
def run(c):
    c.rule = 'one evaluation = one operation (any public entry point, incl. nested and concurrent callers) executed under TSan; distinct by operation, arguments and threads'
    c.assumptions = ['the OpenMP runtime is src/minigomp.cpp: it implements exactly the ordering OpenMP guarantees', 'the user callback writes only to the slot of its thread id']
    tsan, tsand = core.build_many([(('h_ops', v), {}) for v in ('tsan', 'tsand')])
    s = c.seed; J = core.Job; jobs = []
    N = c.scale(154, 2200)
    tmp = c.tmp()
    for i in range(6): jobs.append(J(tsan, [f'--seed={s}', f'--from={i*N}', f'--to={(i+1)*N}', '--nmax=600', f'--tmp={tmp}'], timeout=c.scale(250, 1500), ok_exit=(0, 66)))
    for i in range(2): jobs.append(J(tsand, [f'--seed={s+1}', f'--from={i*N}', f'--to={i*N+N//2}', '--nmax=200', f'--tmp={tmp}'], timeout=c.scale(250, 1500), ok_exit=(0, 66)))
    jobs.append(J(tsan, [f'--seed={s+2}', '--from=0', f'--to={N//2}', '--nmax=300', '--team=1', f'--tmp={tmp}'], timeout=c.scale(250, 1500), ok_exit=(0, 66)))
    for i in range(2): jobs.append(J(tsan, [f'--seed={s+3+i}', '--from=0', f'--to={c.scale(4,20)}', '--op=11', '--tmax=8', f'--tmp={tmp}'], timeout=c.scale(250, 1500), ok_exit=(0, 66), cpus=2))
    for i in range(3): jobs.append(J(tsan, [f'--seed={s+5+i}', '--from=0', f'--to={c.scale(6,24)}', '--op=12', f'--tmp={tmp}'], timeout=c.scale(250, 1500), ok_exit=(0, 66), cpus=2))
    for r in c.run(jobs):
        c.stat('tsan_reports', r.err.count('WARNING: ThreadSanitizer'))
        for blk in r.err.split('==================')[1:]:
            if 'WARNING: ThreadSanitizer' not in blk: continue
            kind = re.search(r'WARNING: ThreadSanitizer: ([\w -]+)', blk).group(1).strip().replace(' ', '-')
            m = re.search(r'#\d+ ([^\n]*?) (/[^\s:]*/source/(?:girgs|hypergirgs)/[^\s:]+):', blk)
            where = (os.path.basename(m.group(2)) + ':' + re.sub(r'\W+', '_', re.sub(r'<[^<>]*>', '', m.group(1)))[:50]) if m else 'harness'
            if kind == 'data-race' and not m: raise core.HarnessError('race outside the libraries: ' + blk[:1500])
            c.violation(f'{kind}:{where}', blk.strip()[:300].replace('\n', ' | '), dict(c.job_dict(r.job), report=blk[:6000]))
