import core, os, subprocess
TECHNIQUE = 'fault injection at the file system boundary (missing and read-only paths, full device, size limits at every offset, failing, short and interrupted write calls) with a monitor comparing reported status and file content'
NOTE = 'A failing close(2) is not injected (libstdc++ does not call it through a replaceable symbol here).'
def run(c):
    c.rule = 'one evaluation = one run of a tool or saveDot with one injected fault; distinct by case'
    c.assumptions = ['libstdc++ issues file writes through write/writev']
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(3) as ex:
        f = ex.submit(core.build, 'h_fault', 'rel'); g = [ex.submit(core.cli, t, 'rel') for t in ('gengirg', 'genhrg')]; exe = f.result(); cl = [x.result() for x in g]
    so = os.path.join(c.tmp(), 'faultio.so'); r = subprocess.run(['gcc', '-O1', '-shared', '-fPIC', '-w', os.path.join(core.SRC, 'faultio.c'), '-o', so, '-ldl'], capture_output=True, text=True)
    if r.returncode: raise core.HarnessError(r.stderr)
    os.chmod(c.tmp(), 0o777)
    s = c.seed; N = c.scale(500, 12000); jobs = []
    for i in range(4): jobs.append(core.Job(exe, [f'--tmp={c.tmp()}', f'--preload={so}', f'--girg={cl[0]}', f'--hrg={cl[1]}', f'--seed={s}', f'--from={i*N}', f'--to={(i+1)*N}'], timeout=c.scale(200, 2500)))
    c.run(jobs)
