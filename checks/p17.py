import core
TECHNIQUE = 'differential monitor: real tool processes, files parsed by strict readers and compared with in-process library results and the log'
NOTE = 'Random parameter sets, option orders, formats and file names; n up to 45000. Trusts the library for what the graph should be (P01-P14).'
TOOL = 'genhrg'
def run(c, tool=TOOL):
    c.rule = 'one evaluation = one run of the tool, all files and the log compared; distinct by command line, runs without output file not counted'
    c.assumptions = ['the tool and the harness link identically compiled library objects']
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(3) as ex:
        f = ex.submit(core.build, 'h_cli', 'rel'); g = ex.submit(core.cli, tool, 'rel'); h = ex.submit(core.cli, tool, 'dbg'); exe, t, td = f.result(), g.result(), h.result()
    s = c.seed; tmp = c.tmp(); N = c.scale(40 if tool == 'gengirg' else 120, 700 if tool == 'gengirg' else 3000); jobs = []; TO = c.scale(220, 2500)
    for i in range(5): jobs.append(core.Job(exe, [f'--tool={tool}', f'--exe={t}', f'--tmp={tmp}', f'--seed={s}', f'--from={i*N}', f'--to={(i+1)*N}'], timeout=TO, cpus=1.6))
    c.run(jobs)
