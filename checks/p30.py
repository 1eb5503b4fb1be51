import core
TECHNIQUE = 'statistical monitors over recorded samples and edge sets (edges shared by two seeds or by translated copies against exact tail bounds; repeated values; Kolmogorov-Smirnov)'
NOTE = 'Independence is judged through shared edges, shared values and marginal laws; weaker dependence stays invisible. False-alarm probability below 1e-10 per run.'
def run(c):
    c.rule = 'one evaluation = one generated edge set compared with those of other seeds and with its own translations, or one bundle of samples; distinct by hash of the edge set or bundle'
    c.assumptions = ['girgs gives thread i the stream of seed+i, so only seeds that differ by at least the number of threads are expected to be independent there', 'std::random_device does not repeat']
    rel, relm, dist, distm = core.build_many([(('h_seed', 'rel'), {}), (('h_seed', 'relm'), {}), (('h_dist', 'rel'), {}), (('h_dist', 'relm'), {})])
    s = c.seed; J = core.Job; jobs = []; N = c.scale(150, 3000); TO = c.scale(200, 2500)
    for i in range(5): jobs.append(J(rel, [f'--seed={s}', f'--from={i*N}', f'--to={(i+1)*N}'], timeout=TO))
    jobs.append(J(relm, [f'--seed={s+1}', '--from=0', f'--to={c.scale(50, N)}'], timeout=TO))
    M = c.scale(60, 1200)
    for i, w in enumerate(('weights', 'positions', 'radii', 'angles', 'both')): jobs.append(J(dist, [f'--what={w}', '--mode=streams', f'--seed={s+2}', f'--from={i*M}', f'--to={(i+1)*M}'], timeout=TO))
    jobs.append(J(distm, ['--what=weights,positions,radii,angles,both', '--mode=streams', f'--seed={s+3}', '--from=0', f'--to={M}'], timeout=TO))
    c.run(jobs)
