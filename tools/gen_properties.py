#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl (run: python3 tools/gen_properties.py)."""
import json, os
G='source/girgs/'; H='source/hypergirgs/'
ST=G+'include/girgs/SpatialTree.inl'; WL=G+'include/girgs/WeightLayer.h'; GG=G+'source/Generator.cpp'
GW=G+'source/WeightScaling.cpp'; CH=G+'include/girgs/SpatialTreeCoordinateHelper.inl'; CHH=G+'include/girgs/SpatialTreeCoordinateHelper.h'
ND=G+'include/girgs/Node.h'; GH=G+'include/girgs/Generator.h'; HL=G+'include/girgs/Helper.h'; HY=G+'include/girgs/Hyperbolic.h'
BMG=G+'include/girgs/BitManipulationGeneric.inl'; BMB=G+'include/girgs/BitManipulationBMI2.inl'; IS=G+'include/girgs/IntSort.h'
HT=H+'include/hypergirgs/HyperbolicTree.inl'; RL=H+'source/RadiusLayer.cpp'; RLH=H+'include/hypergirgs/RadiusLayer.h'
HG=H+'source/Generator.cpp'; AH=H+'source/AngleHelper.cpp'; AHH=H+'include/hypergirgs/AngleHelper.h'
DF=H+'include/hypergirgs/DistanceFilter.h'; PT=H+'include/hypergirgs/Point.h'; HIS=H+'include/hypergirgs/IntSort.h'
CG='source/cli/gengirg/main.cpp'; CHRG='source/cli/genhrg/main.cpp'
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    assert len(title)<=80,title
    P.append(d)

p('P01','Threshold GIRG: exactly the edges the model defines',
 'With alpha = infinity, edge generation returns exactly the node pairs {u,v} whose torus max-norm distance to the power d is smaller than w_u*w_v/W (W = sum of all weights), for every dimension 1 to 5. No qualifying pair is missing and no other pair is present, whatever the weights (any spread), the positions in [0,1)^d, the number of threads and the sampling seed.',
 ['inputs','schedules','configurations'],'all weight vectors and positions, dims 1-5, every thread count and seed',
 'Generator_test checks a few hundred nodes of power-law weights and uniform positions at one thread count; degenerate layouts (clusters, cell borders, equal or extreme weights, tiny n, n>2^17) and other thread counts are never compared with the definition.',
 [ST,WL,CH,ND,GG],[('recursive cell-pair visit','SpatialTree::visitCellPair'),('layer/level comparison levels','SpatialTree::partitioningBaseLevel, weightLayerTargetLevel'),('index of nodes by layer and Morton code','SpatialTree::buildPartition')],['girgs::generateEdges','makeSpatialTree<D>(...).generateEdges'])
p('P02','Binomial GIRG: exact connection probabilities, independent pairs',
 'With finite alpha > 0, every node pair {u,v} is an edge with probability min(1, (w_u*w_v/W / dist^d)^alpha), where dist is the torus max-norm distance. Pairs are decided independently of each other, for every dimension 1 to 5 and every thread count; the only tolerated approximation is omitting groups of far pairs whose total expected number of edges is below 1e-6.',
 ['inputs','configurations'],'all weights, positions, alpha, dims, thread counts; probability over seeds',
 'Tests only compare one global average degree with a wide tolerance; a bias confined to one pair class (far pairs, first/last pair of a cell pair, heavy-light pairs, one thread stream) or correlated decisions are invisible to them.',
 [ST,WL,CH],[('coin per near pair','SpatialTree::sampleTypeI'),('geometric skipping with rejection for far pairs','SpatialTree::sampleTypeII')],['girgs::generateEdges','makeSpatialTree<D>(...).generateEdges'])
p('P03','Generated graphs are simple and every pair is decided once',
 'Every edge list produced by either generator contains only endpoints in [0,n), no self-loop and no unordered pair more than once. With alpha = 0 a GIRG is the complete graph, i.e. each of the n(n-1)/2 pairs is reported exactly once. This holds for all inputs, dimensions, temperatures and thread counts.',
 ['inputs','schedules','configurations'],'all inputs of both generators, all thread counts, graphs of any size',
 'One test per library checks duplicates on a single mid-size instance and a complete graph on one size; thread-count dependent work splitting, empty layers and tiny or dense instances are not covered.',
 [ST,HT,GG,HG],[('each unordered cell pair visited once','SpatialTree::visitCellPair / visitCellPair_sequentialStart'),('offset inside one cell','sampleTypeI'),('task split','HyperbolicTree::visitCellPairCreateTasks / visitCellPairSample')],['girgs::generateEdges','hypergirgs::generateEdges','edge callbacks'])
p('P04','Threshold HRG: exactly the pairs within hyperbolic distance R',
 'With temperature T = 0, hyperbolic edge generation returns exactly the node pairs whose hyperbolic distance is below R. This holds for all radii in [0,R) and angles in [0,2*pi), every disc radius R > 0, every thread count and every seed.',
 ['inputs','schedules','configurations'],'all radii/angles, all R, all thread counts and seeds',
 'HyperbolicTree_test compares a few sampled instances of a few hundred points with brute force; points at the centre or the rim, angles at cell borders, small or integral R, clusters and shallow trees with many threads are not sampled.',
 [HT,RL,RLH,PT,AH],[('layered angular cells','RadiusLayer::buildPartition'),('comparison level','RadiusLayer::partitioningBaseLevel'),('trig-free distance test','Point::isDistanceBelowR')],['hypergirgs::generateEdges','makeHyperbolicTree(...).generate'])
p('P05','Binomial HRG: exact connection probabilities, independent pairs',
 'With temperature 0 < T < 1, every node pair at hyperbolic distance x is an edge with probability 1/(1+exp((x-R)/(2T))), and pairs are decided independently. This holds for all radii, angles, R and thread counts; the only tolerated approximation is omitting groups of far pairs whose total expected number of edges is below 1e-6.',
 ['inputs','configurations'],'all radii/angles, T, R, thread counts; probability over seeds',
 'EdgeProbabilities_test checks four parameter points with one histogram each, pooled over all pairs and generic inputs; small R, high T, near-centre points and per-thread streams are not checked.',
 [HT,DF,PT,RL],[('coin per near pair with distance filter','HyperbolicTree::sampleTypeI'),('geometric skipping for far pairs','HyperbolicTree::sampleTypeII')],['hypergirgs::generateEdges','makeHyperbolicTree(...).generate'])
p('P06','Same seeds and thread count reproduce the same graph',
 'Repeating any sampling call (weights, positions, radii, angles, edges of either generator, also repeatedly on one generator object) with equal inputs, equal non-negative seeds and equal thread count yields bit-identical samples and the identical edge set, regardless of how threads are scheduled or delayed. With one thread the order of the reported edges is identical too.',
 ['schedules','inputs','histories'],'all interleavings of the worker threads, all inputs and seeds, repeated calls',
 'testReproducible runs a call a few times on an idle machine with the default schedule; slow or late threads, perturbed task hand-out and reuse of a generator object are not exercised.',
 [ST,HT,GG,HG],[('static schedule and per-thread generators','SpatialTree::generateEdges'),('one generator per task','HyperbolicTree::generate / initialize_prngs'),('seed + thread id','generateWeights, generatePositions, sampleRadii, sampleAngles')],['return values','edge callbacks'])
p('P07','Parallel sampling is free of data races',
 'No data race (two unordered conflicting memory accesses) occurs in any public operation of either library for any thread count, input and interleaving, provided the user callback itself is thread-safe per thread id. This includes weight/position/radius/angle sampling, weight scaling, index construction, parallel sorting and edge generation.',
 ['schedules','inputs','configurations'],'all interleavings, thread counts, inputs that reach each parallel region',
 'Tests run uninstrumented and a race rarely changes an observable result.',
 [ST,HT,RL,IS,HIS,GG,HG,GW],[('per-thread buffers and locked flush','generateEdges'),('task queue hand-off','HyperbolicTree::generate'),('parallel counting sort','intsort'),('prefix-sum gap repair','buildPartition')],['ThreadSanitizer reports on all repository code'])
p('P08','No memory error or undefined behaviour on any supported input',
 'For every supported input (all dimensions, weights, positions, radii, angles, alpha, T, R, thread counts, n >= 1) no operation of the libraries or command line tools accesses memory out of bounds or after release, uses an uninitialised value, leaks, overflows a signed integer, or fails one of the built-in debug assertions.',
 ['inputs','configurations','schedules'],'all supported inputs incl. boundary values and degenerate sizes',
 'Tests run without sanitizers on generic mid-size inputs; boundary cells, single nodes, empty layers, extreme weight ratios and thread counts above the work size are not reached.',
 [ST,WL,HT,RL,IS,HIS,GW,GG,HG,CG,CHRG],[('index arithmetic','WeightLayer::levelledCell, RadiusLayer::levelledCell'),('debug assertions','assert() throughout')],['AddressSanitizer, UBSan, libstdc++ assertions, memcheck, assert()'])
p('P09','Every operation terminates, whatever threads the runtime grants',
 'Every sampling, scaling, calibration and generation call on supported input returns after a bounded amount of work: no deadlock, livelock or endless search, for any number of requested threads, any smaller team the OpenMP runtime actually grants, nested calls, any thread timing, any graph size and any desired degree in [1, n-1]. A smaller team than requested loses no edges.',
 ['schedules','inputs','configurations','fault_sequences'],'all thread counts, granted team sizes, timings, tree depths, target degrees',
 'Tests run with the default thread count on mid-size inputs; they cannot show absence of hangs under other team sizes or timings.',
 [HT,ST,GW,HG],[('condition-variable hand-off of tasks','HyperbolicTree::generate'),('exponential + binary search','exponentialSearch'),('radius bisection','searchTargetRadiusForColdGraphs')],['return of the call under a step/progress monitor'])
p('P10','Weight scaling makes the expected average degree the desired one',
 'scaleWeights multiplies every weight by the one factor it returns, and afterwards the expected average degree of the GIRG model with these weights on the torus (over uniform positions) is the desired one within 0.03 (plus rounding), for every weight vector, dimension 1 to 5, attainable desired degree and every alpha in (0,8] except 1 and for alpha = infinity. For large finite alpha the result may only be as far off as the documented use of the threshold estimate.',
 ['inputs','configurations'],'all weight vectors, desired degrees, dims, alpha',
 'Tests compare the sampled average degree of a handful of power-law instances within a wide tolerance; rich-club corrections, few nodes, equal or extreme weights and small alpha are not pinned down.',
 [GW,GG],[('closed-form estimator with rich-club correction','estimateWeightScaling, estimateWeightScalingThreshold'),('lazy partial sort','LazySorter')],['girgs::scaleWeights'])
p('P11','Generated weights follow the truncated power law',
 'generateWeights(n, ple, seed) returns n independent weights in [1, n/2] whose distribution has density proportional to w^(-ple), for every n >= 3, ple > 1, seed and thread count. Every entry is filled, from a stream that depends on the seed.',
 ['inputs','configurations'],'all n, ple, seeds, thread counts, parallel or not',
 'One test checks a few moments of one sample; the whole distribution, the parallel chunks and their borders are not tested.',
 [GG,GH],[('inverse transform sampling','generateWeights')],['girgs::generateWeights'])
p('P12','Generated positions are independent uniform points of the torus',
 'generatePositions(n, d, seed) returns n points with exactly d coordinates each; all coordinates lie in [0,1) and are uniform and independent across points, dimensions and thread chunks, for every n, d, seed and thread count.',
 ['inputs','configurations'],'all n, d, seeds, thread counts, parallel or not',
 'No test looks at the distribution of positions.',
 [GG,GH],[('one uniform draw per coordinate','generatePositions')],['girgs::generatePositions'])
p('P13','Sampled radii and angles follow the hyperbolic model',
 'Sampled radii lie in (0,R) with density proportional to sinh(alpha*r) and sampled angles are uniform in [0,2*pi); radii, angles and entries are mutually independent, for every n, alpha, R, seed and thread count, through the separate and the combined sampling functions.',
 ['inputs','configurations'],'all n, alpha, R, seeds, thread counts, parallel or not',
 'Tests consume the samples without checking their law.',
 [HG],[('inverse transform and warm-up','sampleRadiiAndAnglesHelper')],['hypergirgs::sampleRadii','sampleAngles','sampleRadiiAndAngles'])
p('P14','Disc radius calibration matches the requested average degree',
 'calculateRadius(n, alpha, T, deg) is the closed-form solution of the asymptotic degree equation deg = 2*alpha^2/(alpha-1/2)^2 * (T/sin(pi*T), or 1/pi for T = 0) * n * exp(-R/2), and the NetworKit-compatible variant solves that project\'s expected-degree equation to its tolerance of 0.01 for T = 0 and its closed form for T > 0. Both decrease with deg and increase with n, and graphs sampled with the resulting R have the requested average degree up to the finite-size error of the asymptotic formula.',
 ['inputs','configurations'],'all n, alpha in (0.5,1], T in [0,1), deg',
 'No test checks the radius formulas at all.',
 [HG],[('closed form','calculateRadius'),('bisection on the expected degree','searchTargetRadiusForColdGraphs')],['hypergirgs::calculateRadius','calculateRadiusLikeNetworKit'])
p('P15','Edge callbacks: valid thread ids, serial per id, nothing lost',
 'During generation the callback is invoked once per edge with a thread id in [0, number of threads), and never by two threads at the same time with the same id, so one unsynchronised accumulator per id is safe; all invocations happen before the generation call returns. The buffered edge-list functions return exactly the edges the callback interface reports, for any number of edges per thread, and switching profiling output on does not change the result.',
 ['schedules','inputs','configurations'],'all interleavings, thread counts, edge counts incl. several buffer blocks per thread',
 'Tests use the buffered functions on graphs far smaller than one buffer block and never look at thread ids.',
 [GG,HG,ST,HT],[('per-thread buffers flushed at block size','generateEdges'),('omp thread id handed to callback','sampleTypeI/II')],['edge callback invocations','generateEdges result'])
p('P16','gengirg writes exactly the graph its parameters describe',
 'The files and log gengirg produces for accepted parameters are exactly what the library yields for them: the edge list has the header "n m", a blank line and then every edge of weights(n,ple,wseed) scaled to deg, positions(n,d,pseed) and edges(alpha,sseed) once; the .dot file describes the same graph; documented defaults apply to omitted options; no file is written unless requested and the requested files carry the requested name. Options may come in any order.',
 ['inputs','configurations'],'all accepted parameter combinations',
 'The command line tools have no tests.',
 [CG,GG],[('argument map, defaults, pipeline','gengirg main')],['files written by gengirg','stdout','exit code'])
p('P17','genhrg writes exactly the graph and coordinates its parameters describe',
 'For accepted parameters genhrg writes exactly what the library yields for them: the edge list with header "n m", a blank line and every edge once, and a .hyp file with one "radius angle" line per node in node order with 17 decimal places (values from 0.0625 up read back bit-identically). The radius estimator is chosen by -nkr, documented defaults apply to omitted options, options may come in any order and no file is written unless requested.',
 ['inputs','configurations'],'all accepted parameter combinations',
 'The command line tools have no tests.',
 [CHRG,HG],[('argument map, defaults, pipeline','genhrg main')],['files written by genhrg','stdout','exit code'])
p('P18','Command line tools reject out-of-range parameters before doing work',
 'Each tool accepts exactly the documented parameter ranges: a value outside its range (including NaN, and the excluded end points) or a text that is not a number terminates the tool with a non-zero status, without crashing on memory errors and without writing an output file, and range errors name the parameter on stderr. Every value inside the range is accepted, and help and version requests exit with status 0.',
 ['inputs'],'all parameter values and texts',
 'The command line tools have no tests.',
 [CG,CHRG],[('rangeCheck','main')],['exit status, stderr, files'])
p('P19','Dot export describes the graph faithfully',
 'saveDot writes one node statement per node, in order, whose label is the weight rounded to two decimals and whose position lists all coordinates rounded to six decimals, and one statement "u -- v" per edge in the given order, inside a well-formed graphviz graph. Reading the file back yields the same number of nodes, the same positions and the same edge list, for all weights, dimensions and graphs, replacing any previous content of the file.',
 ['inputs'],'all weights, positions, edge lists',
 'No test calls saveDot.',
 [GG],[('stream formatting','saveDot')],['file content'])
p('P20','Failed writes are reported, never passed off as success',
 'If an output file cannot be opened or cannot be written completely (missing directory, no permission, path is a directory, full device, at any point of the write), saveDot throws an exception and the command line tools end with a non-zero status. They never report success for a truncated or missing file.',
 ['fault_sequences','inputs'],'every failing write position, every kind of open failure',
 'No test injects a fault.',
 [GG,CG,CHRG],[('open check','saveDot, main'),('stream state','ofstream')],['exception, exit status'])
p('P21','GIRG grid geometry: cells, adjacency, distances, Morton codes agree',
 'For every dimension 1 to 5 and level, the cell of a point is the one whose bounds contain it, children and parents partition their cells, two cells are called touching exactly when their closures meet on the torus, and the reported cell distance is the exact minimum torus max-norm distance between points of the cells. Interleaving and extracting coordinate bits are inverse to each other, and the generic and the BMI2 implementation agree bit for bit.',
 ['inputs','configurations'],'all cells, cell pairs, points, levels, dims',
 'Tests cover a few levels of low dimension and random bit patterns of the generic implementation.',
 [CH,CHH,BMG,BMB],[('Morton code arithmetic','SpatialTreeCoordinateHelper'),('pdep/pext','BitManipulation')],['SpatialTreeCoordinateHelper<D>','BitManipulation<D>'])
p('P22','HRG angular grid geometry is consistent',
 'On every level the angular cell of a point is the one whose bounds contain it, children halve their parent, two cells are called touching exactly when they are equal or share a border on the circle, and the cell distance is the exact minimum angular distance between the cells on the circle.',
 ['inputs'],'all cells, cell pairs, angles in [0,2*pi), levels',
 'Tests cover a few small levels.',
 [AH,AHH],[('cell index arithmetic','AngleHelper')],['hypergirgs::AngleHelper'])
p('P23','Parallel integer sort returns a sorted permutation of its input',
 'For every sequence, key function with keys in the declared range, sequence length and thread count, the integer sort returns the same elements ordered by key; elements with equal keys keep their relative order. All call forms (vector, iterators, unique and shared pointers) agree.',
 ['inputs','configurations','schedules'],'all sequences, key ranges, lengths, thread counts',
 'No test calls the sort directly, and no test graph is large enough to reach its multi-threaded path.',
 [IS,HIS],[('LSB radix passes with per-thread histograms','intsort::IntSortInternal')],['intsort::intsort'])
p('P24','Spatial index answers cell queries exactly',
 'For every point set, the index of either generator returns for each layer, level and cell exactly the points of that layer inside that cell: the counts, the k-th point access and the ranges agree with each other and with a direct scan, the layers partition the points by radius or weight, and every point is stored exactly once.',
 ['inputs','configurations'],'all point sets, layers, levels, cells, thread counts',
 'RadiusLayer_test checks one small point set; the weight-layer index has no direct test.',
 [RL,RLH,WL,ST],[('prefix sums over cells','buildPartition'),('descendant range','levelledCell')],['RadiusLayer::pointsInCell/kthPoint/cellIterators','WeightLayer accessors'])
p('P25','Concurrent and repeated calls do not interfere; inputs stay unmodified',
 'Independent calls made at the same time from different application threads each return what they return when run alone, and no call leaves state behind that changes a later one. A call prints nothing on the standard streams unless profiling is requested, and profiling does not change the result. Except for the weights handed to scaleWeights, inputs (weights, positions, radii, angles, edge lists) are never modified.',
 ['schedules','histories','inputs'],'all mixes and interleavings of calls from several caller threads',
 'Tests are single-caller.',
 [GG,HG,ST,HT,GW],[('no shared mutable state','all entry points')],['results of concurrent calls'])
p('P26','Hyperbolic distance functions are accurate and consistent',
 'For all points of the disc the distance functions (free function, point method, cosh form) agree with the hyperbolic law of cosines up to rounding, are symmetric, never NaN or negative, and invariant under rotation. The fast test "closer than R" agrees with them for every pair not within rounding error of the threshold.',
 ['inputs'],'all radii (incl. 0), angles, R',
 'Tests check a few hand-picked points.',
 [PT],[('precomputed coth and 1/sinh','Point')],['hypergirgs::hyperbolicDistance','Point'])
p('P27','Distance filter bounds are sound',
 'For every probability range, R, T and random number r, the filter\'s two distance bounds are safe: a pair farther than the upper bound has connection probability at most r, and a pair closer than the lower bound has connection probability at least r. Using the filter thus never changes the outcome of a coin flip.',
 ['inputs'],'all max probabilities, R >= 0, T > 0, r, distances',
 'No test touches the filter; a wrong bound changes only few coin flips of unusual parameters.',
 [DF,HT],[('precomputed stages','DistanceFilter')],['DistanceFilter bounds'])
p('P28','Mapping between hyperbolic and GIRG coordinates is exact and consistent',
 'Converting radius to weight and angle to position and back returns the original value up to rounding, in both directions and with any scaling; weights decrease with the radius with w = exp((R-r)/2), positions are angle/(2*pi) and lie in [0,1] for angles in [0,2*pi]. Mapped point sets keep hyperbolic and torus geometry aligned: angular distance corresponds to 2*pi times the torus distance.',
 ['inputs'],'all radii, angles, R, weights, scalings',
 'No test uses the conversion functions.',
 [HY],[('closed-form maps','Hyperbolic.h')],['radiusToGirgWeight','girgWeightToRadius','angleToGirgPosition','girgPositionToAngle'])
p('P29','Sampling work grows (near-)linearly with the graph',
 'For fixed average degree and model parameters, the executed work of weight and position sampling, scaling, index construction, radix sorting and edge generation grows by at most a factor slightly above 2 when the number of nodes doubles, in both models, all dimensions and every temperature or alpha > 1 (averaged over whole levels of the index: in between the cost oscillates by up to 2^d). Neither heavy-tailed nor uniform weights, nor the number of threads, make the work quadratic.',
 ['inputs','configurations'],'all n along doubling series, parameters, thread counts',
 'Tests measure no cost.',
 [ST,HT,RL,GW,IS],[('comparison levels bound type-I pairs','partitioningBaseLevel'),('geometric jumps','sampleTypeII'),('lazy sort','LazySorter')],['executed basic blocks (instrumented build)'])
p('P30','Seeds select independent streams; negative seeds are fresh',
 'Seeds that differ by at least the number of threads give different, statistically independent samples and edge sets (thread i of a call works with the stream of seed+i, except in hyperbolic edge generation, where any two seeds are independent); within one call no thread repeats the random stream of another thread or task. A negative seed draws fresh randomness on every call in every sampling function, with thread counts above one as well.',
 ['inputs','configurations','histories'],'all seeds and seed pairs, thread counts, repeated calls',
 'Tests fix one seed and only check equality.',
 [GG,HG,ST,HT],[('seed + thread id','generateWeights, generatePositions, SpatialTree::generateEdges'),('seed sequences per task','HyperbolicTree::initialize_prngs')],['samples and edge sets'])
p('P31','Unsupported library requests fail loudly and change nothing',
 'Edge generation for a dimension outside 1 to 5 returns an empty edge list and says so on standard output. scaleWeights for alpha <= 0 or alpha = 1 throws and leaves the weights untouched. saveDot to a path that cannot be opened throws an exception naming the path.',
 ['inputs'],'all unsupported dims, alphas, paths',
 'No test exercises an error path.',
 [GG],[('dimension switch','generateEdges'),('alpha dispatch','scaleWeights'),('open check','saveDot')],['exceptions, stdout, arguments after the call'])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
with open(out,'w') as f:
    for d in P: f.write(json.dumps(d)+'\n')
print(len(P))
