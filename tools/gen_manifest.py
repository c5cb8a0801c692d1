#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand after editing it)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = 'CoarseGrainSites/src/libmythical/'; I = 'CoarseGrainSites/include/mythical/'
CUB = [S + 'charge_transport/cuboid_lattice.cpp', I + 'charge_transport/cuboid_lattice.hpp']
MAR = [S + 'charge_transport/marcus.cpp', I + 'charge_transport/marcus.hpp', I + 'constants.hpp']
QUE = [S + 'queue.cpp', I + 'queue.hpp']
WAL = [S + 'walker.cpp', I + 'walker.hpp', S + 'identity.hpp']
RAT = [S + 'rate_container.cpp', S + 'rate_container.hpp']
SIT = [S + 'topologyfeatures/site.cpp', S + 'topologyfeatures/site.hpp', S + 'topologyfeatures/topology_feature.cpp', S + 'topologyfeatures/topology_feature.hpp']
SCO = [S + 'site_container.cpp', S + 'site_container.hpp']
CCO = [S + 'cluster_container.cpp', S + 'cluster_container.hpp']
CLU = [S + 'topologyfeatures/cluster.cpp', S + 'topologyfeatures/cluster.hpp', S + 'topologyfeatures/topology_feature.cpp', S + 'topologyfeatures/site.cpp']
P = []
def prop(id, title, statement, over, text, why, files, mech, bounds):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, bounds=bounds))

prop('C01', 'Lattice site indices and lattice positions correspond one to one',
 'For a cuboid lattice of any shape, converting a valid site index to a position and back gives the same index, converting a position to an index and back gives the same position, and all coordinate accessors and overloads agree. Every position inside the lattice has an index between 0 and the number of sites minus one, and no two positions share one. Dimensions, spacing and boundary settings are reported as the lattice was constructed, with fixed boundaries and unit spacing by default.',
 ['inputs', 'configurations'], 'every lattice shape, boundary setting, index and position',
 'The tests convert a handful of indices of two or three lattices; an arithmetic slip that shows only for non-cubic shapes or large indices passes.',
 CUB, ['Cuboid::getIndex', 'Cuboid::getPosition', 'Cuboid::getX', 'Cuboid::getY', 'Cuboid::getZ', 'Cuboid::Cuboid'],
 'twelve shapes from 1x1x1 to 1290^3, 46340x46340x1, 1x1x2^30 and (2^31-1)x1x1; every index and coordinate as a 32-bit variable')
prop('C02', 'Requests for sites outside the lattice are rejected',
 'Asking a lattice for the position, coordinates, neighbours or distances of an index that is not one of its sites is rejected with an invalid-argument error, as is a position outside a fixed-boundary lattice, a position that does not have three coordinates, or a lattice with a negative dimension. Every request that is within range is accepted.',
 ['inputs', 'configurations'], 'every index, position and dimension of the int range',
 'The tests try one or two bad values; negative, huge or off-by-one values are never tried for most entry points.',
 CUB, ['Cuboid::getPosition', 'Cuboid::getIndex', 'Cuboid::getNeighbors', 'Cuboid::getNeighborDistances', 'Cuboid::getSmallestDistance', 'Cuboid::Cuboid'],
 'ten shapes under every boundary setting; index and coordinates: every 32-bit int; dimensions -1000..3; vectors of length 0..5')
prop('C03', 'Positions along periodic directions wrap by whole periods',
 'Along a periodic direction every coordinate is accepted and denotes the same site as the coordinate moved by any whole number of periods into the lattice; along a fixed direction only coordinates inside the lattice are accepted, whatever the settings of the other directions.',
 ['inputs', 'configurations'], 'every coordinate of the int range, every combination of boundary settings',
 'Tests wrap by one period in one or two directions; several periods, negative multiples and mixed boundaries are not covered.',
 CUB, ['Cuboid::getIndex'], 'ten shapes x eight boundary settings; every 32-bit coordinate')
prop('C04', 'Random site selection stays on the requested plane and is uniform',
 'A random site drawn for a plane of the lattice is a site of the lattice lying on exactly that plane, whatever the random draws are. All sites of the plane are equally likely, and a plane index outside the lattice is rejected.',
 ['inputs', 'configurations'], 'every plane kind, plane index, lattice shape and random draw',
 'Random draws make a test see only the outcomes of one seed; a plane confusion on a cubic lattice or a missing last row is invisible to it.',
 CUB, ['Cuboid::getRandomSite'], 'all shapes with dimensions 1..3 (thorough 1..4) and some with edges up to 100; plane index every int; every draw')
prop('C05', 'Neighbour lists are exactly the sites within the cutoff, each once',
 'The neighbours of a site within a cutoff are exactly the other sites whose shortest distance under the boundary settings is at most the cutoff, each listed once and never the site itself. Being neighbours is symmetric.',
 ['inputs', 'configurations'], 'every shape, boundary combination, site, spacing and cutoff',
 'Tests count neighbours of one site of large lattices for one cutoff; small periodic lattices, where a site can be reached both ways round, and cutoffs between shells are not covered.',
 CUB, ['Cuboid::getNeighbors'], 'shapes up to 2x3x4 (thorough 4x5x4) x eight boundary settings, every site, every real cutoff up to sqrt(5) (thorough sqrt(11)) spacings; 6x5x7, 9x2x3, 1x12x1 and 3x4x10 with cutoffs up to 4 spacings')
prop('C06', 'Neighbour distance tables are complete and hold shortest distances',
 'The distances listed for a site within a cutoff are the shortest distances under the boundary settings, one entry for exactly each other site within the cutoff, whether asked by index or by position. The table for the whole lattice holds exactly the pairs within the cutoff, in both directions, with the same distances.',
 ['inputs', 'configurations'], 'every shape, boundary combination, site, spacing and cutoff',
 'Tests compare a few entries on one lattice; wrap-around pairs and sites without a stored row are not compared.',
 CUB, ['Cuboid::getNeighborDistances'], 'as C05')
prop('C07', 'Distances between sites follow the minimum image convention',
 'The distance between two sites is the Euclidean distance to the nearest periodic image along periodic directions, times the lattice spacing. It is symmetric, zero exactly for a site and itself, and plain Euclidean when all boundaries are fixed.',
 ['inputs', 'configurations'], 'every pair of sites, shape, spacing and boundary combination',
 'Tests check a few pairs; wrong wrapping shows only for pairs more than half a period apart in a particular direction.',
 CUB, ['Cuboid::getSmallestDistance'], 'shapes up to 2x3x4 (thorough 4x5x4), lines of up to 400 sites; spacing every real in [1e-3,1e3]')
prop('C08', 'Marcus rates obey detailed balance and the symmetries of the theory',
 'For any reorganisation energy and temperature the ratio of forward to backward rate between two site energies is the Boltzmann factor of their energy difference. The rate is positive for non-zero coupling, quadratic in the coupling and independent of its sign, depends on the energies only through their difference, and is largest, and symmetric around it, where the energy drop equals the reorganisation energy. Rate calculators do not influence each other and copies agree.',
 ['inputs', 'configurations'], 'every energy, coupling, reorganisation energy and temperature in the physical range',
 'The unit test compares one rate with one number; sign or factor errors that cancel at that point pass.',
 MAR, ['Marcus::getRate', 'Marcus::Marcus'], 'lambda [0.01,10] eV, T [10,5000] K, energies [-10,10] eV, coupling [1e-6,10] eV, no underflow')
prop('C09', 'Marcus rates have the documented absolute value',
 'The rate equals 2 pi/hbar times the squared coupling over the square root of 4 pi kB T, times exp(-(lambda+dE)^2/(4 lambda kB T)), with the accepted values of the physical constants in eV, s and K.',
 ['inputs', 'configurations'], 'every energy, coupling, reorganisation energy and temperature in the physical range',
 'One tested point cannot tell the dependence on temperature or reorganisation energy.',
 MAR, ['Marcus::getRate', 'physical constants'], 'as C08, to a relative 1e-6')
prop('C10', 'The event queue hands out walkers in time order',
 'After sorting, and as long as only ordered insertions follow, the queue hands out a walker with the smallest time first, so times come out in non-decreasing order. Ordered insertion keeps an ordered queue ordered and puts equal times in insertion order. A queue that reports itself sorted is sorted, and a sorted queue that only received ordered insertions or removals still reports itself sorted.',
 ['histories', 'inputs'], 'every history of additions, ordered insertions, sorts and removals, with any times',
 'Tests use three or four walkers with distinct times in one order; ties, insertion at the ends and interleavings of operations are not covered.',
 QUE, ['Queue::sort', 'Queue::sortedAdd', 'Queue::add', 'Queue::pop_current', 'Queue::isSorted'], 'up to 5 walkers (thorough 7), histories of 5 operations (thorough 7), times any real in [0,1e9]; longer queues with few free times')
prop('C11', 'The event queue neither loses, duplicates nor alters walkers',
 'At every moment the queue holds exactly the walkers put in and not yet taken out, with the ids and times they were put in with, whatever mix of additions, ordered insertions, sorts and removals was made. Its size counts them, a removal takes the front one, and reading a position outside the queue is refused.',
 ['histories', 'inputs'], 'every history of operations with any ids and times',
 'Tests check one history with distinct ids and times.',
 QUE, ['Queue::sort', 'Queue::sortedAdd', 'Queue::add', 'Queue::pop_current', 'Queue::at', 'Queue::size'], 'histories of 5 operations (thorough 7; one queue of 18 walkers), ids with repetitions and extreme values')
prop('C12', 'Walkers and ids report exactly what was last stored in them',
 'A walker reports the current site, the next site and the dwell time it was last given, independent of every other walker; a walker that was never placed, or was given no next site, reports an error instead of a site, and a fresh walker has a negative dwell time. An id that was never set is reported as an error, otherwise the last one set is returned; copies are independent.',
 ['histories', 'inputs'], 'every history of calls with any site ids and times',
 'Tests set and read one value; negative ids, repeated sets and cross-talk between fields are not covered.',
 WAL, ['Walker::occupySite', 'Walker::setPotentialSite', 'Walker::setDwellTime', 'Identity::setId', 'Identity::getId'], 'histories of 4 calls (thorough 5) on two walkers; ids every int but the reserved smallest one')
prop('C13', 'Rates are found exactly as stored, duplicates and misses are errors',
 'A rate container returns for every ordered pair of sites the very rate that was added for it, sharing its value with the owner. Adding a rate for a pair that has one, singly or in bulk, is an invalid-argument error, and so is looking up a pair that has none.',
 ['histories', 'inputs'], 'every history of insertions and lookups over any ids',
 'Tests look up the rates they have just added and never a missing one after other queries.',
 RAT, ['Rate_Container::addRate', 'Rate_Container::addRates', 'Rate_Container::getRate'], 'histories of 3 insertions (thorough 4) over 3 ids with hash collisions; lookups with any int; one large container')
prop('C14', 'Rate topology queries match the stored rates and change nothing',
 'Counts and lists of incoming and outgoing rates of a site, and the lists of source and sink sites, are exactly those of the directed graph of the stored rates. Queries, also about sites that have no rates, never change the stored rates or the answers of later queries.',
 ['histories', 'inputs'], 'every rate graph and every sequence of queries',
 'The tests query one small graph once; side effects of queries on absent sites are not seen.',
 RAT, ['Rate_Container::getIncomingRates', 'Rate_Container::getOutgoingRates', 'Rate_Container::getSourceSiteIds', 'Rate_Container::getSinkSiteIds'], 'every directed graph on 3 sites (thorough 4, self rates included); one larger graph')
prop('C15', 'Site time constants and hop probabilities always follow the current rates',
 'After any history of setting, adding and resetting rates, the time constant of a site is the reciprocal of the sum of its current rates, each neighbour is hopped to with probability rate over sum, and these probabilities sum to one. Neighbour lists, single rates, rate tables and the fastest rate report exactly the current rates; sites and copies of sites do not influence each other.',
 ['histories', 'inputs'], 'every history of set/add/reset calls and every positive rate',
 'Tests use one set of rates set once; stale values after later changes are not covered.',
 SIT, ['Site::setRatesToNeighbors', 'Site::addNeighRate', 'Site::resetNeighRate', 'Site::getTimeConstant', 'Site::getProbabilityOfHoppingToNeighboringSite'], '1..4 neighbours (thorough 5), histories of 3 calls (thorough 4), rates any real in [1e-6,1e6]; a site with many neighbours')
prop('C16', 'Hops from a site go to its neighbours with the right probabilities',
 'Whatever the random draw and the rounding of the probabilities, a hop from a site leads to one of its current neighbours. The set of draws leading to a neighbour has exactly the measure of its hop probability, also after rates have changed.',
 ['inputs', 'histories'], 'every draw in [0,1) and every set of positive rates',
 'Statistical tests with loose tolerance see neither the draws next to one nor a slightly wrong measure.',
 SIT, ['Site::pickNewSiteId'], '1..4 neighbours (thorough 5), every draw, rates any real in [1e-6,1e6]; many neighbours with fixed rates; rounding in IEEE arithmetic for four fixed rate sets')
prop('C17', 'Site dwell times are positive, finite and exponentially distributed',
 'Every dwell time drawn for a walker on a site is finite and positive for every random draw, zero included, and is the exponential variate of that draw with the current time constant of the site as mean. It does not depend on the walker, on earlier draws, or on occupations, and drawing it changes nothing.',
 ['inputs', 'histories'], 'every draw in [0,1), every set of rates, every earlier history',
 'Statistical tests cannot see the zero draw or a dependence on history.',
 SIT, ['TopologyFeature::getDwellTime', 'Site::getDwellTime'], '1..3 neighbours, rates any real in [1e-6,1e6], every draw; log axiomatised')
prop('C18', 'Sites track occupancy, visits and cluster membership correctly',
 'A site is occupied exactly while a walker is on it; every arrival counts as one visit and departures and status overrides count as none. Visit counts and the cluster id can be set and are reported as last set; a fresh site belongs to no cluster. Sites do not influence each other.',
 ['histories', 'inputs'], 'every history of arrivals, departures and removals',
 'Tests run one arrival and one departure.',
 SIT, ['TopologyFeature::occupy', 'TopologyFeature::vacate', 'TopologyFeature::removeWalker', 'TopologyFeature::getVisitFrequency', 'Site::setClusterId'], 'histories of 4 calls (thorough 6) on two sites; counts any int in [0,10^6]; a crowd of sites')
prop('C19', 'A site container behaves as a map from ids to sites',
 'A container of sites holds exactly the sites added, found under their own ids with their own occupancy, visits and cluster id; adding an id twice, singly or in bulk, and using an id that was never added are invalid-argument errors for every operation. Queries add and change nothing; the container keeps its own copies.',
 ['histories', 'inputs'], 'every history of additions and uses with any ids',
 'Tests use two or three sites and one failing lookup.',
 SCO, ['Site_Container::addSite', 'Site_Container::addSites', 'Site_Container::getSite', 'Site_Container::exist', 'Site_Container::occupy', 'Site_Container::vacate'], 'histories of 4 calls (thorough 5) over 3 ids with hash collisions; lookups with any int; one container of many sites')
prop('C20', 'A cluster container behaves as a map from ids to clusters',
 'A container of clusters holds exactly the clusters added and not erased, found under their own ids with their own occupancy, visits, members, neighbours, fastest rate, time constant, resolution and time increment. Adding an id twice and using an id that is not stored are invalid-argument errors; queries add nothing.',
 ['histories', 'inputs'], 'every history of additions, removals and uses with any ids',
 'Tests use two clusters and no history of removals.',
 CCO, ['Cluster_Container::addCluster', 'Cluster_Container::addClusters', 'Cluster_Container::erase', 'Cluster_Container::getCluster', 'Cluster_Container::occupy'], 'histories of 3 calls (thorough 4) over 3 ids; outside rates any real in [0.01,100]; one container of many clusters')
prop('C21', 'Rates and cluster ids read through the site container are those of its sites',
 'Rates, neighbours, fastest rate, time constant and dwell times asked through the container are those of the stored site asked for, and the rate table has one row per site with exactly its rates. The smallest cluster id of a list of sites is the smallest among those assigned to a cluster, or the unassigned value if none is; unknown sites are an error and asking changes nothing.',
 ['inputs', 'histories'], 'every set of rates, cluster assignments and lists of sites',
 'Tests read one rate table and one smallest cluster id.',
 SCO, ['Site_Container::getRates', 'Site_Container::getSmallestClusterId', 'Site_Container::getFastestRateOffSite', 'Site_Container::getDwellTime'], 'three sites with 1..3 neighbours, rates any real in [1e-6,1e6]; lists of up to 3 sites; one container of many sites')
prop('C22', 'Cluster occupation probabilities are a distribution, relaxed as configured',
 'After an update the probabilities of occupying the members of a cluster are positive and sum to one. Each iteration moves the distribution from uniform half way to the (normalised) distribution after one hop inside the cluster; exactly the configured number of iterations, per cluster or per site, is made, or as many as needed so that another changes it by no more than the configured tolerance. Equivalent members are equally likely.',
 ['inputs', 'configurations'], 'every set of rates, connection pattern and convergence setting',
 'Tests compare one or two clusters with reference numbers to a loose tolerance.',
 CLU, ['Cluster::updateProbabilitiesAndTimeConstant', 'Cluster::setConvergenceMethod', 'Cluster::getProbabilityOfOccupyingInternalSite'], 'clusters of 2 and 3 members in five patterns; rates any real in [1e-3,1e3] (all for 2 members, some for 3); up to 4 iterations; rings and chains of up to 12 members with fixed rates')
prop('C23', 'Probabilities of leaving a cluster follow from its members',
 'The neighbours of a cluster are exactly the outside sites its members have rates to, each listed once. The probability of leaving to a neighbour is proportional to the sum over members of occupation probability times the probability of hopping from that member to the neighbour; these probabilities are positive and sum to one.',
 ['inputs', 'configurations'], 'every set of rates and connection pattern',
 'Tests look at symmetric clusters, where members are interchangeable.',
 CLU, ['Cluster::getProbabilityOfHoppingToNeighborOfCluster', 'Cluster::getSiteIdsNeighboringCluster'], 'as C22, 1 iteration; the default iterations with fixed rates')
prop('C24', 'Walkers on a cluster hop inside until their time is up, then leave',
 'A walker whose drawn time on the cluster is not used up hops to a member of the cluster; one whose time is used up hops to an outside neighbour; this holds for every draw and rounding. Members are chosen in proportion to the time spent on them (occupation probability times the time constant of the member), outside neighbours with their probability of being left to.',
 ['inputs', 'histories'], 'every draw in [0,1), every set of rates',
 'Statistical tests average over draws and tolerate small shifts; draws near one and rounding are not seen.',
 CLU, ['Cluster::pickNewSiteId', 'Cluster::getDwellTime'], 'clusters of 2 and 3 members, every draw; free rates for two members, fixed rates for five patterns; rounding in IEEE arithmetic for two clusters')
prop('C25', 'Every walker spends exactly its drawn time on a cluster, in increments',
 'For each stay on a cluster one time is drawn, exponential with the time constant of the cluster; it is handed out in steps that are positive, at most one time increment, and add up to the time drawn when the walker leaves. Walkers do not influence each other, and a walker that left or was removed starts its next stay with a fresh draw.',
 ['histories', 'inputs'], 'every interleaving of walkers, every draw, every resolution',
 'Tests follow one walker statistically; interleaved walkers and removal in mid-stay are not covered.',
 CLU, ['Cluster::getDwellTime', 'Cluster::pickNewSiteId', 'Cluster::removeWalker'], 'two interleaved walkers, 5 steps (thorough 7), times up to 3 increments (thorough 4), resolution any real in [2,100]; one long stay')
prop('C26', 'Cluster escape time, time increment and fastest exit follow the rates',
 "The time constant of a cluster is the reciprocal of its members' total rates out of the cluster averaged, over the members that have a way out, with the time spent on them as weight; with equal rates out of all members it is the reciprocal of that rate, and it lies between those of the leakiest and the tightest member. The time increment is the time constant over the resolution, also after the resolution changes, and the fastest rate off the cluster is the largest rate from a member to an outside site.",
 ['inputs', 'configurations'], 'every set of rates, connection pattern and resolution',
 'Tests compare a few symmetric clusters with numbers.',
 CLU, ['Cluster::getTimeConstant', 'Cluster::getTimeIncrement', 'Cluster::getFastestRateOffCluster', 'Cluster::setResolution'], 'as C22, 1 iteration; resolution any real in [2,100]')
prop('C27', 'Updating a cluster gives the same result as building it afresh',
 'After rates of its members changed, or sites were added, or simply again, updating a cluster gives it the occupation probabilities, neighbours, hop probabilities, time constant, time increment and picks of a cluster newly built from the current sites and rates.',
 ['histories', 'inputs'], 'every sequence of rate changes, additions and updates',
 'Tests update a cluster once after filling it.',
 CLU, ['Cluster::updateProbabilitiesAndTimeConstant', 'Cluster::addSite', 'Cluster::addSites'], 'clusters of 2 and 3 members, up to 2 further updates, new rates any real in [1e-3,1e3]')
prop('C28', 'Cluster membership is exact and merging preserves everything',
 'A cluster consists of exactly the sites added to it, each carrying its id; every new cluster has an id of its own. Moving the sites of one cluster into another leaves the first empty and the second with all members, their visit counts, and the probabilities and times of a cluster built from all of them.',
 ['histories', 'inputs'], 'every set of sites and every pair of clusters merged',
 'Tests add two sites; merging is tested on one pair by counting sites.',
 CLU, ['Cluster::addSite', 'Cluster::addSites', 'Cluster::migrateSitesFrom', 'Cluster::siteIsInCluster'], 'up to 4 members; membership asked for any int; merged rates any real in [1e-3,1e3], visit counts any int in [0,10^6]; clusters of many members')
prop('C29', 'Cluster occupancy and visits follow the walkers on its members',
 'A cluster is occupied exactly while a walker is on one of its members, and a member exactly while a walker is on it, also for walkers that were on a site before it joined or before clusters merged (members hold at most one walker at a time). Every arrival on a member is one visit of the cluster. Visit counts of members are kept as set, never decrease with arrivals, and are not changed by asking or updating.',
 ['histories', 'inputs'], 'every history of arrivals, departures, removals, additions and merges',
 'Tests occupy and vacate one member.',
 CLU, ['Cluster::occupy', 'Cluster::vacate', 'Cluster::removeWalker', 'Cluster::isOccupied', 'Cluster::getVisitFrequency'], 'histories of 4 calls (thorough 5), at most one walker per member; visit counts any int in [0,10^6]; a cluster of many members')
NA = [
]
import importlib.util
ext = V + '/tools/system_props.py'
if os.path.exists(ext):
    g = dict(prop=prop, NA=NA, S=S, I=I); exec(open(ext).read(), g)
def line(d):
    return dict(id=d['id'], title=d['title'], statement=d['statement'], quantifier=dict(over=d['over'], text=d['text']), why_tests_cant=d['why'],
                anchors=dict(files=d['files'], mechanism=[dict(name=m, where=d['files'][0]) for m in d['mech']]))
with open(V + '/properties.jsonl', 'w') as f:
    for d in P:
        assert len(d['title']) <= 80, d['title']
        f.write(json.dumps(line(d)) + '\n')
    for n in NA: f.write(json.dumps(line(dict(id=n[0], title=n[1], statement=n[2], over=n[3], text=n[4], why=n[5], files=n[6], mech=n[7]))) + '\n')
TECH = 'symbolic execution of the compiled code with z3 (bounded), counterexamples replayed on the plain build'
NOTE = 'Bounded: holds for every value within the bounds (%s); nothing is claimed outside them. Doubles are exact reals except in harnesses named _fp (IEEE bit-precise); random draws are arbitrary values of their range; trusts clang, the instrumentation pass and z3, cross-checked by replaying path models on the uninstrumented build.'
json.dump(dict(version=1, setup_cmd='python3 run_check.py --setup',
  checks=[dict(property=d['id'], quick_cmd=f"python3 run_check.py {d['id']} quick", thorough_cmd=f"python3 run_check.py {d['id']} thorough", technique=TECH, level='model_checking', level_note=NOTE % d['bounds']) for d in P],
  not_applicable=[dict(property=n[0], reason=n[8]) for n in NA],
  notes='One engine (engine/), one harness file per part of the library (harness/), one driver (run_check.py). See DESIGN.md.'), open(V + '/MANIFEST.json', 'w'), indent=1)
