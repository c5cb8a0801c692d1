CGS = [S + 'coarsegrainsystem.cpp', I + 'coarsegrainsystem.hpp', S + 'topologyfeatures/cluster.cpp', S + 'site_container.cpp', S + 'cluster_container.cpp']
BAS = [S + 'basin_explorer.cpp', S + 'basin_explorer.hpp', S + 'graph_library_adapter.cpp', S + 'graph_library_adapter.hpp']
SEED = [S + 'topologyfeatures/topology_feature.cpp', S + 'topologyfeatures/site.cpp', S + 'topologyfeatures/cluster.cpp', S + 'coarsegrainsystem.cpp']
prop('C30', 'Hops move one walker to its chosen target unless that is taken',
 'A hop moves its walker to the target it had chosen if no walker is there, leaves it where it was if the target is taken, and moves nobody else; no two walkers ever share a site. Afterwards the walker has a positive dwell time and a next target that is a neighbour of its site or, within a cluster, a member or a neighbour of the cluster. A walker taken out frees its site and no other, and walkers can be put in at any time, also on members of clusters. All this holds while sites are being joined to clusters and clusters are merged.',
 ['histories', 'inputs', 'configurations'], 'every order of hops, every random draw, with and without coarse graining',
 'The system tests hop with one seed and look at a few end states; collisions around the moment a cluster is made or merged are never arranged.',
 CGS, ['CoarseGrainSystem::hop', 'CoarseGrainSystem::initializeWalkers', 'CoarseGrainSystem::removeWalkerFromSystem'],
 'five networks of 3 to 5 sites with fixed rates, 1 to 3 walkers, 3 hops (thorough 4) in any order, coarse graining off or after every hop; UGLY replaced by stubs/UGLY')
prop('C31', 'Clusters are disjoint, keep their members and are reported consistently',
 'At every moment a site belongs to at most one cluster, the cluster a site reports is the one that lists it, every listed cluster has at least two members, a resolution of at least two and a positive time increment. A site that was joined stays joined, and members of one cluster stay together when clusters grow or merge, under the smallest of their ids. A walker that hops onto a member of a cluster waits at most one time increment of it.',
 ['histories', 'inputs'], 'every order of hops and every random draw while clusters form and merge',
 'Tests look at the clusters once at the end of one run; a site left behind by a merge shows only in particular networks.',
 CGS, ['CoarseGrainSystem::coarseGrain_', 'CoarseGrainSystem::createCluster_', 'CoarseGrainSystem::mergeSitesAndClusters_', 'CoarseGrainSystem::getClusters', 'CoarseGrainSystem::getClusterIdOfSite'],
 'five networks of 3 to 5 sites with fixed rates, 1 to 2 walkers, 3 or 4 hops (thorough one more) in any order, coarse graining after every hop; time resolution and performance ratio any real in [1e-3,1e3] and [0.1,1000] for one walker and 2 hops; UGLY replaced by stubs/UGLY')
prop('C32', 'Visit counts of a simulation count arrivals and survive coarse graining',
 'In a system every walker placed on a site and every arrival is one visit of that site, and a hop changes the count of no other site outside clusters. Joining sites to a cluster and merging clusters loses no visits. A refused hop takes none away.',
 ['histories', 'inputs'], 'every order of hops and every random draw, with and without coarse graining',
 'Tests compare the counts of one run with one seed.',
 CGS, ['CoarseGrainSystem::getVisitFrequencyOfSite', 'CoarseGrainSystem::hop', 'CoarseGrainSystem::mergeSitesAndClusters_'],
 'three networks, 1 to 3 walkers, 2 or 3 hops (thorough one more); UGLY replaced by stubs/UGLY')
prop('C33', 'Sites are joined exactly when coarse graining pays off and resolves the time',
 'Two fast sites are joined to a cluster exactly when leaving them takes longer than crossing them twice, times the performance ratio, and crossing them twice is faster than the time resolution. Larger groups are joined only if the same holds for them. A new cluster hands out time in steps of the time resolution, or of half its time constant if that is shorter. Nothing is joined before more hops than the threshold were made, or ever if coarse graining is switched off.',
 ['inputs', 'configurations'], 'every time resolution, performance ratio, threshold and (for pairs) rates',
 'Tests use rates that are far from the limit on either side.',
 CGS + BAS, ['CoarseGrainSystem::coarseGrain_', 'CoarseGrainSystem::sitesSatisfyEquilibriumCondition_', 'CoarseGrainSystem::setPerformanceRatio', 'CoarseGrainSystem::setMinCoarseGrainIterationThreshold'],
 'pairs with inner rates any real in [10,1000] and outer rates any real in [1e-3,5] (or three unequal sets), resolution any real in [1e-3,1e3], ratio any real in [0.1,1000]; four fixed networks for larger groups; thresholds 0..3; UGLY replaced by stubs/UGLY')
prop('C34', 'Misuse of a system is rejected and a new system starts clean',
 'A time resolution that is not positive is rejected and leaves the former one in place; a system without a time resolution, walkers before the system or on no site of it, a seed set after the system was initialised, and questions about sites it does not hold are errors. A new system holds every site of the rates and every site they lead to, in no cluster and without visits.',
 ['inputs', 'configurations'], 'every time resolution, site id and walker position',
 'Tests try one bad value each, or none.',
 CGS, ['CoarseGrainSystem::setTimeResolution', 'CoarseGrainSystem::initializeSystem', 'CoarseGrainSystem::initializeWalkers', 'CoarseGrainSystem::setRandomSeed'],
 'time resolution any real in [-1e300,1e300], ids any int, seven networks; UGLY replaced by stubs/UGLY')
prop('C35', 'Basins are connected, bounded and hold what is reached fastest',
 'The basin found from a site holds that site, no site twice, no more sites than allowed (or none), only sites that can be reached within it, and the target of the fastest rate off its start; no way out of it is as fast as that rate. The graph view of the rates has one edge for every rate, from the site to its neighbour, weighing the rate or the time it takes.',
 ['inputs', 'configurations'], 'every set of rates, start and limit',
 'Tests explore two networks with fixed rates.',
 BAS, ['BasinExplorer::findBasin', 'BasinExplorer::setMaxExplorationCount', 'convertSitesOutgoingRatesToSharedWeightedEdges', 'convertSitesOutgoingRatesToTimeSharedWeightedEdges'],
 'chains and stars of 4 sites with three rates any real in [1,1000], every start, limits up to 2 (thorough 5); UGLY replaced by stubs/UGLY')
prop('C36', 'A simulation is reproducible from its random seed',
 'Two sites, clusters or systems that were built alike and given the same seed return the same dwell times and targets in the same order, and systems make the same hops, visits and clusters. Seeding a site again starts its sequence over, whatever was drawn before.',
 ['histories', 'inputs'], 'every random sequence, order of calls and hops',
 'Tests run one seed once, so a generator that is left unseeded, shared, or seeded from the clock passes.',
 SEED, ['TopologyFeature::setRandomSeed', 'Cluster::setRandomSeed', 'CoarseGrainSystem::setRandomSeed'],
 'draws are an unknown function of the state of their generator; five seeds; sites with free rates and 3 calls (thorough 4), clusters of two members and 4 stays (thorough 6), two networks with 1 to 2 walkers and 2 hops (thorough 3); UGLY replaced by stubs/UGLY')
prop('C37', 'Walkers in a system wait and hop by the rates of the site they are on',
 'Every time a walker is placed on a site, arrives on one or is refused, its waiting time is drawn afresh, exponentially distributed with the total rate off the site it is on then, and its next target is drawn with the probability of that rate over the total rate. A walker that enters a cluster draws its time on it once, exponentially distributed with the time constant of the cluster, and is handed the first time increment of it or all of it if that is less.',
 ['histories', 'inputs'], 'every order of hops, every random draw and every rate, with and without coarse graining',
 'Tests see one waiting time and one target per seed, so a time drawn for the site that was left, or kept after a refusal, passes.',
 CGS, ['CoarseGrainSystem::initializeSystem', 'CoarseGrainSystem::initializeWalkers', 'CoarseGrainSystem::hop', 'TopologyFeature::getDwellTime', 'Site::pickNewSiteId', 'Cluster::getDwellTime'],
 'four networks of 3 to 5 sites, in one of them two rates any real in [1e-3,1e3], 1 to 2 walkers, 2 or 3 hops (thorough one more) in any order; logarithm axiomatised; UGLY replaced by stubs/UGLY')
NA[:] = [('C90', 'Coarse graining does not change the physics of a simulation',
  'Averaged over many runs, carriers cross a coarse-grained system in the same time and with the same occupation statistics as in the same system without coarse graining.',
  ['histories', 'configurations'], 'every system and unbounded simulations', 'Tests compare one small system within a loose tolerance.', CGS, ['CoarseGrainSystem::hop'],
  'A statement about limits of unboundedly many hops, and an approximation without a documented error bound, so there is no assertion over a bounded number of symbolic hops that decides it. The exact parts of it are claimed separately (C22 to C26, C33).')]
