"""Source of properties.jsonl and MANIFEST.json: python3 tools/properties.py (run in /verif)."""
import json
import os
import re
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SIM = "deterministic simulation with fault injection"

P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe, technique, note, hook=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mechanism=[dict(name=n, where=w) for n, w in mechanism], observe=observe,
                  technique=technique, note=note, hook=hook))


prop("C01", "Stored results are complete and durable under crashes and failed writes",
     "A result file that becomes visible in the result store is always complete and readable, whatever instant the process is "
     "killed at and whichever file operation fails. A result that was stored once is never lost, truncated or replaced by a "
     "later life of the program. Repeating a batch after such an interruption completes and stores every result.",
     ["crash_points", "fault_sequences", "histories"],
     "every batch (algorithms, problems, repetitions, budgets or time slots), every instant of death, every failing or short "
     "write, open, mkdir or replace, and every sequence of such lives on one directory",
     "The tests never run a batch through to the disk, let alone kill it; the windows between open, write and rename are only "
     "reached by crashing at each of them.",
     ["simulation/serializer.py", "simulation/worker.py", "simulation/run_parallel.py"],
     [("results written to a temporary file and renamed", "simulation/serializer.py"), ("one directory per run", "simulation/serializer.py")],
     ["files below the result directory after every visible change"],
     SIM + ": crashes and disk errors at every file operation of simulated batches, invariant watched after each visible change",
     "seeded search over workloads x crash points x disk faults; kills lose user-space buffers, not accepted writes (no power loss)")

prop("C02", "Analysis works and is exact after any crash or failed earlier analysis",
     "Whatever a killed or failed batch or analysis leaves behind, the next analysis ends normally. It reports exactly the "
     "results that were stored completely, with the metric values these results determine.",
     ["crash_points", "fault_sequences", "histories"],
     "every sequence of batches and analyses, each killed or failing at any file operation, followed by an analysis",
     "No test crashes the program between the writes of result, cache and index files, or reads a store in such a state.",
     ["simulation/metrics_processor.py", "simulation/serialization.py", "simulation/serializer.py"],
     [("metric caches written atomically", "simulation/metrics_processor.py"), ("missing run directories tolerated", "simulation/serialization.py")],
     ["what extraction yields and the metric values, against values computed from the result files alone"],
     SIM + ": crash/failure at every file operation of batches and analyses, then comparison with a reference computed from the result files",
     "seeded search; metric functions themselves are trusted (the reference calls them on the raw results)")

prop("C03", "Cached metrics always equal the metrics of the stored results",
     "Metric caches are transparent: after any history of batches, analyses and deletions, every analysis reports the values "
     "that follow from the result files present now, as if no cache existed. This includes the indicator that depends on the "
     "results of all algorithms on the same problem.",
     ["histories", "configurations"],
     "every history of batches, analyses (extraction, statistics, summary; any subset of metrics) and deletions of results",
     "The tests never run an analysis twice; staleness needs a history in which stored results change between two analyses.",
     ["simulation/metrics_processor.py", "statistic/stats.py", "statistic/summary.py"],
     [("cache of solutions compared before reuse", "simulation/metrics_processor.py"), ("dependent caches cleared when solutions change", "simulation/metrics_processor.py")],
     ["metric values with caches, without caches, and computed from the result files"],
     SIM + ": generated histories in simulated directories, refinement against recomputation from the result files",
     "seeded search; metric functions themselves are trusted")


prop("C04", "Results are stored where the run says and nothing else is touched",
     "Every result of a run, and every cache of an analysis, is placed below the results directory the user chose, under its own "
     "problem, algorithm and run. Nothing that was not written by the program is changed or removed, inside that directory or "
     "outside of it.",
     ["inputs", "histories", "configurations"],
     "every results directory (relative, nested, odd names), batch, analysis, working directory content and foreign file",
     "A test looks at the file it expects; that nothing else is touched needs every file operation of whole histories to be watched.",
     ["simulation/serializer.py", "simulation/metrics_processor.py", "simulation/factory.py"],
     [("results path built from the configured directory", "simulation/serializer.py"), ("dependent caches removed", "simulation/metrics_processor.py")],
     ["every file operation and the content of foreign files after histories of batches and analyses"],
     SIM + ": all file operations of simulated histories are observed, with foreign files planted between them",
     "seeded search over directory names, foreign files and histories; paths are confined to a scratch directory")

prop("C05", "Every run has a directory of its own, whatever the clock does",
     "No two runs ever share a result directory: neither two runs of one batch nor runs of different batches, even when they start "
     "in the same instant or the clock is set back between them. A later run never overwrites or mixes with what an earlier one "
     "stored; a run keeps its number unless a namesake began in the same instant, and is read back with the identity it was stored under.",
     ["schedules", "histories"],
     "every sequence of batches under clock jumps in both directions, coarse clocks and runs starting at the same instant",
     "Tests run at one moment of one well-behaved clock.",
     ["simulation/model.py", "simulation/factory.py", "simulation/serializer.py"],
     [("directory name from start time and run number", "simulation/model.py"), ("one case per repetition", "simulation/factory.py")],
     ["result directories after every batch, identities returned by extraction"],
     SIM + ": simulated clock with jumps, freezes and coarse resolution under histories of batches",
     "seeded search; batches after a clock step back by exactly the right number of microseconds are assumed not to collide by construction of the plan")

prop("C06", "Analysis sees exactly the stored results, each once, in a fixed order",
     "Extraction yields every stored result exactly once, under the problem, algorithm, run and budget or time it was stored for, "
     "with the stored population, fitness values and cost. Runs are numbered and results ordered the same way whatever order the "
     "file system lists directories in. Caches, temporary and foreign entries are never taken for results, and summary and "
     "statistics report the counts and values of exactly these results.",
     ["inputs", "histories", "configurations"],
     "every store content that batches and analyses produce, foreign entries, and every directory listing order",
     "Tests build one small directory; listing order and leftovers vary between machines and histories.",
     ["simulation/serialization.py", "statistic/summary.py", "statistic/stats.py"],
     [("runs sorted and numbered", "simulation/serialization.py"), ("names matched against patterns", "simulation/serialization.py")],
     ["what extraction, summary and statistics return or print, against the files of the store"],
     SIM + ": generated store histories under randomised listing orders, compared with a model of the store",
     "seeded search")

prop("C07", "Each budget stores the state at which the cost first reached it",
     "In a budget run, the result stored for a budget is the population, its true fitness values and the cost of the algorithm right "
     "after the first step at which the total cost reached that budget. Every budget gets exactly one result, in increasing order, and the run "
     "makes no step after the last budget is reached. When a step, a store or a fitness function fails, the budgets reached before are stored all the same, and right.",
     ["configurations", "histories", "fault_sequences"],
     "every list of budgets (any order, duplicates, zero), every sequence of step costs (several budgets in one step, free steps, fractional costs), "
     "every algorithm, and failing steps, finalisations, fitness functions and file operations",
     "The tests run a handful of budgets on one algorithm; which step a result belongs to depends on the history of step costs.",
     ["simulation/worker.py", "simulation/run_config.py", "algorithms/base/driver.py"],
     [("budget run", "algorithms/base/driver.py"), ("storing of intermediate results", "simulation/worker.py")],
     ["stored (population, fitness, cost) against the states of the algorithm at each step boundary"],
     SIM + ": scripted and real algorithms with generated step costs and faults; every step boundary recorded, every stored result matched against them",
     "seeded search; the shadow copy of each boundary comes from the algorithm's own finalized_population")

prop("C08", "Each time slot stores the state at which computing time crossed it",
     "In a timed run, the result stored for a slot is the state of the algorithm after the step in which its accumulated computing time crossed "
     "that slot; each slot gets one result, in order, and the run stops after the timeout. Jumps of the system clock, pauses between "
     "steps and slow storage change none of this, and a failure loses no slot crossed before it.",
     ["configurations", "histories", "fault_sequences"],
     "every timeout and sampling interval, every sequence of step durations (several slots in one step), clock jumps forward and back, "
     "slow or failing disks, failing steps",
     "Real tests cannot make a step last exactly so long nor set the clock back during a run.",
     ["simulation/worker.py", "algorithms/base/driver.py"],
     [("timed run", "algorithms/base/driver.py"), ("storing of time slots", "simulation/worker.py")],
     ["stored (population, fitness, cost) per slot against the states at each step boundary and the simulated time spent in steps"],
     SIM + ": simulated clocks with generated step durations, wall-clock jumps and slow I/O; stored slots matched against recorded step boundaries",
     "seeded search; times within 1 microsecond of a slot boundary are accepted on either side")

prop("C09", "A failing case never affects the other cases of a batch",
     "If an algorithm fails in construction, a step, finalisation or shutdown, if a configuration is not viable, or if storing a "
     "result fails, only that case is lost. Every other case stores all its results, the batch ends normally and its final report "
     "names exactly the cases that failed. Every algorithm that was started is shut down.",
     ["fault_sequences", "inputs", "schedules"],
     "every batch, every subset of failing cases and point of failure, every failing file operation, every composition of algorithms",
     "Tests never make a case of a batch fail.",
     ["simulation/run_parallel.py", "simulation/worker.py", "simulation/factory.py"],
     [("failures caught per case", "simulation/worker.py"), ("errors summarised", "simulation/run_parallel.py")],
     ["stored results of the other cases, end of the batch, report of errors, shutdown of drivers"],
     SIM + ": failures injected into algorithms and file operations of whole simulated batches",
     "seeded search; failures are exceptions, process kills are covered by C01")

prop("C10", "A run depends on nothing but its own fresh random seed",
     "The result of a run is a function of its configuration and its own seed: what ran before it in the same batch changes nothing. "
     "Every run draws its own seed from the operating system, so no two runs of a batch start from the same random state, not even "
     "when the system offers no entropy source.",
     ["histories", "configurations"],
     "every sequence of runs in one process, every algorithm whose computation is sequential, every seed",
     "Needs the same run at different positions of different batches, with controlled entropy; tests run one algorithm once.",
     ["simulation/worker.py", "simulation/factory.py", "simulation/run_config.py", "algorithms/HGS/classic/ClassicHGS.py"],
     [("seed drawn per case", "simulation/worker.py"), ("configuration copied per case", "simulation/factory.py")],
     ["stored results of identical runs with identical entropy; initial populations of all runs"],
     SIM + ": entropy, clocks and algorithm failures under the simulator; same run replayed at different positions of different histories",
     "seeded search; algorithms whose islands or actors run concurrently are excluded from the equality part (their schedule is an input)")

prop("C11", "Distributed HGS ends every step and starts every run from a clean tree",
     "Under every order in which messages between its actors are delivered, every step, population request and construction of distributed HGS ends without "
     "an error. When it returns no node is still working, and a new run in the same process sees nothing of an earlier one.",
     ["schedules", "configurations", "histories"],
     "every delivery order and delay of actor messages, every tree (levels, sprouts, revivals), several runs in one process",
     "The order in which actors answer is chosen by the machine; a test sees one order per execution.",
     ["algorithms/HGS/distributed/DistributedHGS.py", "algorithms/HGS/distributed/hgs_tasks.py", "algorithms/HGS/distributed/node_tasks.py", "algorithms/HGS/distributed/actors.py", "algorithms/HGS/tools.py"],
     [("supervisor collects one answer per node", "algorithms/HGS/distributed/hgs_tasks.py"), ("node state machine", "algorithms/HGS/distributed/node_tasks.py")],
     ["end and outcome of every operation, messages and computations left when it ended"],
     SIM + ": a simulated actor system reorders and delays every message under a seeded scheduler",
     "seeded search; messages are never lost between live actors (the actor system guarantees that), order between two actors is kept")

prop("C12", "The population of HGS is that of all its nodes, each exactly once",
     "At any point of a run the population that HGS reports is made of the final populations of the nodes of its tree, of every node exactly once, running or "
     "stopped, and of nothing else. This holds for the classic and the distributed strategy, before the first step, after each step and under any message order.",
     ["schedules", "configurations", "histories"],
     "every tree that grows in a run, every delivery order, population requests between any two steps",
     "Needs trees of many nodes with sprouting, stopping and revival at controlled moments, and controlled message orders.",
     ["algorithms/HGS/classic/ClassicHGS.py", "algorithms/HGS/distributed/hgs_tasks.py", "algorithms/HGS/distributed/DistributedHGS.py", "algorithms/HGS/distributed/node_tasks.py"],
     [("populations collected from all nodes", "algorithms/HGS/distributed/hgs_tasks.py"), ("finalized population", "algorithms/HGS/classic/ClassicHGS.py")],
     ["finalized population after every operation against the populations of all node algorithms"],
     SIM + ": actor schedules and scripted node algorithms; refinement against a model of the tree",
     "seeded search; node algorithms are scripted in this check, the HGS code is real")

prop("C13", "The cost of HGS counts every evaluation of every node once",
     "After every step the cost of classic HGS is the sum over all nodes of what each spent, and that of distributed HGS grows by the largest amount spent by a node in "
     "that step, as its nodes work in parallel. Every running node makes exactly one metaepoch of its level per step and stopped nodes do not work. "
     "Step numbers and costs reported with a step agree with this.",
     ["schedules", "configurations", "histories"],
     "every tree, every sequence of step costs of the nodes, every message order",
     "Only a history with nodes appearing and stopping at different moments separates the right accounting from a plausible wrong one.",
     ["algorithms/HGS/classic/ClassicHGS.py", "algorithms/HGS/distributed/hgs_tasks.py", "algorithms/HGS/distributed/DistributedHGS.py", "algorithms/HGS/distributed/node_tasks.py"],
     [("cost of a metaepoch", "algorithms/HGS/distributed/hgs_tasks.py"), ("cost per node", "algorithms/HGS/classic/ClassicHGS.py")],
     ["cost and message of each step against the costs of the node algorithms"],
     SIM + ": scripted node costs under actor schedules; refinement against a model of the tree",
     "seeded search; the two definitions of cost (sum, maximum) are those of the two implementations")

prop("C14", "HGS sprouts only where, when and as many as its limits allow",
     "A node sprouts only when it stopped making progress: around one of its own best individuals, with the population size of the next level, and never closer to a node of that level than the "
     "smallest distance of the level. No node releases more sprouts in a step or has more living sprouts than configured. A stopped node that may sprout uses "
     "every delegate that is far enough from all others, until the limits are reached.",
     ["schedules", "configurations", "histories"],
     "every tree, every position of delegates and centres, every limit, every message order",
     "The limits interact over many steps and, in the distributed version, over messages of several nodes sprouting in the same step.",
     ["algorithms/HGS/classic/ClassicHGS.py", "algorithms/HGS/distributed/hgs_tasks.py", "algorithms/HGS/distributed/node_tasks.py", "algorithms/HGS/distributed/actors.py", "algorithms/HGS/tools.py"],
     [("release of sprouts", "algorithms/HGS/distributed/node_tasks.py"), ("sprouting of the tree", "algorithms/HGS/classic/ClassicHGS.py")],
     ["every new node: parent, level, first individuals, moment"],
     SIM + ": actor schedules and scripted progress; every new node is checked against a model of the tree",
     "seeded search; decisions within 1e-9 of a limit are not judged; the classic version visits only the top stopped nodes, as designed")

prop("C15", "HGS stops exactly the stalled and redundant nodes and revives when all stop",
     "A node is stopped exactly when its metaepoch improved its hypervolume by less than the threshold of its level, or when it came closer than the smallest distance to a node of its level which goes on or has stopped. "
     "Of a group of close nodes one goes on. When no node is left running, all that may run again do so with stricter thresholds.",
     ["schedules", "configurations", "histories"],
     "every tree, every sequence of improvements and positions of the nodes, every order in which nodes are compared",
     "Stopping, comparing and reviving interact over many steps; outcomes depend on the order in which nodes answer.",
     ["algorithms/HGS/classic/ClassicHGS.py", "algorithms/HGS/distributed/hgs_tasks.py", "algorithms/HGS/distributed/node_tasks.py", "algorithms/HGS/distributed/actors.py"],
     [("trimming of not progressing and redundant nodes", "algorithms/HGS/distributed/hgs_tasks.py"), ("revival", "algorithms/HGS/classic/ClassicHGS.py")],
     ["which nodes work in the next step, against the improvements and centres of the nodes"],
     SIM + ": actor schedules, scripted progress and positions; running nodes checked against an order-independent model of trimming",
     "seeded search; hypervolume is trusted, decisions within 1e-9 of a limit are not judged")

prop("C17", "Migration in IMGA moves individuals between neighbours and loses none",
     "The islands share the initial population without loss or repetition, in equal parts. In every migration each island sends the configured number of individuals to "
     "each of its neighbours and receives as many; no individual is lost, copied or changed. The reported population is that of all islands.",
     ["configurations", "histories", "schedules"],
     "every number of islands and migrants, every population (also with equal individuals, growing, odd sizes), every order in which islands finish",
     "Tests check one configuration; conservation must hold for every topology, size and history.",
     ["algorithms/IMGA/IMGA.py", "algorithms/IMGA/topology.py"],
     [("migration along the topology", "algorithms/IMGA/IMGA.py"), ("islands created", "algorithms/IMGA/IMGA.py")],
     ["populations of the islands before and after each migration"],
     SIM + ": islands scheduled by the simulator, all individuals accounted for in every migration",
     "seeded search; the islands need enough individuals for all migrants; which islands are neighbours is taken from the topology class")

prop("C18", "An IMGA epoch runs every island for exactly one epoch before migration",
     "In each step every island makes exactly the configured number of steps, no island is worked on twice at once, and migration starts only when all islands are done, in whatever order "
     "they run. The cost is the sum of what all islands spent and steps are numbered without gaps.",
     ["schedules", "configurations"],
     "every interleaving of the islands, every epoch length, every step cost and duration",
     "The islands run concurrently; tests see one interleaving.",
     ["algorithms/IMGA/IMGA.py"],
     [("epoch over all islands", "algorithms/IMGA/IMGA.py"), ("waiting for all islands", "algorithms/IMGA/IMGA.py")],
     ["steps, costs and moments of migration of all islands"],
     SIM + ": islands on simulated threads interleaved by a seeded scheduler, the barrier and accounting watched",
     "seeded search; preemption at the steps of islands and at every lock, thread and queue operation")

prop("C19", "A failure inside HGS or IMGA is reported, never hangs or passes silently",
     "If a node or island raises or dies, or the fitness function fails in it, the operation that met the failure ends with an error; it neither waits forever nor returns as if nothing had happened. "
     "No operation fails without such a cause. A later run in the same process works as if the failed one had never been.",
     ["fault_sequences", "schedules", "histories"],
     "every point of failure (construction, step, finalisation, fitness, death of an actor), every message order, runs after a failure",
     "The tests have no failing node and cannot kill an actor at a chosen message.",
     ["algorithms/HGS/distributed/DistributedHGS.py", "algorithms/HGS/distributed/hgs_tasks.py", "algorithms/HGS/distributed/node_tasks.py", "algorithms/HGS/distributed/actors.py", "algorithms/IMGA/IMGA.py", "algorithms/HGS/classic/ClassicHGS.py"],
     [("failed messages reported to the caller", "algorithms/HGS/distributed/hgs_tasks.py"), ("shutdown of the actors", "algorithms/HGS/distributed/DistributedHGS.py")],
     ["outcome of every operation after an injected failure, behaviour of the next run"],
     SIM + ": failures and actor deaths injected at chosen messages, steps and evaluations of simulated runs",
     "seeded search; failures last (a failure that happens once may be hidden by the retry of the actor system); distributed HGS may report it in the next operation")


prop("C16", "Asking an algorithm for its population leaves the run as it was",
     "Looking at the population of an algorithm changes nothing: however often and whenever between two steps it is asked for, every later step, cost and population "
     "is the same as if it had never been asked. This holds for every algorithm, alone or inside IMGA and HGS, so that more result slots in a run do not change its results.",
     ["histories", "configurations"],
     "every algorithm and composition, every pattern of population requests between steps, every random stream",
     "Two whole lives of the same run under the same random numbers have to be compared; a test runs one life.",
     ["algorithms/NSGAII/NSGAII.py", "algorithms/IBEA/IBEA.py", "algorithms/base/driver.py", "simulation/worker.py", "algorithms/HGS/classic/ClassicHGS.py", "algorithms/IMGA/IMGA.py"],
     [("finalized population", "algorithms/base/driver.py"), ("population asked for at every budget", "simulation/worker.py")],
     ["costs and populations of two lives of one run, one of them watched more often"],
     SIM + ": two lives of a run under identical simulated randomness, clocks and schedules, differing only in when the population is asked for",
     "seeded search; random numbers and actor or island schedules are those of the simulator, so that both lives are comparable")

prop("C23", "Every algorithm keeps its populations valid and its cost true",
     "For every random stream, an algorithm that is stepped on a problem keeps its population inside the domain of the problem, never empty and of its promised size. "
     "Its cost never decreases and grows by the evaluations it really made, and its steps are numbered without gaps.",
     ["inputs", "histories", "configurations"],
     "every algorithm, alone or in IMGA, HGS and distributed HGS, every problem that loads, every population size and random stream, also extreme ones",
     "Random numbers are an input no test controls; streams of extreme values reach the edges of the operators.",
     ["algorithms/base/driver.py", "algorithms/base/drivertools.py", "algorithms/SPEA2/SPEA2.py", "algorithms/NSGAII/NSGAII.py", "algorithms/IBEA/IBEA.py", "algorithms/OMOPSO/OMOPSO.py", "algorithms/NSGAIII/NSGAIII.py", "algorithms/SMSEMOA/SMSEMOA.py", "algorithms/JGBL/JGBL.py"],
     [("crossover, mutation and clamping to the domain", "algorithms/base/drivertools.py"), ("steps of a driver", "algorithms/base/driver.py")],
     ["population, cost and evaluations of the algorithm after every step"],
     SIM + ": random numbers of the real algorithms are drawn by the simulator, with extreme and repeated values injected; invariants watched after each step",
     "seeded search; exact cost is demanded of SPEA2, NSGAII, OMOPSO, NSGAIII, JGBL, SMSEMOA and NSLS (IBEA counts some evaluations by a rule of its own and is bounded); scipy is not installed, NSLS runs on a stand-in for the one function it uses")


prop("C20", "A batch runs exactly the requested cases, each as often as asked",
     "The command line decides what a batch runs: every named algorithm on every named problem, as often as -N says, with the given budgets or times, into the given directory. "
     "Names are matched as a whole whatever their case; a list that is left out means all that are available, and names that do not exist add nothing. Nothing else runs and nothing requested is left out.",
     ["inputs", "configurations", "histories"],
     "every command line (subsets, repeated and unknown names, letter case, option forms), every set of available algorithms and problems, several commands in turn",
     "Requests combine with each other and with what is stored already; the tests give one configuration.",
     ["simulation/factory.py", "simulation/run_parallel.py", "evogil.py"],
     [("selection of algorithms, problems and repetitions", "simulation/factory.py"), ("batch", "simulation/run_parallel.py"), ("command line", "evogil.py")],
     ["stored runs and results after every command, against the request"],
     SIM + ": whole commands run in simulated processes from the command line to the stored results, compared with a model of the request",
     "seeded search; the algorithms are scripted here; a request in which no known name is left may be refused")

prop("C21", "Streams merged from several processes lose no value, error or end",
     "Observables that run in processes of their own are merged so that every value arrives exactly once, unchanged and in the order of its source, and the merged stream completes after all of them. "
     "If a source fails, sends what cannot be passed on, or its process dies, the merged stream ends with an error instead of waiting forever or completing. Jobs run in a process pool give each result once, errors included.",
     ["schedules", "fault_sequences", "crash_points"],
     "every set of sources, any values (also such that look like control messages), every interleaving of the processes, deaths and failures at every point",
     "Depends on when processes start, send, fail and die relative to each other.",
     ["evotools/rxtools.py"],
     [("merging of observables", "evotools/rxtools.py"), ("job in a process", "evotools/rxtools.py")],
     ["values, error and completion seen by the subscriber"],
     SIM + ": simulated processes and queues under a seeded scheduler, with deaths, failures and values that cannot be passed on",
     "seeded search; sources emit in the thread that subscribes (as all sources of this project); a dying process loses nothing it has already put into the queue")


prop("C22", "Batches and analyses may run at the same time on one store",
     "Any number of batches and analyses working on one results directory at once all end normally. None of them loses or mixes "
     "results or ends the actors of another; an analysis reports only complete results and all that were stored before it began, and once everything is quiet an "
     "analysis reports exact values.",
     ["schedules", "crash_points"],
     "every interleaving of the file operations of several program instances, with stalls, slow disks and kills of some of them",
     "Interleavings of several processes on one directory cannot be provoked by a unit test.",
     ["simulation/serializer.py", "simulation/metrics_processor.py", "simulation/serialization.py"],
     [("files replaced atomically", "simulation/serializer.py"), ("caches cleared and rebuilt", "simulation/metrics_processor.py")],
     ["outcome of every process, store after every round, values of the analysis at the end"],
     SIM + ": several simulated processes interleaved at every file operation by a seeded scheduler, with stalls and kills",
     "seeded search; several programs may start at the same reading of the clock; the free port that the actor system listens on is modelled as unique per program")


prop("C24", "Reports say what the stored results determine",
     "The summary counts the stored results of every problem, algorithm and budget, the statistics report the mean, deviation and outliers of every metric over exactly the results in the directory they are given, and the "
     "ranking names the winners these means determine, at the largest budget whose cost is acceptable. This holds at any moment of the life of a store, after batches and reports that "
     "were killed, and for several reports at once, whichever process of the pool computes which part.",
     ["histories", "crash_points", "schedules"],
     "every history of batches (complete, killed anywhere), deletions and reports, any number of reports at the same time and of processes in their pools",
     "No test runs a report; what it prints depends on the history of the store, on caches and on the order in which pool processes work.",
     ["statistic/stats.py", "statistic/stats_bootstrap.py", "statistic/ranking.py", "statistic/summary.py", "simulation/serialization.py", "simulation/metrics_processor.py"],
     [("statistics computed in a process pool", "statistic/stats.py"), ("ranking over all algorithms", "statistic/ranking.py"), ("choice of the budget", "statistic/stats_bootstrap.py")],
     ["printed reports against values computed from the result files alone"],
     SIM + ": whole report commands on simulated stores, pools and processes interleaved and killed by a seeded scheduler, output compared with a model",
     "seeded search; bootstrap intervals are only checked to lie within the values; 'table' and 'rank_details' are run on one of the fixed directories they read; ties within 1e-9 are not judged")


prop("C27", "Plots draw what the stored results determine",
     "Every plot command draws from the results directory it is given, for each problem and metric that has results, a figure whose curves, points and bodies are the values these results "
     "determine: the mean of each time or budget, the normalised scores, all values and the first front at the largest budget whose cost is acceptable. This holds at any moment of the life "
     "of a store, empty and half-filled ones included, after batches and plots that were killed, and for several programs at once. Figures appear below the chosen directory and nowhere else.",
     ["histories", "crash_points", "schedules"],
     "every history of batches (complete, killed anywhere), deletions and plots, any choice of algorithms with and without a place in the plots, any number of plots at the same time",
     "No test draws a plot; what it shows depends on the history of the store and on the caches that earlier, killed or simultaneous commands left.",
     ["plots/pictures.py", "plots/best_fronts.py", "plots/violin.py", "statistic/stats_bootstrap.py", "simulation/serialization.py"],
     [("curves over time", "plots/pictures.py"), ("scores of all problems", "plots/pictures.py"), ("fronts", "plots/best_fronts.py"), ("distribution of values", "plots/violin.py")],
     ["data handed to the plotting library for every figure file, against values computed from the result files alone"],
     SIM + ": whole plot commands on simulated stores, interleaved and killed by a seeded scheduler, the drawn data compared with a model",
     "seeded search; pyplot is replaced by a recorder, so layout, colours and rendering are not judged; legends and cosmetic calls neither")


def na(id, title, statement, over, text, why, files, reason):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mechanism=[dict(name=title.split(" ")[0].lower(), where=files[0])], observe=["value of the function"], technique=None, note=None, hook=None))
    NOT_APPLICABLE.append({"property": id, "reason": reason})


NOT_APPLICABLE = []
na("C25", "Quality indicators compute what their definitions say",
   "Hypervolume, generational distances, epsilon, extent, spacing, Hausdorff distance and the dominance indicator have the values of their published definitions for every set of points.",
   ["inputs"], "every set of solutions, Pareto front and reference point",
   "A handful of sets does not cover degenerate, equal, infinite and dominated points.",
   ["metrics/metrics.py", "metrics/metrics_utils.py", "metrics/epsilon.py", "algorithms/base/hv.py"],
   "pure functions of their arguments: no schedule, clock, I/O, fault or random number for a simulator to control, only generated inputs could decide it; the simulated checks trust them")
na("C26", "Benchmark problems evaluate the functions they are named after",
   "Every benchmark problem evaluates the objective functions it is named after over their whole domain, and the Pareto front supplied with it is theirs.",
   ["inputs"], "every problem and every point of its domain",
   "The tests evaluate few points of few problems.",
   ["problems"],
   "pure functions of a point, with nothing a schedule, a clock or a fault could change; only generated inputs could decide it, which is not simulation")


def write():
    sys.path.insert(0, HERE)
    src = open(os.path.join(HERE, "sim", "registry.py")).read()
    planned = set(re.findall(r'"(C\d\d)": \[', src))
    with open(os.path.join(HERE, "properties.jsonl"), "w") as fh:
        for p in P:
            if p["id"] not in planned and p["technique"]:
                print("no check yet:", p["id"])
                continue
            fh.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": p["mechanism"], "observe_at": p["observe"], "hook_needed": p["hook"]},
            }, ensure_ascii=False) + "\n")
    checks = [{
        "property": p["id"],
        "quick_cmd": "./check %s --tier quick" % p["id"],
        "thorough_cmd": "./check %s --tier thorough" % p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": p["technique"],
        "level": "exploration",
        "level_note": p["note"],
    } for p in P if p["id"] in planned]
    man = {
        "version": 1,
        "setup_cmd": "bash setup.sh",
        "hooks": {"guard": "EVOGIL_SIM", "enable": "no hooks were needed in /repo: every source of nondeterminism is replaced from outside (sim/seams.py)", "source_commits": []},
        "checks": checks,
        "not_applicable": NOT_APPLICABLE,
        "notes": "All checks are seeded searches over simulated executions; VERIF_SEED selects the seed. Replay: ./check <property> --replay <file>.",
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as fh:
        json.dump(man, fh, indent=1, ensure_ascii=False)
        fh.write("\n")
    print(len(checks), "checks")


if __name__ == "__main__":
    write()
    try:
        import jsonschema
    except ImportError:
        sys.exit(0)
    sch = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    ids = set()
    for line in open(os.path.join(HERE, "properties.jsonl")):
        d = json.loads(line)
        jsonschema.validate(d, sch)
        assert d["id"] not in ids
        ids.add(d["id"])
        assert d["statement"].count(". ") <= 2, d["id"]
    jsonschema.validate(json.load(open(os.path.join(HERE, "MANIFEST.json"))), json.load(open("/root/.vp/MANIFEST.schema.json")))
    print("valid")
