
p('P17','Sides, part weights and neighbour weights describe the real partition',
 'For every process the sides name exactly the processes it shares cut edges with and the weight of those edges, the weight of a part is the sum of the weights of its elements in the criterion asked for, and the weight known of a neighbour is that neighbour\'s own weight.',
 ['inputs','configurations'],'all graphs, distributions, weights and criteria (vertices and every edge type), hyper and directed graphs, contributions counted or not',
 'The tests balance regular meshes and look at the final imbalance, which improves even when some neighbour is believed to weigh nothing.',
 ['partition/Diffusive/src/engpar_sides.h','partition/Diffusive/src/engpar_weights.h','partition/Diffusive/src/engpar_container.h','partition/Metrics/engpar_metrics.cpp'],[('Sides and Weights containers','partition/Diffusive/src'),('part weight','partition/Metrics/engpar_metrics.cpp')])
p('P18','Weight targets go exactly to the lighter neighbours that may receive',
 'A process means to send weight to a neighbour exactly when the neighbour is lighter, is not at the limit of a criterion balanced before, and (for hypergraphs) the boundary with it is not already too long. The amount is the step fraction of the difference, shared in proportion to the boundary, and the total is the sum of the amounts.',
 ['inputs','configurations'],'all weights, limits, boundaries and step factors, any number of neighbours and completed criteria',
 'A wrong target only changes how fast the imbalance drops; the tests look at the end result of a few meshes.',
 ['partition/Diffusive/src/engpar_targets.h','partition/Diffusive/src/engpar_weightTargets.h'],[('Targets and part weight targets','partition/Diffusive/src')])
p('P19','No part grows beyond the limit of a criterion that was balanced before',
 'Whatever the processes select to send in one step, what is left after the senders and receivers agree keeps every receiver within the limit of each criterion balanced earlier, unless it was beyond it already and does not grow. Nothing is cancelled when everything fits, and no vertex is added to a plan or redirected.',
 ['inputs','histories'],'all graphs, plans, weights and limits, up to three completed criteria',
 'Several senders must offer the same receiver more than fits; the tests\' meshes rarely reach a limit.',
 ['partition/Diffusive/src/engpar_selector.h','partition/Diffusive/src/engpar_selector.cpp'],[('trim and cancel: proposal by the senders, grant by the receiver','partition/Diffusive/src/engpar_selector.cpp')])
p('P20','Boundary queues hold every cut edge once, farthest from the core first',
 'The queue the selection walks holds exactly the cut edges of the process, each once, and can be refilled in the same order. The distance queue gives the edges of a connected component in decreasing distance from the core of that component, for any shape of the part.',
 ['inputs'],'all distributed graphs, with parts of any number of components, empty parts and parts without a boundary',
 'Order and completeness of the queue only influence quality, which the tests judge by the final imbalance of a few meshes.',
 ['partition/Diffusive/src/engpar_queue.h','partition/Diffusive/src/engpar_queue.cpp'],[('two breadth-first traversals per component','partition/Diffusive/src/engpar_queue.cpp')])
p('P21','Selection plans only what was asked for, and progresses while it can',
 'A balancing step plans whole cavities of boundary edges, only to processes that are targets and that the cavity touches, each vertex once, and never noticeably more than the targets; the weight it reports is the weight planned. Each small enough cavity, in queue order until the targets are exceeded, goes to the targeted process with room that it shares most edges with, within the limit on cut growth.',
 ['inputs','configurations'],'all distributed graphs, targets, cavity sizes, cut growth limits, criteria and queue orders',
 'The tests see only the final imbalance; a vertex planned to a wrong process or a step that plans nothing shows up as a few more iterations.',
 ['partition/Diffusive/src/engpar_selector.h','partition/Diffusive/src/engpar_selector.cpp'],[('select, selectDisconnected, updatePartWeight','partition/Diffusive/src/engpar_selector.cpp'),('cavities and the processes they touch','partition/Diffusive/src/engpar_selector.cpp')])
p('P22','Reported partition metrics are the metrics of the partition',
 'Every number evaluatePartition prints (empty parts, disconnected pieces, neighbours, vertex and edge weights with maximum, minimum, average and imbalance, edge cut) is the one the partition has, for every edge type and for a name of any length, and the sizes printStats prints are the graph\'s, however large. The imbalance of a set of contributions is its largest over its average, and stagnation is judged by the last three values only.',
 ['inputs','configurations'],'all distributed graphs with up to the maximum number of edge types, all weights and names',
 'No test reads the printed numbers.',
 ['partition/Metrics/engpar_metrics.cpp','partition/Metrics/engpar_metrics.h'],[('evaluatePartition, countDisconnected, EnGPar_Get_Imbalance','partition/Metrics/engpar_metrics.cpp'),('slope of the recent imbalances','partition/Diffusive/src')])
p('P23','Weight balancing moves weight without losing or inventing any',
 'Balancing by weights keeps the total weight, gives no vertex a negative weight, never makes a part heavier than the heaviest was, sends weight along edges from heavier to lighter parts only and per step at most the step fraction of the difference, records exactly the flow that explains the new weights, leaves a balanced graph alone, and leaves structure and ownership untouched.',
 ['inputs','histories'],'all distributed graphs, vertex weights, tolerances and step factors',
 'The tests run a handful of fixed graphs and print the result; conservation is not checked for other weights, sharing or number of processes.',
 ['partition/Diffusive/src/engpar_weightBalancer.cpp','partition/Diffusive/engpar_weightBalancer.h'],[('balanceWeights','partition/Diffusive/src'),('weight migration','agi/agiWeightMigration.cpp')])
p('P24','Balancing ends, keeps the graph, and leaves balanced graphs and criteria alone',
 'Whatever the diffusive balancer decides, it ends on every process with the same distributed graph, every vertex held once, and a partition map that says where each one went. A graph already within every tolerance is left as it is, and balancing a later criterion never takes an earlier one beyond what was reached or asked for.',
 ['inputs','configurations','histories'],'all distributed graphs, criteria and their order, tolerances, step factors, queue and selection options',
 'The tests run a few meshes for many steps and look at the imbalance; a vertex lost or duplicated on one particular sequence of decisions, or a criterion spoilt by a later one, does not fail them.',
 ['partition/Diffusive/src/engpar_balancer.cpp','partition/Diffusive/src/engpar_selector.cpp','agi/agiMigrate.cpp'],[('balancing loop over criteria and steps','partition/Diffusive/src/engpar_balancer.cpp'),('targets, selection, trimming, migration','partition/Diffusive/src')])
p('P25','Splitting gives the partitioner the real graph and carries out its answer',
 'Whichever method is used, every process that holds part of the graph describes to the external partitioner exactly its vertices, weights, neighbours or pins and their owners, with the tolerance and number of parts asked for, and no other process does. Afterwards every vertex is where the answer says, the graph is the same graph distributed over the large communicator, and the original owners and partition map say where everything came from and went.',
 ['inputs','configurations'],'all graphs, distributions, weights, partitioner answers, methods, choices of small and large communicator and rank orders within them',
 'The real partitioner gives one answer per mesh, the tests use prefix communicators of regular graphs, and a graph handed over without some of its edges still yields a valid if poor partition.',
 ['partition/Multilevel/engpar_split.cpp','partition/Multilevel/engpar_parmetis.cpp','partition/Multilevel/engpar_zoltan.cpp','partition/Multilevel/engpar_split_input.h','partition/engpar_input.cpp'],[('translation of the graph for ParMETIS and Zoltan','partition/Multilevel'),('translation of owners between communicators, migration of the answer','partition/Multilevel/engpar_split.cpp')])
p('P26','A binary edge list loads as the graph it lists, however many processes read it',
 'Loading a file of edges (32-bit source and destination numbers) gives, on any number of processes, the directed graph with exactly those edges, each held by the process owning its source, and every vertex on the process the owner file names or, without one, in consecutive equal blocks. The loaded graph is fully usable, isolated vertices included.',
 ['inputs','configurations'],'all edge lists, owner files and numbers of processes',
 'The tests load ring-like files in which every vertex has neighbours and compare counts.',
 ['interfaces/binGraph.cpp','interfaces/binGraph.h'],[('parallel reading, redistribution and relabelling of edges','interfaces/binGraph.cpp')])
p('P27','The C interface does exactly what the library does',
 'Every function of the C interface exists under its declared name and signature and has the effect of the library function it stands for: the graph built is the one described, files, splitting, balancing criteria and options, metrics and the partition are the library\'s, and nothing is written beyond the arrays given.',
 ['inputs','configurations'],'all graphs, distributions and arguments',
 'The C interface is exercised by a few Fortran programs that are not built without a Fortran compiler and check little.',
 ['interfaces/cengpar.cpp','interfaces/cengpar.h'],[('wrappers around the library','interfaces/cengpar.cpp')])

p('P28','Visualisation files show the graph',
 'The files writeVTK writes hold, for every process, its vertices (and hyperedges) at their coordinates with their part and tag value, one line per edge or pin joining exactly its ends, arrays of exactly the announced lengths that refer to nothing outside the piece, and an index naming every piece and array once. Writing changes nothing in the graph.',
 ['inputs','configurations'],'all distributed hyper and directed graphs with coordinates, with or without a vertex or edge tag, before and after migration',
 'The tests write such files and never read them; a viewer fails on an index out of range or shows a wrong picture.',
 ['agi/agiVTK.cpp'],[('points, cells, part numbers and tags of a piece','agi/agiVTK.cpp'),('exchange of the places of hyperedges','agi/agiVTK.cpp')])
p('P29','Messages and the call log observe without interfering',
 'With messages at any level and the call log open, every call does exactly what it does silently and decides the same. The log has a line for each traced call with what it was given, indented below the traced call that made it, and is back at the outermost level between calls, also after calls that return early.',
 ['configurations','inputs','histories'],'all graphs and calls, message levels and number of processes',
 'Only two tests open the log and none reads it; the highest message levels run on a few meshes.',
 ['support/engpar_log.cpp','support/engpar_message.cpp','agi/agiConstruct.cpp','agi/agiVertex.cpp','partition/Diffusive/src/engpar_balancer.cpp'],[('depth of the call log','support/engpar_log.cpp'),('log and message sites','agi/, partition/Diffusive/src/')])

p('P30','Any history of operations leaves the graph a plain model of it predicts',
 'Whatever sequence of operations a graph goes through (recording or resetting owners, migrating, repartitioning, moving weights, building tables, saving and loading, removing and adding edge types, tagging, describing it again, balancing), after each step its structure, ownership, weights, recorded original owners, partition map and weight partition are what the same steps do to a plain model.',
 ['histories','inputs'],'all sequences of operations, graphs and number of processes',
 'Tests run each operation once on a fresh graph; what one operation leaves behind for the next (caches, tables, recorded owners, maps) is never followed.',
 ['agi/ngraph.h','agi/agiConstruct.cpp','agi/agiMigrate.cpp','agi/agiIO.cpp','agi/agiEdge.cpp'],[('state kept between operations','agi/ngraph.h'),('migrate and repartition','agi/agiMigrate.cpp'),('reset and recorded owners','agi/agiVertex.cpp')])

p('P31','Everything the library allocates is given back',
 'Once a user has destroyed what the documentation says is his to destroy (graphs, plans, iterators, tags, inputs, balancers), nothing the library allocated for any call is left: construction, migration, balancing, splitting, files, tags, tables and communication can be repeated any number of times without memory growing. No cursor handed to an edge or vertex traversal inside the library outlives the call.',
 ['histories','inputs','configurations'],'all graphs, distributions, calls and sequences of calls',
 'The tests run each call once or twice and never look at memory; a leak of one iterator per uncut edge grows only with the number of migrations.',
 ['agi/agiConstruct.cpp','agi/agiEdge.cpp','agi/agiMigrate.cpp','agi/agiVertex.cpp','agi/agiTag.cpp','agi/agiIO.cpp','partition/Diffusive/src','partition/Multilevel','interfaces'],[('destruction of the old content before new content','agi/agiConstruct.cpp'),('iterators created and destroyed in queries','agi/agiEdge.cpp'),('plans consumed by migrations','agi/agiMigrate.cpp')])
p('P32','Migration timers report exactly what was recorded',
 'A timer holds the sum and number of the values recorded under its name, whatever other timers exist, were added later or were recorded. Maxima and averages over the processes, in total and per call, are those of the recorded values; a migration records each of its phases once and leaves other timers alone.',
 ['histories','inputs','configurations'],'all sets of timers, orders of adding and recording, values and number of processes',
 'One benchmark prints the timers; no test reads one.',
 ['agi/agiMigrationTimers.cpp','agi/agiMigrationTimers.h','agi/agiMigrate.cpp'],[('name to index, growth of the arrays','agi/agiMigrationTimers.cpp'),('phases of a migration','agi/agiMigrate.cpp')])
p('P33','Requests without an answer are refused and leave the graph alone',
 'Asking for the weight, coordinates, owner or original owner of a vertex that the process does not have (or, where only owners know the answer, does not own), for a file that is missing or cannot be made, or for a direction of an undirected edge is answered by the documented error or marker or ends the program; memory outside the graph is never read, and the graph is the same afterwards. The same requests for vertices it does have are answered correctly.',
 ['inputs','configurations'],'all distributed graphs and all such requests',
 'The tests only make valid requests.',
 ['agi/agiVertex.cpp','agi/agiEdge.cpp','agi/agiIO.cpp','interfaces/binGraph.cpp'],[('range checks of the vertex queries','agi/agiVertex.cpp'),('checks of file handles','agi/agiIO.cpp, interfaces/binGraph.cpp')])
p('P34','The library ends only the messaging it started',
 'Initialising the library starts the messaging layer exactly when it is not up yet, and finalising ends it exactly when the library itself started it; messaging a program started by hand stays up until that program ends it, however often the library was initialised and finalised before or since. In between, rank, number of peers, messages, reductions and graphs are those of the communicator last switched to (initially all processes), the message level is the last one asked for, and the log is open on the first process from its opening to its closing.',
 ['histories','configurations'],'all sequences of starting, ending, switching, logging and communicating, and all splits of the processes',
 'Every test initialises once and finalises once.',
 ['support/engpar_support.cpp','support/engpar_log.cpp','pcu/pcu.c','pcu/pcu_pmpi.c'],[('who started messaging','support/engpar_support.cpp'),('state and communicators of the messaging layer','pcu/pcu.c, pcu/pcu_pmpi.c')])
