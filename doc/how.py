"""Per property: what is specified, against what oracle, and what is left out. Assembled into DESIGN.md by bin/design.py."""
HOW={
'P01':('The harness describes a symbolic graph (owner of every vertex, pins of every edge, weights, ids, coordinates) and hands each process its share through the vector overloads, the array overloads or constructGraph. Then every query function of Ngraph is compared with the description itself: ids and their inverses, weights, degrees, pins, sources and destinations, edge lists per vertex, coordinates, counts per type.','The description, held outside the library.','Descriptions that break the documented contract (pins that do not exist, an edge missing on a process owning one of its pins).'),
'P02':('Every iterator and the precomputed vertex-edge-vertex and edge-vertex-edge tables (compressed or not, made once or again) are walked and compared, as multisets, with what the incidence of the description gives.','Incidence computed from the description.','createVEVAdjacency/createEVEAdjacency on graphs without edges of the type are covered; the order of visits is not claimed.'),
'P03':('As P01, asking for ghosts, their owners and weights, residence of edges, cut status, local and global counts.','Ownership in the description.','-'),
'P04':('A graph object with a fixed first content of either kind (tables, coordinates, original owners, weight map, two types) is described again with a symbolic graph; edge types are removed and added again in symbolic order; weights are replaced. Everything P01-P03 compare is compared, and the memory checks of the engine cover the freed parts.','The second description.','Removing an edge type other than the last leaves a hole that most query functions do not support; the harness only counts the remaining types there.'),
'P05':('Several tags of every kind on vertices and edges, symbolic values, symbolic update sequences, all read back after each; ghost tags computed by a callback from the id.','An array of last written values.','-'),
'P06':('A symbolic plan over a symbolic graph, one to three migrations in a row; the whole of P01-P03 is compared against the description with the owners the plans give. `order`, `sched`, `hold`, `slow` make the arrival order and progress of messages symbolic; `idle` leaves a process empty.','The description with changed owners.','Plans naming processes that do not exist; setOriginalOwners is called first, as the library requires.'),
'P07':('As P06 with the original owner of every vertex and the partition map compared with the first distribution over one to four rounds, reset in between, and repartitioning by an array.','Owners before the first and after the last round.','-'),
'P08':('Symbolic moves of symbolic amounts between vertices sharing an edge, several rounds; weights, ghost weights of nobody, structure and the weight partition map are compared with exact arithmetic.','Sums kept by the harness.','Weights of ghosts after the migration (the library leaves them as they were).'),
'P09':('Symbolic sequences of insert, overwrite and clear; size, lookup and iteration after each compared with a plain array.','A plain array.','-'),
'P10':('Symbolic graph saved, loaded into a new or used object, optionally migrated afterwards or saved over existing files; compared as P01-P03.','The description.','Crashes or short writes in the middle of saving (the library promises nothing there), other numbers of processes, ids beyond 32 bits (the format stores 32).'),
'P11':('All valid symbolic graphs, also after migration, must pass; with one ghost given its own process or an impossible process (a number below zero or beyond the last one) as owner, the check must fail where that ghost is.','The description.','Other kinds of invalid input.'),
'P12':('Symbolic message patterns (who sends how many messages of which symbolic content to whom) over one to three phases; delivery, delay, preemption and missed probes are symbolic. Every received message must be one sent to this process in this phase, not yet received; at the end all were; a deadlock or endless phase is a violation of its own.','The pattern.','Lossy networks; PCU_COMPRESS and threads (not built).'),
'P13':('As P12 with ordering on and symbolic arrival order.','Sender order.','The relative order of two messages of one sender, which a phase packs into one anyway.'),
'P14':('Symbolic contributions on 1 to 8 processes, each operation, vector lengths 1 to 3, delayed messages; result compared with the fold over all contributions.','The fold.','Overflow of sums; PCU_Or/And on values other than 0 and 1.'),
'P15':('Symbolic insertion orders and removals in the tree (up to 16 keys, some fixed), invariants and lookups after every step; symbolic chunk sizes in the buffer.','A plain array, the balance invariant of AA trees.','-'),
'P16':('Symbolic integers, bit patterns of reals and strings of symbolic length and content written and read through the in-memory file model; bytes on disk compared with the big-endian representation.','The values.','Files damaged by others.'),
'P17':('Sides, vertex and edge part weights and neighbour weights for every criterion, compared with values computed from the description.','The description.','Totals of sides beyond 2^31 (the container holds integers).'),
'P18':('Targets computed from fabricated sides, weights, limits of completed criteria: membership and amounts of every target.','The rule in the documentation, written as arithmetic over the same numbers.','-'),
'P19':('Symbolic plans on several senders, one to three (also six) completed criteria with symbolic limits; after trim and cancel the harness adds up what would arrive at every process.','Recomputed weights of every part after the trimmed plans.','Edge criteria of directed graphs (the library estimates them); ghosts counted.'),
'P20':('Queues of every symbolic graph, push and pull traversal, iteration queue; content compared with the cut edges, order with distances from the core found by a reference breadth-first search.','Cut edges and distances computed from the description.','Pull traversal on directed graphs (not offered).'),
'P21':('select and selectDisconnected with symbolic targets; plans, reported weight and progress checked, and the whole plan compared with a reference decision over the same queue.','A reference selection of 30 lines.','-'),
'P22':('All numbers in the output of evaluatePartition are captured from the formatted output and compared; countDisconnected, EnGPar_Get_Imbalance, the slope of recent imbalances. The output of printStats is read back with graphs whose global sizes are up to 3e10.','The description.','Layout of the text.'),
'P23':('balanceWeights on symbolic integer weights; conservation, signs, direction and amount of every flow per iteration, flow record.','Weights before and after, the recorded flow.','That the imbalance drops.'),
'P24':('balance() end to end on every small graph with all options; the graph afterwards compared as in P01-P03 with the owners it reports, no vertex lost or duplicated, partition map, earlier criteria kept, nothing moved when balanced.','The description; a second run of the balancer with only the earlier criteria.','That the imbalance drops.'),
'P25':('split() with ParMETIS (global and local) and Zoltan replaced by stand-ins whose answer is symbolic. The stand-ins compare everything they are handed (distribution, adjacency with weights, pins, owners in the large communicator, tolerances, number of parts) with the description; afterwards the graph, its communicator, original owners and partition map are compared with the answer.','The description and the symbolic answer.','The partitioners themselves; weights that are not integers for ParMETIS (the library truncates them).'),
'P26':('createBinGraph on an edge list written to the in-memory file system with symbolic endpoints and owners; compared as P01-P03, also after migrating the loaded graph.','The edge list.','migrate(EdgePartitionMap&) of binGraph; big-endian files; the vertex count is one more than the largest id named, as the format implies.'),
'P27':('The harnesses of P01, P10, P22, P24, P25 driven through the C functions; options are compared with the input objects. A call to a function that is declared but not defined is a violation of its own.','As there.','cengpar_initialize and cengpar_finalize; the Fortran module (no Fortran part of the build is encoded).'),
 'P28':('writeVTK with every distribution and edge set; the files land in the in-memory file system (the real formatting code of the model of fprintf) and are parsed by the harness: counts, connectivity range, coordinates of the ends, part, kind and tag arrays, index file. The graph is verified again afterwards.','The description of the graph.','Markup beyond the parsed sections; graphs without coordinates (the writer asserts them); coordinates are concrete (they pass through decimal text).'),
 'P29':('The harnesses of P01-P11, P22-P26 and P28 run with the call log open and messages on; every check of theirs holds as before, the log file is parsed at the end (indentation, outermost level between calls, traced names in construction, parameters of balancing). The balancers also run silently on an equal graph and must decide the same. sprintf into a buffer from that same buffer is a violation (undefined, and gcc fortify loses the text).','Silent run; the descriptions.','What the messages say (P22 covers the metrics and sizes); the debug files of EnGPar_Debug_Open; graphs from APF meshes.'),
 'P30':('One symbolic operation number per step selects among nineteen operations (all interleavings with all distributions of the graph); after each step the graph is compared in full with the model (vertices, ghosts, edges, residence, adjacency, global counts, ghost weights), as are original owners, the partition map and the weight partition.','A plain model: owner, weight and original-owner arrays updated by the definition of each operation; balancing only says which process holds what, the model follows the gathered owners.','Ghost weights after new weights or weight moves until the next migration (the library does not refresh them); edge types are removed last first.'),

 'P31':('The harnesses of the other properties run with leak=1: after the harness gave back all it got, every object still allocated in that process (by new, malloc or the containers of the library) is a violation that names the chain of calls which allocated it. Every path of the symbolic graph, plan or history is asked.','The allocation record of the engine.','Memory of MPI and of files; global objects that live until the end of the program; EnGPar_Finalize.'),
 'P32':('Symbolic choice of the timer and symbolic value at each recording on each process, timers added in between; all sums, counts, maxima and averages compared. Migrations with timers: one recording per phase, other timers unchanged.','Arrays of sums and counts.','The times of the phases themselves (the clock is a counter in the model).'),
 'P33':('The handle is a symbolic number up to well beyond the ghosts, so every query is asked inside and outside the graph; missing files for the binary graph reader, saving and loading. Exceptions are followed by the engine; where the library ends the program, that end is expected and must be reached.','The description of the graph.','Handles of edges; null handles; corrupted files.'),
 'P34':('Every step of the history is a symbolic choice shared by the processes; after each one the state of messaging, log and message level is compared with a model of a few flags, and rounds of messages and reductions with symbolic values are run among the processes of the communicator in force. Use of a communicator that was freed, lost and stray messages are violations by the MPI model.','Flags: up, started by the library, communicator, log, level.','Ending by hand what the library started; debug files; several user communicators at once.'),
}
