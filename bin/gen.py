#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from the texts below and the configurations in props.py."""
import json, os, sys
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0,os.path.join(V,'bin'))
from props import PROPS
T=[]
def p(id,title,stmt,over,q,why,files,mech,obs=None,state=None):
    a={'files':files,'mechanism':[{'name':n,'where':w} for n,w in mech]}
    if state: a['state']=[{'name':n,'meaning':m,'where':w} for n,m,w in state]
    if obs: a['observe_at']=obs
    a['hook_needed']=None
    T.append({'id':id,'title':title,'statement':stmt,'quantifier':{'over':over,'text':q},'why_tests_cant':why,'anchors':a})
p('P01','A constructed distributed graph is exactly the graph that was described',
 'After a distributed graph or hypergraph is described (vertices with weights, edges of several types with weights and pins, ghosts), every process reports exactly that graph: the same vertices and edges, ids, weights, pins, degrees and coordinates, each once, whichever of the input forms was used. Missing weights count as one.',
 ['inputs','configurations'],'all graphs, all assignments of vertices to processes, all weights and ids, hyper or directed, one or more edge types',
 'The tests build a handful of hand-made rings and meshes and check counts; a weight attached to the wrong edge or an id confused on one particular layout goes unnoticed.',
 ['agi/agiConstruct.cpp','agi/agiVertex.cpp','agi/agiEdge.cpp','agi/agiIterate.cpp','agi/ngraph.h'],
 [('grouping of edges by source, compressed offset lists, id maps','agi/agiConstruct.cpp'),('local id to object mapping','agi/agiVertex.cpp, agi/agiEdge.cpp')],['Ngraph query functions on every process'])
p('P02','Traversals and adjacency tables visit exactly the incident elements',
 'Iterating over the vertices, ghosts, edges, pins of an edge, edges of a vertex or neighbours of a vertex visits exactly the elements the graph has there, each as often as it is incident, and names the edge that connects two neighbours. The precomputed vertex-to-vertex and edge-to-edge tables hold the same information for every edge type, and without repetitions when the compressed form is asked for.',
 ['inputs','configurations'],'all graphs, all edge types, compressed or not, tables built once or again',
 'The tests iterate over regular rings where every vertex looks alike; order- and type-dependent mistakes need irregular incidence.',
 ['agi/agiIterate.cpp','agi/Iterators/','agi/agiEdge.cpp','agi/agiConstruct.cpp'],[('iterators over offset lists','agi/Iterators/'),('table construction','agi/agiConstruct.cpp')])
p('P03','Ghosts, residence, cut status and global counts follow from vertex ownership',
 'Each process has a ghost for exactly the remote pins of its edges, with the owner and weight its owner reports. An edge resides on exactly the processes owning its pins, is cut exactly when there are several, and the global numbers of vertices, edges and pins count every element once however many processes hold it.',
 ['inputs','configurations'],'all distributions of all graphs over any number of processes',
 'The tests use symmetric partitions in which miscounting a shared edge or mis-owning a ghost cancels out or never occurs.',
 ['agi/agiConstruct.cpp','agi/agiEdge.cpp','agi/agiVertex.cpp'],[('owner bookkeeping of ghosts, counting of shared edges','agi/agiConstruct.cpp'),('residence computation','agi/agiEdge.cpp')])
p('P04','Describing a graph anew or removing edge types leaves no residue',
 'A graph object that is described again behaves as if it had been fresh: nothing of the earlier vertices, edges, types, ghosts, tables, coordinates, weights or original owners shows. Removing the last edge type and adding it again, or replacing weights, changes only what it says; no memory is used after it was released.',
 ['histories','inputs'],'all graphs, all earlier contents within the bound, all sequences construct/remove/reconstruct',
 'The tests build most graphs once; reuse happens only along the few migration paths they run.',
 ['agi/agiConstruct.cpp','agi/ngraph.h'],[('destruction of the old content','agi/agiConstruct.cpp')])
p('P05','Tags are independent functions of the elements; ghost tags equal the owner value',
 'A value stored in a tag for an element is what is read back for it until it is overwritten, and storing it changes no other element, tag, weight or structure. A ghost tag holds, for every ghost, the value its owner computes for that vertex.',
 ['inputs','histories'],'all graphs, all values, all orders of updates',
 'The tests store a constant or the id; swapped indices between local and ghost vertices or types can still read back the expected values.',
 ['agi/agiTag.cpp'],[('tag storage and ghost exchange','agi/agiTag.cpp')])
p('P06','Migration carries out the plan and preserves the graph',
 'After a migration every planned vertex is owned by the process the plan names, every other vertex stays, and the distributed graph is the same graph as before: the same vertices, edges of every type, pins, weights and coordinates, with ghosts, owners and edge residence as ownership demands. This holds for every plan, also when processes become empty, begin empty or keep everything.',
 ['inputs','histories','schedules'],'all graphs, distributions, plans and sequences of plans',
 'The tests move a few vertices of regular graphs; lost edges need a particular relation between movers, ghosts and edge types.',
 ['agi/agiMigrate.cpp','agi/agiMigration.cpp','agi/agiConstruct.cpp'],[('affected edge discovery, sending of vertices and edges, reconstruction','agi/agiMigrate.cpp')])
p('P07','Original owners and the partition map lead every vertex to where it is now',
 'Until it is reset, a vertex remembers through any number of migrations the process it started on, and the partition map of that process names the current owner of each vertex it started with and no other vertex. Repartitioning by an array of destinations puts every vertex where the array says.',
 ['histories','inputs'],'all sequences of migrations and repartitions',
 'The tests ask for the map after one or two migrations of regular graphs.',
 ['agi/agiMigrate.cpp','agi/ngraph.h'],[('original owner list sent along with the vertices','agi/agiMigrate.cpp')])
p('P08','Weight migration conserves weight and moves exactly what was planned',
 'Moving weight between vertices subtracts each planned amount at its source and adds it at its target, changes nothing else, and so conserves the total. The recorded weight partition gives, for every vertex, the net amount exchanged with each other vertex over all rounds since the last reset.',
 ['inputs','histories'],'all graphs, plans and amounts, several rounds',
 'The tests check a total or a balance after balancing; a deposit on the wrong vertex conserves the total.',
 ['agi/agiWeightMigrate.cpp','agi/agiWeightMigration.cpp'],[('exchange of amounts, bookkeeping of the weight partition','agi/agiWeightMigrate.cpp')])
p('P09','Migration plans are faithful maps',
 'A migration plan holds exactly the vertices inserted since it was last cleared with the latest destination of each; a weight plan holds for each pair the sum of the amounts inserted. Size, membership, lookup and iteration all agree with that, each entry being visited once.',
 ['histories','inputs'],'all sequences of insertions, overwrites and clears',
 'The tests insert each vertex once and iterate once.',
 ['agi/agiMigration.cpp','agi/agiWeightMigration.cpp'],[('key list next to the map','agi/agiMigration.cpp')])
p('P10','Saving and loading reproduces the distributed graph',
 'Loading what was saved, on the same number of processes and into a new or a used object, gives the same distributed graph with all types, weights, pins, ghosts and coordinates, fully usable afterwards. Saving leaves the graph itself unchanged, makes the directories a name of any length asks for, and saving over existing files leaves nothing of them.',
 ['inputs','configurations'],'all graphs, distributions and file names',
 'The tests save one ring-like graph and compare counts.',
 ['agi/agiIO.cpp','pcu/pcu_io.c'],[('file writer and reader','agi/agiIO.cpp')])
p('P11','The validity check accepts valid graphs and rejects impossible ghosts',
 'Every graph that was described correctly, or obtained from one by migration, passes the validity check. A graph in which a ghost is said to be owned by its own process or by a process that does not exist is rejected by every process that holds such a ghost.',
 ['inputs'],'all graphs, every ghost, every impossible owner number, negative ones included',
 'The tests only ever call it on valid graphs.',
 ['agi/agiValid.cpp'],[('checks over vertices, edges and ghosts','agi/agiValid.cpp')])
p('P12','Every packed message is received exactly once, in its phase, without deadlock',
 'In each communication phase every process receives exactly the bytes packed for it in that phase, by each sender, exactly once and unchanged, whatever the timing; the phase ends on every process, and messages of different phases never mix. This holds for any number of messages and sizes, to any process including oneself, and for empty phases.',
 ['schedules','inputs'],'all message patterns, all delivery orders and interleavings',
 'A test run sees one interleaving of the termination protocol; early receipt of the next phase or a late acknowledgement needs a particular schedule.',
 ['pcu/pcu.c','pcu/pcu_msg.c','pcu/pcu_pmpi.c','pcu/pcu_coll.c','pcu/pcu_buffer.c','pcu/pcu_mpi.c'],[('send/acknowledge/terminate protocol with synchronous sends and barriers','pcu/pcu_msg.c'),('non-blocking probes','pcu/pcu_pmpi.c')])
p('P13','Ordered mode delivers messages in sender order',
 'With ordering on, a process receives the messages of a phase in increasing order of the sending process whatever order they arrive in, none lost or repeated; ordering may be switched between phases.',
 ['schedules','inputs'],'all arrival orders and message patterns',
 'Arrival order on one machine is nearly always the same.',
 ['pcu/pcu.c','pcu/pcu_order.c','pcu/pcu_aa.c'],[('buffering of all messages in an ordered tree','pcu/pcu_order.c')])
p('P14','Collectives compute the right result for every group size',
 'Sum, minimum, maximum, exclusive prefix sum, logical and/or, broadcast and barrier give every process the mathematically right result of all contributions, for every number of processes, vector length and element type, also inside a sub-group and back to back.',
 ['inputs','configurations','schedules'],'all group sizes, all contributions',
 'The tests run on 1, 2 or 4 processes with rank-like contributions.',
 ['pcu/pcu_coll.c','pcu/pcu.c','pcu/pcu_util.c','pcu/pcu_mpi.c'],[('binomial communication patterns per group size','pcu/pcu_coll.c')])
p('P15','Message containers behave as ordered map and byte queue',
 'The ordered tree the messaging layer keeps its peers in finds exactly the keys inserted and not removed, in order, and stays balanced; the growing byte buffer returns exactly the bytes that were pushed, in order.',
 ['histories','inputs'],'all sequences of insertions and removals, all keys and sizes',
 'They are tested only through messaging with a few peers.',
 ['pcu/pcu_aa.c','pcu/pcu_buffer.c'],[('skew and split','pcu/pcu_aa.c'),('geometric growth','pcu/pcu_buffer.c')])
p('P16','Binary file primitives are lossless and portable',
 'Integers, reals (any bit pattern) and strings written to a file are read back bit for bit in order, the numbers are on disk in network byte order, and writing does not alter the caller\'s data.',
 ['inputs'],'all values, counts and strings within the bound',
 'The tests write a few small values through the graph files.',
 ['pcu/pcu_io.c'],[('byte swapping and string length handling','pcu/pcu_io.c')])
exec(open(os.path.join(V,'bin','texts2.py')).read()) if os.path.exists(os.path.join(V,'bin','texts2.py')) else None
NA=globals().get('NA',{})
ids=[t['id'] for t in T]; assert len(set(ids))==len(ids)
for t in T: assert len(t['title'])<=80,(t['id'],len(t['title'])); assert t['statement'].count('. ')<=2,t['id']
T.sort(key=lambda t:t['id'])
with open(os.path.join(V,'properties.jsonl'),'w') as f:
    for t in T: f.write(json.dumps(t)+'\n')
LN='Bounded symbolic execution of the real code: every path within the stated bounds is followed and every assertion on it is decided for all values of the symbolic inputs; says nothing beyond the bounds. Counterexamples are replayed on the compiled code before they are reported. Trusted: clang, the engine, the MPI/libc models, z3. Bounds: '
m={'version':1,'setup_cmd':'python3 bin/build.py && mkdir -p evidence','checks':[{'property':i,'quick_cmd':'python3 bin/check.py %s'%i,'thorough_cmd':'python3 bin/check.py %s --tier thorough'%i,'technique':'solver-based symbolic execution of LLVM bitcode (own engine, z3)','level':'model_checking','level_note':LN+PROPS[i]['bounds']} for i in ids if i in PROPS],'not_applicable':[{'property':i,'reason':NA.get(i,'check not built yet')} for i in ids if i not in PROPS],'notes':'see DESIGN.md'}
json.dump(m,open(os.path.join(V,'MANIFEST.json'),'w'),indent=1); print(len(T),'properties',len(m['checks']),'checks')
