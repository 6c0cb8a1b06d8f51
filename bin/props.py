"""The checks: per property the harness configurations (bounds) of each tier. Descriptions live in properties.jsonl."""
def C(h,np,/,j=1,t=120,need=('end',),steps=None,**p):
    d=dict(h=h,np=np,j=j,t=t,need=list(need),p=p)
    if steps: d['steps']=steps
    return d
G='agi/'; 
def sweep(f,*dicts): return [f(**d) for d in dicts]
PROPS={}
def prop(id,files,quick,thorough,bounds,assumptions=()): PROPS[id]=dict(files=list(files),quick=quick,thorough=thorough,bounds=bounds,assumptions=list(assumptions))
GB='every assignment of the vertices to processes, every pin set (hypergraph) or endpoint pair (directed graph) within the stated counts; weights and, where symgid=1, global ids are symbolic. '
AG=['agi/agiConstruct.cpp','agi/agiVertex.cpp','agi/agiEdge.cpp','agi/agiIterate.cpp','agi/Iterators/','agi/ngraph.h','agi/pngraph.h','agi/agi_typeconvert.cpp']
VTX,GHO,EDG,ADJ,RES,GLO,GWT=1,2,4,8,16,32,64
def B_(np,**k): return C('h_build',np,**k)
GB='Every assignment of the vertices to the processes and every pin set (hypergraph) or ordered endpoint pair (directed graph, loops=1: also self loops) for np processes, nv vertices, ne (+ne1 of a second type) edges of at most k pins; vertex and edge weights are symbolic integers 0..1000 and, with symgid=1, global ids are any distinct values below 2^40. '
prop('P01',AG,
 [B_(1,hg=1,nv=3,ne=2,k=3,symgid=1),B_(1,hg=0,nv=3,ne=2,loops=1,symgid=1),B_(2,hg=1,nv=3,ne=2,k=3,symgid=1),B_(2,hg=0,nv=3,ne=2,loops=1),B_(2,hg=1,nv=2,ne=1,nt=2,ne1=1,mode=1,symgid=1),B_(2,hg=1,nv=2,ne=1,ewgt=0,vwgt=0),B_(2,hg=0,nv=2,ne=2,mode=1,ewgt=0,vwgt=0),B_(2,hg=0,nv=3,ne=2,mode=1,symgid=1),B_(3,hg=0,nv=3,ne=2),B_(2,hg=1,nv=3,ne=2,coords=1,mode=1),B_(2,hg=0,nv=2,ne=3,nt=2,ne1=1),
  B_(3,hg=1,nv=3,ne=2,k=3,j=8),B_(2,hg=1,nv=3,ne=3,k=3,j=8),B_(2,hg=0,nv=3,ne=3,j=8)],
 [B_(3,hg=1,nv=4,ne=2,k=4,j=8,t=600),B_(2,hg=1,nv=4,ne=3,k=3,j=8,t=1200),B_(3,hg=0,nv=4,ne=2,j=8,t=600),B_(4,hg=1,nv=4,ne=1,k=4,j=8,t=600),B_(2,hg=1,nv=3,ne=2,nt=2,ne1=2,symgid=1,j=8,t=600)],
 GB+'Both ways of handing the graph over (containers, arrays), with and without weights and coordinates.')
prop('P02',AG+['agi/agiIterate.cpp'],
 [C('h_adj',1,hg=1,nv=3,ne=3,k=3,compress=1),C('h_adj',1,hg=1,nv=3,ne=2,k=3,compress=0,symgid=1),C('h_adj',1,hg=0,nv=3,ne=3,loops=1,compress=1),C('h_adj',1,hg=0,nv=3,ne=2,loops=1,compress=0),C('h_adj',2,hg=1,nv=3,ne=2,k=3,compress=1,symgid=1),C('h_adj',2,hg=1,nv=3,ne=2,k=3,compress=0),C('h_adj',2,hg=0,nv=3,ne=2,compress=1),C('h_adj',2,hg=1,nv=2,ne=2,nt=2,ne1=1,compress=1,again=1),C('h_adj',2,hg=0,nv=2,ne=2,nt=2,ne1=1,compress=0,again=1),C('h_adj',1,hg=1,nv=2,ne=1,nt=3,ne1=2,k=2,compress=1),
  B_(1,hg=1,nv=3,ne=2,k=3,what=VTX|GHO|EDG|ADJ),B_(2,hg=1,nv=3,ne=2,k=3,what=VTX|GHO|EDG|ADJ),B_(2,hg=0,nv=3,ne=2,loops=1,what=VTX|GHO|EDG|ADJ),B_(1,hg=1,nv=4,ne=2,k=4,what=VTX|GHO|EDG|ADJ),
  C('h_adj',2,hg=1,nv=3,ne=3,k=3,compress=1,j=8),C('h_adj',3,hg=1,nv=3,ne=2,k=3,compress=1,j=8)],
 [C('h_adj',1,hg=1,nv=4,ne=3,k=4,compress=1,j=8,t=600),C('h_adj',2,hg=1,nv=4,ne=2,k=4,compress=1,j=8,t=600),C('h_adj',2,hg=1,nv=4,ne=2,k=4,compress=0,j=8,t=600),C('h_adj',2,hg=0,nv=4,ne=3,compress=1,j=8,t=600)],
 GB+'Traversals (incident edges, pins, adjacent vertices with the connecting edge) and the precomputed tables, compressed or not, built once or rebuilt.')
prop('P03',AG,
 [B_(1,hg=1,nv=2,ne=2,what=VTX|GHO|EDG|RES|GLO),B_(2,hg=1,nv=3,ne=2,k=3,symgid=1,what=GHO|EDG|RES|GLO|GWT),B_(2,hg=0,nv=3,ne=2,loops=1,what=GHO|EDG|RES|GLO|GWT),B_(3,hg=0,nv=3,ne=2,mode=1,what=GHO|EDG|RES|GLO|GWT),B_(2,hg=1,nv=2,ne=1,nt=3,ne1=1,what=GHO|EDG|RES|GLO|GWT,mode=1),B_(2,hg=1,nv=3,ne=1,nt=2,ne1=1,k=3,what=GHO|EDG|RES|GLO|GWT),B_(4,hg=1,nv=3,ne=1,k=3,what=GHO|EDG|RES|GLO|GWT),
  B_(3,hg=1,nv=3,ne=2,k=3,j=8,what=GHO|EDG|RES|GLO|GWT),B_(2,hg=1,nv=3,ne=3,k=3,j=8,what=GHO|EDG|RES|GLO|GWT),B_(3,hg=1,nv=4,ne=1,k=4,j=8,what=GHO|EDG|RES|GLO|GWT)],
 [B_(3,hg=1,nv=4,ne=2,k=4,j=8,t=900),B_(4,hg=1,nv=4,ne=2,k=3,j=8,t=1200,what=GHO|EDG|RES|GLO|GWT),B_(3,hg=0,nv=4,ne=2,j=8,t=600)],
 GB+'Ghosts and their owners and weights, the processes an edge resides on, cut status, and the global counts of vertices, edges and pins.')
prop('P04',AG,
 [C('h_rebuild',2,kind=0,zhg=1,hg=1,nv=3,ne=2,k=3),C('h_rebuild',2,kind=0,zhg=0,hg=1,nv=3,ne=2,symgid=1),C('h_rebuild',2,kind=0,zhg=1,hg=0,nv=3,ne=2),C('h_rebuild',2,kind=0,zhg=0,hg=0,nv=3,ne=2,zmode=1,mode=1,zcoords=0),C('h_rebuild',1,kind=0,hg=1,nv=2,ne=2,coords=1),C('h_rebuild',1,kind=0,hg=0,nv=3,ne=2,zcoords=0,coords=1,loops=1),C('h_rebuild',2,kind=1,hg=1,nv=2,ne=1,nt=2,ne1=1),C('h_rebuild',2,kind=1,hg=0,nv=2,ne=2,nt=2,ne1=1),C('h_rebuild',2,kind=1,hg=1,nv=3,ne=2,nt=1),C('h_rebuild',2,kind=2,hg=1,nv=3,ne=2,k=3),C('h_rebuild',2,kind=2,hg=0,nv=3,ne=2),C('h_rebuild',2,kind=2,hg=1,nv=2,ne=1,nt=2,ne1=1),C('h_rebuild',2,kind=3,hg=1,nv=3,ne=2,k=3,symgid=1),C('h_rebuild',2,kind=3,hg=0,nv=3,ne=2),C('h_rebuild',3,kind=0,hg=1,nv=3,ne=1,k=3)],
 [C('h_rebuild',2,kind=0,hg=1,nv=4,ne=2,k=4,j=8,t=600),C('h_rebuild',3,kind=0,hg=1,nv=3,ne=2,k=3,j=8,t=600),C('h_rebuild',2,kind=1,hg=1,nv=3,ne=2,nt=2,ne1=1,k=3,j=8,t=600),C('h_rebuild',2,kind=3,hg=1,nv=4,ne=2,k=4,j=8,t=600)],
 GB+'The object first holds a fixed four-vertex, two-type graph of either kind (with tables, coordinates and original owners) and is then described again; edge types are removed and added again; weights replaced; one-call construction.')
prop('P05',['agi/agiTag.cpp','agi/ngraph.h'],
 [C('h_tags',1,hg=1,nv=2,ne=1,ops=1),C('h_tags',2,hg=1,nv=2,ne=1,ops=1),C('h_tags',2,hg=0,nv=2,ne=1,ops=1),C('h_tags',2,hg=1,nv=3,ne=1,k=3,ops=0),C('h_tags',2,hg=0,nv=3,ne=2,ops=0),C('h_tags',3,hg=1,nv=3,ne=1,k=3,ops=0),C('h_tags',2,hg=1,nv=2,ne=1,nt=2,ne1=1,ops=0),C('h_tags',1,hg=1,nv=2,ne=2,ops=2,edges=1),C('h_tags',2,hg=1,nv=3,ne=2,ops=0,k=3,symgid=1)],
 [C('h_tags',2,hg=1,nv=3,ne=2,k=3,ops=1,j=8,t=600),C('h_tags',3,hg=1,nv=3,ne=2,k=3,ops=0,j=8,t=600),C('h_tags',1,hg=1,nv=3,ne=2,ops=2,k=3,j=8,t=600)],
 GB+'Two integer, a long and a real tag on vertices, one of each kind on every edge type, three ghost tags; arbitrary stored values; up to the stated number of single-element updates.')
M_='h_migrate'
prop('P06',['agi/agiMigrate.cpp','agi/agiMigration.cpp','agi/agiConstruct.cpp'],
 [C(M_,2,hg=1,nv=2,ne=2,symgid=1),C(M_,2,hg=1,nv=3,ne=1,k=3),C(M_,2,hg=0,nv=3,ne=1),C(M_,2,hg=0,nv=2,ne=2,loops=1),C(M_,3,hg=1,nv=2,ne=1),C(M_,2,hg=1,nv=2,ne=1,rounds=2),C(M_,2,hg=0,nv=2,ne=1,rounds=2),C(M_,2,hg=1,nv=2,ne=1,nt=2,ne1=1),C(M_,2,hg=0,nv=2,ne=1,nt=2,ne1=1),C(M_,2,hg=1,nv=2,ne=1,coords=1),C(M_,2,hg=1,nv=2,ne=1,twice=1),C(M_,3,hg=1,nv=2,ne=1,idle=1),C(M_,1,hg=1,nv=2,ne=2),
  C(M_,2,hg=1,nv=3,ne=2,k=3,j=8),C(M_,3,hg=1,nv=3,ne=1,k=3,j=8),C(M_,2,hg=0,nv=3,ne=2,loops=1,j=8),C(M_,3,hg=0,nv=3,ne=1,j=8),C(M_,2,hg=1,nv=2,ne=1,order=2,sched=1,j=8)],
 [C(M_,3,hg=1,nv=3,ne=2,k=3,j=8,t=1200),C(M_,2,hg=1,nv=4,ne=2,k=3,j=8,t=1200),C(M_,2,hg=1,nv=3,ne=1,k=3,rounds=2,j=8,t=1200),C(M_,3,hg=0,nv=3,ne=2,j=8,t=1200),C(M_,2,hg=1,nv=3,ne=1,nt=2,ne1=1,k=3,j=8,t=1200)],
 GB+'Every plan (each vertex stays out of the plan or goes to any process, its own included), one or two migrations in a row.')
prop('P07',['agi/agiMigrate.cpp','agi/agiMigration.cpp','agi/ngraph.h'],
 [C(M_,2,hg=1,nv=3,ne=1,k=3,what=0,reset=1),C(M_,2,hg=1,nv=2,ne=1,rounds=2,what=0,symgid=1),C(M_,2,hg=1,nv=3,ne=1,rep=1,reset=1),C(M_,2,hg=0,nv=3,ne=1,rep=1),C(M_,3,hg=1,nv=2,ne=1,rep=1),C(M_,3,hg=1,nv=2,ne=1,idle=1,what=0,reset=1),C(M_,2,hg=1,nv=2,ne=1,rep=1,rounds=2),C(M_,2,hg=0,nv=2,ne=1,rounds=2,what=0),
  C(M_,2,hg=1,nv=2,ne=1,rounds=3,what=0,j=8),C(M_,3,hg=1,nv=3,ne=1,k=3,what=0,j=8),C(M_,3,hg=1,nv=2,ne=1,rounds=2,what=0,j=8)],
 [C(M_,2,hg=1,nv=3,ne=1,k=3,rounds=2,what=0,j=8,t=1200),C(M_,3,hg=1,nv=3,ne=1,rep=1,k=3,j=8,t=600),C(M_,2,hg=1,nv=2,ne=1,rounds=4,what=0,j=8,t=1200)],
 GB+'Every sequence of up to three migrations or repartitions; original owners, partition map, reset.')
prop('P08',['agi/agiWeightMigrat','agi/ngraph.h'],
 [C('h_weight',2,hg=1,nv=2,ne=1,moves=2),C('h_weight',2,hg=1,nv=3,ne=1,k=3,moves=2),C('h_weight',2,hg=0,nv=2,ne=2,moves=2),C('h_weight',2,hg=1,nv=2,ne=1,moves=1,rounds=2),C('h_weight',2,hg=1,nv=3,ne=2,k=2,moves=2,symgid=1),C('h_weight',3,hg=1,nv=3,ne=1,k=3,moves=2),C('h_weight',2,hg=1,nv=3,ne=1,k=3,clear=1),C('h_weight',2,hg=1,nv=2,ne=1,reset=1),C('h_weight',2,hg=1,nv=2,ne=1,moves=3),
  C('h_weight',2,hg=1,nv=3,ne=1,k=3,moves=3,j=8),C('h_weight',2,hg=1,nv=3,ne=1,k=3,moves=2,rounds=2,j=8)],
 [C('h_weight',3,hg=1,nv=3,ne=1,k=3,moves=3,j=8,t=600),C('h_weight',3,hg=1,nv=3,ne=2,k=3,moves=2,j=8,t=600),C('h_weight',2,hg=1,nv=4,ne=2,k=2,moves=2,j=8,t=600)],
 GB+'Every plan of up to three moves between vertices of different processes sharing an edge, amounts 0..100, up to two rounds.')
prop('P09',['agi/agiMigration.cpp','agi/agiWeightMigration.cpp'],
 [C('h_plan',1,hg=1,nv=2,ne=1,ops=3,symown=0),C('h_plan',1,hg=1,nv=3,ne=1,ops=3,symown=0),C('h_plan',1,hg=1,nv=2,ne=1,ops=4,symown=0),C('h_plan',2,hg=1,nv=3,ne=1,ops=3,symown=0),C('h_weight',2,hg=1,nv=2,ne=1,moves=2,clear=1),C('h_weight',2,hg=1,nv=3,ne=1,k=3,moves=3,clear=1),C('h_weight',2,hg=0,nv=3,ne=2,moves=2,clear=1),C('h_plan',1,hg=0,nv=3,ne=1,ops=4,symown=0,symgid=1),
  C('h_plan',1,hg=1,nv=3,ne=1,ops=5,symown=0,j=8)],
 [C('h_plan',1,hg=1,nv=4,ne=1,ops=5,symown=0,j=8,t=600),C('h_plan',1,hg=1,nv=3,ne=1,ops=7,symown=0,j=8,t=600),C('h_weight',2,hg=1,nv=3,ne=1,k=3,moves=4,clear=1,j=8,t=600)],
 'Every sequence of up to five insert/overwrite/clear operations on plans over up to three vertices with arbitrary destinations; every sequence of up to three weight moves, then clear.')
prop('P10',['agi/agiIO.cpp','pcu/pcu_io.c'],
 [C('h_io',1,hg=1,nv=3,ne=2,k=3),C('h_io',2,hg=1,nv=3,ne=2,k=3),C('h_io',2,hg=0,nv=3,ne=2),C('h_io',2,hg=1,nv=2,ne=1,nt=2,ne1=1),C('h_io',2,hg=1,nv=3,ne=2,coords=1,reuse=1),C('h_io',2,hg=0,nv=3,ne=2,coords=1,reuse=1),C('h_io',2,hg=1,nv=2,ne=2,reuse=1,overwrite=1),C('h_io',2,hg=1,nv=2,ne=2,migr=1),C('h_io',2,hg=0,nv=2,ne=2,migr=1),C('h_io',3,hg=1,nv=3,ne=1,k=3),C('h_io',1,hg=0,nv=3,ne=2,loops=1)],
 [C('h_io',3,hg=1,nv=3,ne=2,k=3,j=8,t=600),C('h_io',2,hg=1,nv=4,ne=2,k=4,j=8,t=600),C('h_io',2,hg=1,nv=3,ne=2,nt=2,ne1=1,k=3,reuse=1,j=8,t=600)],
 GB+'Saved and loaded into a new or a used object, saved again over the old files, migrated after loading. File system model: files in memory, every write complete, no crash.')
prop('P11',['agi/agiValid.cpp'],
 [C('h_valid',1,hg=1,nv=3,ne=2,k=3,need=['accepted','end']),C('h_valid',2,hg=1,nv=3,ne=2,k=3,need=['accepted']),C('h_valid',2,hg=0,nv=3,ne=2,loops=1,need=['accepted']),C('h_valid',2,hg=1,nv=2,ne=1,nt=2,ne1=1,mode=1,need=['accepted']),C('h_valid',3,hg=1,nv=3,ne=1,k=3,need=['accepted']),C('h_valid',2,hg=1,nv=2,ne=1,migr=1,need=['accepted']),C('h_valid',2,hg=0,nv=2,ne=2,migr=1,need=['accepted']),C('h_valid',2,hg=1,nv=2,ne=1,bad=1,need=['rejected']),C('h_valid',2,hg=1,nv=3,ne=1,k=3,bad=1,need=['rejected']),C('h_valid',3,hg=1,nv=3,ne=1,k=3,bad=1,need=['rejected']),C('h_valid',2,hg=0,nv=3,ne=2,bad=1,need=['rejected'])],
 [C('h_valid',2,hg=1,nv=3,ne=2,k=3,migr=1,need=['accepted'],j=8,t=600),C('h_valid',3,hg=1,nv=3,ne=2,k=3,bad=1,need=['rejected'],j=8,t=600)],
 GB+'Accepted: every described graph, fresh or after any migration. Rejected: a ghost said to be owned by its own process or by any process number from np to 10^6.')
PC=['pcu/']
prop('P12',PC,
 [C('h_msg',1,maxp=2),C('h_msg',2,maxp=2),C('h_msg',3,maxp=1),C('h_msg',2,maxp=1,api=1,phases=2),C('h_msg',2,maxp=2,api=2),C('h_msg',2,maxp=2,api=3),C('h_msg',2,maxp=1,phases=2,coll=1),C('h_msg',3,maxp=1,ordered=0,order=1),C('h_msg',3,maxp=1,ordered=0,order=0,coll=1),C('h_msg',4,maxp=2,sym=0,order=1,phases=2),C('h_msg',5,maxp=1,sym=0,phases=3,coll=1),C('h_msg',8,maxp=1,sym=0,phases=2,order=1),C('h_msg',2,maxp=1,phases=3,toggle=1),C('h_msg',3,sym=0,maxp=1,order=2,late=1,ordered=0),
  C('h_msg',2,maxp=1,phases=2,order=2,late=1,sched=1,j=8,ordered=0),C('h_msg',2,maxp=1,phases=2,order=2,late=1,sched=1,j=8,ordered=1,coll=1),C('h_msg',3,sym=0,maxp=1,order=2,sched=2,ordered=0,j=8)],
 [C('h_msg',3,maxp=1,order=2,late=1,ordered=0,j=8,t=1200),C('h_msg',2,maxp=1,phases=2,order=2,late=2,sched=2,j=8,t=1200,ordered=0),C('h_msg',3,sym=0,maxp=2,phases=2,order=2,sched=2,late=1,j=8,t=1200,ordered=0),C('h_msg',4,maxp=1,sym=0,phases=2,order=2,sched=1,j=8,t=1200,ordered=0)],
 'Every choice of how many messages (0..maxp) each process sends to each (itself included), arbitrary contents; up to three phases, three ways of packing and reading. With order=2/late/sched: the order in which waiting messages are matched, late arrival and preemption points are symbolic choices; without order=2 the two extreme delivery orders. sym=0: a fixed pattern of messages; only=1: process 0 sends maxp to each other process. slow=n: any n messages (chosen symbolically) arrive only once nothing else can proceed. Up to eight processes.',
 ['late and sched bound the number of delayed probes and of preemptions'])
prop('P13',PC,
 [C('h_msg',3,maxp=1,order=0),C('h_msg',3,maxp=1,order=1),C('h_msg',2,maxp=2,order=1),C('h_msg',2,maxp=1,phases=2,order=1,api=1),C('h_msg',4,maxp=1,sym=0,order=2),C('h_msg',3,maxp=2,sym=0,order=2,phases=2,toggle=1),C('h_msg',8,maxp=1,sym=0,phases=2,order=1),C('h_msg',2,maxp=1,phases=3,toggle=1,order=1),C('h_msg',5,maxp=1,sym=0,order=1,toggle=1,phases=3),
  C('h_msg',3,maxp=1,sym=0,order=2,sched=2,late=1,j=8),C('h_msg',2,maxp=1,phases=2,order=2,late=1,sched=1,j=8),C('h_msg',3,maxp=1,order=2,j=8)],
 [C('h_msg',4,maxp=2,sym=0,order=2,sched=1,j=8,t=1200),C('h_msg',3,maxp=1,order=2,late=1,j=8,t=1200)],
 'As for exactly-once delivery; every matching order of the waiting messages (order=2) or both extreme orders; up to two messages held back until nothing else can proceed (slow).',['late and sched bound the number of delayed probes and of preemptions'])
prop('P14',PC,
 [C('h_coll',p,op=o,n=2) for p in (1,2,3,5,8) for o in (0,1,2,3,4,5,6,7,9,10,11,12)]+[C('h_coll',p,op=o,n=1) for p in (1,2,3,4,5,6,7,8) for o in (13,15)]+[C('h_coll',p,op=8,n=1,part=q) for p in range(1,9) for q in range(4)]+[C('h_coll',p,op=14,n=2) for p in range(1,9)]+[C('h_coll',p,op=o,n=2,rep=2) for p in (4,6,7) for o in (0,3,6,9)]+[C('h_coll',3,op=o,n=2,order=2,sched=2,late=1) for o in (0,3,14)],
 [C('h_coll',p,op=o,n=4,rep=2) for p in range(1,9) for o in range(0,13) if o!=8]+[C('h_coll',4,op=o,n=1,order=2,sched=3,late=2,j=8,t=300) for o in (0,3,14,15)],
 'Group sizes 1..8; contributions are symbolic integers (up to +-10^6 for int, +-2^40 otherwise; non-negative for sizes); vectors of up to two values; one collective or two in a row; sub-groups of every size; up to two messages held back until nothing else can proceed (slow).')
prop('P15',PC,
 [C('h_aa',1,n=3,rm=1),C('h_aa',1,n=4,rm=0),C('h_buf',1,n=2,max=40),C('h_aa',1,n=3,rm=2,j=8,t=200),C('h_aa',1,n=5,rm=0,j=8,t=200),C('h_buf',1,n=3,max=40,j=8)],
 [C('h_aa',1,n=4,rm=2,j=8,t=1500),C('h_aa',1,n=5,rm=1,j=8,t=1500),C('h_buf',1,n=4,max=20,j=8,t=600)],
 'Ordered map: every sequence of up to five insertions and two removals of symbolic keys; trees of up to sixteen fixed keys with one or two further symbolic insertions and up to three symbolic removals. Buffer: every sequence of up to three pushes of 0..40 bytes.')
prop('P16',['pcu/pcu_io.c'],
 [C('h_pcuio',1,n=1,len=4),C('h_pcuio',1,n=3,len=3),C('h_pcuio',2,n=2,len=2),C('h_pcuio',1,n=0,len=5)],[C('h_pcuio',1,n=6,len=5,j=8,t=600)],
 'Up to three 32-bit and three 64-bit values of any bit pattern and any string of up to five characters (and of 20 to 100 characters of one symbolic length) per file; one to three processes. Uncompressed files; every write complete.')

D_='partition/Diffusive/src/'; SD='h_sides'; TG='h_targets'; QU='h_queue'; TR='h_trim'
prop('P17',[D_+'engpar_sides.h',D_+'engpar_weights.h',D_+'engpar_weights.cpp',D_+'engpar_container.h',D_+'engpar_vertexSides','partition/Metrics/'],
 [C(SD,1,hg=1,nv=3,ne=2,k=3),C(SD,2,hg=1,nv=3,ne=2,k=3),C(SD,2,hg=0,nv=2,ne=1),C(SD,2,hg=0,nv=3,ne=2,loops=1),C(SD,3,hg=1,nv=3,ne=2,k=3),C(SD,2,hg=1,nv=3,ne=1,nt=2,ne1=1,k=3),C(SD,2,hg=0,nv=2,ne=1,nt=2,ne1=1),C(SD,3,hg=0,nv=3,ne=2),C(SD,3,hg=1,nv=4,ne=2,k=4,j=8),C(SD,4,hg=1,nv=4,ne=1,k=4,j=8)],
 [C(SD,3,hg=0,nv=3,ne=2,nt=2,ne1=1,j=8,t=600),C(SD,3,hg=1,nv=4,ne=2,nt=2,ne1=1,k=4,j=8,t=1500),C(SD,2,hg=1,nv=4,ne=3,k=4,j=8,t=900)],
 GB+'Every criterion (vertices, each edge type); sides per edge type.')
prop('P18',[D_+'engpar_targets.h',D_+'engpar_targets.cpp',D_+'engpar_weightTargets.h',D_+'engpar_container.h',D_+'engpar_partWeight','partition/Diffusive/src/'],
 [C(TG,1,n=2,hyper=h,completed=c,W=4,S=3,sf=f) for h in (0,1) for c in (0,1) for f in (10,100)]+[C(TG,2,n=2,hyper=h,completed=1,W=4,S=3) for h in (0,1)]+[C(TG,1,n=2,hyper=h,completed=1,W=4,S=3,kind=1) for h in (0,1)]+[C(TG,2,n=2,hyper=1,completed=1,W=3,S=2,kind=1),C(TG,1,n=3,hyper=1,completed=2,W=3,S=2,j=8),C(TG,1,n=3,hyper=0,completed=1,W=4,S=3,j=8),C(TG,1,n=3,hyper=1,completed=1,W=3,S=2,kind=1,j=8)],
 [C(TG,1,n=3,hyper=1,completed=2,W=6,S=3,sf=25,j=8,t=900),C(TG,1,n=4,hyper=1,completed=1,W=3,S=2,j=8,t=900)],
 'Up to three neighbours (four in the thorough tier) with non-consecutive process numbers; side weights 1..3, part weights, limits and amounts 0..W, step factors 0.1, 0.25 and 1.0, any side tolerance; up to two completed criteria; one and two processes (the two-process rule).',
 ['part weights and limits are integers; the decision boundary is exact, amounts are compared to 1e-9'])
prop('P19',[D_+'engpar_selector.h',D_+'engpar_selector.cpp',D_+'engpar_selectorTrim'],
 [C(TR,2,hg=1,nv=3,ne=1,k=3,wmax=20,need=['end','fits','cancelled']),C(TR,2,hg=1,nv=2,ne=2,wmax=1000,need=['end','fits','cancelled']),C(TR,2,hg=1,nv=2,ne=1,nt=2,ne1=1,dims=2,wmax=20),C(TR,2,hg=1,nv=2,ne=2,d0=0,wmax=50,need=['end','fits','cancelled']),
  C(TR,2,hg=1,nv=3,ne=1,k=3,wmax=1000,j=8,need=['end','fits','cancelled']),C(TR,2,hg=0,nv=3,ne=2,wmax=20,j=8),C(TR,2,hg=1,nv=3,ne=2,k=2,d0=0,wmax=20,j=8),C(TR,2,hg=1,nv=2,ne=1,dims=7,d2=-1,wmax=3),C(TR,3,hg=1,nv=3,ne=1,k=3,wmax=20,j=8,need=['end','fits','cancelled'])],
 [C(TR,3,hg=1,nv=3,ne=1,k=3,wmax=1000,j=8,t=900),C(TR,2,hg=1,nv=3,ne=1,nt=2,ne1=1,dims=3,wmax=20,k=3,j=8,t=1500),C(TR,2,hg=1,nv=4,ne=1,k=4,wmax=20,j=8,t=1500),C(TR,3,hg=1,nv=3,ne=2,k=2,d0=0,wmax=10,j=8,t=1500)],
 'Every graph within the counts, every plan that sends vertices to processes they share an edge with, every limit (symbolic), up to three completed criteria (vertices, edge types).',
 ['graph limits of the criteria are set by hand; how the balancer derives them from the tolerance is covered by the end-to-end property'])
prop('P20',[D_+'engpar_queue.h',D_+'engpar_queue.cpp','agi/agiBFS','agi/Iterators/'],
 [C(QU,2,hg=1,nv=3,ne=3,k=3,symw=0,push=0),C(QU,2,hg=1,nv=3,ne=3,k=3,symw=0,push=1),C(QU,1,hg=1,nv=3,ne=3,k=3,symw=0),C(QU,2,hg=1,nv=3,ne=3,k=2,symw=0,dist=0),C(QU,2,hg=0,nv=3,ne=2,symw=0,dist=0),C(QU,2,hg=0,nv=3,ne=3,symw=0,dist=1,push=1),C(QU,3,hg=1,nv=3,ne=2,k=3,symw=0),
  C(QU,2,hg=1,nv=4,ne=4,k=2,symw=0,symown=0,first0=1,j=8,need=['end','several components'])],
 [C(QU,2,hg=1,nv=5,ne=4,k=2,symw=0,symown=0,first0=1,j=8,t=1800),C(QU,2,hg=1,nv=4,ne=4,k=2,symw=0,j=8,t=900),C(QU,3,hg=1,nv=4,ne=3,k=3,symw=0,j=8,t=900)],
 'Every distributed graph within the counts (up to five vertices and four edges); weights fixed (the queues do not read them); push and pull traversal; the pull traversal of a directed graph is not offered by the library.')
SL='h_select'
prop('P21',[D_+'engpar_selector.h',D_+'engpar_selector.cpp',D_+'engpar_selectorCavity','partition/Diffusive/src/'],
 [C(SL,2,hg=1,nv=3,ne=1,k=3,need=['end','planned']),C(SL,2,hg=1,nv=2,ne=2,rounds=2),C(SL,2,hg=0,nv=2,ne=2),C(SL,2,hg=1,nv=3,ne=2,k=3,dim=0),C(SL,2,hg=1,nv=3,ne=2,k=3,limit=1),C(SL,2,hg=1,nv=3,ne=2,k=3,limit=3),C(SL,2,hg=1,nv=3,ne=2,k=3,dist=1),C(SL,2,hg=1,nv=2,ne=1,disc=2),C(SL,2,hg=1,nv=3,ne=2,disc=3,k=3),C(SL,3,hg=1,nv=2,ne=1),C(SL,2,big=99),C(SL,2,big=150),
  C(SL,3,hg=1,nv=3,ne=1,k=3,j=8,need=['end','planned']),C(SL,2,hg=1,nv=3,ne=2,k=3,maxcav=3,j=8),C(SL,2,hg=1,nv=3,ne=2,k=3,rounds=2,j=8),C(SL,2,hg=0,nv=3,ne=2,j=8),C(SL,3,hg=1,nv=3,ne=2,k=2,maxcav=3,j=8)],
 [C(SL,3,hg=1,nv=3,ne=2,k=3,maxcav=4,j=8,t=900),C(SL,2,hg=1,nv=4,ne=2,k=4,maxcav=3,j=8,t=900),C(SL,2,hg=0,nv=4,ne=3,maxcav=3,j=8,t=900),C(SL,2,hg=1,nv=4,ne=3,k=2,limit=2,maxcav=3,j=8,t=900)],
 GB+'Any targets -1..tw per process, cavity limits 2..4, cut growth limits, criteria vertices or an edge type, iteration or distance queue, one or two rounds of selection, disconnected pieces.')
ME='h_metrics'
prop('P22',['partition/Metrics/','partition/Diffusive/src/engpar_sd.h','partition/Diffusive/src/engpar_metrics','agi/agiImbal','partition/'],
 [C(ME,2,hg=1,nv=2,ne=1,wmax=3),C(ME,2,hg=1,nv=2,ne=1,nt=3,symw=0),C(ME,1,hg=1,nv=2,ne=1,name=40,symw=0),C(ME,1,hg=1,nv=2,ne=1,name=120,symw=0),C(ME,2,hg=0,nv=2,ne=2,symw=0),C(ME,1,kind=2,W=4,n=5,need=['end']),C(ME,2,kind=1,W=20),C(ME,3,kind=1,W=8),C(ME,1,hg=1,nv=3,ne=2,k=3,wmax=3),C(ME,3,hg=1,nv=3,ne=1,k=3,symw=0),C(ME,2,hg=1,nv=3,ne=2,k=3,symw=0,j=8),C(ME,2,hg=0,nv=3,ne=3,symw=0,j=8)],
 [C(ME,3,hg=1,nv=3,ne=2,k=3,symw=0,j=8,t=600),C(ME,2,hg=1,nv=4,ne=2,k=4,symw=0,j=8,t=600),C(ME,1,hg=1,nv=4,ne=3,k=3,symw=0,j=8,t=600),C(ME,2,hg=0,nv=3,ne=4,symw=0,j=8,t=600)],
 GB+'Small symbolic weights (0..3) where every number is checked against them, fixed weights otherwise; names of up to 120 characters; up to three edge types; imbalances of two and three contributions 0..20.')
WB='h_wbal'
prop('P23',['partition/Diffusive/src/engpar_weight','partition/Diffusive/src/'],
 [C(WB,1,hg=1,nv=2,ne=1,wmax=12,symew=0),C(WB,2,hg=1,nv=2,ne=1,wmax=12,symew=0,need=['end','moved']),C(WB,2,hg=1,nv=2,ne=1,wmax=10,sf=50,symew=0,j=8,need=["end","moved"]),C(WB,2,hg=0,nv=2,ne=2,wmax=12,symew=0,need=['end','moved']),C(WB,2,hg=1,nv=2,ne=1,nt=2,ne1=1,wmax=12,symew=0),C(WB,2,hg=1,nv=2,ne=1,wmax=12,symew=0,iters=2,need=['end','moved']),
  C(WB,3,hg=1,nv=3,ne=1,k=3,wmax=12,symew=0,j=8,need=['end','moved']),C(WB,2,hg=1,nv=3,ne=1,k=3,wmax=12,symew=0,j=8)],
 [C(WB,2,hg=1,nv=2,ne=1,wmax=30,symew=0,j=8,t=900),C(WB,2,hg=1,nv=3,ne=2,k=3,wmax=15,symew=0,j=8,t=1200),C(WB,3,hg=0,nv=3,ne=2,wmax=12,symew=0,j=8,t=900),C(WB,2,hg=1,nv=2,ne=1,wmax=30,symew=0,iters=3,j=8,t=1200)],
 'Every distributed graph within the counts, integer vertex weights 0..wmax (12 to 30), fixed edge weights, step factors 0.1 and 0.5, tolerance 1.1, one to three iterations.')
# deeper and wider configurations
def more(id,*cs): PROPS[id]['quick']+=cs
F_=dict(symown=0,first0=1)  # one vertex on process 0, the others spread over the remaining processes
more('P01',B_(2,hg=1,nv=5,nt=2,ne=2,ne1=1,k=5,mode=1,j=8,**F_),B_(2,hg=0,nv=4,nt=2,ne=2,ne1=2,mode=1,j=8,**F_),B_(2,hg=1,nv=4,ne=2,k=4,mode=1,j=8),B_(2,hg=1,nv=3,ne=2,k=3,nt=2,ne1=1,symgid=1,j=8),B_(2,hg=1,nv=3,ne=1,ne1=1,nt=4,k=3,j=8),B_(2,hg=1,nv=2,ne=1,ne1=1,nt=7,k=1),B_(3,hg=1,nv=3,ne=2,k=3,mode=1,nt=2,ne1=1,j=8),B_(3,hg=0,nv=3,ne=2,nt=2,ne1=1,mode=1,j=8),B_(2,hg=0,nv=4,ne=3,nt=1,mode=0,j=8))
GAL=GHO|EDG|RES|GLO|GWT
more('P03',B_(3,hg=1,nv=3,ne=2,k=3,mode=1,nt=2,ne1=1,j=8,what=GAL),B_(2,hg=1,nv=5,nt=2,ne=2,ne1=1,k=5,mode=0,j=8,what=GAL,**F_),B_(3,hg=0,nv=3,ne=2,nt=2,ne1=1,j=8,what=GAL),B_(4,hg=1,nv=4,ne=1,k=4,mode=1,j=8,what=GAL),B_(2,hg=0,nv=4,ne=3,mode=1,j=8,what=GAL),B_(3,hg=1,nv=5,ne=2,k=5,mode=1,j=8,what=GAL,**F_),B_(2,hg=1,nv=3,ne=1,ne1=1,nt=4,k=3,j=8,what=GAL))
AD=lambda np,**k: C('h_adj',np,j=8,**k)
more('P02',AD(2,hg=1,nv=4,ne=3,k=4,compress=1,**F_),AD(2,hg=1,nv=3,ne=2,k=3,nt=2,ne1=2,compress=0,again=1),AD(1,hg=1,nv=4,ne=3,k=4,compress=1),AD(1,hg=1,nv=4,ne=2,k=4,compress=0,nt=2,ne1=2),AD(2,hg=0,nv=4,ne=3,compress=1),AD(1,hg=0,nv=4,ne=3,loops=1,compress=0),AD(2,hg=1,nv=2,ne=1,ne1=2,nt=4,k=2,compress=1),B_(2,hg=0,nv=4,ne=3,what=VTX|GHO|EDG|ADJ,j=8),B_(2,hg=1,nv=3,ne=2,k=3,nt=2,ne1=2,what=VTX|GHO|EDG|ADJ,j=8))
RB=lambda np,**k: C('h_rebuild',np,j=8,**k)
more('P04',RB(2,kind=4,hg=1,nv=3,ne=1,ne1=1,nt=3,k=3,rm=0),RB(2,kind=4,hg=1,nv=2,ne=1,ne1=1,nt=3,k=2,rm=1),RB(2,kind=4,hg=0,nv=2,ne=2,ne1=1,nt=2,rm=0),RB(3,kind=0,hg=1,nv=3,ne=2,k=3),RB(2,kind=0,zhg=0,hg=1,nv=3,ne=1,nt=2,ne1=1,k=3,zmode=1),RB(2,kind=0,zhg=1,hg=0,nv=3,ne=2,nt=2,ne1=1),RB(2,kind=1,hg=1,nv=3,ne=2,nt=2,ne1=1,k=3),RB(2,kind=1,hg=0,nv=3,ne=1,nt=3,ne1=1),RB(2,kind=2,hg=1,nv=3,ne=2,nt=2,ne1=1,k=3),RB(3,kind=2,hg=0,nv=3,ne=2),RB(2,kind=3,hg=1,nv=4,ne=2,k=4))
more('P01',B_(2,hg=1,nv=3,ne=2,k=3,rawd=1,coords=1),B_(2,hg=0,nv=3,ne=2,loops=1,rawd=1,mode=1,coords=1),B_(2,hg=1,nv=2,ne=2,frac=1,wmax=2,mode=1,coords=1),B_(2,hg=0,nv=2,ne=2,frac=1,wmax=2,coords=1))
more('P03',B_(2,hg=1,nv=3,ne=1,k=3,rawd=1,what=GAL),B_(2,hg=0,nv=2,ne=2,frac=1,wmax=2,what=GAL))
more('P04',RB(2,kind=0,hg=1,nv=2,ne=1,rawd=1,coords=1))
TA=lambda np,**k: C('h_tags',np,j=8,**k)
more('P05',TA(2,hg=1,nv=3,ne=2,k=3,ops=1),TA(2,hg=1,nv=3,ne=1,k=3,nt=3,ne1=1,ops=0),TA(2,hg=0,nv=3,ne=3,ops=0,loops=1),TA(2,hg=1,nv=4,ne=2,k=4,ops=0),TA(1,hg=1,nv=2,ne=2,nt=3,ne1=2,ops=1),TA(3,hg=1,nv=3,ne=2,k=3,ops=0),TA(2,hg=1,nv=5,ne=1,k=5,ops=1,**F_),TA(1,hg=1,nv=4,ne=4,k=2,ops=0))
MI=lambda np,**k: C(M_,np,j=8,**k)
more('P06',MI(2,hg=1,nv=4,ne=1,k=4),MI(2,hg=1,nv=3,ne=1,k=3,nt=2,ne1=1),MI(3,hg=1,nv=3,ne=2,k=3,hold=2),MI(3,hg=0,nv=3,ne=2,hold=1,symw=0),MI(3,hg=1,nv=2,ne=1,idle=1,coords=1,rawd=1),MI(3,hg=0,nv=2,ne=2,idle=1,coords=1),MI(2,hg=1,nv=2,ne=1,ne1=1,nt=4),MI(2,hg=0,nv=3,ne=1,ne1=1,nt=3,hold=1),MI(2,hg=1,nv=2,ne=1,frac=1,wmax=2),MI(2,hg=0,nv=3,ne=2,rawd=1,coords=1,hold=1),MI(2,hg=0,nv=5,ne=2,**F_,hold=2),MI(3,hg=1,nv=3,ne=1,k=3,rounds=2,hold=2,coords=1))
more('P07',MI(2,hg=1,nv=3,ne=1,k=3,rounds=2,what=0,hold=1),MI(3,hg=1,nv=2,ne=1,rounds=2,what=0,symgid=1),MI(3,hg=1,nv=3,ne=1,k=3,rep=1),MI(2,hg=0,nv=4,ne=1,rep=1),MI(2,hg=1,nv=2,ne=1,rounds=2,rep=1,reset=1),MI(3,hg=1,nv=2,ne=1,rounds=3,what=0,hold=1,k=2),MI(4,hg=1,nv=2,ne=1,rounds=2,what=0,hold=1))
WE=lambda np,**k: C('h_weight',np,j=8,**k)
more('P08',WE(2,hg=1,nv=2,ne=1,moves=2,frac=1,wmax=3),WE(2,hg=1,nv=3,ne=1,k=3,moves=2,frac=1,wmax=1),WE(2,hg=0,nv=3,ne=2,moves=2,loops=0),WE(2,hg=1,nv=2,ne=1,moves=2,rounds=2),WE(2,hg=1,nv=2,ne=1,moves=1,rounds=3),WE(3,hg=1,nv=3,ne=1,k=3,moves=2,rounds=2),WE(2,hg=1,nv=3,ne=1,nt=2,ne1=1,k=3,moves=2),WE(2,hg=1,nv=4,ne=1,k=4,moves=2))
PL=lambda np,**k: C('h_plan',np,j=8,**k)
more('P09',PL(1,hg=1,nv=4,ne=1,ops=5,symown=0),PL(1,hg=1,nv=4,ne=1,ops=4,symown=0),PL(2,hg=1,nv=4,ne=2,k=3,ops=4,**F_),PL(1,hg=1,nv=3,ne=1,ops=6,symown=0,k=1),WE(2,hg=1,nv=2,ne=1,moves=3,frac=1,wmax=1,clear=1),WE(2,hg=1,nv=4,ne=1,k=4,moves=3,clear=1,**F_))
IO=lambda np,**k: C('h_io',np,j=8,**k)
more('P10',IO(2,hg=1,nv=2,ne=1,rawd=1,coords=1),IO(2,hg=0,nv=2,ne=2,rawd=1,coords=1),IO(2,hg=1,nv=3,ne=1,nt=3,ne1=1,k=3,symw=0),IO(3,hg=1,nv=3,ne=2,k=3,symw=0),IO(2,hg=0,nv=3,ne=2,nt=2,ne1=1,symw=0,reuse=1),IO(2,hg=1,nv=4,ne=2,k=4,symw=0),IO(2,hg=1,nv=3,ne=1,nt=2,ne1=1,k=3,migr=1,symw=0),IO(2,hg=1,nv=5,ne=1,nt=2,ne1=2,k=3,symw=0,reuse=1,overwrite=1,**F_))
VA=lambda np,**k: C('h_valid',np,j=8,**k)
more('P11',VA(2,hg=1,nv=3,ne=2,k=3,migr=1,need=['accepted']),VA(3,hg=1,nv=3,ne=2,k=3,need=['accepted']),VA(3,hg=0,nv=3,ne=2,migr=1,need=['accepted'],symw=0) if 0 else VA(2,hg=0,nv=3,ne=2,migr=1,need=['accepted']),VA(3,hg=1,nv=3,ne=1,nt=2,ne1=1,k=3,need=['accepted'],mode=1),VA(3,hg=1,nv=3,ne=2,k=3,bad=1,need=['rejected']),VA(3,hg=0,nv=3,ne=2,bad=1,need=['rejected']),VA(2,hg=1,nv=5,ne=2,k=4,need=['accepted'],**F_),VA(2,hg=1,nv=2,ne=1,nt=4,ne1=1,migr=1,need=['accepted']))
MS=lambda np,j=1,**k: C('h_msg',np,j=j,**k)
more('P12',MS(4,only=1,maxp=1,ordered=0,slow=2,phases=2),MS(4,only=1,maxp=1,ordered=1,slow=1,phases=3),MS(3,sym=0,maxp=1,ordered=0,slow=2,phases=2,coll=1),MS(2,maxp=1,ordered=0,slow=1,phases=2),MS(2,maxp=1,ordered=1,slow=2,phases=2,j=8),MS(4,sym=0,maxp=1,ordered=0,slow=2,phases=2,j=8),MS(5,sym=0,maxp=1,ordered=0,slow=1,phases=2,coll=1),MS(6,only=1,maxp=1,ordered=0,slow=1,phases=2),MS(8,only=1,maxp=1,ordered=0,slow=1,phases=2),MS(3,maxp=1,ordered=0,slow=1,j=8),MS(3,sym=0,maxp=2,api=2,ordered=0,slow=1,order=2,phases=2,j=8),MS(2,maxp=1,api=1,ordered=0,slow=1,phases=2),MS(3,only=1,maxp=2,ordered=0,slow=3,phases=3,j=8))
more('P13',MS(5,maxp=1,sym=0,slow=2,phases=2),MS(8,maxp=1,sym=0,slow=1),MS(6,maxp=1,sym=0,order=1,phases=2,slow=1),MS(3,maxp=1,sym=0,slow=2,order=2,phases=2,j=8),MS(3,maxp=2,sym=0,slow=1,phases=2,toggle=1,api=1),MS(5,maxp=1,sym=0,order=2,j=8),MS(4,maxp=1,sym=0,order=2,phases=2,j=8),MS(7,maxp=1,sym=0,order=0,phases=2))
more('P14',*([C('h_coll',p,op=o,n=1,slow=2) for p in (3,4,5,6,7) for o in (0,3,14)]+[C('h_coll',p,op=15,n=1,slow=2) for p in (4,5,7)]+[C('h_coll',p,op=o,n=2) for p in (4,6,7) for o in (1,2,4,5,9)]+[C('h_coll',8,op=o,n=1,slow=1) for o in (0,3,14)]))
AA=lambda n,**k: C('h_aa',1,j=8,n=n,**k)
more('P15',AA(13,fix=1,rm=3),AA(16,fix=7,rm=2),AA(16,fix=1,rm=2),AA(12,fix=2,rm=2),AA(9,fix=2,free=1,rm=2),*[C('h_aa',1,n=n,fix=f,free=1,rm=1) for n in (6,7,8) for f in (1,2,3,5)],AA(7,fix=1,free=2,rm=1),AA(7,fix=3,free=1,rm=2))
more('P16',C('h_pcuio',1,n=1,len=100,lmin=0),C('h_pcuio',2,n=2,len=30,lmin=20),C('h_pcuio',1,n=2,len=60,lmin=40),C('h_pcuio',3,n=3,len=3),C('h_pcuio',1,n=6,len=3))
# fractional weights, fixed shapes with a few free parts, delayed completion of synchronous sends
MV_=dict(need=['end','moved'])
more('P17',C(SD,2,hg=1,nv=3,ne=2,k=3,frac=2,wmax=3,j=8),C(SD,3,hg=1,nv=3,ne=1,k=3,frac=2,wmax=1,j=8),C(SD,2,hg=0,nv=3,ne=2,frac=2,wmax=1,j=8),C(SD,3,hg=1,nv=3,ne=1,k=3,slow=1,order=1,j=8))
more('P18',*[C(TG,1,n=2,hyper=h,completed=1,W=6,S=3,frac=1) for h in (0,1)],C(TG,2,n=2,hyper=0,completed=1,W=6,S=3,frac=1),C(TG,1,n=2,hyper=1,completed=1,W=6,S=3,frac=1,kind=1),C(TG,1,n=2,hyper=1,completed=2,W=4,S=2,frac=1,sf=25))
more('P19',C(TR,2,hg=1,nv=2,ne=2,wmax=50,slow=1,j=8))
SHAPE=dict(ow=1000001,m0=7,m2=10,m3=52,m5=48)
more('P20',C(QU,2,hg=1,nv=3,ne=2,k=3,symw=0,dist=0),C(QU,3,hg=1,nv=3,ne=2,k=3,symw=0,dist=0,j=8),C(QU,2,hg=1,nv=4,ne=2,k=4,symw=0,dist=0,j=8),*[C(QU,2,hg=1,nv=6,ne=6,k=3,symw=0,push=p,j=8,**SHAPE) for p in (0,1)],*[C(QU,2,hg=1,nv=6,ne=6,k=2,symw=0,push=p,j=8,ow=1000001,m0=48,m1=3,m2=6,m3=12) for p in (0,1)],C(QU,2,hg=1,nv=6,ne=8,k=2,symw=0,push=0,j=8,ow=1000001,m0=33,m1=3,m2=6,m3=12,m4=24,m5=17))
more('P21',C(SL,2,hg=1,nv=3,ne=2,k=3,dim=0,maxcav=3,j=8),C(SL,2,hg=1,nv=3,ne=1,nt=2,ne1=2,k=3,dim=1,maxcav=3,tw=3,j=8),C(SL,3,hg=1,nv=3,ne=2,k=3,symw=0,j=8),C(SL,3,hg=1,nv=4,ne=2,k=4,ow=10012,maxcav=3,symw=0,j=8),C(SL,3,hg=1,nv=3,ne=1,k=3,slow=1,symw=0,j=8))
more('P22',C(ME,2,hg=1,nv=2,ne=1,frac=2,wmax=1,symew=0),C(ME,2,hg=1,nv=3,ne=1,frac=2,wmax=1,symew=0,j=8))
more('P23',C(WB,2,hg=1,nv=4,ne=3,ow=10001,m0=9,m1=10,m2=12,wscale=10,wmax=30,w0=100,w1=100,w2=100,sf=30,tol=101,symew=0,**MV_),C(WB,2,hg=1,nv=3,ne=13,ow=1001,mall=5,w1=600,wmax=30,w2=10,sf=100,tol=101,symew=0,**MV_),C(WB,2,hg=1,nv=3,ne=14,ow=1001,mall=5,m0=0,m1=0,k=3,w1=600,w0=20,w2=10,sf=100,tol=101,symew=0,j=8,**MV_),C(WB,3,hg=1,nv=4,ne=3,ow=10012,m0=5,m1=9,m2=3,w1=300,wmax=30,w2=10,w3=40,sf=50,tol=101,symew=0,**MV_),C(WB,2,hg=1,nv=4,ne=2,ow=10011,m0=0,m1=0,w1=300,w0=50,w2=10,w3=5,sf=50,tol=101,k=3,symew=0,j=8,**MV_),C(WB,2,hg=1,nv=2,ne=1,wmax=12,symew=0,slow=1,**MV_))
more('P06',MI(3,hg=1,nv=2,ne=1,slow=1))
more('P07',MI(2,hg=1,nv=2,ne=1,rounds=2,what=0,slow=1))
BA='h_balance'; BAL=lambda np,j=8,**k: C(BA,np,j=j,hg=k.pop('hg',1),symw=k.pop('symw',0),**k); EM=['end','moved']
prop('P24',['partition/Diffusive/src/','partition/engpar_input.cpp','partition/Diffusive/','agi/agiMigrate.cpp'],
 [BAL(1,1,nv=3,ne=2,k=3,need=['end','balanced']),BAL(2,nv=3,ne=2,k=3,tol=101,need=EM),BAL(2,nv=3,ne=2,k=3,tol=150,need=EM+['balanced']),BAL(2,nv=3,ne=2,k=3,tol=150,tol1=150,prios=2,need=EM+['balanced']),BAL(3,nv=3,ne=2,k=3,tol=110,prios=2,p0=0,p1=-1,need=EM),BAL(2,hg=0,nv=3,ne=2,tol=101,need=EM),BAL(3,hg=0,nv=4,ne=3,tol=101,ow=10012,need=EM),BAL(2,nv=4,ne=3,k=4,ow=10001,push=0,prios=2,need=EM),BAL(2,nv=4,ne=2,nt=2,ne1=1,k=4,ow=10001,prios=3,p0=0,p1=1,p2=-1,need=EM),
  BAL(2,nv=4,ne=3,k=3,ow=10001,pw=1,tol=101,need=EM),BAL(2,nv=5,ne=4,k=3,ow=100001,m0=33,m1=3,prios=2,need=EM),BAL(3,nv=5,ne=3,k=3,ow=100012,m0=9,prios=2,need=EM),BAL(2,nv=4,ne=3,k=3,ow=10001,minc=2,limit=2,dist=0,need=EM),BAL(2,nv=4,ne=2,nt=2,ne1=1,k=3,ow=10001,ghosts=1,sidet=1,need=EM+['balanced']),BAL(2,nv=3,ne=2,k=3,ow=1000),BAL(2,nv=3,ne=1,k=3,slow=1,tol=101,need=EM),
  BAL(2,1,nv=4,ne=3,k=2,symw=1,symew=0,ow=10001,m0=9,m1=10,m2=3,wmax=3,w2=7,w3=5,tol=110,need=EM),BAL(2,nv=4,ne=2,k=3,symw=1,symew=0,ow=10001,w0=2,w1=2,w3=1,wmax=4,tol=110,need=EM)],
 [BAL(2,nv=4,ne=3,k=3,push=0,prios=2,t=900,need=EM),BAL(2,hg=0,nv=4,ne=4,tol=101,ow=10001,t=900,need=EM),BAL(3,nv=4,ne=2,k=4,prios=2,t=900,need=EM),BAL(2,nv=5,ne=4,k=3,ow=100001,prios=2,t=1800,need=EM)],
 'Every hypergraph or directed graph within the counts with fixed or small symbolic weights, on up to three processes, one to three criteria in any order, tolerances 1.01 to 1.5, step factor 0.5, at most four steps per criterion; both queues, part weight balancing, contributions of ghosts, cut growth limit, disconnected pieces.',
 ['that the imbalance drops is not claimed: it depends on the heuristic, not on a guarantee of the code'])
SP='h_split'; SPL=lambda np,j=8,**k: C(SP,np,j=j,hg=k.pop('hg',1),symw=k.pop('symw',0),**k)
ZT=dict(meth=2,symw=0)
prop('P25',['partition/Multilevel/','partition/engpar_input.cpp','partition/engpar_types.h'],
 [SPL(2,1,parts=1,nv=3,ne=2,k=3,symw=1,need=EM),SPL(2,1,parts=1,nv=3,ne=2,k=3,meth=1,symw=1,need=EM),SPL(2,1,parts=1,nv=3,ne=2,k=3,meth=2,need=EM+['hyper']),SPL(2,1,parts=1,nv=3,ne=2,hg=0,meth=0,need=EM),SPL(2,1,parts=1,nv=3,ne=2,hg=0,meth=1,need=EM),SPL(2,1,parts=1,nv=3,ne=2,hg=0,meth=2,need=EM),
  SPL(2,1,parts=1,nv=2,ne=1,k=2,omask=2,need=EM),SPL(2,1,parts=1,nv=2,ne=1,k=2,omask=2,meth=1,need=EM),SPL(2,1,parts=1,nv=2,ne=1,k=2,omask=2,meth=2,need=EM),
  SPL(3,parts=2,nv=3,ne=2,k=3,need=EM),SPL(3,parts=2,nv=3,ne=2,k=3,meth=1,need=EM),SPL(3,parts=2,nv=3,ne=2,k=2,meth=2,need=EM),SPL(3,parts=2,nv=3,ne=2,hg=0,need=EM),SPL(3,parts=2,nv=3,ne=2,hg=0,meth=1,need=EM),SPL(3,parts=2,nv=3,ne=2,hg=0,meth=2,need=EM),
  SPL(3,parts=2,nv=3,ne=1,k=3,omask=6,rev=1,need=EM),SPL(3,parts=2,nv=3,ne=1,k=3,omask=5,lrev=1,need=EM),SPL(3,parts=2,nv=3,ne=1,k=3,omask=6,rev=1,meth=2,need=EM),SPL(3,parts=2,nv=3,ne=1,k=3,omask=5,lrev=1,meth=2,need=EM),SPL(3,parts=2,nv=3,ne=1,k=3,omask=6,rev=1,lrev=1,meth=1,need=EM),
  SPL(2,1,parts=1,nv=2,ne=1,k=2,meth=1,anyoth=1),SPL(3,parts=2,nv=2,ne=1,k=2,meth=1,anyoth=1),SPL(4,parts=2,nv=3,ne=1,k=3,meth=1,stride=2,need=EM),SPL(4,parts=2,nv=3,ne=1,k=3,need=EM),SPL(4,parts=2,nv=3,ne=1,k=3,omask=10,meth=2,need=EM),
  SPL(2,parts=1,nv=2,ne=1,nt=2,ne1=2,k=2,et=1,need=EM),SPL(3,parts=2,nv=2,ne=1,nt=2,ne1=1,k=2,et=1,meth=1,need=EM),SPL(3,parts=2,nv=2,ne=1,nt=2,ne1=1,k=2,meth=2,need=EM),SPL(3,parts=3,nv=3,ne=1,k=3,need=EM),SPL(2,parts=2,nv=2,ne=1,k=2,meth=2,need=EM),SPL(3,parts=2,nv=2,ne=1,k=2,symw=1,tol=120,need=EM),SPL(3,parts=2,nv=2,ne=1,k=2,slow=1,need=EM)],
 [SPL(3,parts=2,nv=4,ne=2,k=3,t=900,need=EM),SPL(4,parts=2,nv=3,ne=2,k=3,t=900,need=EM),SPL(4,parts=3,nv=3,ne=2,k=3,meth=2,t=900,need=EM),SPL(3,parts=2,nv=4,ne=2,k=4,meth=1,t=900,need=EM),SPL(3,parts=2,nv=4,ne=3,hg=0,meth=2,t=900,need=EM)],
 'Every distributed graph within the counts on one to three of up to four processes, every answer of the partitioner; the small communicator any subset of the processes in either order, the large one in either order; both ParMETIS modes and Zoltan, either edge type (ParMETIS). ',
 ['the partitioners are stand-ins that check what they are handed and answer with any parts; ParMETIS weights are integers and directed graphs for it symmetric, as it demands; Zoltan is handed fixed weights and edge type 0, the only one it uses'])
BN='h_bin'; BIN=lambda np,j=8,**k: C(BN,np,j=j,**k)
prop('P26',['interfaces/binGraph.cpp','interfaces/binGraph.h'],
 [BIN(1,1,nv=3,ne=2,loops=1),BIN(1,1,nv=3,ne=2,parted=1),BIN(2,1,nv=3,ne=2,loops=1),BIN(2,1,nv=3,ne=2,parted=1,loops=1),BIN(2,nv=4,ne=3),BIN(2,nv=3,ne=3,parted=1),BIN(3,nv=3,ne=2,loops=1),BIN(3,nv=3,ne=2,parted=1),BIN(3,nv=4,ne=2,loops=1),BIN(4,nv=4,ne=2),BIN(2,nv=3,ne=2,migr=1),BIN(2,nv=3,ne=2,parted=1,migr=1)],
 [BIN(3,nv=4,ne=3,t=900),BIN(3,nv=4,ne=2,parted=1,t=900),BIN(2,nv=4,ne=3,parted=1,t=900),BIN(4,nv=5,ne=2,t=900)],
 'Every list of up to three edges over up to four vertices (self loops included where loops=1), with and without an owner file with any owners, on one to four processes; the graph migrated once afterwards.')
prop('P27',['interfaces/cengpar.cpp','interfaces/cengpar.h'],
 [B_(1,hg=1,nv=2,ne=2,mode=2),B_(2,hg=1,nv=3,ne=2,k=3,mode=2,symgid=1),B_(2,hg=0,nv=3,ne=2,loops=1,mode=2),B_(2,hg=1,nv=2,ne=1,nt=2,ne1=1,mode=2,symgid=1),B_(3,hg=1,nv=3,ne=1,k=3,mode=2,j=8),
  IO(1,hg=1,nv=2,ne=2,capi=1),IO(2,hg=1,nv=3,ne=1,k=3,capi=1),IO(2,hg=0,nv=2,ne=2,capi=1,reuse=1),
  C(ME,2,hg=1,nv=2,ne=1,symw=0,capi=1),C(ME,2,hg=0,nv=2,ne=2,symw=0,capi=1),
  *[SPL(2,1,parts=1,nv=2,ne=1,k=2,meth=m,capi=1,need=EM) for m in (0,1)],*[SPL(3,parts=2,nv=2,ne=1,k=2,meth=m,capi=1,omask=o,need=EM) for m in (0,1) for o in (3,6)],SPL(3,parts=2,nv=2,ne=1,nt=2,ne1=1,k=2,et=1,meth=1,capi=1,need=EM),SPL(3,parts=2,nv=2,ne=1,nt=2,ne1=1,k=2,et=1,meth=0,capi=1,tol=120,need=EM),
  BAL(2,nv=3,ne=2,k=3,tol=101,capi=1,need=EM),BAL(2,hg=0,nv=3,ne=2,tol=101,capi=1,need=EM),BAL(2,nv=4,ne=2,k=3,ow=10001,ghosts=1,capi=1),BAL(2,nv=4,ne=3,k=2,ow=10001,limit=3,prios=2,capi=1,sf=30)],
 [SPL(3,parts=2,nv=3,ne=2,k=3,meth=1,capi=1,t=900,need=EM),BAL(2,nv=4,ne=3,k=3,ow=10001,limit=2,prios=2,capi=1,t=900),IO(2,hg=1,nv=3,ne=2,k=3,capi=1,t=600)],
 GB+'All functions of the C interface except initialisation and finalisation; both splitting methods it offers, one or two balancing criteria.')
VT=lambda np,j=8,**k: C('h_vtk',np,j=j,symw=k.pop('symw',0),**k)
prop('P28',['agi/agiVTK.cpp'],
 [VT(1,hg=1,nv=3,ne=2,k=3,coords=1),VT(2,hg=1,nv=3,ne=2,k=3,coords=1),VT(2,hg=0,nv=3,ne=2,loops=1,coords=1),VT(2,hg=0,nv=3,ne=3,coords=1),VT(2,hg=1,nv=3,ne=1,k=3,coords=1,tag=1),VT(2,hg=1,nv=2,ne=2,coords=1,tag=2),VT(2,hg=0,nv=3,ne=1,coords=1,tag=1),VT(2,hg=0,nv=2,ne=2,coords=1,tag=2),VT(2,hg=1,nv=2,ne=1,nt=2,ne1=1,coords=1),VT(2,hg=1,nv=3,ne=1,k=3,coords=1,migr=1),VT(2,hg=0,nv=3,ne=2,coords=1,migr=1),VT(3,hg=1,nv=3,ne=2,k=3,coords=1),VT(3,hg=0,nv=3,ne=2,coords=1,tag=1),VT(2,hg=1,nv=4,ne=2,k=4,coords=1,symgid=0),VT(3,hg=1,nv=3,ne=1,k=3,coords=1,migr=1,tag=1)],
 [VT(3,hg=1,nv=4,ne=2,k=4,coords=1,t=900),VT(3,hg=0,nv=4,ne=2,coords=1,loops=1,t=900),VT(4,hg=1,nv=4,ne=1,k=4,coords=1,tag=1,t=900),VT(2,hg=1,nv=3,ne=3,k=3,coords=1,tag=2,t=900)],
 'Every distribution of up to four vertices with concrete coordinates and up to three edges over up to three processes (thorough: four), hyper and directed, with no tag, a vertex tag or an edge tag, also after a migration. The files are written to the in-memory file system and read back by the harness.')
LG=dict(log=1,verb=3)
prop('P29',['support/engpar_log.cpp','support/engpar_message.cpp','support/engpar_support.cpp','agi/agiConstruct.cpp','agi/agiVertex.cpp','agi/agiMigrate.cpp','partition/Diffusive/src/engpar_balancer.cpp','partition/Diffusive/src/engpar_weightBalancer.cpp'],
 [B_(2,hg=1,nv=3,ne=2,k=3,mode=0,symw=0,coords=1,j=8,**LG),B_(2,hg=0,nv=3,ne=2,mode=1,symw=0,loops=1,j=8,**LG),B_(2,hg=1,nv=2,ne=1,nt=2,ne1=1,mode=2,symw=0,j=8,**LG),B_(3,hg=1,nv=3,ne=1,k=3,symw=0,j=8,**LG),
  *[RB(2,kind=k,hg=1,nv=2,ne=2,nt=2,ne1=1,symw=0,**LG) for k in (0,1,2,4)],RB(2,kind=3,hg=1,nv=3,ne=2,k=3,symw=0,**LG),RB(2,kind=0,hg=0,nv=3,ne=2,zhg=1,symw=0,**LG),RB(2,kind=4,hg=1,nv=2,ne=1,ne1=1,nt=3,k=2,rm=1,symw=0,**LG),
  AD(2,hg=1,nv=3,ne=2,k=3,compress=1,again=1,**LG),MI(2,hg=1,nv=3,ne=1,k=3,symw=0,**LG),MI(2,hg=1,nv=2,ne=1,rounds=2,rep=1,**LG),MI(3,hg=1,nv=2,ne=1,idle=1,**LG),MI(2,hg=0,nv=2,ne=2,symw=0,**LG),MI(2,hg=1,nv=2,ne=1,twice=1,**LG),
  WE(2,hg=1,nv=3,ne=1,k=3,moves=2,**LG),TA(2,hg=1,nv=3,ne=1,k=3,ops=0,**LG),C(ME,2,hg=1,nv=2,ne=2,symw=0,**LG),BIN(2,nv=3,ne=2,parted=1,migr=1,**LG),IO(2,hg=1,nv=3,ne=1,k=3,symw=0,**LG),VA(2,hg=1,nv=3,ne=2,k=3,need=['accepted'],**LG),VT(2,hg=1,nv=3,ne=1,k=3,coords=1,**LG),
  *[SPL(3,parts=2,nv=2,ne=1,k=2,omask=o,meth=m,need=EM,**LG) for o,m in ((3,0),(6,1),(6,2))],
  *[BAL(2,nv=3,ne=2,k=3,log=1,twin=1,verb=v,need=EM) for v in (0,1,2,3)],BAL(1,nv=2,ne=1,twin=1,**LG),BAL(2,nv=4,ne=3,k=2,ow=10001,limit=3,prios=2,sf=30,twin=1,need=EM,**LG),BAL(3,nv=3,ne=2,k=3,twin=1,**LG),BAL(2,hg=0,nv=3,ne=2,tol=101,twin=1,need=EM,**LG),BAL(2,nv=3,ne=2,k=3,pw=1,twin=1,**LG),BAL(2,nv=3,ne=2,k=3,prios=2,tol=105,tol1=160,iters=2,twin=1,need=EM,**LG),
  C(WB,2,hg=1,nv=3,ne=2,k=2,symw=0,twin=1,iters=3,j=8,**LG),C(WB,3,hg=1,nv=3,ne=2,k=3,symw=0,twin=1,iters=2,log=1,verb=2,j=8),C(WB,1,hg=1,nv=2,ne=1,symw=0,twin=1,j=8,**LG),C(WB,2,hg=1,nv=3,ne=2,k=3,symw=0,w0=100,w1=10,w2=10,sf=30,twin=1,iters=2,log=1,verb=1,j=8)],
 [BAL(3,nv=4,ne=2,k=3,twin=1,t=900,**LG),MI(3,hg=1,nv=3,ne=1,k=3,rounds=2,symw=0,t=900,**LG),BAL(2,nv=4,ne=3,k=4,prios=2,twin=1,t=900,**LG),C(WB,3,hg=1,nv=4,ne=2,k=3,symw=0,twin=1,iters=3,j=8,t=900,**LG)],
 'The graphs and calls of the other properties at small sizes (two to four vertices, one to three edges, one to three processes, fixed weights for balancing), with the call log open and messages at every level 0 to 3; the balancers also compared with a silent run on an equal graph.')
more('P22',*[C('h_stats',n,nt=nt,hg=h,ne=1,ne1=1,nv=2,j=8) for n,nt,h in ((1,7,1),(1,7,0),(2,2,1),(2,3,0))],C('h_stats',2,nt=7,hg=1,ne=1,ne1=1,nv=2,ow=101,j=8))
PM_=dict(perm=10312,lperm=12130); more('P25',SPL(4,parts=3,nv=3,ne=1,k=3,omask=11,ow=1012,need=EM),SPL(4,parts=3,nv=3,ne=1,k=3,omask=11,ow=1012,meth=2,need=EM),SPL(4,parts=3,nv=3,ne=2,k=3,omask=11,ow=1012,meth=1,need=EM),*[SPL(4,parts=3,nv=3,ne=1,k=3,omask=14,ow=1012,meth=m,need=EM,**PM_) for m in (0,1,2)],SPL(4,parts=4,nv=4,ne=1,k=3,perm=12310,ow=10123,ans=13210,need=EM),SPL(5,parts=3,nv=4,ne=2,k=3,omask=26,perm=102341,ow=10012,ans=14031,need=EM),SPL(4,parts=3,nv=3,ne=2,hg=0,omask=13,ow=1012,meth=2,need=EM,**PM_))
more('P25',*[SPL(3,parts=2,nv=3,ne=1,k=2,omask=6,rev=1,pre=1,meth=m,need=EM) for m in (0,1,2)],SPL(3,parts=2,nv=3,ne=1,k=2,omask=5,lrev=1,pre=2,need=EM))
more('P24',BAL(2,nv=3,ne=2,k=3,tol=105,tol1=160,prios=2,need=EM),BAL(2,nv=4,ne=2,k=3,ow=10001,tol=105,tol1=160,prios=2,p0=0,p1=-1,need=EM+['balanced']),BAL(2,nv=4,ne=2,k=4,ow=10001,ghosts=1,prios=2,p0=0,p1=-1,tol=120,tol1=110,need=['end','balanced']),BAL(2,nv=3,ne=2,k=3,tol=160,tol1=105,prios=2,p0=0,p1=-1,need=EM))

HY=lambda np,j=8,**k: C('h_history',np,j=j,symw=k.pop('symw',0),**k); NBAL=524287-4096; LIFE=1+2+4+8+16+32+128+1024; F2=dict(nt=2,ne1=1,m1=3)
prop('P30',['agi/ngraph.h','agi/agiConstruct.cpp','agi/agiVertex.cpp','agi/agiEdge.cpp','agi/agiMigrate.cpp','agi/agiMigration.cpp','agi/agiWeightMigration.cpp','agi/agiIO.cpp','agi/agiTag.cpp','agi/agiAdjacency.cpp','partition/Diffusive/src/engpar_balancer.cpp'],
 [HY(1,hg=1,nv=3,ne=2,nt=2,ne1=1,k=2,len=2,symw=1),HY(1,hg=0,nv=2,ne=1,nt=2,ne1=1,len=3,loops=1,symw=1),HY(2,hg=1,nv=2,ne=1,k=2,ow=1,m0=3,len=3,**F2),HY(2,hg=1,nv=2,ne=1,nt=2,ne1=1,k=2,len=2),HY(2,hg=1,nv=2,ne=1,k=2,ow=1,m0=3,len=2,symw=1,ops=NBAL,**F2),HY(2,hg=1,nv=3,ne=1,k=3,len=2,m0=7,nt=2,ne1=1),HY(2,hg=0,nv=2,ne=2,ow=1,len=3),HY(2,hg=0,nv=3,ne=2,ow=1001,len=2),
  HY(2,hg=1,nv=3,ne=1,k=3,ow=1001,m0=7,len=4,ops=LIFE),HY(3,hg=1,nv=3,ne=1,k=3,ow=12,m0=7,len=3),HY(3,hg=1,nv=3,ne=1,k=3,ow=12,m0=7,len=3,**F2),HY(3,hg=0,nv=3,ne=1,ow=1012,len=3,ops=NBAL),HY(3,hg=1,nv=3,ne=1,k=3,len=2,ops=NBAL),HY(2,hg=1,nv=3,ne=2,k=2,ow=1001,m0=6,len=2,coords=1,cofix=1,mode=1)],
 [HY(2,hg=1,nv=2,ne=1,k=2,ow=1,m0=3,len=4,t=900,**F2),HY(2,hg=1,nv=3,ne=1,k=3,ow=1001,m0=7,len=5,ops=LIFE,t=900),HY(3,hg=1,nv=3,ne=1,k=3,ow=12,m0=7,len=4,ops=LIFE,t=900),HY(2,hg=0,nv=3,ne=2,ow=1001,len=3,t=900),HY(1,hg=1,nv=2,ne=2,nt=2,ne1=1,k=2,len=4,t=900)],
 'Every sequence of two to four of nineteen operations (recording and resetting owners and partitions, migration, repartitioning, weight moves, adjacency tables, save and load, loading into the object itself, removing edge types, adding them again or others, tags, describing again, new weights, balancing, validity) from every distribution of small graphs (two or three vertices, one or two edges, one or two edge types, one to three processes).')
more('P29',HY(1,hg=1,nv=2,ne=1,k=2,len=2,**LG),HY(2,hg=1,nv=2,ne=1,k=2,ow=1,m0=3,len=2,**F2,**LG),HY(2,hg=0,nv=3,ne=2,ow=1001,len=2,**LG),HY(3,hg=1,nv=3,ne=1,k=3,ow=12,m0=7,len=2,**LG),
 *[C(WB,3,hg=1,nv=3,ne=e,k=3,symw=0,w0=100,w1=10,w2=20,sf=30,twin=1,iters=2,j=8,**LG) for e in (1,2)])
# edge types without any edge, before, between and after others
for h in (0,1):
  for e in (dict(ne=0,nt=2,ne1=1),dict(ne=1,nt=2,ne1=0),dict(ne=0,nt=1)):
    more('P01',B_(2,hg=h,nv=2,k=2,**e)); more('P02',C('h_adj',2,hg=h,nv=2,k=2,compress=1,**e)); more('P03',B_(2,hg=h,nv=2,k=2,what=GHO|EDG|RES|GLO|GWT,**e)); more('P04',C('h_rebuild',2,kind=0,hg=h,nv=2,k=2,**e)); more('P05',C('h_tags',2,hg=h,nv=2,k=2,ops=0,**e)); more('P06',C(M_,2,hg=h,nv=2,k=2,**e)); more('P10',C('h_io',2,hg=h,nv=2,k=2,**e)); more('P22',C('h_metrics',2,hg=h,nv=2,k=2,symw=0,**e)); more('P24',C('h_valid',2,hg=h,nv=2,k=2,need=['accepted'],**e))
more('P30',HY(2,hg=1,nv=2,ne=1,nt=2,ne1=0,k=2,ow=1,len=3),HY(2,hg=0,nv=2,ne=0,nt=2,ne1=1,ow=1,len=3),HY(2,hg=0,nv=2,ne=1,nt=2,ne1=0,len=2),HY(3,hg=1,nv=3,ne=1,nt=2,ne1=0,k=3,ow=12,m0=7,len=2))

# large graphs: identifiers and counts beyond one byte (300) and beyond 16 bits (70000)
LA=lambda np,j=8,**k: C('h_large',np,j=j,steps=20000000000,t=k.pop('t',180),need=k.pop('need',('end',)),**k)
more('P01',LA(2,n=300,ops=0,d=40),LA(2,n=300,hg=0,ops=0),LA(2,n=70000,cuts=0,ops=0,h=10,d=10))
more('P02',LA(2,n=300,ops=4,d=40),LA(2,n=300,hg=0,ops=4))
more('P03',LA(2,n=300,ops=0,h=299,d=300),LA(2,n=70000,cuts=0,ops=0,h=69999,d=70000))
more('P05',LA(2,n=300,ops=8,d=40),LA(1,n=300,ops=12,d=100),LA(2,n=70000,cuts=0,hg=0,ops=8,h=10))
more('P06',LA(2,n=300,ops=1,sel=4,d=40),LA(2,n=300,hg=0,ops=1,sel=4),LA(3,n=300,ops=1,sel=3,cuts=1,every=5),LA(2,n=70000,cuts=0,ops=1,h=10,d=10))
more('P07',LA(3,n=300,ops=1,every=3),LA(2,n=300,ops=1,sel=4,d=40))
more('P08',LA(2,n=300,ops=17),LA(2,n=300,hg=0,ops=17))
more('P10',LA(2,n=300,ops=2,d=40),LA(3,n=300,hg=0,ops=3),LA(2,n=70000,cuts=0,ops=3,h=10,d=10))
more('P24',LA(2,n=300,ops=32,symw=0,need=['moved']),LA(3,n=300,ops=32,symw=0,cutat=30,iters=8,need=['moved']))
more('P30',LA(2,n=300,ops=31,d=40),LA(2,n=300,hg=0,ops=31))
for h in (0,1): more('P30',HY(2,hg=h,nv=2,ne=1,k=2,ow=1,m0=3,len=2,ops=1048575,op1=19,cofix=1,wmax=1,coords=1))
more('P30',HY(2,hg=1,nv=2,ne=1,k=2,ow=1,m0=3,len=3,ops=1048575,op1=19,op2=17,op3=3,cofix=1,wmax=1,coords=1))

# everything allocated is given back
LK=dict(leak=1)
prop('P31',['agi/ngraph.h','agi/agiConstruct.cpp','agi/agiVertex.cpp','agi/agiEdge.cpp','agi/agiMigrate.cpp','agi/agiIO.cpp','agi/agiTag.cpp','agi/agiAdjacency.cpp','agi/agiVTK.cpp','partition/Diffusive/src/','partition/Multilevel/','interfaces/','pcu/'],
 [B_(2,hg=1,nv=3,ne=2,k=3,coords=1,mode=1,**LK),B_(2,hg=0,nv=3,ne=2,loops=1,mode=1,ewgt=0,vwgt=0,**LK),B_(2,hg=1,nv=2,ne=1,nt=2,ne1=1,mode=2,**LK),B_(3,hg=1,nv=3,ne=1,k=3,**LK),B_(2,hg=1,nv=3,ne=2,k=3,what=GHO|EDG|RES|GLO|GWT,**LK),
  C('h_adj',2,hg=1,nv=2,ne=2,nt=2,ne1=1,compress=1,again=1,**LK),C('h_adj',2,hg=0,nv=2,ne=2,nt=2,ne1=1,compress=0,again=1,**LK),
  *[C('h_rebuild',2,kind=k,hg=1,nv=2,ne=1,nt=1 if k==3 else 2,ne1=1,**LK) for k in range(4)],C('h_rebuild',2,kind=0,hg=0,nv=2,ne=2,zhg=1,coords=1,**LK),
  C('h_tags',2,hg=1,nv=2,ne=1,nt=2,ne1=1,ops=0,**LK),C('h_tags',2,hg=0,nv=2,ne=1,ops=0,**LK),
  C(M_,2,hg=1,nv=3,ne=1,k=3,symw=0,**LK),C(M_,2,hg=0,nv=2,ne=2,loops=1,symw=0,**LK),C(M_,2,hg=1,nv=2,ne=1,rounds=2,coords=1,symw=0,**LK),C(M_,3,hg=1,nv=2,ne=1,idle=1,symw=0,**LK),C(M_,2,hg=1,nv=2,ne=1,rep=1,reset=1,**LK),C(M_,2,hg=1,nv=2,ne=1,twice=1,**LK),
  C('h_weight',2,hg=1,nv=3,ne=1,k=3,moves=2,clear=1,**LK),C('h_weight',2,hg=0,nv=2,ne=2,moves=2,**LK),C('h_plan',2,hg=1,nv=3,ne=1,ops=3,symown=0,**LK),
  C('h_io',2,hg=1,nv=3,ne=1,k=3,symw=0,**LK),C('h_io',2,hg=0,nv=2,ne=2,reuse=1,symw=0,**LK),C('h_valid',2,hg=1,nv=2,ne=2,need=['accepted'],**LK),
  VT(2,hg=1,nv=3,ne=1,k=3,coords=1,tag=1,**LK),VT(2,hg=0,nv=3,ne=1,coords=1,migr=1,**LK),
  C('h_metrics',2,hg=1,nv=2,ne=2,symw=0,**LK),C('h_metrics',2,hg=0,nv=2,ne=1,nt=2,ne1=1,symw=0,capi=1,**LK),
  *[BAL(2,nv=3,ne=2,k=3,tol=101,hg=h,need=EM,**LK) for h in (0,1)],BAL(2,nv=4,ne=3,k=2,ow=10001,limit=3,prios=2,sf=30,need=EM,**LK),BAL(2,nv=3,ne=2,k=3,tol=101,capi=1,need=EM,**LK),BAL(1,nv=2,ne=1,**LK),
  C(WB,2,hg=1,nv=3,ne=2,k=2,symw=0,iters=3,j=8,**LK),C(WB,3,hg=1,nv=3,ne=1,k=3,symw=0,w0=100,w1=10,w2=20,sf=30,iters=2,j=8,**LK),
  *[SPL(3,parts=2,nv=2,ne=1,k=2,omask=o,meth=m,need=EM,**LK) for o,m in ((3,0),(6,1),(6,2))],*[SPL(2,1,parts=1,nv=3,ne=2,hg=0,meth=m,need=EM,**LK) for m in (0,1,2)],SPL(3,parts=2,nv=2,ne=1,k=2,meth=1,capi=1,need=EM,**LK),
  BIN(2,nv=3,ne=2,parted=1,migr=1,**LK),BIN(3,nv=3,ne=2,**LK),
  *[HY(2,hg=h,nv=2,ne=1,k=2,ow=1,m0=3,len=2,ops=1048575,cofix=1,coords=1,wmax=1,**LK) for h in (0,1)],HY(2,hg=1,nv=2,ne=1,k=2,ow=1,m0=3,len=2,**F2,**LK),HY(3,hg=1,nv=3,ne=1,k=3,ow=12,m0=7,len=2,**LK)],
 [HY(2,hg=1,nv=2,ne=1,k=2,ow=1,m0=3,len=3,t=900,**F2,**LK),HY(2,hg=0,nv=2,ne=2,ow=1,len=3,t=900,**LK),HY(3,hg=1,nv=3,ne=1,k=3,ow=12,m0=7,len=3,t=900,**LK),C(M_,2,hg=1,nv=3,ne=2,k=3,symw=0,j=8,t=900,**LK),SPL(3,parts=2,nv=3,ne=2,k=3,meth=1,t=900,need=EM,**LK)],
 'The graphs and calls of the other properties at small sizes (two to four vertices, one to three edges, one to three processes) and every sequence of two of twenty operations (thorough: three); after everything handed out was given back, no object allocated by the library may be left.')
TI=lambda np,j=8,**k: C('h_timers',np,j=j,**k)
prop('P32',['agi/agiMigrationTimers.cpp','agi/agiMigrationTimers.h','agi/agiMigrate.cpp'],
 [TI(1),TI(2,n=2,ops=2,percall=0),TI(2,n=1,late1=0,ops=2,vmax=3),TI(2,n=2,late1=1,ops=3,vmax=1),TI(3,n=2,late1=1,ops=1,percall=0),TI(1,n=20,ops=2,lo=17),TI(2,n=1,late1=0,ops=1,vmax=3,percall=0,mig=2,hg=1,nv=2,ne=1),TI(2,n=1,late1=0,ops=1,vmax=3,percall=0,mig=1,hg=0,nv=3,ne=1)],
 [TI(3,n=2,late1=1,ops=2,t=900),TI(2,n=2,late1=1,ops=4,vmax=1,t=900),TI(1,n=40,ops=3,lo=30,t=900),TI(2,n=1,late1=0,ops=1,vmax=3,percall=0,mig=2,hg=1,nv=3,ne=1,k=3,t=900)],
 'Up to twenty timers, timers added before and between recordings, up to three recordings on every one of up to three processes, every timer and recorded time symbolic; also the timers that the migrations of every small graph fill.')
RE=lambda np,j=4,need=('end',),**k: C('h_refuse',np,j=j,need=list(need),**k); AB=['refused by ending the program']
prop('P33',['agi/agiVertex.cpp','agi/agiEdge.cpp','agi/agiIterate.cpp','agi/agiIO.cpp','agi/ngraph.h','interfaces/binGraph.cpp'],
 [*[RE(2,what=w,nv=2,ne=1,**g,**({'need':AB} if w in (2,4) else {})) for w in (0,1,2,3,4) for g in (dict(hg=1,coords=1),dict(hg=0,coords=1,cofix=1))],RE(2,what=0,hg=1,nv=3,ne=1,k=3),RE(3,what=0,hg=0,nv=3,ne=1),RE(1,what=0,hg=1,nv=2,ne=1)],
 [RE(2,what=0,hg=1,nv=3,ne=2,k=3,t=600),RE(3,what=0,hg=1,nv=3,ne=2,k=3,t=600),RE(3,what=0,hg=0,nv=3,ne=2,t=600)],
 'Every vertex number beyond the graph (32 bits) and every ghost in every query restricted to owned vertices, missing input files and directories, directed-only requests on hypergraphs, on every small graph.')
more('P31',C('h_msg',3,maxp=1,ordered=1,**LK),C('h_msg',2,maxp=2,phases=2,coll=1,**LK),C('h_coll',3,op=8,n=1,part=1,**LK),C('h_coll',5,op=9,n=2,**LK),C('h_aa',1,n=3,rm=1,**LK),C('h_buf',1,n=2,max=40,**LK))
# names of files of any length
more('P10',IO(2,hg=1,nv=2,ne=1,coords=1,deep=300,k=2),IO(2,hg=0,nv=2,ne=1,deep=350)); more('P28',VT(2,hg=1,nv=2,ne=1,coords=1,deep=300),VT(2,hg=0,nv=2,ne=1,coords=1,deep=300)); more('P26',BIN(2,nv=3,ne=1,parted=1,deep=300)); more('P29',BIN(2,nv=3,ne=1,deep=300,**LG)); more('P27',IO(2,hg=1,nv=2,ne=1,capi=1,deep=300))
more('P31',*[C('h_adj',2,hg=h,nv=3,ne=2,k=3,giveup=6,**LK) for h in (0,1)],*[IO(2,hg=h,nv=2,ne=1,coords=1,cofix=1,deep=70,**LK) for h in (0,1)],C('h_migrate',2,hg=1,nv=3,ne=2,k=3,symw=0,ow=1001,leak=1,j=8))
more('P25',SPL(3,parts=2,nv=2,ne=1,k=2,meth=1,tol=120,need=EM),SPL(3,parts=2,nv=2,ne=1,k=2,meth=2,tol=130,need=EM))
more('P20',*[C(QU,2,hg=1,nv=6,ne=6,k=2,symw=0,push=p,ow=1000001,m0=3,m1=34,m2=12,m3=40,m4=48) for p in (0,1)])
# other orders of delivery: highest sender first, the solver's choice, one message under way until nobody can go on
for q,f in (('P01',lambda **k: B_(3,hg=1,nv=3,ne=1,k=3,**k)),('P01',lambda **k: B_(3,hg=0,nv=3,ne=2,ow=1012,**k)),('P03',lambda **k: B_(3,hg=1,nv=3,ne=1,k=3,what=GHO|EDG|RES|GLO|GWT,**k)),('P05',lambda **k: C('h_tags',3,hg=1,nv=3,ne=1,k=2,ow=12,ops=0,**k)),('P08',lambda **k: C('h_weight',3,hg=1,nv=3,ne=1,k=3,moves=2,ow=1012,**k)),('P11',lambda **k: VA(3,hg=1,nv=3,ne=1,k=3,need=['accepted'],**k)),('P22',lambda **k: C(ME,3,hg=1,nv=3,ne=1,k=3,symw=0,**k)),('P26',lambda **k: BIN(3,nv=3,ne=2,**k)),('P28',lambda **k: VT(3,hg=1,nv=3,ne=1,k=3,coords=1,**k))):
  more(q,*[f(**d,**({} if q in ('P11','P26','P28') else {'j':8})) for d in (dict(order=1),dict(order=2),dict(slow=1))])
more('P07',C(M_,3,hg=1,nv=3,ne=1,k=3,ow=1012,order=1,j=8),C(M_,3,hg=1,nv=2,ne=1,k=2,ow=101,order=2,j=8))
more('P30',HY(3,hg=1,nv=3,ne=1,k=3,ow=12,m0=7,len=2,order=1),HY(3,hg=1,nv=3,ne=1,k=3,ow=12,m0=7,len=1,slow=1,ops=NBAL))
more('P24',BAL(3,nv=3,ne=2,k=3,order=1),BAL(3,nv=3,ne=2,k=2,ow=1012,slow=1)); more('P23',C(WB,3,hg=1,nv=3,ne=2,k=3,symw=0,w0=100,w1=10,w2=20,sf=30,iters=2,order=1,j=8),C(WB,3,hg=1,nv=3,ne=1,k=3,symw=0,w0=100,w1=10,w2=20,sf=30,iters=2,slow=1,j=8))
# longer edge lists: most edges fixed, two anywhere in the list
more('P26',BIN(1,1,nv=4,ne=5,m0=2,m1=5,m2=2),BIN(1,1,nv=4,ne=5,m2=2,m3=5,m4=10,loops=1),BIN(2,nv=4,ne=7,m0=2,m1=5,m2=2,m4=5,m5=10),BIN(2,nv=4,ne=6,m1=5,m2=2,m3=10,m4=7,parted=1,loops=1),BIN(3,nv=4,ne=8,m0=2,m1=5,m2=2,m3=10,m5=7,m6=2),BIN(3,nv=6,ne=7,m1=2,m2=9,m3=2,m4=10,m5=9,parted=0,migr=0))
# two edge types balanced before
more('P19',C(TR,2,hg=1,nv=2,ne=1,nt=2,ne1=1,dims=2,d0=0,d1=1,wmax=20),C(TR,2,hg=1,nv=3,ne=1,nt=2,ne1=1,k=3,dims=2,d0=1,d1=0,ow=1001,m0=7,wmax=10,j=8),C(TR,2,hg=1,nv=3,ne=2,nt=2,ne1=1,k=2,dims=3,d0=0,d1=1,d2=-1,ow=1001,m0=3,m1=6,wmax=3,j=8))
# starting, stopping and switching communicators
SG=dict(nv=3,ne=1,hg=1,k=3,symw=0,symown=0,ow=1001,m0=7); SN=('end','ended','kept')
def ST(np,need=SN+('back',),**k): return C('h_start',np,need=need,**dict(SG,**k))
prop('P34',['support/engpar_support.cpp','support/engpar_log.cpp','pcu/pcu.c','pcu/pcu_pmpi.c'],
 [C('h_start',2,need=SN,len=2,nv=2,ne=1,k=2,hg=1),C('h_start',1,need=SN+('back',),len=5,cols=1,nv=2,ne=1,hg=0),ST(2,len=4),ST(2,len=5,j=8,two=0),ST(3,len=4,cols=5,rev=1,cols2=3),ST(3,len=3,cols=3,order=2),ST(3,need=('end','kept'),len=2,cols=1,slow=1),ST(2,len=4,capi=1,cols=2),ST(2,len=4,leak=1,two=0),ST(4,len=3,cols=5,rev=1,cols2=3),ST(2,len=4,hg=0,cols=0,rev=1,rev2=0),ST(3,len=4,cols=6,two=0)],
 [ST(2,len=6,j=8,t=600),ST(3,len=5,cols=5,rev=1,j=8,t=600),ST(4,len=4,cols=6,rev=1,j=8,t=600)],
 'Every sequence of up to 5 (6) steps out of: starting and ending the library at a message level, starting and ending PCU by hand, switching to either of two splits of the processes and back, opening the log, communicating.')
