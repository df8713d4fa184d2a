#!/usr/bin/env python3
"""Writes checks.json (what vgo verifies per property) and MANIFEST.json."""
import json,os
root=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..')
TECH='contract-based deductive verification of the Go code: weakest-precondition style obligations generated from go/ssa of /repo on every run against contracts in /verif/contracts, discharged by z3 and cvc5'
checks={}
def check(id,roots,area='sim',stop=(),replay='',note='',assume=(),lemmas=(),level='proof',bounded=''):
    checks[id]=dict(area=area,roots=list(roots),stop=list(stop),replay=replay,level=level,technique=TECH,note=note,assume=list(assume),lemmas=list(lemmas),bounded=bounded)
ALLQ=[r'queue\..*']
BASE='Unbounded in inputs, queue contents and iterations. Trusted: the condition generator vgo, the SMT solvers, mathematical integers and real-valued floats, single-threaded use. '
check('Q01',ALLQ,replay='queue',note=BASE+'Every method of every queue kind is verified against one abstract contract (finite map plus order); all-histories follows by induction over the contracts.')
QU=[r'cache\.\(\*\w+\)\.UpdatePolicy',r'cache\.GetFile@.*']
check('Q02',[r'queue\.\(\*LRU\)\..*']+QU,stop=[r'queue\.\(\*(LFU|QueueBaseFloat|SizeBig|SizeSmall|Weighted|QueueNone)\)\..*'],replay='queue,cache',note=BASE+'Order clauses of insert, update, remove and removeWorst of the LRU queue; that the caches tell the queue of every hit.')
check('Q03',[r'queue\.\(\*(LFU|QueueBaseFloat|SizeBig|SizeSmall|Weighted)\)\..*']+QU,stop=[r'queue\.\(\*(LRU|QueueNone)\)\..*'],replay='queue,cache',note=BASE+'Sortedness by key, first-come among equals and preserved relative order, for the bucket queues; that the caches tell the queue of every hit.')
check('Q04',ALLQ,replay='queue',note=BASE+'getWorstFilesUp2Size against a recursive size-sum over the abstract order; the representation invariants it relies on are verified for every method.')
check('Q05',ALLQ,replay='queue',note=BASE+'The error result is characterised exactly for insert, update and removeWorst, and for absent names in remove; refused insertions and updates change nothing.')
check('Q06',ALLQ,replay='queue',note=BASE+'getQueue yields the reverse of the abstract order and keeps it.')
exec(open(os.path.join(root,'tools','checks_more.py')).read())
props=[json.loads(l) for l in open(os.path.join(root,'properties.jsonl'))]
na={}
exec(open(os.path.join(root,'tools','na.py')).read())
m=dict(version=1,setup_cmd='bash setup.sh',checks=[],not_applicable=[],notes='Every check is "check.sh ID"; see DESIGN.md.')
for p in props:
    i=p['id']
    if i in checks:
        c=checks[i]
        m['checks'].append(dict(property=i,quick_cmd='bash check.sh %s quick'%i,thorough_cmd='bash check.sh %s thorough'%i,technique=TECH,level=c['level'],level_note=c['note']))
    else:
        m['not_applicable'].append(dict(property=i,reason=na.get(i,'contracts for this property are not finished')))
json.dump(checks,open(os.path.join(root,'checks.json'),'w'),indent=1)
json.dump(m,open(os.path.join(root,'MANIFEST.json'),'w'),indent=1)
print(len(m['checks']),'checks,',len(m['not_applicable']),'not applicable')
