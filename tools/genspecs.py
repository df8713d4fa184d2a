#!/usr/bin/env python3
"""Instantiates the bucket-queue contracts for the integer and float variants."""
import re,os
here=os.path.dirname(os.path.abspath(__file__))
src=open(here+'/bucket.spec.in').read()
def inst(T,OP,GS,VS,VT,OKEY,FEAT,key,lt,extra,fnreq='',fnens='',fninv=''):
    s=src+open(here+'/'+extra).read()
    s=s.replace('@FEAT@',FEAT).replace('@FNREQ@',fnreq).replace('@FNINV@',fninv).replace('@FNENS@',fnens)
    s=re.sub(r'@KEY\((.*?)\)@',lambda m:key(m.group(1)),s)
    s=re.sub(r'@LT\((.*?),(.*?)\)@',lambda m:lt(m.group(1),m.group(2)),s)
    for a,b in (('@T@',T),('@OP@',OP),('@GS@',GS),('@VS@',VS),('@VT@',VT),('@OKEY@',OKEY)): s=s.replace(a,b)
    return s
out=here+'/../contracts/'
open(out+'12_queue_lfu.spec','w').write(inst('LFU','QOPI','QGSI','int','int64','ownkey','file.Frequency',lambda v:'real(%s)'%v,lambda a,b:'%s < %s'%(a,b),'bucket_lfu.in'))
FN=' && q.getFeature != nil && q.getInsertIdx != nil && q.getIndex2Remove != nil'
nk=lambda v:'ite(QDESC(q), 0 - (%s), %s)'%(v,v)
open(out+'13_queue_float.spec','w').write(inst('QueueBaseFloat','QOPR','QGSR','real','float64','ownkeyr','ite(QWEI(q), file.Weight, file.Size)',nk,lambda a,b:'%s < %s'%(nk(a),nk(b)),'bucket_float.in',fnens='\n  ensures same(QDESC(q), QWEI(q))',fnreq=FN,fninv=FN))
