"""Shared harness: counting, violations, replay files, known findings, evidence, state hashing."""
import sys, os, json, time, io, contextlib, hashlib, itertools, types
import numpy as np
VERIF=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
_OUT=sys.stdout

class TooMany(Exception):
    pass

class _Null(io.TextIOBase):
    def write(self,s): return len(s)
    def flush(self): pass

@contextlib.contextmanager
def quiet():
    old=sys.stdout
    sys.stdout=_Null()
    try:
        yield
    finally:
        sys.stdout=old

def say(s):
    _OUT.write(s+'\n'); _OUT.flush()

def jsonable(o,depth=0):
    if depth>8: return repr(o)
    if isinstance(o,np.ndarray):
        return jsonable(o.tolist(),depth+1) if o.size<=200 else {'array':list(o.shape),'head':jsonable(o.ravel()[:20].tolist(),depth+1)}
    if isinstance(o,(np.integer,)): return int(o)
    if isinstance(o,(np.floating,float)):
        f=float(o)
        return f if np.isfinite(f) else repr(f)
    if isinstance(o,(bool,np.bool_)): return bool(o)
    if isinstance(o,dict): return {str(k):jsonable(v,depth+1) for k,v in o.items()}
    if isinstance(o,(list,tuple,set)): return [jsonable(v,depth+1) for v in o]
    if isinstance(o,(int,str)) or o is None: return o
    return repr(o)

def load_known():
    """known_findings.txt: lines 'known: property=Cxx key=<key> <text>' and 'fixed: ...'"""
    known={}
    p=os.path.join(VERIF,'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l=l.strip()
            if l.startswith('known:'):
                d=dict(t.split('=',1) for t in l.split()[1:3])
                known[(d['property'],d['key'])]=' '.join(l.split()[3:])
    return known

class Check:
    """One run of one check.
      level 'exploration'/'fault_enumeration': use case()/nontrivial()
      level 'model_checking'                 : use state()/trans()/trace()
    """
    MAXFAIL=5
    def __init__(self,pid):
        self.pid=pid
        self.tier=os.environ.get('VERIF_TIER','quick')
        if self.tier not in ('quick','thorough'): self.tier='quick'
        self.thorough=self.tier=='thorough'
        self.seed=int(os.environ.get('VERIF_SEED','0') or 0)
        self.t0=time.time()
        self.level='exploration'
        self.evaluations=0; self.nontriv=0
        self.states=0; self.transitions=0; self.traces=0
        self.samples=[]; self.rule=''; self.exhaustive=True
        self.extra={}; self.assumptions=[]
        self.fails=[]; self.failkeys={}; self.known=load_known(); self.known_hit={}
        self.replaydir=os.path.join(VERIF,'evidence','replay')
        for i in range(self.MAXFAIL+1):
            try: os.remove(os.path.join(self.replaydir,'%s_%d.json'%(pid,i)))
            except OSError: pass
    # --- counting
    def case(self,n=1,nontrivial=None):
        self.evaluations+=int(n); self.nontriv+=int(n if nontrivial is None else nontrivial)
    def state(self,n=1): self.states+=int(n)
    def trans(self,n=1): self.transitions+=int(n)
    def trace(self,n=1): self.traces+=int(n)
    def sample(self,s,maxn=6):
        if len(self.samples)<maxn: self.samples.append(jsonable(s))
    # --- verdicts
    def fail(self,key,detail):
        """ records a violation. `key` identifies the failing input/call site/history (used for known findings) """
        key=str(key).replace(' ','_')
        if (self.pid,key) in self.known:
            self.known_hit[key]=self.known_hit.get(key,0)+1
            return
        self.failkeys[key]=self.failkeys.get(key,0)+1
        if self.failkeys[key]>1 : return
        os.makedirs(self.replaydir,exist_ok=True)
        path=os.path.join(self.replaydir,'%s_%d.json'%(self.pid,len(self.fails)))
        with open(path,'w') as f:
            json.dump({'property':self.pid,'key':key,'tier':self.tier,'case':jsonable(detail),
                       'replay':'VERIF_TIER=%s bash %s/run.sh %s  (deterministic enumeration: meets the same case again)'%(self.tier,VERIF,self.pid)},f,indent=1)
        self.fails.append((key,path))
        say('VIOLATION property=%s replay=%s'%(self.pid,path))
        if len(self.fails)>=self.MAXFAIL: raise TooMany()
    def expect(self,cond,key,detail):
        if not cond:
            self.fail(key,detail() if callable(detail) else detail)
        return cond
    def close(self,got,ref,key,detail,rtol=1e-9,atol=0.,scale=None):
        """ compares arrays; nan is never equal """
        ok,info=cmp(got,ref,rtol,atol,scale)
        if not ok:
            d=dict(detail() if callable(detail) else detail); d.update(info)
            self.fail(key,d)
        return ok
    # --- end
    def finish(self):
        for (p,k),txt in self.known.items():
            if p==self.pid and k in self.known_hit:
                say('KNOWN-FINDING: property=%s %s %s'%(p,k,txt))
        cov={}
        if self.level=='model_checking':
            cov.update(states=self.states,transitions=self.transitions,traces_validated_against_impl=self.traces)
        else:
            cov.update(evaluations=self.evaluations,distinct_nontrivial=self.nontriv,rule=self.rule)
        cov['samples']=self.samples if self.samples else ['(none)']
        cov['exhaustive']=bool(self.exhaustive and len(self.fails)==0)
        cov.update(jsonable(self.extra))
        ev={'property':self.pid,'tier':self.tier,'seed':self.seed,'level':self.level,'coverage':cov,
            'wall_s':round(time.time()-self.t0,3),'assumptions':self.assumptions,'violations':len(self.fails)}
        os.makedirs(os.path.join(VERIF,'evidence'),exist_ok=True)
        with open(os.path.join(VERIF,'evidence',self.pid+'.json'),'w') as f: json.dump(ev,f,indent=1)
        c={k:v for k,v in cov.items() if isinstance(v,(int,bool))}
        say('%s %s: %s  %s  %.1fs'%(self.pid,self.tier,'FAIL(%d)'%len(self.fails) if self.fails else 'ok',c,time.time()-self.t0))
        return 1 if self.fails else 0

class Local(Check):
    """ collects the results of one work item, in a worker process """
    def __init__(self,parent):
        self.pid=parent.pid; self.tier=parent.tier; self.thorough=parent.thorough; self.level=parent.level
        self.evaluations=self.nontriv=self.states=self.transitions=self.traces=0
        self.samples=[]; self.extra={}; self.collected=[]; self.exhaustive=True; self.keys=set()
    def fail(self,key,detail):
        if key in self.keys: return            # one per key and work item
        self.keys.add(key); self.collected.append((key,jsonable(detail)))
        if len(self.collected)>=8: raise TooMany()

_JOB=None
def _work(i):
    f,items,parent=_JOB
    loc=Local(parent); res=None
    try: res=f(loc,items[i])
    except TooMany: pass
    except BaseException as e:
        import traceback
        loc.collected.append(('exception',{'error':repr(e),'traceback':traceback.format_exc(),'item':repr(items[i])[:400]}))
    return res,loc.collected,(loc.evaluations,loc.nontriv,loc.states,loc.transitions,loc.traces),loc.samples,loc.extra,loc.exhaustive
def pmap(ck,f,items,nproc=None):
    """ f(local check,item) for all items, in forked workers; results and failures are merged in the order of the items """
    global _JOB
    import multiprocessing as mp
    items=list(items)
    nproc=nproc or min(8,os.cpu_count() or 1,max(1,len(items)))
    _JOB=(f,items,ck)
    if nproc<=1 or len(items)<4: outs=map(_work,range(len(items)))
    else:
        pool=mp.get_context('fork').Pool(nproc)
        try: outs=pool.map(_work,range(len(items)),chunksize=max(1,len(items)//(nproc*8)))
        finally: pool.terminate(); pool.join()
    results=[]
    for res,fails,c,samples,extra,exh in outs:
        ck.evaluations+=c[0]; ck.nontriv+=c[1]; ck.states+=c[2]; ck.transitions+=c[3]; ck.traces+=c[4]
        for s_ in samples: ck.sample(s_)
        for k,v in extra.items():
            ck.extra[k]=min(v,ck.extra.get(k,v)) if k.startswith('min') else (max(v,ck.extra.get(k,v)) if k.startswith('max') else (ck.extra.get(k,0)+v if isinstance(v,(int,float)) and not isinstance(v,bool) else v))
        if not exh: ck.exhaustive=False
        for k,d in fails: ck.fail(k,d)
        results.append(res)
    return results

def cmp(got,ref,rtol=1e-9,atol=0.,scale=None):
    """ |got-ref| <= rtol*max(|ref|,scale)+atol """
    g=np.asarray(got,dtype=float); r=np.asarray(ref,dtype=float)
    if g.shape!=r.shape:
        return False,{'got_shape':list(g.shape),'ref_shape':list(r.shape)}
    if g.size==0: return True,{}
    s=np.abs(r) if scale is None else np.maximum(np.abs(r),scale)
    with np.errstate(all='ignore'):
        err=np.abs(g-r)-(rtol*s+atol)
    bad=~(err<=0)
    if not np.any(bad): return True,{}
    e=np.where(np.isnan(err),np.inf,err)
    i=int(np.argmax(np.where(bad,e,-np.inf)))
    return False,{'n_bad':int(bad.sum()),'index':i,'got':g.ravel()[i],'expected':r.ravel()[i]}

def arr(*a): return tuple(np.array(x,dtype=float) for x in a)

# --- hashing of concrete object state
def freeze(o,seen=None,depth=0):
    """ canonical, hashable description of an object: exact values of all reachable attributes """
    if seen is None: seen={}
    if isinstance(o,np.ndarray):
        base=o
        while isinstance(base.base,np.ndarray): base=base.base
        if depth<50 and id(base) in seen and base.size>0: # aliasing between attributes is part of the state
            return ('aref',seen[id(base)],o.shape,np.ascontiguousarray(o).tobytes() if o.dtype!=object else repr(o))
        seen[id(base)]=len(seen)
        if o.dtype==object: return ('ao',o.shape,tuple(freeze(x,seen,depth+1) for x in o.ravel()))
        return ('a',o.dtype.str,o.shape,np.ascontiguousarray(o+0 if o.dtype.kind in 'fc' else o).tobytes())
    if isinstance(o,(float,np.floating)): return ('f',repr(float(o)+0.0))
    if isinstance(o,(bool,np.bool_)): return ('b',bool(o))
    if isinstance(o,(int,np.integer)): return ('i',int(o))
    if o is None or isinstance(o,(str,bytes,complex)): return o
    if id(o) in seen: return ('ref',seen[id(o)])
    seen[id(o)]=len(seen)
    if isinstance(o,dict): return ('d',tuple(sorted(((repr(k),freeze(v,seen,depth+1)) for k,v in o.items()),key=lambda t:t[0])))
    if isinstance(o,(set,frozenset)): return ('s',tuple(sorted(repr(freeze(v,seen,depth+1)) for v in o)))
    if isinstance(o,(types.FunctionType,types.BuiltinFunctionType,types.MethodType,type)): return ('fn',getattr(o,'__qualname__',repr(type(o))))
    items=[]
    if isinstance(o,(list,tuple)): items.append(('l',tuple(freeze(v,seen,depth+1) for v in o)))
    if hasattr(o,'__dict__'): items.append(freeze(vars(o),seen,depth+1))
    for sl in getattr(type(o),'__slots__',()) or ():
        if hasattr(o,sl): items.append((sl,freeze(getattr(o,sl),seen,depth+1)))
    return (type(o).__name__,tuple(items))
def fhash(o):
    return hashlib.sha1(repr(freeze(o)).encode()).hexdigest()

def product(*a): return itertools.product(*a)

def norm_rows(*c):
    return np.sqrt(sum(np.asarray(x,float)**2 for x in c))
