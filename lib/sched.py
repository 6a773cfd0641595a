"""
Controlled scheduler: runs operations in real threads, one at a time, switching exactly where the schedule says.
The scheduling points are the lines (or bytecodes) executed in the files of the library, given by sys.settrace.
A schedule is a list of segments (thread, number of scheduling points); afterwards the threads run to completion in order.
"""
import sys, os, threading, time, _thread
import wiz
LIBDIR=os.path.dirname(os.path.abspath(wiz.__file__))
_known={}
def mine(co):
    f=co.co_filename
    r=_known.get(f)
    if r is None: r=_known[f]=os.path.abspath(f).startswith(LIBDIR)
    return r
class Run:
    STALL=.25
    def __init__(self,ops,schedule,opcodes=False,order=None,visits=2):
        """ order: threads run to completion after the schedule (default 0,1,..); a line is a scheduling point at its first `visits` executions by the thread (iterative loops) """
        n=len(ops); self.ops=ops; self.op=opcodes; self.visits=visits; self.seen=[{} for _ in ops]
        self.segs=list(schedule)+[(t,None) for t in (order or range(n))]
        self.gate=[_thread.allocate_lock() for _ in ops]
        for g in self.gate: g.acquire()
        self.left=[None]*n; self.done=[False]*n; self.count=[0]*n; self.res=[None]*n; self.exc=[None]*n
        self.measure=not schedule; self.free=False; self.total=0; self.switches=0; self.end=threading.Event()
    def next(self):
        """ gives control to the thread of the next segment; returns it """
        while self.segs:
            t,k=self.segs.pop(0)
            if self.done[t] or k==0: continue
            self.left[t]=k; self.cur=t; return t
        return None
    def switch(self,me):
        t=self.next()
        if t is None or t==me: return
        self.switches+=1
        self.gate[t].release()
        self.wait(me)
    def wait(self,me):
        while not self.gate[me].acquire(timeout=self.STALL):
            if self.free: return
            seen=self.total
            if not self.gate[me].acquire(timeout=self.STALL):
                if self.total==seen or self.free:
                    self.free=True; return         # the running thread is blocked (e.g. on a lock held here): no control any more
            else: return
    def tracer(self,me):
        seen=self.seen[me]; V=self.visits
        def loc(fr,ev,arg):
            if self.left[me] is None and self.segs is not None and not self.measure and not any(t==me and k is not None for t,k in self.segs):
                sys.settrace(None); return None            # runs to completion
            if ev==self.kind and not self.free:
                self.total+=1
                q=(fr.f_code,fr.f_lasti); v=seen.get(q,0)
                if v>=V: return loc
                seen[q]=v+1; self.count[me]+=1
                l=self.left[me]
                if l is not None:
                    if l==0: self.switch(me)
                    l=self.left[me]
                    if l is not None: self.left[me]=l-1
            return loc
        if self.op:
            def glob(fr,ev,arg):
                if mine(fr.f_code): fr.f_trace_opcodes=True; return loc
        else:
            def glob(fr,ev,arg):
                if mine(fr.f_code): return loc
        return glob
    def body(self,me):
        self.wait(me)
        if self.measure or self.left[me] is not None or any(t==me and k is not None for t,k in self.segs): sys.settrace(self.tracer(me))
        try: self.res[me]=self.ops[me]()
        except BaseException as e: self.exc[me]=e
        finally:
            sys.settrace(None)
            self.done[me]=True
            if all(self.done): self.end.set()
            if not self.free:
                t=self.next()
                if t is not None: self.gate[t].release()
    def run(self):
        self.kind='opcode' if self.op else 'line'
        ts=[threading.Thread(target=self.body,args=(i,),daemon=True) for i in range(len(self.ops))]
        for t in ts: t.start()
        self.gate[self.next()].release()
        for i in range(600):
            if self.end.wait(.5): break
            if self.free and not all(self.done):
                for g in self.gate:
                    try: g.release()
                    except RuntimeError: pass
        for t in ts: t.join(timeout=5)
        if not all(self.done): raise Exception('threads do not end')
        return self
