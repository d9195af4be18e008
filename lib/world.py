"""Abstract valuations for summaries: a table with one row per abstract state;
arguments, fields and array regions are given values, everything a rule asks
for (guards, call arguments, memory after the function) is computed for all
rows at once."""
import itertools
import numpy as np
from irsum import pparts, mk, ptr, show, Undecided, E
from veval import VEval

class World:
    ORD = {'less':-1,'equal':0,'equivalent':0,'greater':1}
    def __init__(self,rows,names):
        self.A = np.array(list(rows),dtype=np.int64)
        if self.A.ndim == 1: self.A = self.A.reshape(-1,len(names))
        self.n = len(self.A)
        self.cols = {k:self.A[:,i] for i,k in enumerate(names)}
        self.args = {}; self.mem = {}; self.regions = {}; self.callv = {}; self.addr = {}
        self.extra = []; self.summ = None; self.space = []
        self.spaces = {}    # tag of a loop -> array contents when it was left
        self.exits = {}     # loop variable -> value when its loop was left
        self.over = set()   # headers of counting loops that are taken to be finished
        self.ev = VEval(self.n,self.leaf)
    def __getitem__(self,k): return self.cols[k]
    def __setitem__(self,k,v): self.cols[k] = v
    def arr(self,v):
        if isinstance(v,np.ndarray): return v
        return np.full(self.n,v,np.int64)
    def arg(self,k,v): self.args[k] = self.arr(v)
    def field(self,p,v): self.mem[p.n] = self.arr(v)
    def region(self,base,esize,fields,first=0):
        """fields: offset -> array [n,count]"""
        self.regions[base.n] = (esize,fields,first)
    def place(self,base,lo,esize,fields,count=1,before=0):
        """give the object(s) at `base` a numeric address and contents:
        offset -> array [n,before+count] (or [n], or a number)"""
        self.addr[base.n] = lo
        f = {}
        for o,t in fields.items():
            t = np.asarray(t)
            if t.ndim == 0: t = np.full((self.n,count+before),t,np.int64)
            elif t.ndim == 1: t = np.repeat(t[:,None],count+before,1)
            f[o] = t
        self.space.append((lo-before*esize,esize,count+before,f))
        return lo
    def fetch(self,p,ev,tag=None):
        v,po = ev(p)
        if po.all(): return None
        r = np.zeros(self.n,np.int64); bad = np.ones(self.n,bool)
        for lo,es,cnt,f in self.spaces.get(tag,self.space):
            ins = (v >= lo)&(v < lo+es*cnt)&~po
            if not ins.any(): continue
            d = v-lo; i = np.where(ins,d//es,0)
            for o,t in f.items():
                k = ins & (d%es == o)
                if k.any():
                    x = t[np.arange(self.n),i]
                    r = np.where(k,x,r); bad = bad & ~k
        if bad.all(): return None
        return r,bad
    def vectors(self,scale=4096):
        """elements of any vector live at an address computed from its own"""
        self.vscale = scale
        def f(e,ev):
            if e.op == 'alloca':
                k = self.locals.setdefault(e.n,len(self.locals)); return ev.full((1<<30)+(k<<12))
            if e.op == 'elemof':
                v,p = ev(e.a[0]); return v*scale+(1<<50),p
        self.locals = {}
        self.extra.append(f)
    def elems(self,at): return at*self.vscale+(1<<50)
    def put(self,lo,esize,fields,count):
        """contents of `count` objects at numeric address lo"""
        f = {}
        for o,t in fields.items():
            t = np.asarray(t)
            if t.ndim == 0: t = np.full((self.n,count),t,np.int64)
            elif t.ndim == 1: t = np.repeat(t[:,None],count,1)
            f[o] = t
        self.space.append((lo,esize,count,f))
    def call(self,rx,fn): self.callv[rx] = fn
    def leaf(self,e,ev):
        if e.n in self.addr: return self.arr(self.addr[e.n])
        if e.op == 'arg': return self.args.get(e.a[0])
        if e.n in self.exits: return self.exits[e.n]
        if e.op == 'phi' and self.summ is not None:
            # value in the first round: what the loop is entered with
            L = self.summ.loops[e.a[1]]
            if e.a[1] in self.over and e.a[3] != 'ptr': return self.arr(1<<20)
            vs = [(pb,v) for pb,pid,v in L['enter'] if pid == e.a[2]]
            r = None
            for pb,v in vs:
                x,p = ev(v)
                if r is None: r = x,p
                else:
                    c,pc = ev(self.summ.econd[(pb,e.a[1])])
                    r = np.where(c != 0,x,r[0]),pc|np.where(c != 0,p,r[1])
            return r
        for f in self.extra:
            r = f(e,ev)
            if r is not None: return r
        if e.op == 'ld':
            p = e.a[0]
            if p.op == 'global':
                for t,v in self.ORD.items():
                    if p.a[0].endswith('%d%sE' % (len(t),t)): return self.arr(v)
            if p.n in self.mem: return self.mem[p.n]
            b,off,vs = pparts(p)
            r = self.regions.get(b.n)
            if r is not None:
                sz,fields,first = r
                if not vs: idx = ev.full(off//sz); po = ev.none; o = off%sz
                elif len(vs) == 1 and vs[0][0] == sz:
                    idx,po = ev(vs[0][1]); idx = idx+off//sz; o = off%sz
                else: return None
                t = fields.get(o)
                if t is None:
                    for o2,t2 in fields.items():
                        if o2 <= o < o2+e.a[1] : break
                    return None
                idx = idx-first
                bad = (idx < 0)|(idx >= t.shape[1])
                return t[np.arange(self.n),np.where(bad,0,idx)],po|bad
            if self.space:
                r = self.fetch(p,ev,e.a[2])
                if r is not None: return r
            if b.op == 'alloca': return ev.full(0),~ev.none
        if e.op == 'call':
            for rx,fn in self.callv.items():
                if rx in e.a[0]: return fn(e,ev)
        return None
    def val(self,e): return self.ev.val(e)
    def __call__(self,e): return self.ev(e)
    def guard(self,e): return self.ev.val(e.guard) != 0
    def index_of(self,p,base,esize):
        """element index that pointer p (an expression) has in region base, or None"""
        b,off,vs = pparts(p)
        if b is not base: return None
        if not vs: return self.ev.full(off//esize),off%esize
        if len(vs) == 1 and vs[0][0] == esize: return self.ev.val(vs[0][1])+off//esize,off%esize
        return None

def grid(*cols): return itertools.product(*cols)
def atoms(es,stop=('ld','call','arg','phi')):
    """leaves below the expressions"""
    seen = set(); out = []
    st = list(es)
    while st:
        x = st.pop()
        if x.n in seen: continue
        seen.add(x.n)
        if x.op in stop: out.append(x); continue
        for a in x.a:
            if isinstance(a,E): st.append(a)
            elif isinstance(a,tuple):
                for y in a:
                    if isinstance(y,E): st.append(y)
                    elif isinstance(y,tuple): st += [z for z in y if isinstance(z,E)]
    return out
def mentions(e,pred):
    """some node below e satisfies pred (also below loads and calls)"""
    seen = set(); st = [e]
    while st:
        x = st.pop()
        if x.n in seen: continue
        seen.add(x.n)
        if pred(x): return True
        for a in x.a:
            if isinstance(a,E): st.append(a)
            elif isinstance(a,tuple):
                for y in a:
                    if isinstance(y,E): st.append(y)
                    elif isinstance(y,tuple): st += [z for z in y if isinstance(z,E)]
    return False
