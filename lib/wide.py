"""VEval over exact integers of any width."""
import numpy as np
from veval import VEval
OPS = ('add','sub','mul','xor','shl','lshr','ashr','sdiv','srem','udiv','urem')
def sgn(v,w):
    if w == 1: return v & 1
    h = 1<<(w-1)
    return ((v+h) & ((1<<w)-1))-h
def obj(v): return v if v.dtype == object or v.dtype.kind == 'f' else v.astype(object)
class Wide(VEval):
    def full(self,x):
        r = np.empty(self.n,object); r[:] = int(x); return r
    def _ev(self,e):
        v,p = self._wide(e)
        return obj(np.asarray(v)),p
    def _wide(self,e):
        op,a = e.op,e.a
        g = lambda x: self.memo[x.n]
        if op in OPS or (op in ('and','or') and len(a) == 3):
            w = a[0]; (x,p),(y,q) = g(a[1]),g(a[2]); bad = p|q
            m = (1<<w)-1
            if op == 'add': r = x+y
            elif op == 'sub': r = x-y
            elif op == 'mul': r = x*y
            elif op == 'xor': r = x^y
            elif op == 'and': r = x&y
            elif op == 'or': r = x|y
            elif op in ('shl','lshr','ashr'):
                s = y & m; bad = bad | np.array([k >= w for k in s],bool); s = np.array([min(int(k),w-1) for k in s],object)
                r = x<<s if op == 'shl' else (x&m)>>s if op == 'lshr' else x>>s
            else:
                z = np.array([k == 0 for k in y],bool); yy = np.where(z,1,y); bad = bad|z
                if op[0] == 'u': xx,yy = x&m,yy&m; qn = xx//yy; rr = xx%yy
                else:
                    qn = np.array([abs(int(i))//abs(int(j))*(1 if (i < 0) == (j < 0) else -1) for i,j in zip(x,yy)],object); rr = x-qn*yy
                r = qn if op.endswith('div') else rr
            return sgn(obj(np.asarray(r)),w),bad
        if op == 'icmp':
            (x,p),(y,q) = g(a[2]),g(a[3]); pr,w = a[0],a[1]
            if pr[0] == 'u' : x,y = x&((1<<w)-1),y&((1<<w)-1)
            k = pr if pr in ('eq','ne') else pr[1:]
            r = {'eq':x==y,'ne':x!=y,'lt':x<y,'le':x<=y,'gt':x>y,'ge':x>=y}[k]
            return np.asarray(r,dtype=bool).astype(object)*1,p|q
        if op == 'sext': v,p = g(a[2]); return (v if a[0] != 1 else -v),p
        if op == 'zext': v,p = g(a[2]); return v&((1<<a[0])-1),p
        if op == 'trunc': v,p = g(a[2]); return sgn(v,a[1]),p
        if op == 'concat':
            v = self.full(0); p = self.none
            for o,sz,x in a[0]: y,q = g(x); v = v | ((y&((1<<(8*sz))-1)) << (8*o)); p = p|q
            return sgn(v,8*max(o+sz for o,sz,_ in a[0])),p
        if op == 'bits': v,p = g(a[0]); return sgn(v >> (8*a[1]),8*a[2]),p
        if op == 'intr':
            nm = a[0]; vs = [g(y) for _,y in a[1]]
            p = self.none
            for _,q in vs: p = p|q
            r = self.intrinsic(nm,[v for v,_ in vs],e)
            if r is not None: return r,p
        if op == 'ext' and a[0].op == 'intr' and '.with.overflow.' in a[0].a[0]:
            k = a[0].a[0].split('.'); w = int(k[-1][1:]); m = (1<<w)-1
            (x,p),(y,q) = [g(z) for _,z in a[0].a[1]]
            if k[0][0] == 'u': x,y = x&m,y&m
            r = x+y if 'add' in k[0] else x-y if 'sub' in k[0] else x*y
            if a[1] == 0: return sgn(obj(np.asarray(r)),w),p|q
            r = (r < 0)|(r > m) if k[0][0] == 'u' else (r < -(1<<(w-1)))|(r >= 1<<(w-1))
            return np.asarray(r,dtype=bool).astype(object)*1,p|q
        if op in ('not','and','or','ite','ptr','const','undef','null','fconst'): return super()._ev(e)
        return super()._ev(e)
    def intrinsic(self,nm,xs,e):
        k = nm.split('.')
        w = next((int(t[1:]) for t in k if t[:1] == 'i' and t[1:].isdigit()),64); m = (1<<w)-1
        o = np.minimum if 'min' in k[0] else np.maximum
        if k[0] in ('smin','smax'): return o(xs[0],xs[1])
        if k[0] in ('umin','umax'): return sgn(o(xs[0]&m,xs[1]&m),w)
        if k[0] == 'abs': return sgn(np.abs(xs[0]),w)
        if k[0] == 'ctlz': return np.array([w-int(v&m).bit_length() for v in xs[0]],object)
        if k[0] in ('fshl','fshr'):
            s = np.array([int(v)%w for v in xs[2]],object); c = ((xs[0]&m)<<w)|(xs[1]&m)
            return sgn((c<<s)>>w if k[0] == 'fshl' else c>>s,w)
        return None

from world import World
from irsum import pparts
class WideWorld(World):
    """tables over exact integers of any width"""
    ORD = {'less':-1,'equal':0,'equivalent':0,'greater':1}
    def __init__(self,cols):
        n = len(next(iter(cols.values())))
        super().__init__([(0,)]*n,['_'])
        self.cols = {k:obj(np.asarray(v,dtype=object)) for k,v in cols.items()}
        self.ev = Wide(self.n,self.leaf)
    def evaluator(self,leaf): return Wide(self.n,leaf)
    def arr(self,v):
        if isinstance(v,np.ndarray): return v
        r = np.empty(self.n,object); r[:] = v; return r
    def put(self,lo,esize,fields,count):
        f = {}
        for o,t in fields.items():
            if not isinstance(t,np.ndarray): t = np.full((self.n,count),t,object)
            elif t.ndim == 1: t = np.repeat(t[:,None],count,1)
            f[o] = t.astype(object)
        self.space.append((lo,esize,count,f))
    def fetch(self,p,ev,tag=None):
        v,po = ev(p)
        if po.all(): return None
        v = np.array([int(x) if abs(int(x)) < 1<<62 else 0 for x in v],np.int64)
        r = np.zeros(self.n,object); bad = np.ones(self.n,bool)
        for lo,es,cnt,f in self.spaces.get(tag,self.space):
            ins = (v >= lo)&(v < lo+es*cnt)&~po
            if not ins.any(): continue
            d = v-lo; i = np.where(ins,d//es,0)
            for o,t in f.items():
                k = ins & (d%es == o)
                if k.any(): r = np.where(k,t[np.arange(self.n),i],r); bad = bad & ~k
        if bad.all(): return None
        return r,bad
    def leaf(self,e,ev):
        if e.op == 'ld':
            b = pparts(e.a[0])[0]
            if b.op == 'global':
                k = [v for t,v in self.ORD.items() if b.a[0].endswith('%d%sE' % (len(t),t))]
                if k: return self.arr(k[0]),np.zeros(self.n,bool)
        return super().leaf(e,ev)
