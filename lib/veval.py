"""Meaning of summary expressions over a whole finite abstract domain at once:
every node becomes an array with one entry per abstract valuation.  Undefined
values are tracked as "poison" and only matter where they are selected."""
import numpy as np
from irsum import Undecided, show, E

I64 = np.int64
def wrap(v,w):
    if w == 1: return v & 1
    if w >= 64: return v
    m = (1<<w)-1
    v = v & m
    return np.where(v >> (w-1), v - (1<<w), v)
def uns(v,w):
    if w >= 64: return v.astype(np.uint64)
    return v & ((1<<w)-1)

class VEval:
    def __init__(self,n,leaf):
        """leaf(e,self) -> array (or (array,poison)), or None"""
        self.n = n; self.leaf = leaf; self.memo = {}; self.unknown = []
        self.none = np.zeros(n,bool)
    def full(self,x): return np.full(self.n,x,I64)
    def __call__(self,e):
        """values, poison"""
        # iterative post-order to keep recursion shallow
        r = self.memo.get(e.n)
        if r is not None: return r
        stack = [e]
        while stack:
            x = stack[-1]
            if x.n in self.memo: stack.pop(); continue
            ks = [k for k in self.kids(x) if k.n not in self.memo]
            if ks: stack.extend(ks); continue
            self.memo[x.n] = self._ev(x)
            stack.pop()
        return self.memo[e.n]
    LEAVES = ('arg','ld','call','phi','elemof','alloca','global','intr','exc','vsz','fn','landingpad','later')
    def kids(self,e):
        if e.op in self.LEAVES:
            if e.op == 'intr': return [y for _,y in e.a[1]]
            return []
        out = []
        for x in e.a:
            if isinstance(x,E): out.append(x)
            elif isinstance(x,tuple):
                for y in x:
                    if isinstance(y,E): out.append(y)
                    elif isinstance(y,tuple): out += [z for z in y if isinstance(z,E)]
        return out
    def val(self,e,what=''):
        v,p = self(e)
        if p.any(): raise Undecided('undefined value used%s%s' % (what,' (no meaning for %s)' % show(self.unknown[0],4) if self.unknown else ''))
        return v
    def _ev(self,e):
        op = e.op; a = e.a
        g = lambda x: self.memo[x.n]
        if op == 'const': return self.full(a[0]),self.none
        if op == 'fconst': return np.full(self.n,float(a[0])),self.none
        if op == 'undef': return self.full(0),~self.none
        if op == 'null': return self.full(0),self.none
        if op == 'not': v,p = g(a[0]); return (v==0).astype(I64),p
        if op == 'and' and len(a) == 2:
            (x,p),(y,q) = g(a[0]),g(a[1])
            # false & undefined is false
            return ((x!=0)&(y!=0)).astype(I64), (p&q)|(p&(y!=0))|(q&(x!=0))
        if op == 'or' and len(a) == 2:
            (x,p),(y,q) = g(a[0]),g(a[1])
            return ((x!=0)|(y!=0)).astype(I64), (p&q)|(p&(y==0))|(q&(x==0))
        if op == 'ite':
            (c,pc),(x,p),(y,q) = g(a[0]),g(a[1]),g(a[2])
            if x.dtype != y.dtype: x = x.astype(float); y = y.astype(float)
            return np.where(c!=0,x,y), pc|np.where(c!=0,p,q)
        if op == 'icmp':
            (x,p),(y,q) = g(a[2]),g(a[3])
            pr = a[0]; w = a[1]
            if pr[0] == 'u': x,y = uns(x,w),uns(y,w)
            r = {'eq':x==y,'ne':x!=y}.get(pr)
            if r is None:
                k = pr[1:]
                r = x<y if k == 'lt' else x<=y if k == 'le' else x>y if k == 'gt' else x>=y
            return r.astype(I64),p|q
        if op in ('add','sub','mul','xor','shl','lshr','ashr','sdiv','srem','udiv','urem') or (op in ('and','or') ):
            w = a[0]; (x,p),(y,q) = g(a[1]),g(a[2])
            bad = p|q
            if op == 'add': r = x+y
            elif op == 'sub': r = x-y
            elif op == 'mul': r = x*y
            elif op == 'xor': r = x^y
            elif op == 'and': r = x&y
            elif op == 'or': r = x|y
            elif op == 'shl': r = np.left_shift(x,np.clip(y,0,63))
            elif op == 'lshr': r = np.right_shift(uns(x,w),np.clip(y,0,63).astype(uns(x,w).dtype)).astype(I64)
            elif op == 'ashr': r = np.right_shift(x,np.clip(y,0,63))
            else:
                z = y == 0
                yy = np.where(z,1,y)
                if op[0] == 'u': xx,yy = uns(x,w),uns(yy,w); qn = xx//yy; rr = xx%yy
                else:
                    qn = np.sign(x)*np.sign(yy)*(np.abs(x)//np.abs(yy)); rr = x-qn*yy
                r = (qn if op.endswith('div') else rr).astype(I64)
                bad = bad|z
            return wrap(r,w),bad
        if op == 'sext': v,p = g(a[2]); return (v if a[0] != 1 else -v),p
        if op == 'zext': v,p = g(a[2]); return uns(v,a[0]).astype(I64),p
        if op == 'trunc': v,p = g(a[2]); return wrap(v,a[1]),p
        if op == 'sitofp': v,p = g(a[2]); return v.astype(float),p
        if op == 'uitofp': v,p = g(a[2]); return uns(v,a[0]).astype(float),p
        if op in ('fptosi','fptoui'):
            v,p = g(a[2]); bad = ~np.isfinite(v)
            return wrap(np.where(bad,0,np.trunc(v)).astype(I64),a[1]),p|bad
        if op in ('fpext','fptrunc'): return g(a[2])
        if op in ('fadd','fsub','fmul','fdiv'):
            (x,p),(y,q) = g(a[0]),g(a[1])
            with np.errstate(all='ignore'):
                r = x+y if op == 'fadd' else x-y if op == 'fsub' else x*y if op == 'fmul' else x/y
            return r,p|q
        if op == 'fneg': v,p = g(a[0]); return -v,p
        if op == 'fcmp':
            (x,p),(y,q) = g(a[1]),g(a[2])
            k = a[0][1:]
            with np.errstate(all='ignore'):
                r = {'eq':x==y,'ne':x!=y,'lt':x<y,'le':x<=y,'gt':x>y,'ge':x>=y}.get(k)
                un = np.isnan(x)|np.isnan(y)
            if a[0] == 'ord': r = ~un
            elif a[0] == 'uno': r = un
            else: r = (r & ~un) if a[0][0] == 'o' else (r|un)
            return r.astype(I64),p|q
        if op == 'ext' and a[0].op == 'intr' and a[0].a[0].split('.')[0] in ('uadd','usub') and '.with.overflow.i' in a[0].a[0]:
            (x,p),(y,q) = [g(z) for _,z in a[0].a[1]]; w = int(a[0].a[0].rsplit('.i',1)[1])
            with np.errstate(all='ignore'): s = wrap(x+y if a[0].a[0][1] == 'a' else x-y,w)
            if a[1] == 0: return s,p|q
            c = uns(s,w) < uns(x,w) if a[0].a[0][1] == 'a' else uns(x,w) < uns(y,w)
            return c.astype(I64),p|q
        r = self.leaf(e,self)
        if r is not None:
            if isinstance(r,tuple): return r
            if not isinstance(r,np.ndarray): r = np.full(self.n,r)
            if r.dtype == bool: r = r.astype(I64)
            return r,self.none
        if op == 'intr':
            vs = [g(y) for _,y in a[1]]
            nm = a[0].split('.')[0]
            p = self.none
            for _,q in vs: p = p|q
            xs = [v for v,_ in vs]
            f = {'floor':np.floor,'ceil':np.ceil,'fabs':np.abs,'sqrt':np.sqrt,'round':lambda x: np.sign(x)*np.floor(np.abs(x)+.5),'trunc':np.trunc}.get(nm)
            if f: return f(xs[0]),p
            if nm == 'fmuladd' or nm == 'fma': return xs[0]*xs[1]+xs[2],p
        if op == 'concat':
            v = np.zeros(self.n,I64); p = self.none
            for o,sz,x in a[0]:
                y,q = g(x); v = v | (uns(y,sz*8).astype(I64) << (8*o)); p = p|q
            tot = max(o+sz for o,sz,_ in a[0])
            return wrap(v,tot*8),p
        if op == 'bits':
            v,p = g(a[0]); return wrap(v >> (8*a[1]),8*a[2]),p
        if op == 'ptr':
            (v,q) = g(a[0])
            off,vs = a[1],a[2]
            v = v+off
            for sc,x in vs:
                if not isinstance(sc,int): return self.full(0),~self.none
                y,r = g(x); v = v+sc*y; q = q|r
            return v,q
        # unknown: only matters where it's selected
        self.unknown.append(e)
        return self.full(0),~self.none
