"""Paths of gluepath with polynomial values: addresses and counts are polynomials over what NumPy's iterator
gave (first address, stride and length of each run), memory outside the frame is read as a value of its address."""
from gluepath import Path, C, NULL
from poly import padd, pmul

PTRK = ('alloca','p','obj','iter','fp','ts','none','fn','g','null','elem','borrowed','undef','?')
WRAP = {'zext','sext','freeze','bitcast','ptrtoint','inttoptr'}
def to(v):
    """polynomial of a value, None for a pointer into the frame or an object"""
    if v[0] == 'c': return {():v[1]} if v[1] else {}
    if v[0] == 'pl': return dict(v[1])
    if v[0] == 'null': return {}
    if v[0] in ('alloca','p','elem','undef','?','agg'): return None
    return {(v,):1}
def of(p):
    if not p: return C(0)
    if len(p) == 1:
        (m,c), = p.items()
        if m == (): return C(c)
        if len(m) == 1 and c == 1: return m[0]
    return ('pl',tuple(sorted(p.items(),key=str)))
def pm(p,q):
    r = {}
    for m,c in p.items():
        for n,d in q.items():
            k = tuple(sorted(m+n,key=str)); r[k] = r.get(k,0)+c*d
            if r[k] == 0: del r[k]
    return r
def atoms(p): return {a for m in p for a in m}
def value(p,asg):
    t = 0
    for m,c in p.items():
        for a in m: c *= asg[a]
        t += c
    return t
PRED = {'eq':lambda d:d == 0,'ne':lambda d:d != 0,'slt':lambda d:d < 0,'sle':lambda d:d <= 0,'sgt':lambda d:d > 0,'sge':lambda d:d >= 0}
class APath(Path):
    limit = 6
    def __init__(self,*a): super().__init__(*a); self.ver = 0; self.res = {}; self.snap = {}; self.known = {}; self.unlike = set()
    def gep(self,b,off):
        p = to(b)
        return of(padd(p,{():off})) if p is not None and off and b[0] not in PTRK else super().gep(b,off)
    def run(self):
        f = self.f; b = 0; prev = None
        from gluepath import Stop, Undec
        while True:
            self.visits[b] = self.visits.get(b,0)+1
            if self.visits[b] > self.limit: raise Stop()
            blk = f['blocks'][b]; phis = []
            for i in blk:
                if i['op'] != 'phi': break
                for o,pb in i['in']:
                    if pb == prev: phis.append((i['id'],self.val(o))); break
            for k,v in phis: self.env[k] = v
            nxt = None
            for i in blk:
                if i['op'] == 'phi': continue
                if i.get('line'): self.line = i['line']; self.file = i.get('file') or self.file
                nxt = self.step(i)
                if nxt is not None: break
            if nxt is None: raise Undec('block without an end')
            if isinstance(nxt,tuple): return nxt
            prev,b = b,nxt
    def pure(self,v):
        """a value that NumPy's arrays gave or a number"""
        return v[0] in ('c','pl','ld','call','op','x','arg','null','ev')
    def icmp(self,pred,a,b):
        if pred in PRED and a[0] not in ('zext','eq','not','cmp') and b[0] not in ('zext','eq','not','cmp'):
            p,q = to(a),to(b)
            if p is not None and q is not None and a[0] not in PTRK and (b[0] not in PTRK or b == NULL):
                d = padd(p,q,-1)
                if all(m == () for m in d): return C(int(PRED[pred](d.get((),0))))
                # the address of array data is not null
                if b == NULL or (b == C(0) and self.isptr(p)): 
                    if self.isptr(p): return C(int(pred == 'ne'))
                elif pred in ('eq','ne') or True: return ('cmp',pred,of(d))
        return super().icmp(pred,a,b)
    def isptr(self,p): return any(m and len(m) == 1 and m[0][0] == 'ld' and m[0] in self.ptrs for m in p)
    ptrs = ()
    def truth(self,v):
        if v[0] == 'cmp':
            # what earlier tests say about the only value this one depends on
            d = to(v[2]); at = list(atoms(d)) if d is not None else []
            one = at[0] if len(at) == 1 and set(d) <= {(),(at[0],)} else None
            r = None
            if one is not None:
                c,k = d[(one,)],d.get((),0)
                if one in self.known: r = PRED[v[1]](c*self.known[one]+k)
                elif v[1] in ('eq','ne') and (k % c or (one,-k//c) in self.unlike): r = v[1] == 'ne'
            if r is not None: self.events.append(('cond',v[1],v[2],r,self.at())); return r
            r = self.choose(('cmp',)+v[1:]+(self.ver,),[False,True])
            if one is not None and v[1] in ('eq','ne'):
                if r == (v[1] == 'eq'): self.known[one] = -k//c
                else: self.unlike.add((one,-k//c))
            self.events.append(('cond',v[1],v[2],r,self.at())); return r
            r = self.choose(('cmp',)+v[1:]+(self.ver,),[False,True])
            self.events.append(('cond',v[1],v[2],r,self.at())); return r
        return super().truth(v)
    def step(self,i):
        op = i['op']; me = i['id']
        if op == 'getelementptr' and i.get('vars') and 'base' in i:
            b = self.val(i['base']); p = to(b)
            if p is not None and (b[0] not in PTRK):
                p = padd(p,{():i['off']}) if i['off'] else p
                for o,s in i['vars']:
                    q = to(self.val(o))
                    if q is None: p = None; break
                    p = padd(p,pm(q,{():s}))
                if p is not None: self.env[me] = of(p); return None
        if op in ('add','sub','mul','shl') and i.get('ty') in ('i64','ptr'):
            a,b = to(self.val(i['ops'][0])),to(self.val(i['ops'][1]))
            if a is not None and b is not None:
                if op == 'shl':
                    if set(b) <= {()} and 0 <= b.get((),0) < 63: self.env[me] = of(pm(a,{():1 << b.get((),0)})); return None
                else: self.env[me] = of(pm(a,b) if op == 'mul' else padd(a,b,1 if op == 'add' else -1)); return None
        if op == 'trunc' and i.get('ty') not in ('i1','i8'):
            v = self.val(i['ops'][0])
            if v[0] != 'c': self.env[me] = ('op','trunc',v); return None
        if op == 'load':
            p = self.val(i['ops'][0]); c = self.cell(p)
            if c not in self.mem and p[0] not in PTRK:
                v = self.env[me] = ('ld',c,self.ver if p[0] == 'call' else 0)
                if i.get('ty') == 'ptr': self.ptrs = self.ptrs+(v,)
                self.events.append(('load',v,self.at())); return None
        if op == 'store':
            p = self.val(i['ops'][1])
            if p == NULL or p[0] not in PTRK: self.events.append(('store',p,self.val(i['ops'][0]),self.at(),i.get('size')))
        return super().step(i)
    def intrinsic(self,i,name,args):
        if name.startswith(('llvm.memcpy','llvm.memmove','llvm.memset')) and args[0][0] not in PTRK: self.events.append(('bulk',args[0],self.at()))
        return super().intrinsic(i,name,args)
    def call(self,i):
        c = i['callee']; n = len(self.events)
        if c[0] == 'v' and self.val(c)[0] == 'fp':
            r = self.choose(('next',self.ver,self.pos),[True,False])
            self.events.append(('next',r,self.at())); self.ver += 1
            # what was read of the pointer tables is stale
            self.env[i['id']] = C(int(r))
            return self.goto(i)
        snap = {a:tuple(sorted(((k[1],x) for k,x in self.mem.items() if k[0] == self.cell(a)[0]),key=str)) for a in map(self.val,i['args']) if a[0] in ('alloca','p')}
        r = super().call(i)
        if len(self.events) > n: self.snap[n] = snap
        if len(self.events) > n and self.events[n][0] in ('call','api'): self.res[n] = self.env.get(i['id'])
        return r
def paths(g,f,limit=4000,cls=APath):
    """all paths of f"""
    from gluepath import Stop, Undec
    script = []; n = 0
    while True:
        p = cls(g,f,script)
        try: out = p.run()
        except Stop: out = ('loop',)
        yield p,out
        n += 1
        if n > limit: raise Undec('more than %d paths' % limit)
        made = p.made
        while made and made[-1][0] == made[-1][1]-1: made = made[:-1]
        if not made: return
        script = [m[0] for m in made[:-1]]+[made[-1][0]+1]
class OkPath(APath):
    """nothing fails"""
    limit = 3
    def fork(self,what): return False
    def choose(self,key,opts):
        if key[0] in ('throws','needs','nodtype'): return opts[0]
        return super().choose(key,opts)
