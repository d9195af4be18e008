"""The effects of a summary applied one after the other to the cells of memory
that a table of abstract states starts with: what the cells hold when the
function is left.  Loops must have no effects of their own."""
import numpy as np
from irsum import pparts, root
from veval import VEval
HOLE = object()
class Fault(Exception): pass
class Replay:
    def __init__(self,s,args,mem,models,most=8):
        """args: number -> array; mem: per row {address: value}, 8-byte cells;
        models: name -> f(self,row,[argument values],effect)->result.  A model
        raises Fault for misuse"""
        self.s = s; self.n = len(mem); self.args = {k:np.asarray(v,np.int64) for k,v in args.items()}
        self.mem = mem; self.snap = {'init':[type(m)(m) for m in mem]}; self.before = {}
        self.unknown = np.zeros(self.n,bool); self.fault = [None]*self.n
        self.res = {}; self.heap = [{} for _ in mem]; self.next = [0]*self.n; self.stored = [[] for _ in mem]
        self.models = models; self.most = most; self.exits = {}; self.why = set()
        self.newev()
        self.ret = None; self.left = np.zeros(self.n,bool)
        for e in s.effects: self.step(e)
        self.unknown |= ~self.left
    def newev(self): self.ev = VEval(self.n,self.leaf)
    def cell(self,row,a,snap):
        return snap[row].get(int(a),HOLE)
    def leaf(self,e,ev,phis=None):
        if phis and e.n in phis: return phis[e.n]
        if e.op == 'arg': return self.args.get(e.a[0])
        if e.op == 'alloca': return ev.full((1<<40)+(e.a[0]<<16))
        if e.op == 'call': return self.res.get(e.a[1])
        if e.op == 'phi':
            if e.a[1] not in self.exits: self.loop(e.a[1])
            return self.exits[e.a[1]].get(e.n)
        if e.op == 'ld':
            tag = e.a[2]
            if root(e.a[0]).op == 'alloca' and pparts(e.a[0])[0].op == 'alloca':
                if tag in self.before: return ev_(self,ev,self.s.load(self.before[tag],e.a[0],e.a[1],e.a[3]))
                return None
            if tag[0] == 'L': tag = self.entry.get(int(tag[1:]))
            sn = self.snap.get(tag)
            if sn is None or e.a[1] not in self.wid: return None
            v,p = ev(e.a[0]); r = np.zeros(self.n,np.int64); bad = p.copy(); seq = self.seq.get(tag,0); rt = root(e.a[0])
            for k in np.flatnonzero(~p):
                x = sn[k].get(int(v[k]),HOLE)
                if x is HOLE or x is None: bad[k] = True
                else: r[k] = x
                # a store the summary took to be elsewhere
                if any(a == v[k] and i >= seq and q is not None and q is not rt for i,a,q in self.stored[k]): bad[k] = True
            return r,bad
    wid = {8}; seq = {'init':0}
    entry = {}
    def loop(self,h):
        self.exits[h] = {}
        if any(e.kind != 'backedge' and e.block in self.s.loops[h]['body'] and e.kind in ('store','call','copy','set') and not self.ispure(e) and self.inner(h,e) for e in self.s.effects):
            self.why.add('a loop with effects'); return
        L = self.s.loops[h]; vals = {}; on = np.zeros(self.n,bool)
        # what the loop finds in memory
        self.entry = dict(self.entry); self.entry[h] = self.last()
        for pb in {pb for pb,_,_ in L['enter']}:
            g,p = self.ev(self.s.econd[(pb,h)]); on |= (g != 0)&~p
        for pid,ph in L['phis'].items():
            r = None
            for pb,p_,v in L['enter']:
                if p_ != pid: continue
                x,px = self.ev(v)
                if r is None: r = x,px
                else:
                    g,pg = self.ev(self.s.econd[(pb,h)]); r = np.where(g != 0,x,r[0]),pg|np.where(g != 0,px,r[1])
            vals[ph.n] = r
        back = [e for e in self.s.effects if e.kind == 'backedge' and e.header == h]; ids = {pid:ph.n for pid,ph in L['phis'].items()}
        for _ in range(self.most+1):
            cur = dict(vals); ev = VEval(self.n,lambda e,v: self.leaf(e,v,cur)); nxt = {k:(v[0].copy(),v[1].copy()) for k,v in vals.items()}; taken = np.zeros(self.n,bool)
            for e in back:
                g,p = ev(e.guard); t = on & (g != 0) & ~p; taken |= t
                for k in vals: nxt[k] = (nxt[k][0],nxt[k][1]|(on&p))
                for pid,v in e.phis.items():
                    if pid in ids:
                        x,px = ev(v); k = ids[pid]
                        nxt[k] = (np.where(t,x,nxt[k][0]),np.where(t,px,nxt[k][1]))
            vals = nxt; on = taken
            if not on.any(): break
        for k in vals: vals[k] = (vals[k][0],vals[k][1]|on)
        self.exits[h] = vals
        self.newev()
    def ispure(self,e): return False
    def inner(self,h,e):
        from flow import reach
        return reach(self.s,e.block,h)
    def last(self):
        return max((t for t in self.snap),key=lambda t: self.seq.get(t,0))
    count = 0
    def step(self,e):
        if e.kind not in ('store','call','copy','set','ret'): return
        g,pg = self.ev(e.guard); on = (g != 0)&~pg
        if pg.any(): self.unknown |= pg; self.why.add('whether %s happens' % e.kind)
        if e.kind == 'ret':
            if e.val is not None:
                v,p = self.ev(e.val)
                if self.ret is None: self.ret = v.copy(),p.copy()
                else: self.ret = np.where(on,v,self.ret[0]),np.where(on,p,self.ret[1])
            self.left |= on; return
        self.count += 1; i = self.count
        rows = [int(k) for k in np.flatnonzero(on&~self.unknown) if self.fault[k] is None]
        if e.kind == 'store':
            p,pp = self.ev(e.ptr); v,pv = self.ev(e.val)
            if e.size not in self.wid: self.unknown[rows] = True; self.why.add('a store of %d bytes' % e.size); return
            for k in rows:
                if pp[k]: self.unknown[k] = True; self.why.add('where a store goes'); continue
                a = int(p[k])
                if a not in self.mem[k]: self.fault[k] = 'writes outside of the memory of the sets'; continue
                self.mem[k][a] = None if pv[k] else int(v[k]); self.stored[k].append((i,a,root(e.ptr)))
            return
        if e.kind in ('copy','set'):
            if e.kind == 'set': self.unknown[rows] = True; return
            (p,pp),(q,pq),(z,pz) = self.ev(e.ptr),self.ev(e.src),self.ev(e.size); srcal = root(e.src).op == 'alloca'
            part = [self.ev(self.s.load(e.mem,__import__('irsum').ptr(e.src,o),8,'i64')) for o in range(0,e.size.a[0],8)] if srcal and e.size.op == 'const' else None
            for k in rows:
                if pp[k] or pq[k] or pz[k] or z[k]%8 or (srcal and part is None): self.unknown[k] = True; self.why.add('a copy'); continue
                if part is not None: vs = [None if x[1][k] else int(x[0][k]) for x in part]
                else: vs = [self.mem[k].get(int(q[k])+o,HOLE) for o in range(0,int(z[k]),8)]
                self.write(k,int(p[k]),vs,i,root(e.ptr))
            if e.size.op != 'const': self.snapshot('c%d' % e.k,e)
            return
        f = self.models.get(e.name)
        if f is None:
            self.unknown[rows] = True; self.why.add('a call of %s' % e.name); return
        av = []
        for a in e.args:
            if root(a).op == 'alloca' and pparts(a)[0].op == 'alloca': a = self.s.load(e.mem,a,8,'i64')   # an argument passed by reference
            av.append(self.ev(a))
        out = np.zeros(self.n,np.int64); bad = np.ones(self.n,bool)
        for k in rows:
            if any(p[k] for _,p in av): self.unknown[k] = True; self.why.add('an argument of %s' % e.name); continue
            try: r = f(self,k,[int(v[k]) for v,_ in av],i)
            except Fault as ex: self.fault[k] = str(ex); continue
            if r is not None: out[k] = r; bad[k] = False
        self.res[e.k] = (out,bad)
        self.snapshot('c%d' % e.k,e)
    def snapshot(self,tag,e):
        self.snap[tag] = [type(m)(m) for m in self.mem]; self.before[tag] = e.mem
        self.seq = dict(self.seq); self.seq[tag] = self.count+1
        self.newev()
    def write(self,k,a,vs,i,rt=None):
        for o,x in enumerate(vs):
            b = a+8*o
            if b not in self.mem[k]: self.fault[k] = 'writes outside of the memory of the sets'; return
            if x is HOLE: self.fault[k] = 'reads outside of the memory of the sets'; return
            self.mem[k][b] = x
            self.stored[k].append((i,b,rt))
def ev_(rp,ev,e):
    if e.op == 'ld': return None
    return rp.ev(e)
