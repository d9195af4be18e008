"""Control flow questions about a summary: dominance, loops, where values come
from, and three-valued truth of guards over a world of abstract states."""
import numpy as np
from irsum import E, pparts, mk, ptr, root

def may(w,e):
    v,p = w.ev(e); return (v != 0)|p
def must(w,e):
    v,p = w.ev(e); return (v != 0)&~p

def kids(e):
    for a in e.a:
        if isinstance(a,E): yield a
        elif isinstance(a,tuple):
            for y in a:
                if isinstance(y,E): yield y
                elif isinstance(y,tuple):
                    for z in y:
                        if isinstance(z,E): yield z
def walk(es):
    seen = set(); st = list(es)
    while st:
        x = st.pop()
        if x.n in seen: continue
        seen.add(x.n); yield x
        st += kids(x)

def origins(s,e):
    """every node e can be computed from, following loop variables to their
    entry and loop values"""
    ph = {}
    for L in s.loops.values():
        for pb,pid,v in L['enter']+L['back']: ph.setdefault(pid,[]).append(v)
    seen = {}; st = [e]
    while st:
        x = st.pop()
        if x.n in seen: continue
        seen[x.n] = x
        st += kids(x)
        if x.op == 'phi': st += ph.get(x.a[2],[])
        if x.op == 'later':
            v = s.vals.get(x.a[0])
            if v is not None: st.append(v)
    return seen

def dominators(s):
    if hasattr(s,'_dom'): return s._dom
    rpo = s.rpo; idx = {b:i for i,b in enumerate(rpo)}
    idom = {rpo[0]:rpo[0]}
    ch = True
    while ch:
        ch = False
        for b in rpo[1:]:
            new = None
            for p in s.preds[b]:
                if p in idom:
                    if new is None: new = p
                    else:
                        x,y = p,new
                        while x != y:
                            while idx[x] > idx[y]: x = idom[x]
                            while idx[y] > idx[x]: y = idom[y]
                        new = x
            if idom.get(b) != new: idom[b] = new; ch = True
    s._dom = idom
    return idom
def dominates(s,a,b):
    d = dominators(s)
    while True:
        if a == b: return True
        n = d.get(b)
        if n is None or n == b: return False
        b = n
def block_loops(s,b):
    """headers of the loops around block b, innermost first"""
    return [h for h,L in sorted(s.loops.items(),key=lambda x: len(x[1]['body'])) if b in L['body']]
def every_round(s,e,h):
    """effect e happens in every completed round of loop h"""
    return all(dominates(s,e.block,b) for b,x in s.back if x == h)
def reach(s,a,b,avoid=()):
    """block b can be reached from a without passing the blocks in avoid"""
    seen = set(); st = list(s._succs(a))
    while st:
        x = st.pop()
        if x in seen: continue
        if x == b: return True
        seen.add(x)
        if x in avoid: continue
        st += s._succs(x)
    return False

def put(w,space,stores,ev,on):
    """apply stores to the arrays; rows in which something is not known"""
    n = w.n; un = np.zeros(n,bool); rows = np.arange(n)
    for e in stores:
        g,pg = ev(e.guard); v,pv = ev(e.ptr); x,px = ev(e.val)
        g = on & ((g != 0)|pg)
        mine = pparts(e.ptr)[0].n in w.addr
        if mine: un |= g & (pg|pv)
        for lo,es,cnt,f in space:
            k = g & ~pv & ~pg & (v >= lo)&(v < lo+es*cnt)
            if not k.any(): continue
            i = np.where(k,(v-lo)//es,0); o = np.where(k,(v-lo)%es,-1)
            for off,t in f.items():
                q = k & (o == off)
                if not q.any(): continue
                un |= q & px
                t[rows[q],i[q]] = x[q]
    return un
def copied(space): return [(lo,es,cnt,{o:t.copy() for o,t in f.items()}) for lo,es,cnt,f in space]
class Rounds:
    """the rounds of one loop, from the entry state of every row of the world:
    loop variables take the values the round before left, and so do the arrays
    the world knows the contents of (World.place)"""
    def __init__(self,s,w,h,most,space=None,done=()):
        self.s,self.w,self.h = s,w,h
        L = s.loops[h]; n = w.n
        self.phis = dict(L['phis'])
        vals = {}; on = np.zeros(n,bool); unsure = np.zeros(n,bool)
        space = copied(w.space if space is None else space)
        first = self.evaluator({},space)
        pre = [e for e in s.effects if e.kind == 'store' and e.block not in L['body'] and id(e) not in done
               and (dominates(s,e.block,h) or reach(s,e.block,h) and not reach(s,h,e.block))]
        self.pre = {id(e) for e in pre}
        unsure |= put(w,space,pre,first,np.ones(n,bool)); first = self.evaluator({},space)
        for pb in {pb for pb,_,_ in L['enter']}:
            g,p = first(s.econd[(pb,h)]); on |= (g != 0)&~p; unsure |= p
        for pid,ph in self.phis.items():
            r = None
            for pb,p_,v in L['enter']:
                if p_ != pid: continue
                x,px = first(v)
                if r is None: r = x,px
                else:
                    g,pg = first(s.econd[(pb,h)])
                    r = np.where(g != 0,x,r[0]),pg|np.where(g != 0,px,r[1])
            vals[ph.n] = r
        inner = [e for e in s.effects if e.kind == 'store' and e.block in L['body']]
        if any(x != h and x in L['body'] for x in s.loops): unsure |= on
        back = [e for e in s.effects if e.kind == 'backedge' and e.header == h]
        self.at = []; self.exitvals = {k:(v[0].copy(),v[1].copy()) for k,v in vals.items()}
        self.rounds = np.zeros(n,np.int64); self.entered = on.copy()
        for r in range(most+1):
            ev = self.evaluator(vals,space)
            self.at.append((on.copy(),ev))
            new = copied(space)
            unsure |= put(self.w,new,inner,ev,on)
            nxt = {k:(v[0].copy(),v[1].copy()) for k,v in vals.items()}; taken = np.zeros(n,bool)
            for e in back:
                g,p = ev(e.guard); unsure |= on & p
                t = on & (g != 0) & ~p; taken |= t
                for pid,v in e.phis.items():
                    ph = self.phis.get(pid)
                    if ph is None: continue
                    x,px = ev(v)
                    nxt[ph.n] = (np.where(t,x,nxt[ph.n][0]),np.where(t,px,nxt[ph.n][1]))
            ex = on & ~taken
            for k in vals: self.exitvals[k] = (np.where(ex,vals[k][0],self.exitvals[k][0]),np.where(ex,vals[k][1],self.exitvals[k][1]))
            self.rounds += taken
            vals = nxt; on = taken; space = new
            if not on.any(): break
        self.unsure = unsure | on     # never left within the bound
        self.space = space            # contents when the loop is done
        self.after = self.evaluator(self.exitvals,space)
    def evaluator(self,vals,space):
        from veval import VEval
        import copy
        w = copy.copy(self.w); w.space = space; w.spaces = {}; tag = 'L%d' % self.h
        def leaf(e,ev):
            r = vals.get(e.n)
            if r is not None: return r
            # memory as the loop found it in this round, or as it was before
            if e.op == 'ld' and e.a[2] != tag: return self.w.leaf(e,ev)
            return w.leaf(e,ev)
        return w.evaluator(leaf) if hasattr(w,'evaluator') else VEval(w.n,leaf)
    def inside(self,e): return e.block in self.s.loops[self.h]['body']
    def happens(self,es):
        """per row: the calls of es in the order they happen, as (effect,
        evaluator) pairs; None in rows where that is not known"""
        n = self.w.n; out = [[] for _ in range(n)]
        def add(e,ev,on):
            g,p = ev(e.guard)
            for k in np.flatnonzero(on & ((g != 0)|p)):
                if out[k] is None: continue
                if p[k]: out[k] = None
                else: out[k].append((e,ev))
        ine = [e for e in es if self.inside(e)]; oute = [e for e in es if not self.inside(e)]
        for on,ev in self.at:
            for e in ine: add(e,ev,on)
        every = np.ones(n,bool)
        for e in oute: add(e,self.after,every)
        for k in np.flatnonzero(self.unsure): out[k] = None
        return out
    def final(self):
        """array contents at the end of the function, rows not known"""
        new = copied(self.space)
        st = [e for e in self.s.effects if e.kind == 'store' and not self.inside(e) and id(e) not in self.pre]
        un = put(self.w,new,st,self.after,np.ones(self.w.n,bool))
        return new,un|self.unsure

class Sequence(Rounds):
    """loops that follow each other, each found as the one before left things
    (inside the first round of a loop around all of them, if there is one)"""
    def __init__(self,s,w,most,outer=None):
        self.s,self.w = s,w
        hs = [h for h in s.rpo if h in s.loops and h != outer]
        space = copied(w.space); done = set(); self.runs = []
        self.unsure = np.zeros(w.n,bool)
        for h in hs:
            r = Rounds(s,w,h,most,space,done)
            space = r.space; self.runs.append(r); self.unsure |= r.unsure & r.entered
            w.spaces['L%d' % h] = space; w.exits.update(r.exitvals)
            done |= r.pre | {id(e) for e in s.effects if e.kind == 'store' and e.block in s.loops[h]['body']}
            w.ev.memo.clear()
        self.space = space; self.done = done; self.h = None
        self.after = w.ev
    def inside(self,e): return any(r.inside(e) for r in self.runs)
    def final(self):
        new = copied(self.space)
        st = [e for e in self.s.effects if e.kind == 'store' and id(e) not in self.done]
        un = put(self.w,new,st,self.after,np.ones(self.w.n,bool))
        return new,un|self.unsure
    def happens(self,es):
        n = self.w.n; out = [[] for _ in range(n)]; ev_all = np.ones(n,bool)
        seq = []
        rest = [e for e in es if not self.inside(e)]
        for r in self.runs:
            early = [e for e in rest if reach(self.s,e.block,r.h)]
            seq += [(e,self.after,ev_all) for e in early]; rest = [e for e in rest if not any(e is x for x in early)]
            for on,ev in r.at: seq += [(e,ev,on) for e in es if r.inside(e)]
        for e,ev,on in seq+[(e,self.after,ev_all) for e in rest]:
            g,p = ev(e.guard)
            for k in np.flatnonzero(on & ((g != 0)|p)):
                if out[k] is None: continue
                if p[k]: out[k] = None
                else: out[k].append((e,ev))
        for k in np.flatnonzero(self.unsure): out[k] = None
        return out
