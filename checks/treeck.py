"""P65: the red-black tree of the sweep (witness/tree.cpp)."""
import itertools
import numpy as np
from harness import Check, Inconclusive
from irsum import Summary
from replay import Replay, Fault, HOLE
from checks.meta import TABLE
from build import witness
H = 1                      # the header
LM,RM = 900,901            # first and last node where they lie in subtrees that are not looked into
GET = {'g_parent':'p','g_left':'l','g_right':'r','g_color':'c'}
SET = {'s_parent':'p','s_left':'l','s_right':'r','s_color':'c'}
BASE = 'opaque ^poly_ops::detail::bstree_algorithms_base::(minimum|maximum|next_node|prev_node|is_header)$'
def down(m,n,f):
    while m[n,f]: n = m[n,f]
    return n
def succ(m,n):
    if m[n,'r']: return down(m,m[n,'r'],'l')
    while m[n,'p'] != H and n == m[m[n,'p'],'r']: n = m[n,'p']
    return m[n,'p']
def pred(m,n):
    if n == H: return m[H,'r']
    if m[n,'l']: return down(m,m[n,'l'],'r')
    while m[n,'p'] != H and n == m[m[n,'p'],'l']: n = m[n,'p']
    return m[n,'p']
class RR(Replay):
    """the first round of a loop with effects: its variables are what it is
    entered with; where it goes round again is noted"""
    pure = True
    def newev(self):
        if not hasattr(self,'byk'):
            self.byk = {e.k:e for e in self.s.effects if e.kind == 'call'}; self.again = [None]*self.n; self.calls = [[] for _ in range(self.n)]
            self.nosets = not any(e.kind == 'call' and e.name in SET for e in self.s.effects)
        Replay.newev(self)
    def ispure(self,e): return self.nosets and e.kind == 'call' and (e.name in GET or e.name == 'w_less' or e.name.rsplit('::',1)[-1] in ('minimum','maximum','next_node','prev_node','is_header'))
    def snapshot(self,tag,e): self.newev()
    def value(self,name,m,v):
        if name in GET:
            if not v[0]: raise Fault('looks into a node that does not exist')
            return m.get((v[0],GET[name]))
        if name == 'w_less':
            if not v[0] or not v[1]: raise Fault('compares a node that does not exist')
            return int(m['key',v[0]] < m['key',v[1]]) if ('key',v[0]) in m and ('key',v[1]) in m else None
        b = name.rsplit('::',1)[-1]
        try:
            if b == 'is_header': return int(v[0] == H)
            return {'minimum':lambda m,n: down(m,n,'l'),'maximum':lambda m,n: down(m,n,'r'),'next_node':succ,'prev_node':pred}[b](m,v[0])
        except KeyError: return None
    def leaf(self,e,ev,phis=None):
        if phis and e.n in phis: return phis[e.n]
        if e.op == 'call' and e.a[1] in self.byk and self.ispure(self.byk[e.a[1]]):
            f = self.byk[e.a[1]]; av = [ev(a) for a in f.args]; r = np.zeros(self.n,np.int64); bad = np.ones(self.n,bool)
            for k in range(self.n):
                if any(p[k] for _,p in av): continue
                try: x = self.value(f.name,self.mem[k],[int(v[k]) for v,_ in av])
                except Fault: continue
                if x is not None: r[k] = x; bad[k] = False
            return r,bad
        if e.op == 'phi' and not self.nosets: return self.entering(e)
        return Replay.leaf(self,e,ev,phis)
    def entering(self,e):
        h = e.a[1]; L = self.s.loops.get(h)
        if L is None: return None
        r = None
        for pid,ph in L['phis'].items():
            if ph.n != e.n: continue
            for pb,p_,v in L['enter']:
                if p_ != pid: continue
                x,px = self.ev(v)
                if r is None: r = x.copy(),px.copy()
                else:
                    g,pg = self.ev(self.s.econd[(pb,h)]); r = np.where(g != 0,x,r[0]),pg|np.where(g != 0,px,r[1])
        return r
    def step(self,e):
        if e.kind == 'call' and self.ispure(e): return
        if e.kind == 'backedge' and not self.nosets:
            g,p = self.ev(e.guard); self.unknown |= p
            L = self.s.loops[e.header]
            for k in np.flatnonzero((g != 0)&~p):
                if self.again[k] is None: self.again[k] = []
                for pid,ph in L['phis'].items():
                    if pid in e.phis:
                        v,q = self.ev(e.phis[pid]); self.again[k].append(None if q[k] else int(v[k]))
            self.left |= (g != 0)&~p
            return
        Replay.step(self,e)
def models(extra=()):
    def get(name):
        def f(rp,k,v,i): return rp.value(name,rp.mem[k],v)
        return f
    def put(fld):
        def f(rp,k,v,i):
            if not v[0]: raise Fault('changes a node that does not exist')
            if (v[0],fld) not in rp.mem[k]:
                if fld in 'lr' and (v[0],'p') in rp.mem[k]: raise Fault('changes a subtree that has nothing to do with it')
                raise Fault('changes a node that does not exist')
            rp.mem[k][v[0],fld] = v[1]
        return f
    m = {n:get(n) for n in (*GET,'w_less')}
    m.update({n:put(f) for n,f in SET.items()})
    for b in ('minimum','maximum','next_node','prev_node','is_header'): m['poly_ops::detail::bstree_algorithms_base::'+b] = get(b)
    def note(rp,k,v,i): rp.calls[k].append(v)
    for x in extra: m[x] = note
    return m
# ---- trees: None; ('o',black height,colour): a subtree not looked into; (colour,left,right)
def gen(bh,depth,red=True):
    if bh == 0: yield None
    if depth == 0:
        if bh: yield ('o',bh,0)
        if red: yield ('o',bh,1)
        return
    if bh:
        for l in gen(bh-1,depth-1):
            for r in gen(bh-1,depth-1): yield (0,l,r)
    if red:
        for l in gen(bh,depth-1,False):
            for r in gen(bh,depth-1,False): yield (1,l,r)
def small(bh,most,red=True):
    """all red-black trees of a black height and no more nodes than that"""
    if bh == 0: yield None
    for c in (0,1):
        if c and not red or not c and not bh or most < 1: continue
        for l in small(bh-(not c),most-1,not c):
            k = nodes(l)
            for r in small(bh-(not c),most-1-k,not c): yield (c,l,r)
def nodes(t): return 0 if t is None else 1+nodes(t[1])+nodes(t[2])
def build(t,names=None):
    """memory of a tree; returns memory, nodes in order.  A subtree may be
    given as {'at':name,'t':tree} to learn its node"""
    m = {}; order = []; names = {} if names is None else names; cnt = itertools.count(10)
    def f(t,p):
        nm = None
        if isinstance(t,dict): nm = t['at']; t = t['t']
        if t is None:
            if nm: names[nm] = 0,p
            return 0
        n = next(cnt)
        if nm: names[nm] = n,p
        m[n,'p'] = p
        if t[0] == 'o':
            m[n,'c'] = t[2]; m[n,'o'] = t[1]-(1-t[2]); order.append(n); return n
        m[n,'c'] = t[0]; m[n,'l'] = 0; m[n,'r'] = 0
        m[n,'l'] = f(t[1],n); order.append(n); m[n,'r'] = f(t[2],n); return n
    m[H,'p'] = f(t,H); m[H,'c'] = 1; m[H,'l'],m[H,'r'] = LM,RM
    return m,order
def inner(m): return not any(k[1] == 'o' for k in m)
def ends(m,order):
    m[H,'l'],m[H,'r'] = (order[0],order[-1]) if order else (H,H)
def tree(m,order,gone=(),short=None,redtop=None,colours=True,lm=None,rm=None):
    """what is wrong with the tree, or None.  short: (node or 0, parent) whose
    subtree may lack one black node; redtop: red node that may have a red parent"""
    seen = []; bad = []
    def f(n,p,side):
        if n == 0:
            return 1 if short and short[0] == 0 and short == (0,p) and (short_side is None or short_side == side) else 0
        if n in seen or n == H: bad.append('the links go in circles'); return 0
        if (n,'p') not in m: bad.append('a link leads nowhere'); return 0
        if m[n,'p'] != p: bad.append('a child and its parent do not agree')
        if (n,'o') in m:
            seen.append(n); return m[n,'o']+(m[n,'c'] == 0)+(1 if short and short[0] == n else 0)
        if len(seen) > 60: bad.append('the links go in circles'); return 0
        a = f(m[n,'l'],n,'l')
        if bad: return 0
        seen.append(n)
        b = f(m[n,'r'],n,'r')
        if colours and a != b: bad.append('paths with different numbers of black nodes')
        return a+(m[n,'c'] == 0)+(1 if short and short[0] == n else 0)
    short_side = short[2] if short and len(short) > 2 else None
    if short: short = tuple(short[:2])
    r = m[H,'p']
    if r and not bad: f(r,H,None)
    if bad: return bad[0]
    if seen != [n for n in order if n not in gone]: return 'the order of the nodes changed, or nodes are lost'
    if (m[H,'l'],m[H,'r']) != (lm if lm is not None else LM,rm if rm is not None else RM): return 'the first or last node is wrong'
    if colours:
        for n in seen:
            if m[n,'c'] == 1 and n != redtop:
                if m[n,'p'] == H:
                    if short and short[0] == n: continue
                    return 'the root is red'
                if m[m[n,'p'],'c'] == 1 and not (short and short[0] in (n,m[n,'p'])): return 'a red node has a red child'
    return None
def valid(t): return tree(t[0],t[1])
def context(sub,bh,red):
    """a subtree of black height bh in all surroundings two levels up; red: its
    root may be red without harm only below a black node"""
    yield sub
    for sib in gen(bh,0):
        for side in (0,1):
            q = (0,sub,sib) if side == 0 else (0,sib,sub)
            yield q
            for s2 in gen(bh+1,0):
                yield (0,q,s2); yield (0,s2,q)
                break
    if not red:
        for sib in gen(bh,0,False):
            for side in (0,1):
                q = (1,sub,sib) if side == 0 else (1,sib,sub)
                for s2 in gen(bh,0):
                    yield (0,q,s2); yield (0,s2,q)
FIX = 'poly_ops::detail::rbtree_algorithms::rebalance_after_'
def P65():
    c = Check('P65','One round of restoring the invariants after an insertion and after a removal, in all surroundings it can meet (subtrees below are only known by height and colour): the order of the nodes and all links stay, and the tree is valid or the one flaw has moved up; linking, unlinking, searching and stepping on all red-black trees of up to seven nodes.',TABLE)
    c.assume('rounds are chained by induction: each starts from a state of the table and leaves one')
    def run(m,name,part,what,rows,args,mem,judge,extra=()):
        """judge(rp,k,row) -> what is wrong"""
        f = name if not isinstance(name,str) else m.fn(name); s = Summary(f); nm = name if isinstance(name,str) else f.name; c.saw('functions',nm); label = 'rbtree_algorithms.hpp (%s)' % nm
        rp = RR(s,{i:np.array([a(r) for r in rows],dtype=np.int64) for i,a in args.items()},mem,models(extra))
        bad = {}; n = 0
        for k,r in enumerate(rows):
            w = rp.fault[k]
            if w is None:
                if rp.unknown[k]: c.undecided(part,what+': '+', '.join(sorted(rp.why))); continue
                w = judge(rp,k,r)
                if w is NotImplemented: c.undecided(part,what); continue
            n += 1
            if w: bad.setdefault(w,[]).append(r)
        for w,rs in bad.items(): c.fail(part,label,what+': '+w,'%d of %d states, e.g. %s' % (len(rs),n,rs[0]['say']))
        c.ok(part,n-sum(map(len,bad.values())),'%s: %d states' % (what,n))
    say = lambda t: str(t).replace("'",'').replace('None','-')
    # ---- after an insertion
    rows = []
    for b in (0,1):
        for l in gen(b,0,False):
            for r in gen(b,0,False):
                p = {'at':'p','t':(1,l,r)}
                tops = [p]
                for sib in gen(b,0):
                    for P in ((0,p,sib),(0,sib,p)): tops += list(context(P,b+1,False))
                for sib in gen(b,0,False):
                    for P in ((1,p,sib),(1,sib,p)):
                        for u in gen(b,0):
                            for G in ((0,P,u),(0,u,P)): tops += list(context(G,b+1,False))
                for t in tops:
                    nm = {}; mm,o = build(t,nm); rows.append({'say':say(t),'p':nm['p'][0],'o':o,'m':mm})
    def up(rp,k,row,x):
        n = row
        while n != H:
            n = rp.mem[k][n,'p']
            if n == x: return True
        return False
    def jins(rp,k,r):
        m = rp.mem[k]
        if rp.again[k] is None: return tree(m,r['o'])
        if len(rp.again[k]) != 1: return NotImplemented
        x = rp.again[k][0]
        if x is None: return NotImplemented
        if (x,'c') not in m or m[x,'c'] != 1: return 'goes on with a node that is not red'
        if not up(rp,k,r['p'],x): return 'goes on with a node that is not further up'
        return tree(m,r['o'],redtop=x)
    m = witness('tree',['opaque ^poly_ops::detail::rbtree_algorithms::rebalance_after_',BASE,'root ^poly_ops::detail::rbtree_algorithms::rebalance_after_'])
    names = {n:l[0] for n,l in m.fns.items() if n.startswith(FIX) and len(l) == 1}
    ins = [f for n,f in names.items() if n.endswith('insertion')]; era = [f for n,f in names.items() if n.endswith('restore_invariants')]
    start = lambda r: r['m']
    if len(ins) == 1: run(m,ins[0],'after an insertion','one round of rebalancing',rows,{0:lambda r: H,1:lambda r: r['p']},[r['m'] for r in rows],jins)
    else: c.undecided('linking and unlinking','rounds of rebalancing: no function of that name')
    # ---- after a removal
    rows = []
    for b in (0,1):
        xs = [None] if b == 0 else [('o',b,0)]
        for x in xs+[('o',b,1)]:
            X = {'at':'x','t':x}
            tops = [X]
            far = (0,*[next(gen(b,0))]*2)
            ws = [(w,w) for w in gen(b+1,2,False)]+[((1,n,far),(1,far,n)) for n in gen(b+1,2,False)]
            for w,v in ws:
                for P in ((0,X,w),(0,v,X)): tops += list(context(P,b+2,False))
                if w[0] == 0:
                    for P in ((1,X,w),(1,v,X)): tops += [t for t in context(P,b+1,True) if t is not P]
            for t in tops:
                nm = {}; mm,o = build(t,nm); x_,px = nm['x']
                if x_ == 0 and px == H: pass
                side = None if px == H else 'l' if mm[px,'l'] == x_ and not (x_ == 0 and mm[px,'r'] == 0) else 'r'
                rows.append({'say':say(t),'x':x_,'px':px,'o':o,'m':mm,'side':side})
    def jera(rp,k,r):
        m = rp.mem[k]
        if rp.again[k] is None: return tree(m,r['o'])
        y = rp.again[k]
        if len(y) not in (1,2) or None in y: return NotImplemented
        xs = [x for x in y if x == H or (x,'p') in m]
        if len(xs) != len(y): return 'goes on with a node that does not exist'
        x = [x for x in y if x != H and (len(y) == 1 or m[x,'p'] in y)]
        if len(x) != 1: return 'goes on with a node and another than its parent'
        x = x[0]
        if not (r['px'] == x or up(rp,k,r['px'],x)): return 'goes on with a node that is not further up'
        return tree(m,r['o'],short=(x,m[x,'p']))
    # only states that are valid apart from the missing black node
    keep = []
    for r in rows:
        if r['px'] == H and r['x'] == 0: ends(r['m'],[]); r['m'][H,'l'],r['m'][H,'r'] = LM,RM
        if tree(r['m'],r['o'],short=(r['x'],r['px'],r['side'])) is None: keep.append(r)
    rows = keep
    if len(era) == 1: run(m,era[0],'after a removal','one round of rebalancing',rows,{0:lambda r: H,1:lambda r: r['x'],2:lambda r: r['px']},[r['m'] for r in rows],jera)
    else: c.undecided('linking and unlinking','rounds of rebalancing: no function of that name')
    # ---- whole trees
    whole = []
    for bh in range(0,4):
        for t in small(bh,7,False):
            mm,o = build(t); ends(mm,o); whole.append((t,mm,o))
    m = witness('tree',['opaque ^poly_ops::detail::rbtree_algorithms::rebalance_after_(insertion|erasure_restore_invariants)$',BASE,'root ^w_'])
    N = 500
    def more(mm): return {**mm,(N,'p'):None,(N,'l'):None,(N,'r'):None,(N,'c'):None}
    def jlink(o2):
        def f(rp,k,r):
            m = rp.mem[k]; o = o2(r)
            if m[N,'l'] or m[N,'r']: return 'the new node has children'
            if not [v for v in rp.calls[k] if v[:2] == [H,N]]: return 'the tree is not rebalanced from the new node'
            m[N,'c'] = 1
            return tree(m,o,colours=False,lm=o[0],rm=o[-1])
        return f
    INS = (FIX+'insertion',)
    rows = []
    for t,mm,o in whole:
        places = [(H,0,[])] if not o else [(n,sd,o) for n in o for sd in (0,1) if not mm[n,'r' if not sd else 'l']]
        for n,left,_ in places:
            i = o.index(n)+(0 if left else 1) if n != H else 0
            rows.append({'say':'%s, %s of the %s node' % (say(t),'left' if left else 'right','%d.' % (o.index(n)+1) if n != H else 'header'),'n':n,'left':left,'o2':o[:i]+[N]+o[i:],'m':more(mm)})
    run(m,'w_link','linking and unlinking','linking a node',rows,{0:lambda r: H,1:lambda r: N,2:lambda r: r['n'],3:lambda r: r['left']},[r['m'] for r in rows],jlink(lambda r: r['o2']),INS)
    rows = []
    for t,mm,o in whole:
        for n in o+[H]:
            i = o.index(n) if n != H else len(o)
            rows.append({'say':'%s, before %s' % (say(t),'the %d. node' % (i+1) if n != H else 'the end'),'n':n,'o2':o[:i]+[N]+o[i:],'m':more(mm)})
    run(m,'w_before','linking and unlinking','inserting before a node',rows,{0:lambda r: H,1:lambda r: r['n'],2:lambda r: N},[r['m'] for r in rows],jlink(lambda r: r['o2']),INS)
    rows = [{'say':'%s, the %d. node' % (say(t),o.index(n)+1),'z':n,'o':o,'m':dict(mm)} for t,mm,o in whole for n in o]
    def junl(rp,k,r):
        m = rp.mem[k]; o = [n for n in r['o'] if n != r['z']]; ca = rp.calls[k]
        lm,rm = (o[0],o[-1]) if o else (H,H)
        if not ca: return tree(m,o,lm=lm,rm=rm)
        if len(ca) > 1 or len(ca[0]) != 3: return NotImplemented
        h,x,px = ca[0]
        if h != H: return 'another header is used'
        sides = [None] if x else ['l','r']
        w = [tree(m,o,short=(x,px,sd),lm=lm,rm=rm) for sd in sides]
        return None if None in w else w[0]
    run(m,'w_erase','linking and unlinking','removing a node',rows,{0:lambda r: H,1:lambda r: r['z']},[r['m'] for r in rows],junl,(FIX+'erasure_restore_invariants',))
    # ---- stepping and searching
    m = witness('tree',['root ^w_'])
    def jret(want):
        def f(rp,k,r):
            if rp.ret is None or rp.ret[1][k]: return NotImplemented
            return None if int(rp.ret[0][k]) == want(r) else 'another node'
        return f
    rows = [{'say':'%s, the %d. node' % (say(t),o.index(n)+1),'n':n,'o':o,'m':mm} for t,mm,o in whole for n in o]
    endr = rows+[{'say':'%s, the end' % say(t),'n':H,'o':o,'m':mm} for t,mm,o in whole if o]
    arg = {0:lambda r: r['n']}; ms = lambda rs: [dict(r['m']) for r in rs]
    run(m,'w_next','stepping','the next node',rows,arg,ms(rows),jret(lambda r: (r['o']+[H])[r['o'].index(r['n'])+1]))
    back = [r for r in endr if r['n'] != r['o'][0]]
    run(m,'w_prev','stepping','the previous node',back,arg,ms(back),jret(lambda r: r['o'][(r['o']+[H]).index(r['n'])-1]))
    run(m,'w_min','stepping','the first node below one',rows,arg,ms(rows),jret(lambda r: down(r['m'],r['n'],'l')))
    run(m,'w_max','stepping','the last node below one',rows,arg,ms(rows),jret(lambda r: down(r['m'],r['n'],'r')))
    one = [{'say':say(t),'o':o,'m':mm} for t,mm,o in whole]; ah = {0:lambda r: H}
    run(m,'w_begin','stepping','the beginning',one,ah,ms(one),jret(lambda r: (r['o']+[H])[0]))
    run(m,'w_end','stepping','the end',one,ah,ms(one),jret(lambda r: H))
    ini = [{'say':'a node','m':{(x,f):77 for x in (H,N) for f in 'plrc'}}]
    run(m,'w_init','linking and unlinking','a new node',ini,{0:lambda r: N},ms(ini),lambda rp,k,r: None if not any(rp.mem[k][N,f] for f in 'plr') and rp.mem[k][H,'p'] == 77 else 'is not unlinked')
    run(m,'w_init_header','linking and unlinking','an empty tree',ini,ah,ms(ini),lambda rp,k,r: None if [rp.mem[k][H,f] for f in 'plrc'] == [0,H,H,1] else 'has nodes, or a header that is not known for one')
    rows = []; OUT,OUT2 = 1<<20,1<<21
    for t,mm,o in whole:
        for i in range(2*len(o)+1):
            rows.append({'say':'%s, a key %s' % (say(t),'equal to that of the %d. node' % ((i+1)//2) if i&1 else 'after %d nodes' % (i//2)),'i':i,'o':o,'tm':mm,'m':{**more(mm),**{('key',n):2*j+1 for j,n in enumerate(o)},('key',N):i,OUT:None,OUT2:None}})
    def jfind(rp,k,r):
        m = rp.mem[k]; i,o = r['i'],r['o']
        if rp.ret is None or rp.ret[1][k] or m[OUT] is None: return NotImplemented
        ok = int(rp.ret[0][k])&1
        if i&1: return 'an equal node is not found' if ok else None if m[OUT] == o[i//2] else 'another node is given as equal'
        if not ok: return 'an equal node is found where there is none'
        at,left = m[OUT],m[OUT2]; t = r['tm']
        if left is None: return NotImplemented
        if not o: return None if at == H else 'the place is not in the tree'
        if at not in o: return 'the place is not in the tree'
        if t[at,'l' if left&1 else 'r']: return 'the place is taken'
        return None if o.index(at)+(0 if left&1 else 1) == i//2 else 'the place is not in order'
    run(m,'w_check','searching','the place for a key',rows,{0:lambda r: H,1:lambda r: N,2:lambda r: OUT,3:lambda r: OUT2},[r['m'] for r in rows],jfind)
    layer(c)
    return c
# ---- the layer above: nodes in a vector, and the set
SSA,VA,ND,OUT = 1<<20,1<<21,1<<24,1<<22
class LR(Replay):
    wid = {4,8}
    def leaf(self,e,ev,phis=None):
        if e.op == 'ext' and e.a[0].op == 'call':
            r = self.res.get(e.a[0].a[1])
            return r if e.a[1] == 1 else ev.full(VA)
        if e.op == 'ld' and self.sret is not None:
            from irsum import pparts
            b,o = pparts(e.a[0])[:2]
            if b.op == 'alloca' and b.n == self.sret.n:
                if o == 16: return self.rows['second'],np.zeros(self.n,bool)
                if o == 8: return self.rows['found'],np.zeros(self.n,bool)
            elif b.op == 'alloca' and e.a[2] in self.before:
                x = self.s.load(self.before[e.a[2]],e.a[0],e.a[1],e.a[3])
                if x.n != e.n: return ev(x)
        return Replay.leaf(self,e,ev,phis)
    sret = None
    def step(self,e):
        if e.kind == 'call' and e.name.endswith('::insert_unique_check'):
            self.sret = e.args[0]; self.snapshot('c%d' % e.k,e)
            for l in self.calls: l.append(('check',[]))
            return
        if e.kind == 'call' and e.name.endswith('::insert_unique_commit') and self.sret is not None:
            from irsum import pparts
            g,p = self.ev(e.guard); self.unknown |= p; av = [self.ev(a) for a in e.args if pparts(a)[0].op != 'alloca']
            for k in np.flatnonzero((g != 0)&~p):
                if any(q[k] for _,q in av): self.unknown[k] = True; self.why.add('what is linked')
                else: self.calls[k].append(('insert_unique_commit',[int(v[k]) for v,_ in av if v[k] != VA]))
            return
        Replay.step(self,e)
def layer(c):
    part = 'nodes and the set'
    m = witness('sweepset',['opaque ^poly_ops::detail::rbtree_algorithms::(erase|insert_before|insert_unique_commit)$','opaque ^poly_ops::detail::bstree_algorithms::(insert_unique_check)$','opaque ^poly_ops::detail::bstree_algorithms_base::(next_node|prev_node)$','root ^r_'])
    k = [x for x in m.structs if x.startswith('poly_ops::detail::set_node<long, unsigned long>')] or [x for x in m.structs if x.startswith('poly_ops::detail::set_node<')]
    if len(k) != 1: raise Inconclusive('set_node changed')
    off = {n:o for n,o,sz,btn,kind in m.structs[k[0]]['members']}; Z = m.structs[k[0]]['size']
    if not {'parent','left','right','color','value'} <= set(off): raise Inconclusive('set_node changed')
    NIL = (1<<64)-1; nn = 6
    def norm(v): return v & NIL
    def mem():
        d = {SSA:VA,VA:ND,VA+8:nn,OUT:None}
        for i in range(nn):
            for j,f in enumerate(('parent','left','right','value')): d[ND+Z*i+off[f]] = 100*j+i
            d[ND+Z*i+off['color']] = i&1
        return d
    nxt = {i:(i*2+3)%nn for i in range(nn)}; prv = {i:(i+4)%nn for i in range(nn)}
    def run(name,what,n,args,want,second=None,found=None):
        """want(k) -> (value returned or None, {address: value} changed, [calls of the algorithms])"""
        f = m.fn(name); s = Summary(f); c.saw('functions',name); label = 'sweep_set.hpp (witness/sweepset.cpp: %s)' % name
        calls = [[] for _ in range(n)]
        def mod(nm):
            def g(rp,k,v,i):
                calls[k].append((nm,[x for x in v if x != VA]))
                if nm == 'next_node': return nxt.get(v[1])
                if nm == 'prev_node': return prv.get(v[1])
                if nm == 'insert_before': return v[5]
                if nm == 'erase': return v[3]
                if nm == 'w_less': return int(v[0] < v[1])
            return g
        md = {'poly_ops::detail::rbtree_algorithms::'+x:mod(x) for x in ('erase','insert_before','insert_unique_commit')}
        md.update({'poly_ops::detail::bstree_algorithms_base::'+x:mod(x) for x in ('next_node','prev_node')}); md['w_less'] = mod('w_less')
        rp = LR.__new__(LR); rp.rows = {'second':second,'found':found}; rp.calls = calls
        rp.__init__(s,{i:np.array([a(k) for k in range(n)],dtype=np.int64) for i,a in args.items()},[mem() for _ in range(n)],md)
        bad = []; done = 0; start = mem()
        for q in range(n):
            w = rp.fault[q]
            if w is None:
                if rp.unknown[q]: c.undecided(part,name+': '+', '.join(sorted(rp.why))); continue
                ret,ch,cl = want(q); got = None
                if ret is not None:
                    if rp.ret is None or rp.ret[1][q]: c.undecided(part,name+': the value'); continue
                    got = int(rp.ret[0][q]) & (1 if isinstance(ret,bool) else NIL); ret = int(ret) & NIL
                d = {a:x for a,x in rp.mem[q].items() if start[a] != x}; mask = lambda d: {a:(None if x is None else x & NIL) for a,x in d.items()}
                if any(x is None for x in d.values()): c.undecided(part,name+': what is stored'); continue
                if got != ret: w = 'the value is %s instead of %s' % (got,ret)
                elif mask(d) != mask({a:x for a,x in ch.items() if start[a] != x}): w = 'other members are changed than should be, or to other values'
                elif cl is not None and [(nm,a) for nm,a in calls[q] if nm != 'check'] != cl: w = 'the tree is asked for %s instead of %s' % (calls[q],cl)
            done += 1
            if w: bad.append((q,w))
        if bad: c.fail(part,label,what,'%d of %d states, e.g. %s' % (len(bad),done,bad[0][1]))
        c.ok(part,done-len(bad),'%s: %d states' % (what,done))
    I2 = [(i,j) for i in range(nn) for j in range(nn) if i != j]; n2 = len(I2)
    at = lambda f,i: ND+Z*i+off[f]
    for j,f in enumerate(('parent','left','right')):
        run('r_'+f,'the %s of a node is read from elsewhere' % f,nn,{0:lambda k: VA,1:lambda k: k},lambda k,j=j: (100*j+k,{},None))
        run('r_set_'+f,'the %s of a node is stored elsewhere' % f,n2,{0:lambda k: VA,1:lambda k: I2[k][0],2:lambda k: I2[k][1]},lambda k,f=f: (None,{at(f,I2[k][0]):I2[k][1]},None))
    # colours: what is set is read
    run('r_color','the colour of a node is read from elsewhere',nn,{0:lambda k: VA,1:lambda k: k},lambda k: (k&1,{},None))
    run('r_set_color','the colour of a node is stored elsewhere',2*nn,{0:lambda k: VA,1:lambda k: k//2,2:lambda k: k&1},lambda k: (None,{at('color',k//2):k&1},None))
    vi = {0:lambda k: VA,1:lambda k: k}; si = {0:lambda k: SSA,1:lambda k: k}
    run('r_null','a null pointer is not the greatest index',3,{0:lambda k: VA,1:lambda k: (0,5,-1)[k]},lambda k: (k < 2,{},None))
    run('r_same','equal pointers differ or different ones are equal',nn*nn,{0:lambda k: VA,1:lambda k: k//nn,2:lambda k: k%nn},lambda k: (k//nn == k%nn,{},None))
    run('r_of','a node is taken for another',nn,{0:lambda k: SSA,1:lambda k: ND+Z*k},lambda k: (k,{},None))
    er = lambda k: (nxt[k],{},[('next_node',[k]),('erase',[0,k])])
    run('r_erase','a removal returns not the node that came after, or removes another',nn,si,er)
    run('r_erase_it','a removal returns not the node that came after, or removes another',nn,{0:lambda k: SSA,1:lambda k: VA,2:lambda k: k},er)
    run('r_before','an element is not inserted before the one given',n2,{0:lambda k: SSA,1:lambda k: VA,2:lambda k: I2[k][0],3:lambda k: I2[k][1]},lambda k: (I2[k][1],{},[('insert_before',[0,*I2[k]])]))
    run('r_begin','the set does not begin with the first node',1,{0:lambda k: SSA},lambda k: (100,{},None))
    run('r_end','the set does not end at the header',1,{0:lambda k: SSA},lambda k: (0,{},None))
    run('r_inc','++ is not the next node',nn,vi,lambda k: (nxt[k],{},None)); run('r_dec','-- is not the previous node',nn,vi,lambda k: (prv[k],{},None))
    vo = {**vi,2:lambda k: OUT}
    run('r_inc_','++ afterwards is not the next node, or returns another',nn,vo,lambda k: (k,{OUT:nxt[k]},None)); run('r_dec_','-- afterwards is not the previous node, or returns another',nn,vo,lambda k: (k,{OUT:prv[k]},None))
    run('r_unique','a node is taken for unlinked',nn,si,lambda k: (False,{},None))
    run('r_init','a new node is not unlinked',nn,si,lambda k: (None,{at(f,k):-1 for f in ('parent','left','right')},None))
    run('r_clear','clearing leaves nodes in the set',1,{0:lambda k: SSA},lambda k: (None,{at('parent',0):-1,at('left',0):0,at('right',0):0,at('color',0):1},None))
    run('r_cmp','elements are compared in another order, or others are',n2,{0:lambda k: SSA,1:lambda k: VA,2:lambda k: I2[k][0],3:lambda k: I2[k][1]},lambda k: (I2[k][0] < I2[k][1],{},[('w_less',[300+I2[k][0],300+I2[k][1]])]))
    sec = np.array([k&1 for k in range(2*nn)]); fd = np.array([(k//2+2)%nn for k in range(2*nn)])
    run('r_insert','inserting links an element that has an equal one, or returns another place',2*nn,{0:lambda k: SSA,1:lambda k: k//2,2:lambda k: OUT},lambda k: (k//2 if k&1 else int(fd[k]),{OUT:k&1},[('insert_unique_commit',[0,k//2])] if k&1 else []),sec,fd)
