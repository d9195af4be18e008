"""P24: sets of original points (witness/sets.cpp)."""
import itertools
import numpy as np
from harness import Check, Inconclusive
from irsum import Summary
from world import World
from replay import Replay, Fault, HOLE
from checks.sweepck import tell
from checks.meta import TABLE
from build import witness

NAMES = 'copy copy_n copy_backward move move_backward sort stable_sort unique inplace_merge merge set_union upper_bound lower_bound find rotate swap_ranges fill fill_n'.split()
ALG = 'opaque ^std::(%s)$' % '|'.join(NAMES)
# ---- what the algorithms of the standard library do
def rd(rp,k,a):
    x = rp.mem[k].get(a,HOLE)
    if x is HOLE: raise Fault('reads outside of the memory of the sets')
    return x
def seq(rp,k,b,e):
    if e < b or (e-b)%8: raise Fault('an algorithm is given a range that ends before it begins')
    return [rd(rp,k,a) for a in range(b,e,8)]
def full(xs):
    if any(x is None for x in xs): raise Fault('elements that were never written are compared')
    return xs
def wr(rp,k,a,vs,i):
    rp.write(k,a,vs,i)
    if rp.fault[k]: raise Fault(rp.fault[k])
    return a+8*len(vs)
def a_copy(rp,k,v,i): return wr(rp,k,v[2],seq(rp,k,v[0],v[1]),i)
def a_copy_n(rp,k,v,i): return wr(rp,k,v[2],seq(rp,k,v[0],v[0]+8*v[1]),i)
def a_back(rp,k,v,i):
    x = seq(rp,k,v[0],v[1]); wr(rp,k,v[2]-8*len(x),x,i); return v[2]-8*len(x)
def a_sort(rp,k,v,i): wr(rp,k,v[0],sorted(full(seq(rp,k,v[0],v[1]))),i)
def a_unique(rp,k,v,i):
    x = full(seq(rp,k,v[0],v[1])); return wr(rp,k,v[0],[y for j,y in enumerate(x) if not j or x[j-1] != y],i)
def a_inmerge(rp,k,v,i):
    x,y = full(seq(rp,k,v[0],v[1])),full(seq(rp,k,v[1],v[2]))
    if x != sorted(x) or y != sorted(y): raise Fault('ranges are merged that are not in order')
    wr(rp,k,v[0],sorted(x+y),i)
def a_merge(rp,k,v,i):
    x,y = full(seq(rp,k,v[0],v[1])),full(seq(rp,k,v[2],v[3]))
    if x != sorted(x) or y != sorted(y): raise Fault('ranges are merged that are not in order')
    return wr(rp,k,v[4],sorted(x+y),i)
def a_union(rp,k,v,i):
    x,y = full(seq(rp,k,v[0],v[1])),full(seq(rp,k,v[2],v[3]))
    if x != sorted(x) or y != sorted(y): raise Fault('ranges are merged that are not in order')
    out = []
    for z in sorted(set(x+y)): out += [z]*max(x.count(z),y.count(z))
    return wr(rp,k,v[4],out,i)
def bound(up):
    def f(rp,k,v,i):
        x = full(seq(rp,k,v[0],v[1]))
        if x != sorted(x): raise Fault('a search in a range that is not in order')
        return v[0]+8*sum((y <= v[2]) if up else (y < v[2]) for y in x)
    return f
def a_find(rp,k,v,i):
    x = full(seq(rp,k,v[0],v[1])); return v[0]+8*(x.index(v[2]) if v[2] in x else len(x))
def a_rotate(rp,k,v,i):
    x,y = seq(rp,k,v[0],v[1]),seq(rp,k,v[1],v[2]); wr(rp,k,v[0],y+x,i); return v[0]+8*len(y)
def a_swapr(rp,k,v,i):
    x = seq(rp,k,v[0],v[1]); y = seq(rp,k,v[2],v[2]+8*len(x)); wr(rp,k,v[0],y,i); return wr(rp,k,v[2],x,i)
def a_fill(rp,k,v,i): wr(rp,k,v[0],[v[2]]*len(seq(rp,k,v[0],v[1])),i)
def a_filln(rp,k,v,i): return wr(rp,k,v[0],[v[2]]*v[1],i)
def a_alloc(rp,k,v,i):
    if not 0 < v[0] < 64: raise Fault('memory for %d elements is asked for' % v[0])
    at = (1<<28)+(rp.next[k]<<12); rp.next[k] += 1; rp.heap[k][at] = v[0]
    for o in range(v[0]): rp.mem[k][at+8*o] = None
    return at
def a_free(rp,k,v,i):
    n = rp.heap[k].pop(v[0],None)
    if n is None: raise Fault('memory is given back that is not (or no longer) that of a set')
    if n != v[1]: raise Fault('memory for %d elements is given back as %d' % (n,v[1]))
    for o in range(n): del rp.mem[k][v[0]+8*o]
MODELS = {'std::copy':a_copy,'std::move':a_copy,'std::copy_n':a_copy_n,'std::copy_backward':a_back,'std::move_backward':a_back,'std::sort':a_sort,'std::stable_sort':a_sort,'std::unique':a_unique,
    'std::inplace_merge':a_inmerge,'std::merge':a_merge,'std::set_union':a_union,'std::upper_bound':bound(1),'std::lower_bound':bound(0),'std::find':a_find,'std::rotate':a_rotate,'std::swap_ranges':a_swapr,
    'std::fill':a_fill,'std::fill_n':a_filln,'w_alloc':a_alloc,'w_free':a_free}

A,B,OUT,RANGE,DA,DB = 1<<20,(1<<20)+4096,1<<21,1<<22,1<<24,1<<25
class Sets:
    """layout: the size, then the element or the pointer to the elements with
    their number before them; as the members' offsets say"""
    def __init__(self,m):
        from engine import member
        k = [x for x in m.structs if x.startswith('poly_ops::detail::mini_flat_set<') and x.endswith('al>')]
        if len(k) != 1: raise Inconclusive('the sets changed')
        t = {n:(o,btn) for n,o,sz,btn,kind in m.structs[k[0]]['members']}
        if '_size' not in t or 'u' not in t: raise Inconclusive('the sets changed')
        self.size,self.u = t['_size'][0],t['u'][0]
        d = m.structs.get(k[0]+'::data_t')
        t = {n:o for n,o,sz,btn,kind in d['members']} if d else {}
        if set(t) != {'capacity','items'}: raise Inconclusive('the sets changed')
        self.cap,self.items = t['capacity'],t['items']
    def put(self,mem,heap,at,data,xs,cap):
        mem[at+self.size] = len(xs); mem[at+self.u] = None
        if len(xs) == 1: mem[at+self.u] = xs[0]
        if len(xs) > 1:
            mem[at+self.u] = data; n = cap+self.items//8
            for o in range(n): mem[data+8*o] = None
            mem[data+self.cap] = cap
            for j,x in enumerate(xs): mem[data+self.items+8*j] = x
            heap[data] = n
    def get(self,rp,k,at):
        """(elements, address of them, memory owned), or a fault"""
        m = rp.mem[k]; n = m.get(at+self.size)
        if n is None: raise Fault('has no size')
        if n == 0: return [],None,None
        if n == 1: return [m.get(at+self.u)],at+self.u,None
        d = m.get(at+self.u)
        if d not in rp.heap[k]: raise Fault('has no memory for its %d elements' % n)
        cap = m.get(d+self.cap)
        if cap is None or cap+self.items//8 != rp.heap[k][d]: raise Fault('takes the memory of %d words to hold %s elements' % (rp.heap[k][d],cap))
        if n > cap: raise Fault('has more elements than memory')
        return [m.get(d+self.items+8*j) for j in range(n)],d+self.items,d
def sets(n,step=10,first=10): return [first+step*j for j in range(n)]
def caps(n): return [0] if n < 2 else [n,n+1,n+3]
def run(c,S,m,name,rows,part,args,result,what):
    """rows: (a, capacity, b or None, capacity, more); result(rp,k,row) says what is wrong"""
    f = m.fn(name); s = Summary(f,noclobber='^(std::(upper_bound|lower_bound|find)|w_alloc|w_free)$'); f.label = 'mini_flat_set (witness/sets.cpp: %s)' % name
    c.saw('functions',name)
    mem = []; heap = []
    for a,ca,b,cb,x in rows:
        h = {}; d = {}
        if a is not None: S.put(d,h,A,DA,a,ca)
        else: d[A+S.size] = None; d[A+S.u] = None
        if b is not None: S.put(d,h,B,DB,b,cb)
        d[OUT] = None
        if isinstance(x,tuple):
            for j,y in enumerate(x): d[RANGE+8*j] = y
        mem.append(d); heap.append(h)
    class R(Replay):
        def newev(self):
            if not hasattr(self,'hp'): self.heap = heap; self.hp = 1
            Replay.newev(self)
    rp = R.__new__(R)
    rp.__init__(s,args,mem,MODELS)
    if rp.unknown.any(): c.undecided(part,name+': '+', '.join(sorted(rp.why)),int((rp.unknown & np.array([x is None for x in rp.fault])).sum()))
    bad = {}; n = 0
    for k,row in enumerate(rows):
        w = rp.fault[k]
        if w is None:
            if rp.unknown[k]: continue
            try: w = result(rp,k,row)
            except Fault as ex: w = 'the set '+str(ex)
        n += 1
        if w: bad.setdefault(w,[]).append(k)
    for w,ks in bad.items():
        a,ca,b,cb,x = rows[ks[0]]
        c.fail(part,f.label,what+': '+w,'%d of %d abstract states, e.g. %s%s%s%s' % (len(ks),n,'set %s' % a if a is not None else '',' (room for %d)' % ca if ca else '',', other set %s%s' % (b,' (room for %d)' % cb if cb else '') if b is not None else '',', %s' % (x,) if x is not None else ''))
    c.ok(part,n-sum(map(len,bad.values())),'%s: %d states' % (what,n))
def P24():
    c = Check('P24','Sets of up to three elements, with and without room for more, and every value, range or set of up to three elements put into them: the elements afterwards are the sorted union, their number and memory are right; the tracker merges the set of the discarded point into that of the one kept.',TABLE)
    c.assume('algorithms of the standard library do what the standard says; elements are only compared, so sets of more elements behave like those of three')
    m = witness('sets',[ALG,'root ^w_[^t]']); S = Sets(m)
    def leak(rp,k,*own):
        if set(rp.heap[k]) != {o for o in own if o}: return 'memory is lost'
        if len([o for o in own if o]) != len({o for o in own if o}): return 'two sets share their memory'
    base = [(sets(n),ca) for n in range(4) for ca in caps(n)]
    V = [5,10,15,20,25,30,35]
    # one value
    rows = [(a,ca,None,0,v) for a,ca in base for v in V]
    def r(rp,k,row):
        a,ca,b,cb,v = row; xs,at,own = S.get(rp,k,A)
        if xs != sorted(set(a+[v])): return 'the elements are not those there were and the value, in order'
        if not rp.ret or rp.ret[1][k]: return None
        if (int(rp.ret[0][k])&1) != (v not in a): return 'it says wrongly whether the value was new'
        if rp.mem[k].get(OUT) != at+8*xs.index(v): return 'it returns the place of another element'
        return leak(rp,k,own)
    for n in ('w_insert','w_proxy_insert'): run(c,S,m,n,rows,'inserting',{0:np.full(len(rows),A),1:np.array([x[4] for x in rows]),2:np.full(len(rows),OUT)},r,'inserting a value')
    # a range, in any order and with repetitions
    rows = [(a,ca,None,0,x) for a,ca in base for q in range(4) for x in itertools.product([5,10,15,30] if q < 3 else [5,10,30],repeat=q)]
    def r2(rp,k,row):
        xs,at,own = S.get(rp,k,A)
        if xs != sorted(set(row[0])|set(row[4])): return 'the elements are not those there were and those of the range, in order'
        return leak(rp,k,own)
    run(c,S,m,'w_insert_range',rows,'inserting',{0:np.full(len(rows),A),1:np.full(len(rows),RANGE),2:np.array([RANGE+8*len(x[4]) for x in rows])},r2,'inserting a range')
    # sets
    other = [(list(b),cb) for n in range(4) for b in (itertools.combinations([5,10,20,25],n) if n else [()]) for cb in ([0] if n < 2 else [n,n+2,n+4])]
    rows = [(a,ca,b,cb,None) for a,ca in base for b,cb in other]
    two = {0:np.full(len(rows),A),1:np.full(len(rows),B)}
    def r3(rp,k,row):
        a,ca,b,cb,_ = row; xs,at,own = S.get(rp,k,A); ys,_,own2 = S.get(rp,k,B)
        if xs != sorted(set(a+b)): return 'the elements are not those of both sets, in order'
        if None in ys: return 'the other set holds elements that were never written'
        return leak(rp,k,own,own2)
    for n in ('w_merge','w_proxy_merge'): run(c,S,m,n,rows,'merging',two,r3,'merging')
    def r4(move):
        def f(rp,k,row):
            a,ca,b,cb,_ = row; xs,at,own = S.get(rp,k,A); ys,_,own2 = S.get(rp,k,B)
            if xs != b: return 'the elements are not those of the other set'
            if ys != ([] if move else b): return 'the other set is not left as it should be'
            return leak(rp,k,own,own2)
        return f
    run(c,S,m,'w_assign',rows,'copying and moving',two,r4(0),'assigning'); run(c,S,m,'w_assign_move',rows,'copying and moving',two,r4(1),'assigning by moving')
    def r5(rp,k,row):
        a,ca,b,cb,_ = row; xs,at,own = S.get(rp,k,A); ys,_,own2 = S.get(rp,k,B)
        if xs != b or ys != a: return 'the elements are not exchanged'
        return leak(rp,k,own,own2)
    run(c,S,m,'w_swap',rows,'copying and moving',two,r5,'swapping')
    rows = [(None,0,b,cb,None) for b,cb in other]; two = {0:np.full(len(rows),A),1:np.full(len(rows),B)}
    run(c,S,m,'w_copy',rows,'copying and moving',two,r4(0),'copying'); run(c,S,m,'w_move',rows,'copying and moving',two,r4(1),'moving')
    run(c,S,m,'w_new',[(None,0,None,0,None)],'copying and moving',{0:np.array([A])},lambda rp,k,row: None if S.get(rp,k,A)[0] == [] else 'the set is not empty','a new set')
    # one set
    rows = [(a,ca,None,0,None) for a,ca in base]; arg = {0:np.full(len(rows),A)}
    run(c,S,m,'w_destroy',rows,'copying and moving',arg,lambda rp,k,row: 'memory is lost' if rp.heap[k] else None,'destroying')
    def ask(fn):
        def f(rp,k,row):
            if rp.ret is None or rp.ret[1][k]: return None
            return fn(int(rp.ret[0][k]),row[0],A+S.u if len(row[0]) < 2 else DA+S.items)
        return f
    run(c,S,m,'w_size',rows,'size and elements',arg,ask(lambda r,a,at: None if r == len(a) else 'it is wrong'),'size')
    run(c,S,m,'w_empty',rows,'size and elements',arg,ask(lambda r,a,at: None if (r&1) == (not a) else 'it is wrong'),'emptiness')
    # of an empty set begin and end only have to agree
    rows1 = [r for r in rows if r[0]]; arg1 = {0:np.full(len(rows1),A)}
    run(c,S,m,'w_begin',rows1,'size and elements',arg1,ask(lambda r,a,at: None if r == at else 'it is not the first element'),'begin')
    run(c,S,m,'w_end',rows1,'size and elements',arg1,ask(lambda r,a,at: None if r == at+8*len(a) else 'it is not behind the last element'),'end')
    tracker(c)
    return c

def tracker(c):
    from world import atoms
    from irsum import pparts
    m = witness('sets',['opaque ^poly_ops::detail::mini_flat_set::(merge|insert|assign)$','root ^w_t_'])
    part = 'the tracker'
    # where the vector of sets is: what the value function loads of the tracker
    f = m.fn('w_t_value'); s = Summary(f)
    off = {pparts(x.a[0])[1] for e in s.effects if e.kind == 'store' for x in atoms([e.val],('ld','arg')) if x.op == 'ld' for x in [x]+atoms([x.a[0]],('arg','ld')) if x.op == 'ld' and pparts(x.a[0])[0].op == 'arg' and pparts(x.a[0])[0].a[0] == 1}
    if len(off) != 1: c.undecided(part,'where the sets are kept'); c.undecided(part,'%d' % len(off)); return
    off = off.pop(); T,E = 1<<20,1<<24; Z = 16; P = 1<<22; RV = 1<<21
    def world(name,cols,n,this=0):
        f = m.fn(name); s = Summary(f); f.label = 'origin_point_tracker (witness/sets.cpp: %s)' % name; c.saw('functions',name)
        w = World(cols,['x','y']); w.summ = s; w.arg(this,T)
        w.put(T+off,8,{0:E},1); w.put(T+off+8,8,{0:E+Z*n},1); w.put(T+off+16,8,{0:E+Z*(n+2)},1)
        w.put(E,Z,{0:np.tile(np.arange(n)%3,(w.n,1)),8:np.tile(1000+4096*np.arange(n),(w.n,1))},n)
        w.put(P,8,{0:-7,4:9},1)
        return f,s,w
    def calls(s,w,rx):
        """rows -> calls made, None if not known"""
        out = [[] for _ in range(w.n)]
        for e in s.effects:
            if e.kind != 'call' or 'mini_flat_set' not in e.name: continue
            g,p = w(e.guard); a = [w(x) for x in e.args]
            for k in range(w.n):
                if out[k] is None: continue
                if p[k]: out[k] = None; continue
                if g[k]: out[k].append((e.name.rsplit('::',1)[1],[None if q[k] else int(v[k]) for v,q in a]))
        return out
    def verdict(f,rows,want,got,what):
        bad = []
        for k,r in enumerate(rows):
            if got[k] is None or any(x is None for _,a in got[k] for x in a[:1]+a[2:]) or any(nm not in ('merge','insert') for nm,_ in got[k]): c.undecided(part,what); continue
            y = [(nm,a[0],a[2]) for nm,a in got[k] if len(a) == 3]
            if len(y) != len(got[k]): c.undecided(part,what); continue
            if y != want(r): bad.append(k)
            else: c.ok(part)
        if bad: c.fail(part,f.label,what,'%d of %d, e.g. %s' % (len(bad),len(rows),rows[bad[0]]))
    n = 4; rows = [(x,y) for x in range(n) for y in range(n) if x != y]
    f,s,w = world('w_t_merge',rows,n); w.arg(1,w['x']); w.arg(2,w['y'])
    verdict(f,rows,lambda r: [('merge',E+Z*r[1],E+Z*r[0])],calls(s,w,'merge'),'the set of a discarded point is not merged into that of the point kept')
    rows = [(v,0) for v in (0,1,5,77)]
    f,s,w = world('w_t_added',rows,n); w.arg(1,w['x'])
    verdict(f,rows,lambda r: [('insert',E+Z*n,r[0])],calls(s,w,'insert'),'an added point does not get a new set with its input index')
    grown(c,part,f,s,w,T+off+8,E+Z*(n+1),E+Z*n)
    f,s,w = world('w_t_between',[(0,1),(2,1)],n); w.arg(1,w['x']); w.arg(2,w['y'])
    verdict(f,[(0,1),(2,1)],lambda r: [],calls(s,w,''),'a point at an intersection gets input indices')
    grown(c,part,f,s,w,T+off+8,E+Z*(n+1),E+Z*n)
    f,s,w = world('w_t_reset',[(0,0)],n)
    w.over = set(s.loops); last = stored(s,w,T+off+8)
    if last is None: c.undecided(part,'reset')
    else: tell(c,part,f.label,np.array(last) != E,1,'sets are left after a reset',lambda k: '')
    # the value: the point and the elements of its set
    rows = [(i,0) for i in range(n)]; f,s,w = world('w_t_value',rows,n,1); w.arg(0,RV); w.arg(2,w['x']); w.arg(3,P)
    vals = {int(o):stored(s,w,RV+o) for o in (8,16)}
    want = {8:[1000+4096*i if i%3 > 1 else E+Z*i+8 for i in range(n)],16:[i%3 for i in range(n)]}
    for o,v in vals.items():
        if v is None: c.undecided(part,'value'); continue
        bad = np.array([x != y and not (o == 8 and i%3 == 0) for i,(x,y) in enumerate(zip(v,want[o]))])
        if o == 8:   # elements of a set of several come behind their number
            bad = np.array([x is not None and (i%3 == 1 and x != y or i%3 > 1 and not 0 <= x-y <= 64) for i,(x,y) in enumerate(zip(v,want[o]))])
        tell(c,part,f.label,bad,n,'the value of a point has other original points than its set',lambda k: 'point %d' % k)
def stored(s,w,at):
    """what the last store to an address leaves there"""
    r = np.zeros(w.n,np.int64); un = np.ones(w.n,bool)
    for e in s.effects:
        if e.kind != 'store': continue
        g,p = w(e.guard); a,q = w(e.ptr); on = (g != 0)&~p&~q&(a == at)
        if p.any(): return None
        if not on.any(): continue
        v,x = w(e.val); r = np.where(on,v,r); un = np.where(on,x,un)
    return None if un.any() else r
def grown(c,part,f,s,w,end,want,new):
    v = stored(s,w,end); z = stored(s,w,new)
    if v is None: c.undecided(part,f.label+': the number of sets'); return
    tell(c,part,f.label,v != want,w.n,'the number of sets does not grow by one with a point',lambda k: str(int(v[k]-want)))
    if z is not None: tell(c,part,f.label,z != 0,w.n,'the set of a new point is not empty',lambda k: str(int(z[k])))
