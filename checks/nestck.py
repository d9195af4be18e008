"""P47: which loop a loop is put into."""
import itertools
import numpy as np
from harness import Check, Inconclusive
from irsum import mk, ptr, root, pparts
from world import World
from flow import Rounds, Sequence, block_loops, dominates
from checks.sweepck import layout, tell
from checks.meta import TABLE
import engine

NC = 'virtual::'
def members(m,rx):
    import re
    k = [x for x in m.structs if re.search(rx,x)]
    if len(k) != 1: raise Inconclusive('%d types match %s' % (len(k),rx))
    return {x[0]:x[1] for x in m.structs[k[0]]['members']},m.structs[k[0]]['size']
def stored(s,ev,e,off=0,z=8):
    v,p = ev(s.load(e.mem,ptr(e.args[1],off),z,'i%d' % (8*z)))
    return v,p
def nest(s,outer):
    """the loop over all items and the one inside"""
    o = [h for h in s.loops if not any(h != g and h in L['body'] for g,L in s.loops.items())]
    o = [h for h in o if any(h != g and g in s.loops[h]['body'] for g in s.loops)]
    if len(o) != 1: raise Inconclusive('%d loops around others' % len(o))
    return o[0]

def arrange(c):
    part = 'parent'
    m,f,s = engine.load('engine','w_arrange',[],noclobber=NC); W = f.where
    c.saw('functions',W)
    it,isz = members(m,r'^poly_ops::detail::intr_t<unsigned long>$'); tp,tsz = members(m,r'^poly_ops::detail::temp_polygon<unsigned long>$')
    h1 = nest(s,True); inner = [h for h in s.loops if h != h1]
    if len(inner) != 1: raise Inconclusive('%d loops over the loops around one' % len(inner))
    h2 = inner[0]
    rows = []
    for k in range(4):
        for sz in itertools.product(range(5),repeat=k):
            for p in itertools.permutations((1,2,3),k): rows.append((k,)+sz+(0,)*(3-k)+p+(0,)*(3-k))
    w = World(rows,['k','s0','s1','s2','c0','c1','c2']); n = w.n; w.summ = s; w.vectors()
    A,B,C = 1<<12,1<<13,1<<14
    for q,v in enumerate((A,B,C)): w.arg(q,v)
    w.field(mk('arg',0),4); w.field(mk('arg',1),4); w.field(mk('arg',2),0)
    a = w.elems(A); b = w.elems(B)
    P = np.zeros((n,4),np.int64)+np.arange(4); S = np.zeros((n,4),np.int64)
    S[:,0] = w['k']
    H = np.zeros((n,4),np.int64)
    r_ = np.arange(n)
    for q in range(3):
        on = w['k'] > q
        S[r_[on],w['c%d' % q][on]] = w['s%d' % q][on]; H[:,q] = w['c%d' % q]
    w.put(a,isz,{it['p']:P,it['hits']:S},4)
    w.put(w.elems(a+it['hits']),8,{0:H},4)
    w.put(b,tsz,{tp['children']:0},4)
    w.put(A,8,{0:4},1); w.put(B,8,{0:4},1); w.put(C,8,{0:0},1)
    r = Rounds(s,w,h2,4)
    ap = [e for e in s.calls_to('^vv_append$')]
    if not ap: raise Inconclusive('nothing is appended')
    seqs = r.happens(ap)
    cache = {}
    def get(x,ev):
        k = (x.n,id(ev))
        if k not in cache: cache[k] = ev(x)
        return cache[k]
    bad = {k:np.zeros(n,bool) for k in ('lost','wrong','root','other')}; un = 0
    for i in range(n):
        q = seqs[i]
        if q is None: un += 1; continue
        if len(q) != 1: bad['lost'][i] = True; continue
        e,ev = q[0]
        (d,pd),(v,pv) = get(e.args[0],ev),get(s.load(e.mem,e.args[1],8,'i64'),ev)
        if pd[i] or pv[i]: un += 1; continue
        if v[i] != b: bad['other'][i] = True; continue
        k = int(w['k'][i]); cand = {int(w['c%d' % j][i]):int(w['s%d' % j][i]) for j in range(k)}
        if d[i] == C: to = None
        else:
            to,o = divmod(int(d[i])-b-tp['children'],tsz)
            if o or to not in cand: bad['wrong'][i] = True; continue
        # by as many loops as the innermost loop around it should be, plus one
        exact = {x for x,y in cand.items() if y == k-1}
        if k == 0: bad['root'][i] |= to is not None
        elif exact: bad['wrong'][i] |= to not in exact
        elif to is not None: bad['wrong'][i] |= cand[to] >= k
    if un: c.undecided(part,'where a loop goes',un)
    def desc(i):
        k = int(w['k'][i])
        return 'loop 0 inside of %s' % (', '.join('loop %d (inside of %d)' % (w['c%d' % j][i],w['s%d' % j][i]) for j in range(k)) or 'no other')
    tell(c,part,W,bad['lost'],n,'a loop is put in the tree not at all or more than once',desc)
    tell(c,part,W,bad['other'],n,'another loop is put in the tree instead',desc)
    tell(c,part,W,bad['root'],n,'a loop inside of no other is not a top-level loop',desc)
    tell(c,part,W,bad['wrong'],n,'the parent of a loop is not the loop around it that is inside of one loop fewer',desc)
    # every item: from the first to the last
    L = s.loops[h1]
    for pid,ph in L['phis'].items():
        for pb,p_,v in L['enter']:
            if p_ == pid and ph.a[3] == 'ptr':
                x,p = w(v)
                if p.any(): c.undecided(part,'first item')
                else: tell(c,'items',W,x != a,n,'the first loop is not looked at',desc)
    ex = [e for e in s.effects if e.kind == 'ret']
    done = World([(k,) for k in range(4)],['at']); done.summ = s; done.vectors(); done.arg(0,A); done.arg(1,B); done.arg(2,C)
    done.field(mk('arg',0),3); done.put(A,8,{0:3},1)
    ptrs = [ph for ph in L['phis'].values()]
    if len(ptrs) == 1 and len(ex) == 1:
        t = done['at']*isz+a if ptrs[0].a[3] == 'ptr' else done['at']
        ph = ptrs[0]; old = done.leaf
        done.exits[ph.n] = t
        g,p = done(ex[0].guard)
        if p.any(): c.undecided('items','when it ends')
        else: tell(c,'items',W,(g != 0) != (done['at'] == 3),4,'the tree is done before or after all loops were looked at',lambda i: 'at item %d of 3' % done['at'][i])
        for e in s.effects:
            if e.kind == 'backedge' and e.header == h1:
                v = next(iter(e.phis.values())); x,p = done(v)
                if p.any(): c.undecided('items','the next one')
                else: tell(c,'items',W,x-t != (isz if ph.a[3] == 'ptr' else 1),4,'loops are skipped',lambda i: 'at item %d of 3' % done['at'][i])
    else: c.undecided('items','how they are counted')

def replace(c):
    part = 'around'
    m,f,s = engine.load('engine','w_replace',[],noclobber=NC); W = f.where
    c.saw('functions',W)
    it,isz = members(m,r'^poly_ops::detail::intr_t<unsigned long>$'); _,tsz = members(m,r'^poly_ops::detail::temp_polygon<unsigned long>$')
    ev_,lp = layout(m)
    li,lsz = members(m,r'^poly_ops::detail::loop_point<unsigned long, int>$')
    h1 = nest(s,True)
    D = ((1,0),(-1,0),(0,1),(0,-1),(2,-3),(-2,3),(3,2),(-1,-4))
    hit = [(l,d) for l in (-1,0,1,2) for d in range(len(D))]
    few = [k for k,(l,d) in enumerate(hit) if d < 6 and l > 0 or d in (0,3)]
    N = range(len(hit))
    rows = [()]+[(a,) for a in N]+list(itertools.product(N,repeat=2))+list(itertools.product(few,repeat=3))
    rows = [(o,len(r))+tuple(r)+(0,)*(3-len(r)) for r in rows for o in (0,1)]
    w = World(rows,['own','k','h0','h1','h2']); n = w.n; w.summ = s; w.vectors()
    PT,LO,OR = 1<<12,1<<13,1<<14
    for q,v in enumerate((PT,LO,OR,0)): w.arg(q,v)
    NP = 2*len(hit)+2; ITEM = NP-1
    w.field(mk('arg',0),NP); w.field(mk('arg',1),3); w.field(mk('arg',2),1)
    for v,k in ((PT,NP),(LO,3),(OR,1)): w.put(v,8,{0:k},1)
    X = np.zeros((n,NP),np.int64); Y = X.copy(); NX = X.copy(); LI = X-1
    for k,(l,d) in enumerate(hit):
        X[:,2*k] = 100; Y[:,2*k] = 200; NX[:,2*k] = 2*k+1
        X[:,2*k+1] = 100-D[d][0]; Y[:,2*k+1] = 200-D[d][1]; NX[:,2*k+1] = 2*k
        # loop 0 is the one asked for: if that is 1 they change places
        LI[:,2*k] = np.where(w['own'] == 1,(1,0,2,-1)[l],l); LI[:,2*k+1] = LI[:,2*k]
    LI[:,ITEM] = w['own']
    w.put(w.elems(PT),lp['size'],{lp['x']:X,lp['y']:Y,lp['next']:NX,li['aux']:LI},NP)
    o = w.elems(OR)
    w.put(o,isz,{it['p']:ITEM,it['hits']:w['k']},1)
    H = np.stack([2*w['h%d' % j] for j in range(3)],1)
    w.put(w.elems(o+it['hits']),8,{0:H},3)
    # sums kept per loop
    loc = {}
    for e in s.effects:
        if e.kind == 'store' and pparts(e.ptr)[0].op == 'elemof' and root(e.ptr).op == 'alloca': loc[pparts(e.ptr)[0].a[0].n] = pparts(e.ptr)[0].a[0],e.size
    if len(loc) != 1: c.undecided(part,'where crossings are counted'); return
    vec,z = next(iter(loc.values()))
    a,p = w(vec)
    w.put(w.elems(a[0]),z,{0:77},3)
    q = Sequence(s,w,6,outer=h1)
    sp,un = q.final()
    if un.any(): c.undecided(part,'which loops are around a point',int(un.sum()))
    want = [[] for _ in range(n)]
    sums = np.zeros((n,3),np.int64)
    for j in range(3):
        on = (w['k'] > j)
        for k,(l,d) in enumerate(hit):
            r = on & (w['h%d' % j] == k)
            if l < 0 or not r.any(): continue
            t = np.where(w['own'] == 1,(1,0,2)[l],l)
            dx,dy = D[d]
            for x in range(3): sums[:,x] += np.where(r & (t == x) & (w['own'] != x),1 if (dx or dy) > 0 else -1,0)
    items = next(f_ for lo,es,cnt,f_ in sp if lo == o); hl = next(f_ for lo,es,cnt,f_ in sp if lo == w.elems(o+it['hits']))[0]
    cnt = items[it['hits']][:,0]; nz = sums != 0
    bad = np.zeros(n,bool)
    for i in range(n):
        k = int(cnt[i]); x = [t for t in range(3) if nz[i,t]]
        if k != len(x) or sorted(hl[i,:k]) != x: bad[i] = True
    def desc(i): return 'a point of loop %d above %s: around it %s' % (w['own'][i],', '.join('an edge of direction %s of %s' % (D[hit[h][1]],'no loop' if hit[h][0] < 0 else 'loop %d' % LI[i,2*h]) for h in (int(w['h%d' % j][i]) for j in range(w['k'][i]))) or 'nothing',[int(t) for t in hl[i,:max(0,min(3,cnt[i]))]])
    tell(c,part,W,bad&~un,n,'the loops around a point are not those whose edges below it do not cancel',desc)
    tell(c,part,W,(items[it['p']][:,0] != w['own'])&~un,n,'the item is not of the loop of its point',desc)
    ins = next(f_ for lo,es,cnt,f_ in sp if lo == w.elems(a[0]))[0]
    tell(c,part,W,(ins != 0).any(1)&~un,n,'what was counted for one loop counts for the next as well',desc)

def unique(c):
    part = 'samples'
    m,f,s = engine.load('engine','w_unique',['opaque std::ranges::__sort_fn::operator','opaque std::ranges::__unique_fn::operator'],noclobber=NC); W = f.where
    c.saw('functions',W)
    it,isz = members(m,r'^poly_ops::detail::intr_t<unsigned long>$'); ev_,lp = layout(m); li,_ = members(m,r'^poly_ops::detail::loop_point<unsigned long, int>$')
    ap = [e for e in s.calls_to('^vv_append$') if block_loops(s,e.block)]
    if len({e.block for e in ap}) != 1: c.undecided(part,'how samples are collected'); return
    rows = [(x,y) for x in (-3,-2,-1,0,1,2) for y in (0,1,2)]
    w = World(rows,['li','k']); n = w.n; w.summ = s; w.vectors()
    O,PT,SM = 1<<11,1<<12,1<<13
    for q,v in enumerate((O,PT,SM,0)): w.arg(q,v)
    w.field(mk('arg',0),0); w.field(mk('arg',1),9); w.field(mk('arg',2),2)
    for v,k in ((PT,9),(SM,2)): w.put(v,8,{0:k},1)
    LI = np.zeros((n,9),np.int64)-1; LI[:,5] = w['li']
    w.put(w.elems(PT),lp['size'],{li['aux']:LI},9)
    w.put(w.elems(SM),isz,{it['p']:5,it['hits']:w['k']},2)
    desc = lambda i: 'a sample of a point with loop index %d' % w['li'][i]
    t = np.zeros(n,np.int64); un = np.zeros(n,bool); wrong = un.copy()
    for e in ap:
        g,p = w(e.guard); un |= p
        if e.args[0] is not mk('arg',0): continue
        t += (g != 0)
        v,p = stored(s,w,e,it['p']); un |= p; wrong |= (g != 0) & (v != 5)
        mv = [x for x in s.calls_to('^vv_(move|copy)$') if x.args[0] is ptr(e.args[1],it['hits'])]
        if len(mv) != 1: un |= True; continue
        v,p = w(mv[0].args[1]); un |= p; wrong |= (g != 0) & (v != w.elems(SM)+it['hits'])
    if un.any(): c.undecided(part,'what is collected',int(un.sum()))
    tell(c,part,W,~un & (t != (w['li'] >= 0)),n,'a sample is collected that is of no loop, or one that is of a loop is not',desc)
    tell(c,part,W,~un & wrong,n,'what is collected is not the sample',desc)
    # sorted before duplicates are removed
    so,uq = s.calls_to('__sort_fn::operator'),s.calls_to('__unique_fn::operator')
    if len(so) == 1 and len(uq) == 1:
        if s.effects.index(so[0]) > s.effects.index(uq[0]) or so[0].args[1:2] != uq[0].args[1:2]: c.fail(part,W,'duplicates are removed before the samples are sorted by loop')
        else: c.ok(part,1,'samples are sorted by loop, then all but the first of each are removed')
    elif not so and len(uq) == 1 and len(s.loops) == 1 and not [e for e in s.effects if e.kind == 'call' and not e.name.startswith('vv_') and e is not uq[0]]: c.fail(part,W,'duplicates are removed from samples that were not sorted by loop')
    elif not uq and len(so) == 1 and len(s.loops) == 1 and not [e for e in s.effects if e.kind == 'call' and not e.name.startswith('vv_') and e is not so[0]]: c.fail(part,W,'duplicates are not removed')
    else: c.undecided(part,'how duplicates are removed')

def order(c):
    part = 'steps'
    m,f,s = engine.load('engine','w_hierarchy',['opaque unique_sorted_loop_points','opaque replace_line_indices_with_loop_indices','opaque arrange_loops'],noclobber=NC); W = f.where
    c.saw('functions',W)
    e = [s.calls_to(x) for x in ('unique_sorted_loop_points','replace_line_indices_with_loop_indices','arrange_loops')]
    if any(len(x) != 1 for x in e): c.undecided(part,'the steps are taken apart'); return
    u,r,a = (x[0] for x in e)
    A = [mk('arg',k) for k in range(5)]
    al = lambda x: [y for y in x.args if y.op == 'alloca']
    if any(x.guard.op != 'const' for x in (u,r,a)): c.fail(part,W,'a step depends on a condition')
    elif not [s.effects.index(x) for x in (u,r,a)] == sorted(s.effects.index(x) for x in (u,r,a)): c.fail(part,W,'the steps are in another order')
    elif al(u)[:1] != al(r)[:1] or al(r)[:1] != al(a)[:1] or not al(u): c.undecided(part,'what is passed between the steps')
    elif A[0] not in u.args or A[3] not in u.args or A[0] not in r.args or A[1] not in r.args or A[1] not in a.args or A[2] not in a.args: c.fail(part,W,'a step works on other points, samples or loops')
    else: c.ok(part,3,'each sample is of a loop, its crossings are of loops, and then loops are put in the tree')

def P47():
    c = Check('P47','For a loop inside of zero to three others, with every number of loops these are inside of, in every order: the loop is put in the tree exactly once, at the top if it is inside of none, else in the loop around it that is inside of one fewer. For a point above up to three edges of discarded lines, its own and other loops in all directions: the loops around it are those whose edges do not cancel, and nothing is left for the next loop. Samples that are of a loop are collected, sorted and made unique before that.','decision table over compiler IR: '+TABLE)
    arrange(c); replace(c); unique(c); order(c)
    return c
