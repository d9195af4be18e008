"""P49: collecting the points of a loop and iterating over them."""
import itertools
import numpy as np
from harness import Check, Inconclusive
from irsum import Summary, mk, ptr, root, show, pparts, Undecided
from world import World
from flow import Rounds, block_loops, may
from checks.sweepck import lplayout, tell
from checks.splitck import LPB
from checks.meta import TABLE
from checks import joinck
import engine

CNT = 12
def loops(c):
    part = 'loops'
    mk_ = joinck.marks(c)
    if mk_ is None: return
    m,f,s = engine.load('engine','w_find_loops',noclobber='.')
    c.saw('functions',f.where); W = f.where
    lp = lplayout(m)
    tn = [k for k in m.structs if k.startswith('poly_ops::detail::temp_polygon<')]; ln = [k for k in m.structs if k.startswith('poly_ops::detail::loop_location<')]
    if len(tn) != 1 or len(ln) != 1: raise Inconclusive('temp_polygon or loop_location changed')
    t = {x[0]:x[1] for x in m.structs[tn[0]]['members']}; l = {x[0]:x[1] for x in m.structs[ln[0]]['members']}; TS = m.structs[tn[0]]['size']
    START,SIZE = t['loop_loc']+l['start'],t['loop_loc']+l['size']
    a0,a1 = mk('arg',0),mk('arg',1)
    inner = [h for h in s.loops if any(o != h and h in L['body'] for o,L in s.loops.items())]
    if len(inner) != 1 or len(s.loops) != 2: raise Inconclusive('the loops of find_loops changed')
    ix = ('kept','temporary','discarded','other')
    num = dict(mk_); num['other'] = 1
    rows = [r for r in itertools.product(range(4),range(4),range(8),(0,2)) if r[2] < (1<<r[1])]
    w = World(rows,['first','len','tmp','have']); n = w.n; w.summ = s
    RUN = (7,2,5)
    NX = np.zeros((n,CNT),np.int64)+9; IX = np.full((n,CNT),num['kept'],np.int64); X = np.zeros((n,CNT),np.int64)+100+np.arange(CNT)
    NX[:,9] = 9
    for i in range(n):
        seq = [0]+list(RUN[:w['len'][i]])+[0]
        for p,q in zip(seq,seq[1:]): NX[i,p] = q
        IX[i,0] = num[ix[w['first'][i]]]
        for j,p in enumerate(RUN[:w['len'][i]]): IX[i,p] = num['temporary' if w['tmp'][i]>>j&1 else 'kept']
    w.place(a0,1<<14,64,{0:CNT},1); w.place(a1,1<<15,64,{0:w['have']},1)
    w.place(mk('elemof',a0),LPB,lp['size'],{lp['x']:X,lp['y']:X,lp['next']:NX,lp['set']:IX,lp['state']:1},CNT)
    w.place(mk('elemof',a1),1<<20,TS,{START:50,SIZE:51,t['children']:52},4)
    w.arg(2,1<<16)
    r = Rounds(s,w,inner[0],5)
    # only what the first round of the outer loop does
    outer = next(h for h in s.loops if h != inner[0])
    fin,un = r.final()
    desc = lambda i: '%s point first, followed by %d more%s, %d loops so far' % (ix[w['first'][i]],w['len'][i],' ('+', '.join('temporary' if w['tmp'][i]>>k&1 else 'kept' for k in range(w['len'][i]))+')' if w['len'][i] else '',w['have'][i])
    if un.any(): c.undecided(part,desc(np.flatnonzero(un)[0]),int(un.sum()))
    tab = next(q for lo,es,cnt,q in fin if lo == LPB); lt = next(q for lo,es,cnt,q in fin if lo == 1<<20); left = next(q for lo,es,cnt,q in fin if lo == 1<<15)[0][:,0]
    bad = {k:np.zeros(n,bool) for k in ('none','loop','size','index','link','other')}; why = {}
    for i in range(n):
        if un[i]: continue
        h = int(w['have'][i]); run = list(RUN[:w['len'][i]]); real = [p for k,p in enumerate(run) if not w['tmp'][i]>>k&1]
        if ix[w['first'][i]] != 'kept':
            bad['none'][i] = left[i] != h or (tab[lp['set']][i] != IX[i]).any() or (tab[lp['next']][i] != NX[i]).any(); continue
        bad['loop'][i] = left[i] != h+1 or lt[START][i,h] not in [0]+real
        bad['size'][i] = lt[SIZE][i,h] != 1+len(real)
        bad['index'][i] = any(tab[lp['set']][i,p] != h for p in [0]+run)
        seq = [0]+real
        bad['link'][i] = any(tab[lp['next']][i,p] != q for p,q in zip(seq,seq[1:]+[0]))
        rest = [p for p in range(CNT) if p not in [0]+run]
        bad['other'][i] = any(tab[lp['set']][i,p] != IX[i,p] or tab[lp['next']][i,p] != NX[i,p] for p in rest)
    for k,what in (('none','a discarded, temporary or already collected point starts a loop'),('loop','a kept point does not start a loop of its own'),('size','the size of a loop is not the number of its points that are not temporary'),
        ('index','the points of a loop do not all get its index'),('link','the links of a loop do not lead through exactly its points that are not temporary'),('other','points of other loops are changed')):
        tell(c,part,W,bad[k],n,what,desc)

def fn(c,name):
    m = engine.module('w_[a-z0-9_]+',name='result')
    try: f = m.fn(name)
    except KeyError as ex: raise Inconclusive('anchor vanished: %s' % ex)
    s = Summary(f,noclobber='.')
    f.label = '%s (witness/result.cpp: %s)' % (engine.witnessed('result',name),name)
    c.saw('functions',f.where)
    return m,f,s
def P49():
    c = Check('P49','Collecting: for every mark of the first point and up to three more, temporary or not, a loop is made iff the point is kept, its size is the number of its points that are not temporary, and the links lead through exactly these. Iterating: from the begin of a polygon of any size, after k increments of either form the iterator is at the k-th point along the links, equals end iff k is the size, differs from begin by k and from end by the rest, and the tracker is asked for the value of exactly that point. A range of polygons yields the k-th polygon for every way to get at it.','decision table over compiler IR: '+TABLE)
    loops(c)
    NXT = [4,7,2,9,5,1,8,3,6,0,10,11]      # links: 5 -> 1 -> 7 -> 3 -> 9 -> 0 -> 4 ...
    seq = [5]
    while len(seq) < 7: seq.append(NXT[seq[-1]])
    PT,DT,TR,ARG = 1<<24,1<<20,1<<18,1<<16
    size = np.arange(0,7)
    def world(name):
        m,f,s = fn(c,name)
        lp = lplayout(m)
        tn = [k for k in m.structs if k.startswith('poly_ops::detail::temp_polygon<')]; ln = [k for k in m.structs if k.startswith('poly_ops::detail::loop_location<')]
        pn = [k for k in m.structs if k.startswith('poly_ops::temp_polygon_proxy<')]
        if len(tn) != 1 or len(ln) != 1 or len(pn) != 1: raise Inconclusive('temp_polygon, loop_location or temp_polygon_proxy changed')
        t = {x[0]:x[1] for x in m.structs[tn[0]]['members']}; l = {x[0]:x[1] for x in m.structs[ln[0]]['members']}; p = {x[0]:x[1] for x in m.structs[pn[0]]['members']}
        if not {'lpoints','data','tracker'} <= set(p): raise Inconclusive('members of temp_polygon_proxy changed: %s' % sorted(p))
        w = World([(k,) for k in size],['size']); w.summ = s
        w.place(mk('arg',0),ARG,64,{p['lpoints']:PT,p['data']:DT,p['tracker']:TR},1)
        w.space.append((DT,m.structs[tn[0]]['size'],1,{t['loop_loc']+l['start']:np.full((w.n,1),5),t['loop_loc']+l['size']:w['size'][:,None]}))
        nx = np.zeros((w.n,CNT),np.int64)+np.array(NXT)
        for i in range(w.n):     # the last point is followed by the first
            if size[i]: nx[i,seq[size[i]-1]] = seq[0]
        w.space.append((PT,lp['size'],CNT,{lp['next']:nx,lp['x']:np.zeros((w.n,CNT),np.int64)+100+np.arange(CNT)}))
        return m,f,s,w,lp,p
    desc = lambda i: 'polygon of %d points' % size[i]
    def ret(name,want,least,what):
        m,f,s,w,lp,p = world(name)
        v,q = w(s.retexpr()); ok = w['size'] >= least
        if (q&ok).any(): c.undecided('iterator',name); return
        if m.fn(name).j.get('ret') == 'i1' or set(np.unique(v)) <= {-1,0,1} and name.startswith(('w_end','w_same','w_post')): v = v&1
        tell(c,'iterator','proto_loop_iterator (witness/result.cpp: %s)' % name,ok & (v != want(w['size'])),w.n,what,desc)
    ret('w_size',lambda z: z,0,'the size of a polygon is not that of its loop')
    for k in range(5): ret('w_end%d' % k,lambda z: (z == k)+0,k,'after %d increments an iterator equals the end although there are more points, or differs from it although there are none' % k)
    for k in (0,3):
        ret('w_from%d' % k,lambda z: z*0+k,k,'the distance from the begin is not the number of increments')
        ret('w_to%d' % k,lambda z: z-k,k,'the distance to the end is not the number of points left')
    ret('w_same12',lambda z: z*0,2,'iterators at different points are equal'); ret('w_same03',lambda z: z*0,3,'iterators at different points are equal')
    ret('w_same22',lambda z: z*0+1,2,'iterators at the same point differ'); ret('w_post',lambda z: z*0+1,1,'post-increment does not return the old position')
    ret('w_index2',lambda z: z*0+seq[2],3,'the index of an iterator is not that of its point')
    def values(name,want):
        least = max(want)+1
        m,f,s,w,lp,p = world(name); where = 'proto_loop_iterator (witness/result.cpp: %s)' % name
        calls = {e.n if hasattr(e,'n') else k:e for k,e in enumerate(s.calls_to('WT::get_value$'))}
        if not calls: c.fail('values',where,'the tracker is never asked for a value'); return
        bad = np.zeros(w.n,bool)
        for e in calls.values():
            o,po = w(e.args[0]); i,pi = w(e.args[1]); x,px = w(s.load(e.mem,e.args[2],4,'i32'))
            g = may(w,e.guard) & (w['size'] >= least)
            if ((po|pi|px)&g).any(): c.undecided('values',name); return
            bad |= g & ((o != TR)|(x != 100+i))
        tell(c,'values',where,bad,w.n,'another object than the tracker is asked, or index and coordinates are not of the same point',desc)
        # which one ends up where
        bad = np.zeros(w.n,bool)
        for k,j in enumerate(want):
            v = s.load(s.exit_mem(),ptr(mk('arg',1),8*k),8,'i64')
            while v.op in ('concat','bits') : v = v.a[0][0][2] if v.op == 'concat' else v.a[0]
            if v.op != 'call' or not v.a[0].endswith('get_value'): c.undecided('values',name); return
            i,pi = w(v.a[2][1][1])
            bad |= (w['size'] >= least) & (pi|(i != seq[j]))
        tell(c,'values',where,bad,w.n,'the value is that of another point than the one the iterator is at',desc)
    values('w_value0',[0]); values('w_values',[0,1,1,2,3]); values('w_copy',[1])
    ranges(c)
    return c

def sized(e,vec):
    """e is the size of a vector, or of the span that begins at vec"""
    if e.op != 'ld': return False
    return e.a[0] is (ptr(vec.a[0],8) if vec.op == 'ld' else vec.a[0])
def ranges(c):
    """a range of polygons: the k-th one, however it is reached"""
    part = 'polygons'
    m,_,_ = fn(c,'w_rl_at')
    tn = [k for k in m.structs if k.startswith('poly_ops::detail::temp_polygon<')][0]; TS = m.structs[tn]['size']
    pn = [k for k in m.structs if k.startswith('poly_ops::temp_polygon_proxy<')][0]; P = {x[0]:x[1] for x in m.structs[pn]['members']}
    def out(name,arg):
        m,f,s = fn(c,name)
        g = lambda k: s.load(s.exit_mem(),ptr(mk('arg',arg),P[k]),8,'i64')
        return s,{k:g(k) for k in P}
    for r,what,ways,diffs in (('rl','list of polygons',('w_rl_at','w_rl_plus','w_rl_index','w_rl_inc','w_rl_dec','w_rl_post','w_rl_postdec'),('w_rl_size','w_rl_diff')),('rt','tree of polygons',('w_rt_at','w_rt_plus','w_rt_inc'),('w_rt_diff',)),
        ('ml','list of polygons that owns its data',('w_ml_at','w_ml_inc'),('w_ml_diff',)),('mt','tree of polygons that owns its data',('w_mt_at',),('w_mt_diff',)),('inner','children of a polygon',('w_inner_at',),('w_inner_diff',))):
        ref = None
        for name in ways:
            where = '%s (witness/result.cpp: %s)' % (what,name)
            arg = 2 if name.endswith(('_at','_plus','_index')) else 1
            s,o = out(name,arg)
            d = o['data']; step = TS
            if d.op == 'ld' : d = d.a[0]; step = 8
            elif not (d.op in ('ptr','elemof')): c.undecided(part,'%s: %s' % (name,show(d,4))); continue
            b,off,vs = pparts(d)
            if b.op not in ('elemof','ld'): c.undecided(part,'%s: %s' % (name,show(d,4))); continue
            vec = b
            if ref is None: ref = (vec,o['lpoints'],o['tracker'],step)
            if (vec,o['lpoints'],o['tracker'],step) != ref: c.fail(part,where,'a polygon of the %s comes with other points, tracker or list than the rest' % what); continue
            w = World([(k,z) for k in range(3) for z in (3,4,7)],['k','size']); w.summ = s
            w.arg(1,w['k']); 
            w.extra.append(lambda e,ev_,vec=vec: w['size'] if sized(e,vec) else None)
            BASE = 1<<20; w.addr[b.n] = BASE
            v,p = w(d)
            if p.any(): c.undecided(part,'%s: %s' % (name,show(d,4))); continue
            want = w['k'] if arg == 2 else w['size']-2 if name.endswith('dec') else w['k']*0+2
            tell(c,part,where,(v-BASE) != step*want,w.n,'a polygon of the %s is not the one asked for' % what,lambda i: 'polygon %d of %d' % (want[i],w['size'][i]))
        for name in diffs:
            if ref is None: continue
            m,f,s = fn(c,name); where = '%s (witness/result.cpp: %s)' % (what,name)
            e = s.retexpr()
            w = World([(z,) for z in (0,1,2,7)],['size']); w.summ = s
            w.extra.append(lambda e,ev_: w['size'] if sized(e,ref[0]) else None)
            w.addr[ref[0].n] = 1<<20
            v,p = w(e)
            if p.any(): c.undecided(part,'%s: %s' % (name,show(e,5))); continue
            tell(c,part,where,v != w['size'],w.n,'the number of polygons is not that of the %s' % what,lambda i: '%d polygons' % w['size'][i])
