"""Rules about the sweep loops of the clipper (witness/engine.cpp)."""
import itertools
import numpy as np
from harness import Check, Inconclusive
from irsum import Undecided, mk, ptr, pparts, root, show
from world import World
from flow import may, must, origins, dominates, every_round, block_loops, reach
import engine

EV = 'poly_ops::detail::event<unsigned long>'
LP = 'poly_ops::detail::loop_point<unsigned long, int>'
def lplayout(m):
    """offsets of loop_point"""
    try:
        l = {n:o for n,o,*_ in m.structs[LP]['members']}
        d = {n:o for n,o,*_ in m.structs['poly_ops::detail::line_desc']['members']}
        return {'x':l['data'],'y':l['data']+4,'next':l['next'],'set':l['aux']+d['cat'],'state':l['aux']+d['state'],'size':m.structs[LP]['size']}
    except KeyError as ex: raise Inconclusive('member %s vanished' % ex)
def layout(m):
    """offsets of event, loop_point"""
    try:
        t = {n:o for n,o,*_ in m.structs[EV]['members']}
        return {'a':t['ab'],'b':t['ab']+8,'node':t['sweep_node'],'type':t['type'],'status':t['status'],'size':m.structs[EV]['size']},lplayout(m)
    except KeyError as ex: raise Inconclusive('member %s vanished' % ex)
def enum(m,n,*vals):
    e = m.enums.get(n)
    if not e or not set(vals) <= set(e): raise Inconclusive('enumeration %s changed: %s' % (n,e))
    return e

def tell(c,part,where,bad,n,what,describe):
    k = np.flatnonzero(bad)
    if len(k): c.fail(part,where,what,'%d of %d abstract states, e.g. %s' % (len(k),n,describe(k[0])))
    else: c.ok(part,n,'%s: none of %d abstract states' % (what,n))

def touching(c,name,part,back):
    """the loop over touching_removed (back) or touching_pending calls w_edge for
    each live event of the right kind at the current x, and ends at the first
    one at another x"""
    m,f,s = engine.load('engine',name,noclobber='w_edge')
    c.saw('functions',f.where)
    ev,lp = layout(m); et = enum(m,'event_type_t','vforward','backward','forward','vbackward'); es = enum(m,'event_status_t','deleted')
    sink = s.calls_to('^w_edge$')
    if not sink: raise Inconclusive('%s: no edge is produced' % name)
    loops = s.loops
    if not loops: raise Inconclusive('%s: no loop' % name)
    rows = list(itertools.product(et.values(),(0,1),(0,1),et.values(),(0,1),(0,1)))
    w = World(rows,['t1','d1','x1','t2','d2','x2']); w.summ = s; n = w.n
    CUR,CNT = 10,21
    alive = min(v for v in es.values() if v != es['deleted'])
    st = -1 if back else 1
    T = {k:np.zeros((n,CNT),np.int64) for k in ('a','b','node','type','status')}
    for i in range(CNT): T['a'][:,i] = i; T['b'][:,i] = 100+i
    T['type'][:] = et['forward' if back else 'backward']   # wrong kind elsewhere
    T['status'][:] = alive
    for k in (1,2):
        T['type'][:,CUR+st*k] = w['t%d' % k]; T['status'][:,CUR+st*k] = np.where(w['d%d' % k] == 1,es['deleted'],alive)
    X = np.full((n,200),77,np.int64)
    X[:,CUR] = 5
    for k in (1,2): X[:,CUR+st*k] = np.where(w['x%d' % k] == 1,5,6)
    a0,a1 = mk('arg',0),mk('arg',1)
    vec = mk('elemof',a0); lvec = mk('elemof',a1)
    w.place(vec,1<<20,ev['size'],{ev[k]:T[k] for k in T},CNT)
    w.place(lvec,1<<24,lp['size'],{lp['x']:X},200)
    es_ = [k for k in m.structs if k.startswith('poly_ops::detail::events_t<') and {'events','current_i'} <= {x[0] for x in m.structs[k]['members']}]
    if not es_: raise Inconclusive('events_t vanished')
    mem = {x[0]:x[1] for x in m.structs[es_[0]]['members']}
    w.place(a0,1<<16,m.structs[es_[0]]['size'],{mem['events']:CNT,mem['current_i']:CUR})
    wantk = (et['backward'],et['vbackward']) if back else (et['forward'],et['vforward'])
    keep = [((w['t%d' % k] == wantk[0])|(w['t%d' % k] == wantk[1])) & (w['d%d' % k] == 0) for k in (1,2)]
    same = [w['x%d' % k] == 1 for k in (1,2)]
    desc = lambda i: 'event of kind %s, %s, at %s x' % ([k for k,v in et.items() if v == w['t1'][i]][0],'deleted' if w['d1'][i] else 'live','the current' if w['x1'][i] else 'another')
    # the first event looked at
    called = np.zeros(n,bool); wrong = np.zeros(n,bool); unk = np.zeros(n,bool)
    for e in sink:
        g = must(w,e.guard); unk |= may(w,e.guard)&~g
        called |= g
        a,pa = w(e.args[0]); b,pb = w(e.args[1])
        i = CUR+st
        xa,xb = (100+i,i) if back else (i,100+i)
        wrong |= g & (pa|pb|(a != xa)|(b != xb))
        unk |= g & (pa|pb)
    if unk.any(): c.undecided(part,'%s: first event not decided' % name); return
    tell(c,part,f.where,called & ~(keep[0]&same[0]),n,'an edge that does not touch the current position is checked',desc)
    tell(c,part,f.where,~called & keep[0]&same[0],n,'an edge that starts or ends at the current x is not checked',desc)
    tell(c,part,f.where,wrong,n,'the edge checked is not the one of the event (left end first)',desc)
    # loops that skip events: go on past what isn't wanted, one event at a time
    for h,L in loops.items():
        if any(e.block in L['body'] for e in sink): continue
        for e in s.effects:
            if e.kind != 'backedge' or e.header != h: continue
            for pid,v in e.phis.items():
                ph = L['phis'].get(pid)
                if ph is None: continue
                x,p = w(ph); y,q = w(v)
                unit = ev['size'] if ph.a[3] == 'ptr' else 1
                ok = ~(p|q)
                if not ok.any(): continue
                tell(c,part,f.where,ok & (y-x != st*unit),n,'events are skipped over',lambda i: 'step of %d' % (y-x)[i])

def scan_feeds(c):
    """calc_line_bal: for each live event, the edge that starts there and is
    still undecided gets a sample; all edges of the sweep and all touching ones
    are put to line_balance; the result of the wanted operation is stored"""
    m,f,s = engine.load('engine','w_calc_line_bal',engine.SW+['opaque events_t::(next|more|rewind|touching_removed|touching_pending)$','opaque line_balance::(check|result|line_balance)$'],noclobber='line_balance::(check|result)')
    c.saw('functions',f.where)
    ev,lp = layout(m); et = enum(m,'event_type_t','vforward','backward','forward','vbackward'); es = enum(m,'event_status_t','deleted')
    ls = enum(m,'type','check')
    nx = s.calls_to('events_t::next$'); lb = s.calls_to('line_balance::line_balance$'); ck = s.calls_to('line_balance::check$'); rs = s.calls_to('line_balance::result$')
    ins = s.calls_to('sweep_set::insert$'); er = s.calls_to('sweep_set::erase$')
    tr = s.calls_to('touching_removed$'); tp = s.calls_to('touching_pending$'); bg = s.calls_to('sweep_set::c?begin$')
    if len(nx) != 1 or not (lb and ck and rs): raise Inconclusive('calc_line_bal: the calls of the scan were not found')
    out = nx[0].args[0]
    # where the event is in what next() returns
    base = None
    for e in ins+er:
        a = e.args[-1]
        if pparts(a)[0] is pparts(out)[0]: base = ptr(a,-ev['node'])
    if base is None: raise Undecided('the event handed to the sweep is not the one from next()')
    alive = min(v for v in es.values() if v != es['deleted'])
    rows = list(itertools.product(et.values(),(0,1),[v for v in (ls['check'],ls.get('undef',0),ls.get('keep',1))]))
    w = World(rows,['type','del','state']); n = w.n
    EVA = 1<<16
    w.place(base,EVA,ev['size'],{ev['a']:3,ev['b']:4,ev['node']:9,ev['type']:w['type'],ev['status']:np.where(w['del'] == 1,es['deleted'],alive)})
    w.addr[pparts(out)[0].n] = EVA-(pparts(base)[1]-pparts(out)[1]) if base is not pparts(out)[0] else EVA
    clp = None
    S = np.full((n,10),ls.get('keep',1)); S[:,3] = w['state']
    vecs = {pparts(e.args[1])[0].n:e.args[1] for e in lb}
    for v in vecs.values(): w.place(pparts(v)[0],1<<24,lp['size'],{lp['state']:S,lp['x']:0,lp['y']:0,lp['next']:0,lp['set']:0},10)
    w.call('events_t::more',lambda e,ev_: np.ones(n,np.int64))
    fwd = (w['type'] == et['forward'])|(w['type'] == et['vforward'])
    live = w['del'] == 0
    todo = live & (w['state'] == ls['check'])
    desc = lambda i: '%s event, %s, edge state %d' % ([k for k,v in et.items() if v == w['type'][i]][0],'deleted' if w['del'][i] else 'live',w['state'][i])
    W = f.where
    def happens(es_,want,what_not,what_too,part='sources'):
        t = np.zeros(n,bool); u = np.zeros(n,bool)
        for e in es_:
            t |= must(w,e.guard); u |= may(w,e.guard)
        tell(c,part,W,want & ~u,n,what_not,desc)
        tell(c,part,W,~want & t,n,what_too,desc)
    happens(ins,live & fwd,'an edge that starts is not put in the sweep','an edge that does not start is put in the sweep')
    happens(er,live & ~fwd,'an edge that ends stays in the sweep','an edge that does not end leaves the sweep')
    happens(lb,todo,'an undecided edge is not sampled','an edge that is already decided, or deleted, is sampled')
    happens(rs,todo,'the result is not computed','a result is computed for an edge that is decided')
    for nm,es_ in (('the sweep',bg),('the edges that end here',tr),('the edges that start here',tp)):
        happens(es_,todo,'the edges in %s are not considered' % nm,'-')
    # the sampled point and the hits of its own sample
    for e in lb:
        g = may(w,e.guard)
        if not g.any(): continue
        p,po = w(e.args[2])
        tell(c,'sources',W,g & ~po & (p != 3),n,'the edge tested is not the one that starts at the event',desc)
    # each source is fed completely: a loop around check() whose edge comes from the source
    lbs = {root(e.args[0]).n:e for e in lb}
    for e in lb:
        obj = root(e.args[0])
        mine = [k for k in ck if root(k.args[0]) is obj]
        def fed(src,what):
            ok = False
            for k in mine:
                os_ = {}
                for a in k.args[1:]: os_.update(origins(s,a))
                if not any(x in os_ for x in src): continue
                if not dominates(s,e.block,k.block): continue
                hs = block_loops(s,k.block)
                if hs and every_round(s,k,hs[0]): ok = True
            c.decide('sources',W,'%s are not all checked' % what,ok,None,'every round of the loop over %s checks it' % what)
        sw = [x for x in bg if dominates(s,e.block,x.block)]
        itl = set()
        # the iterator made from begin()
        for x in sw: itl |= {x.res.n}
        # iterators live in locals: their address is what operator++ gets
        for x in s.calls_to('tree_iterator::operator(\\+\\+|--)$'):
            if dominates(s,e.block,x.block): itl.add(root(x.args[0]).n)
        fed(itl,'the edges in the sweep')
        for nm,es_ in (('the edges that end here',tr),('the edges that start here',tp)):
            fed({root(x.args[0]).n for x in es_ if dominates(s,e.block,x.block)},nm)
    # result of the wanted operation goes to the edge
    for e in rs:
        x = e.args[-1]
        c.decide('sources',W,'the result is not that of the operation asked for',x is mk('arg',1),show(x,4))
        st = [q for q in s.effects if q.kind == 'store' and q.val is e.res]
        good = None
        for q in st:
            v,po = w(q.ptr)
            g = may(w,q.guard) & ~po
            if g.any(): good = bool((v[g] == (1<<24)+3*lp['size']+lp['state']).all())
        c.decide('sources',W,'the result is not stored as the state of the edge',good if st else False,None,'state of edge 3 := result(op)')
    # order: insert before, erase after
    for e in lb:
        g = must(w,e.guard)|may(w,e.guard)
        for i in ins:
            if (may(w,i.guard)&g&fwd).any(): c.decide('sources',W,'an edge is sampled before it is in the sweep',not reach(s,e.block,i.block,[nx[0].block]) or i.block == e.block,None)
        for i in er:
            if (may(w,i.guard)&g&~fwd).any(): c.decide('sources',W,'an edge leaves the sweep before it is sampled',not reach(s,i.block,e.block,[nx[0].block]) or i.block == e.block,None)
    touching(c,'w_removed','touching',True)
    touching(c,'w_pending','touching',False)

def kinds(c):
    """add_fb_events appends exactly the start and the end event of the segment,
    vertical kinds iff both ends have the same x"""
    m,f,s = engine.load('engine','w_fb_events')
    c.saw('functions',f.where)
    ev,lp = layout(m); et = enum(m,'event_type_t','vforward','backward','forward','vbackward'); es = enum(m,'event_status_t','deleted')
    rows = [r for r in itertools.product((0,1),(0,1),(0,1),(0,1)) if (r[0],r[1]) != (r[2],r[3])]
    w = World(rows,['x0','y0','x1','y1']); n = w.n; w.summ = s
    w.place(mk('elemof',mk('arg',1)),1<<20,lp['size'],{lp['x']:np.stack([w['x0'],w['x1']],1),lp['y']:np.stack([w['y0'],w['y1']],1),lp['next']:np.stack([np.full(n,1),np.full(n,0)],1)},2)
    w.arg(2,0); w.arg(3,1); w.arg(4,7)
    evs = []
    for e in s.calls_to('^vv_append$'):
        if root(e.args[0]) is not mk('arg',0): continue
        g = w.guard(e)
        d = {k:w.val(s.load(e.mem,ptr(e.elem,ev[k]),sz,'i%d' % (8*sz))) for k,sz in (('a',8),('b',8),('node',8),('type',4),('status',4))}
        evs.append((g,d))
    if not evs: raise Undecided('no event is added')
    vert = w['x0'] == w['x1']
    bad = np.zeros(n,bool); why = {}
    for k in range(n):
        got = sorted((d['a'][k],d['b'][k],d['type'][k],d['node'][k],d['status'][k] == es['deleted']) for g,d in evs if g[k])
        v = 'v' if vert[k] else ''
        want = sorted([(0,1,et[v+'forward'],7,False),(1,0,et[v+'backward'],7,False)])
        if got != want: bad[k] = True; why[k] = 'events (a,b,kind,node,deleted) %s, expected %s' % (got,want)
    tell(c,'kinds',f.where,bad,n,'the start and end event of a segment do not have the right kind',lambda k: why[k])
