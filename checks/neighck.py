"""P44, P51, P52: the event loop of the sweep, as tables over what an event
asks for, which neighbours there are, and what the tests for crossings found."""
import itertools
import numpy as np
from harness import Check, Inconclusive
from irsum import Undecided, mk, ptr, pparts, root, show, E
from world import World
from flow import walk, may, must, origins, dominates, every_round, block_loops
from checks.sweepck import layout, enum, tell
from checks.splitck import CL, LPB
from checks.meta import TABLE
import engine

SELF,P,N,END,PP = 9,20,21,30,19
def step(name):
    """++ and -- of an iterator that is kept in memory"""
    def f(s,args,m,res):
        if len(args) != 1: raise Undecided('%s with %d arguments' % (name,len(args)))
        v = s.load(m,ptr(args[0],8),8,'i64')
        return [(ptr(args[0],8),8,mk('call',name,res.a[1],((0,v),)))]
    return f
def moved(s,args,m,res,name):
    if len(args) == 3: return mk('agg',((0,args[0]),(1,mk('call','pos:'+name,res.a[1],((0,args[1]),(1,args[2]))))))
    raise Undecided('std::%s with %d arguments' % (name,len(args)))
def inserted(s,args,m,res):
    if len(args) == 3:    # result in memory
        return [(ptr(args[0],8),8,mk('call','pos:insert',res.a[1],((0,args[2]),))),(ptr(args[0],16),1,mk('const',1,8))]
    raise Undecided('sweep_set::insert with %d arguments' % len(args))
def inc(op): return lambda s,a,m,r: step('pos:'+op)(s,a,m,r)
MODELS = {r'tree_iterator::operator\+\+$':step('pos:inc'),r'tree_iterator::operator--$':step('pos:dec'),
    r'^std::prev$':lambda s,a,m,r: moved(s,a,m,r,'prev'),r'^std::next$':lambda s,a,m,r: moved(s,a,m,r,'next'),
    r'sweep_set::_?insert$':inserted}

class Loop:
    def __init__(self,c):
        m,f,s = engine.load('engine','w_self_intersection',engine.SW+['opaque clipper::(check_intersection|add_fb_events)$','opaque events_t::(next|more|reserve|current)$','opaque ^std::(prev|next|advance)$'],noclobber='.',models=MODELS)
        self.m,self.f,self.s = m,f,s
        c.saw('functions',f.where)
        self.ev,self.lp = layout(m); ev = self.ev
        et = self.et = enum(m,'event_type_t','vforward','backward','forward','vbackward'); es = self.es = enum(m,'event_status_t','deleted')
        nx = s.calls_to('events_t::next$')
        if len(nx) != 1: raise Inconclusive('events_t::next is called %d times' % len(nx))
        self.nx = nx[0]; out = root(nx[0].args[0])
        tup = [k for k in m.structs if k.startswith('std::tuple<poly_ops::detail::event<unsigned long>')]
        # std::tuple stores its elements in reverse: bool first
        FW,EO = 0,8
        rows = [r for r in itertools.product(et.values(),(0,1),(0,1),(0,1),(0,1),(0,1),(0,1))]
        w = self.w = World(rows,['type','del','fwd','gone','hp','hn','hit']); n = self.n = w.n; w.summ = s
        alive = min(v for v in es.values() if v != es['deleted'])
        A_ = 1<<16
        self.base = A_+EO
        w.place(out,A_,EO+ev['size'],{FW:w['fwd'],EO+ev['a']:3,EO+ev['b']:4,EO+ev['node']:SELF,EO+ev['type']:w['type'],EO+ev['status']:np.where(w['del'] == 1,es['deleted'],alive)})
        self.fwdtype = (w['type'] == et['forward'])|(w['type'] == et['vforward'])
        self.live = w['del'] == 0; self.ahead = w['fwd'] == 1; self.there = w['gone'] == 0
        p = np.where(w['hp'] == 1,P,END); nn = np.where(w['hn'] == 1,N,END)
        self.ins = self.fwdtype == self.ahead   # the event puts its segment in
        first = np.where(w['hp'] == 1,P,np.where(self.ins,SELF,nn))
        none = np.zeros(n,bool); full = lambda v: np.full(n,v,np.int64)
        def succ(x):   # position after x
            return np.where(x == SELF,nn,np.where(x == P,np.where(self.ins,SELF,nn),np.where(x == N,END,-1)))
        def pred(x):
            return np.where(x == SELF,p,np.where(x == N,np.where(self.ins,SELF,p),np.where(x == END,np.where(w['hn'] == 1,N,np.where(self.ins,SELF,p)),-1)))
        def one(e,ev_,fn):
            v,po = ev_(e.a[2][0][1]); r = fn(v)
            return r,po|(r == -1)
        w.call('pos:insert',lambda e,ev_: (full(SELF),none))
        w.call('pos:inc',lambda e,ev_: one(e,ev_,succ)); w.call('pos:dec',lambda e,ev_: one(e,ev_,pred))
        w.call('pos:next',lambda e,ev_: one(e,ev_,succ) if e.a[2][1][1].op == 'const' and e.a[2][1][1].a[0] == 1 else (full(0),~none))
        w.call('pos:prev',lambda e,ev_: one(e,ev_,pred) if e.a[2][1][1].op == 'const' and e.a[2][1][1].a[0] == 1 else (full(0),~none))
        w.call('sweep_set::unique',lambda e,ev_: (w['gone'],none))
        w.call('check_intersection',lambda e,ev_: (w['hit'],none))
        w.call('events_t::more',lambda e,ev_: (full(1),none))
        w.field(ptr(mk('arg',0),engine.member(m,CL,'lpoints')),0)
        def ext(e,ev_):
            if e.op == 'ext' and e.a[0].op == 'call':
                nm,k = e.a[0].a[0],e.a[1]
                if nm.endswith(('sweep_set::begin','sweep_set::cbegin')): return (first if k == 1 else full(0)),none
                if nm.endswith(('sweep_set::end','sweep_set::cend')): return full(END if k == 1 else 0),none
                if nm.endswith('sweep_set::erase'): return (nn if k == 1 else full(0)),none
            return None
        w.extra.append(ext)
        self.desc = lambda i: '%s event%s going %s%s, %s segment above, %s below, %s' % ([k for k,v in et.items() if v == w['type'][i]][0],' (deleted)' if w['del'][i] else '',
            'ahead' if w['fwd'][i] else 'back',' of a segment that was split' if w['gone'][i] else '','a' if w['hp'][i] else 'no','one' if w['hn'][i] else 'none','crossing found' if w['hit'][i] else 'no crossing')
    def node(self,a):
        """number of the node an argument names: by value or by reference"""
        v,p = self.w(a)
        if not p.any() and not ((v >= self.base-8)&(v < self.base+64)).any(): return v
        v,p = self.w(self.s.load(self.nx.mem,a,8,'i64'))
        return None if p.any() else v
    def done(self,es,part,c,node=-1):
        """states in which one of these calls, on the event's node, must happen / may happen"""
        t = np.zeros(self.n,bool); u = np.zeros(self.n,bool)
        for e in es:
            t |= must(self.w,e.guard); u |= may(self.w,e.guard)
            v = self.node(e.args[node])
            g = may(self.w,e.guard)
            if v is None: c.undecided(part,'which segment'); continue
            tell(c,part,self.f.where,g & (v != SELF),self.n,'another segment than the one of the event is put in or taken out',self.desc)
        return t,u

def P44():
    c = Check('P44','For every kind of event, status, presence of neighbours and outcome of earlier tests: a segment that enters the sweep is tested against the one above and the one below unless an earlier test of the two already split something; when one leaves, the ones above and below are tested against each other; and at the start every edge of the input is scheduled, left end first.','decision table over compiler IR: '+TABLE)
    x = Loop(c); w,n,s = x.w,x.n,x.s
    W = x.f.where
    ci = s.calls_to('check_intersection$')
    if not ci: raise Inconclusive('nothing is tested')
    # pairs tested, in program order
    must_p = {}; may_p = {}; und = np.zeros(n,bool)
    for e in ci:
        a,pa = w(e.args[2]); b,pb = w(e.args[3]); g,h = must(w,e.guard),may(w,e.guard)
        und |= h&(pa|pb)|(h&~g)
        for k in np.flatnonzero(h & ~(pa|pb)):
            may_p.setdefault(k,[]).append(tuple(sorted((int(a[k]),int(b[k])))))
    if und.any(): c.undecided('neighbours',x.desc(np.flatnonzero(und)[0]),int(und.sum()))
    bad1 = np.zeros(n,bool); bad2 = np.zeros(n,bool); bad3 = np.zeros(n,bool); bad4 = np.zeros(n,bool); why = {}
    for k in range(n):
        if und[k]: continue
        got = may_p.get(k,[])
        live,ah,fwd,there = x.live[k],x.ahead[k],x.fwdtype[k],x.there[k]
        want = []
        if live and ah and fwd: want = ([(SELF,P)] if w['hp'][k] else [])+([(SELF,N)] if w['hn'][k] else [])
        elif live and ah and there and w['hp'][k] and w['hn'][k]: want = [(P,N)]
        why[k] = x.desc(k)+': tested %s' % [tuple({SELF:'own',P:'above',N:'below',END:'end'}.get(i,i) for i in p) for p in got]
        if w['hit'][k] and fwd: ok = not want or bool(set(got)&set(want))
        else: ok = set(want) <= set(got)
        if not ok: (bad1 if fwd else bad2)[k] = True
        if any(END in p for p in got): bad3[k] = True
        # after a split the segment may be gone: nothing may be asked about its place any more
        if w['hit'][k] and fwd and sum(SELF in p for p in got) > 1: bad4[k] = True
    tell(c,'neighbours',W,bad1,n,'a segment that enters is not tested against its neighbours',lambda k: why[k])
    tell(c,'neighbours',W,bad2,n,'two segments that become neighbours are not tested',lambda k: why[k])
    tell(c,'neighbours',W,bad3,n,'the end of the list is tested as if it were a segment',lambda k: why[k])
    tell(c,'neighbours',W,bad4,n,'a segment is tested against the next one in the list although it may just have been split and taken out',lambda k: why[k])
    # the start
    ad = s.calls_to('add_fb_events$')
    ad = [e for e in ad if not dominates(s,x.nx.block,e.block)]
    if not ad: raise Inconclusive('no edge is scheduled')
    lv = ptr(mk('arg',0),engine.member(x.m,CL,'lpoints'))
    rows = [(a,b) for a in (0,1,2) for b in (0,1,2)]
    w2 = World(rows,['xa','xb']); w2.summ = s
    X = np.zeros((w2.n,3),np.int64); X[:,0] = w2['xa']; X[:,2] = w2['xb']; NX = np.zeros((w2.n,3),np.int64); NX[:] = [2,0,1]
    w2.field(lv,3); w2.place(mk('elemof',lv),LPB,x.lp['size'],{x.lp['x']:X,x.lp['y']:0,x.lp['next']:NX,x.lp['set']:0,x.lp['state']:0},3)
    w2.call('reserve',lambda e,v: (np.zeros(w2.n,np.int64),np.zeros(w2.n,bool)))
    d2 = lambda k: 'edge from x %d to x %d' % rows[k]
    bad = np.zeros(w2.n,bool); miss = np.ones(w2.n,bool); un = np.zeros(w2.n,bool)
    for e in ad:
        g = may(w2,e.guard); a,pa = w2(e.args[1]); b,pb = w2(e.args[2])
        un |= g&(pa|pb)
        okk = np.where(w2['xa'] < w2['xb'],(a == 0)&(b == 2),np.where(w2['xa'] > w2['xb'],(a == 2)&(b == 0),(a == 0)&(b == 2)))
        bad |= g&~okk; miss &= ~g
        hs = block_loops(s,e.block)
        c.decide('start',W,'not every edge is scheduled: the scheduling is not in a loop over the points',bool(hs) or None)
        if hs: 
            h = hs[0]; L = s.loops[h]
            # one round per point: unit step, and no round is left out
            st = [q for q in s.effects if q.kind == 'backedge' and q.header == h]
            for q in st:
                for pid,v in q.phis.items():
                    ph = L['phis'].get(pid)
                    if ph is None: continue
                    p0,_ = w2(ph); p1,u1 = w2(v)
                    if u1.any(): c.undecided('start','step'); continue
                    tell(c,'start',W,(p1-p0 != 1)&(p1-p0 != x.lp['size'])&(np.abs(p1-p0) < 1000),w2.n,'points are passed over when edges are scheduled',d2)
            if len(ad) == 1: c.decide('start',W,'some edges are not scheduled',every_round(s,e,h),None,'every round schedules an edge')
    if un.any(): c.undecided('start','which edge')
    else:
        tell(c,'start',W,bad,w2.n,'an edge is not scheduled left end first (in its own direction if vertical)',d2)
        tell(c,'start',W,miss,w2.n,'an edge is not scheduled',d2)
    return c

def P51():
    c = Check('P51','For every kind of event: handling it ahead and handling it back do the opposite (enter and leave the sweep), a deleted event does nothing either way, and an end event of a segment that is no longer there is deleted so that going back leaves it alone. The queue hands out events back to the first one that new events precede, in reverse, before it goes ahead again, one at a time.','decision table over compiler IR: '+TABLE)
    x = Loop(c); w,n,s = x.w,x.n,x.s
    W = x.f.where
    ti,ui = x.done(s.calls_to('sweep_set::_?insert$'),'undo',c); te,ue = x.done(s.calls_to('sweep_set::_?erase$'),'undo',c)
    live,ah,fwd,there = x.live,x.ahead,x.fwdtype,x.there
    wi = live & ((fwd & ah)|(~fwd & ~ah)); we = live & ((fwd & ~ah)|(~fwd & ah & there))
    # going back to an end event whose segment is gone can't happen: it is deleted then
    free = live & ~fwd & ~ah & ~there
    tell(c,'undo',W,wi & ~ui & ~free,n,'the segment does not enter the sweep',x.desc); tell(c,'undo',W,we & ~ue,n,'the segment does not leave the sweep',x.desc)
    tell(c,'undo',W,ti & ~wi & ~free,n,'a segment enters the sweep although the event does not say so',x.desc); tell(c,'undo',W,te & ~we,n,'a segment leaves the sweep although the event does not say so',x.desc)
    ci = s.calls_to('check_intersection$'); t = np.zeros(n,bool)
    for e in ci: t |= must(w,e.guard)
    tell(c,'undo',W,t & (~live|~ah),n,'segments are split while going back or by a deleted event',x.desc)
    cur = s.calls_to('events_t::current$'); d = np.zeros(n,bool); too = np.zeros(n,bool)
    for e in cur:
        for q in s.effects:
            if q.kind == 'store' and q.ptr is ptr(e.res,x.ev['status']):
                v,p = w(q.val)
                d |= may(w,q.guard)&(v == x.es['deleted']); too |= must(w,q.guard)&(v == x.es['deleted'])&~p
    gone = live & ~fwd & ah & ~there
    tell(c,'undo',W,gone & ~d,n,'the end event of a segment that is gone stays: going back would insert the segment again',x.desc)
    tell(c,'undo',W,too & live & (fwd|there),n,'an event is deleted although its segment is there',x.desc)
    queue(c)
    return c

def queue(c):
    m,f,s = engine.load('engine','w_next',['opaque events_t::incorporate_new$','opaque ^std::ranges::(__sort_fn::operator\\(\\)|sort)$','opaque ^std::(lower_bound|sort|upper_bound)$'],noclobber='incorporate_new|sort|lower_bound|upper_bound')
    c.saw('functions',f.where)
    ev,lp = layout(m)
    es_ = [k for k in m.structs if k.startswith('poly_ops::detail::events_t<') and {'events','current_i','new_events','last_size'} <= {y[0] for y in m.structs[k]['members']}]
    if not es_: raise Inconclusive('events_t changed')
    mem = {y[0]:y[1] for y in m.structs[es_[0]]['members']}
    ti = [k for k in m.structs if k.endswith('::to_insert') and {'e','i'} <= {y[0] for y in m.structs[k]['members']}]
    if not ti: raise Inconclusive('to_insert changed')
    io = {y[0]:y[1] for y in m.structs[ti[0]]['members']}
    q = mk('arg',1); K = 6
    # new: events waiting to be put in / more: events just added; i0: where the first of them belongs; cur: the current position
    rows = [r+(0,) for r in itertools.product((0,1),(0,1),range(0,K+1),range(-1,K)) if not (r[0] and r[1])]+[(0,1,0,-1,1)]
    w = World(rows,['new','more','i0','cur','init']); n = w.n; w.summ = s; w.over = set(s.loops)
    w.arg(0,1<<30)
    w.field(ptr(q,mem['events']),K+w['more']); w.field(ptr(q,mem['last_size']),np.where(w['init'] == 1,0,K))
    w.field(ptr(q,mem['current_i']),w['cur']); w.field(ptr(q,mem['new_events']),w['new'])
    EVB = 1<<20
    w.place(mk('elemof',ptr(q,mem['events'])),EVB,ev['size'],{ev['a']:np.tile(np.arange(K+1),(n,1)),ev['b']:0,ev['node']:0,ev['type']:0,ev['status']:0},K+1)
    ne = mk('elemof',ptr(q,mem['new_events']))
    w.place(ne,1<<24,m.structs[ti[0]]['size'],{io['i']:w['i0']},1)
    # what the preparation of new events leaves: one element, position i0
    def leaf(e,ev_):
        if e.op == 'ld':
            b,o,vs = pparts(e.a[0])
            if e.a[0] is ptr(q,mem['new_events']) and e.a[2] != 'init': return np.maximum(w['new'],w['more'])
            if b is ne and o == io['i'] and not vs: return w['i0']
        return None
    w.extra.insert(0,leaf)
    W = f.where
    inc = s.calls_to('incorporate_new$')
    mem_ = s.exit_mem()
    out = mk('arg',0)
    fw,pf = w(s.load(mem_,out,1,'i8')); a,pa = w(s.load(mem_,ptr(out,8+ev['a']),8,'i64')); cu,pc = w(s.load(mem_,ptr(q,mem['current_i']),8,'i64'))
    desc = lambda k: '%s, current event %d, first new event belongs before %d' % ('new events waiting' if w['new'][k] else 'events were added' if w['more'][k] else 'nothing new',w['cur'][k],w['i0'][k])
    ok = (w['cur'] >= 0)|(w['new'] == 0)
    waiting = (w['new'] == 1)
    # back: the next one to undo
    back = np.where(waiting,w['i0'] <= w['cur']-1,np.where((w['more'] == 1)&(w['init'] == 0),w['i0'] <= w['cur'],False)).astype(bool)
    pos = np.where(waiting,w['cur']-1,w['cur'])
    dom = ok & ((w['new'] == 0)|(w['i0'] <= w['cur']))   # only waits while there is something to undo
    und = dom&(pf|pc)
    if und.any(): c.undecided('queue',desc(np.flatnonzero(und)[0]),int(und.sum()))
    g = dom & ~und
    tell(c,'queue',W,g & back & (fw&1 != 0),n,'an event that a new event precedes is not undone',desc)
    tell(c,'queue',W,g & ~back & (fw&1 == 0),n,'an event is undone although no new event precedes it',desc)
    tell(c,'queue',W,g & back & (cu != pos),n,'going back passes over an event',desc)
    tell(c,'queue',W,g & back & ~pa & (a != pos),n,'the event handed out is not the current one',desc)
    ahead = np.where(waiting,w['cur'],w['cur']+1)
    tell(c,'queue',W,g & ~back & (cu != ahead),n,'going ahead passes over an event or repeats one',desc)
    it = np.zeros(n,bool); iu = np.zeros(n,bool)
    for e in inc: it |= must(w,e.guard); iu |= may(w,e.guard)
    tell(c,'queue',W,g & back & it,n,'new events are put in before everything they precede is undone',desc)
    tell(c,'queue',W,g & ~back & ((w['new'] == 1)|(w['more'] == 1)&(w['init'] == 0)) & ~iu,n,'new events are not put in',desc)
    ls,pl = w(s.load(mem_,ptr(q,mem['last_size']),8,'i64'))
    tell(c,'queue',W,g & ~pl & (w['init'] == 1) & (ls != K+1),n,'the events of the start are taken for new ones later',desc)
    # each new event moves the ones that belong after it
    adj = [e for e in s.effects if e.kind == 'store' and pparts(e.ptr)[0] is ne and (pparts(e.ptr)[1]%m.structs[ti[0]]['size']) == io['i'] and block_loops(s,e.block)]
    dist = 0
    for e in adj:
        if not any(x.op == 'ld' and x.a[0] is e.ptr for x in walk([e.val])): continue
        vs = pparts(e.ptr)[2]
        if len(vs) != 1: continue
        w3 = World([(i,) for i in range(5)],['i'])
        w3.extra.append(lambda x,v: w3['i'] if x is vs[0][1] else np.full(5,100) if x.op == 'ld' and x.a[0] is e.ptr else None)
        v,p = w3(e.val)
        if p.any(): c.undecided('queue','how positions are moved'); continue
        tell(c,'queue',W,v != 100+w3['i'],5,'the position of a new event does not take the new events before it into account',lambda k: 'event %d' % k)

def P52():
    c = Check('P52','When two segments are found to cross, each of them is split at the one common point, in the way its own classification says, unless both only touch at their ends; all points that meet there are then reconsidered (marked to be checked); when they do not cross nothing changes.','decision table over compiler IR: '+TABLE)
    m,f,s = engine.load('engine','w_check_intersection',engine.SW+['opaque clipper::(split_segment|intersects)$','opaque poly_ops::detail::(intersects|intersects_parallel)$'],noclobber='.')
    c.saw('functions',f.where)
    ev,lp = layout(m); at = enum(m,'at_edge_t','start','end','both','no')
    ix = s.calls_to('(^|::)intersects$'); sp = s.calls_to('split_segment$')
    if len(ix) != 1 or not sp: raise Inconclusive('the test or the splitting was not found')
    ix = ix[0]
    W = f.where
    rows = [r for r in itertools.product((0,1),(at['start'],at['end'],at['both'],at['no']),(at['start'],at['end'],at['both'],at['no'])) if (r[1] == at['both']) == (r[2] == at['both'])]
    w = World(rows,['hit','e1','e2']); n = w.n; w.summ = s
    ptrs = [a for a in ix.args if root(a).op == 'alloca']
    # the classification and the point are locals: the point is 2 coordinates, the classification 2 values
    calls = {tuple(root(e.args[4]).a) if False else e.args[4].n for e in sp}
    pt = sp[0].args[4] if len(sp[0].args) > 6 else sp[0].args[3]
    S1,S2 = 3,5
    w.arg(2,S1); w.arg(3,S2)
    w.call('intersects',lambda e,v: (w['hit'],np.zeros(n,bool)))
    edge = [a for a in ptrs if root(a) is not root(pt)]
    if not edge: raise Undecided('the classification was not found')
    eb = root(edge[0]); eo = pparts(edge[0])[1]
    def leaf(e,v):
        if e.op == 'ld' and root(e.a[0]) is eb:
            o = pparts(e.a[0])[1]-eo
            if o == 0: return w['e1']
            if o == 4: return w['e2']
        return None
    w.extra.insert(0,leaf)
    w.call('split_segment',lambda e,v: (np.where(v.val(e.a[2][2][1]) == S1,70,71),np.zeros(n,bool)))
    sn = ptr(mk('arg',0),engine.member(m,CL,'sweep_nodes'))
    k = [x for x in m.structs if x.startswith('poly_ops::detail::set_node<poly_ops::detail::cached_segment<')][0]
    vo = engine.member(m,k,'value')
    A_ = np.zeros((n,8),np.int64); B_ = np.zeros((n,8),np.int64); A_[:,S1] = 10; B_[:,S1] = 11; A_[:,S2] = 12; B_[:,S2] = 13
    w.place(mk('elemof',sn),1<<22,m.structs[k]['size'],{vo:A_,vo+8:B_},8); w.field(sn,8)
    lv = ptr(mk('arg',0),engine.member(m,CL,'lpoints'))
    w.place(mk('elemof',lv),LPB,lp['size'],{},100)
    ls = enum(m,'type','check')
    nm = {v:k_ for k_,v in at.items()}
    desc = lambda i: '%s: first %s, second %s' % ('crossing' if w['hit'][i] else 'no crossing',nm[w['e1'][i]],nm[w['e2'][i]])
    hit = w['hit'] == 1; ends = hit & (w['e1'] != at['no']) & (w['e2'] != at['no'])
    # the segments asked about
    va,pa = w(ix.args[0] if root(ix.args[0]).op != 'arg' else ix.args[1])
    got = [set() for _ in range(n)]; und = False
    for e in sp:
        g = must(w,e.guard)
        if (may(w,e.guard)&~g).any(): und = True
        off = next((j for j,a in enumerate(e.args) if a is mk('arg',1)),1)
        sv,ps = w(e.args[off+1]); av,pe = w(e.args[off+3])
        if (g&(ps|pe)).any(): und = True
        c.decide('split',W,'the segments are not split at the point that was found',root(e.args[off+2]) is root(pt) and root(pt) in [root(a) for a in ptrs])
        for i in np.flatnonzero(g): got[i].add((int(sv[i]),int(av[i])))
    if und: c.undecided('split','which segment'); 
    else:
        want = [set() if not hit[i] else {(S1,int(w['e1'][i])),(S2,int(w['e2'][i]))} for i in range(n)]
        bad = np.array([bool(hit[i]) and not ends[i] and got[i] != want[i] for i in range(n)])
        tell(c,'split',W,bad,n,'the two segments are not both split as they were classified',lambda i: desc(i)+': split (segment, classification) %s' % sorted(got[i]))
        bad = np.array([bool(got[i]) and not hit[i] for i in range(n)])
        tell(c,'split',W,bad,n,'a segment is split although nothing crosses it',desc)
    r,pr = w(s.retexpr())
    no = hit & ~ends
    tell(c,'split',W,~pr & no & (r&1 == 0),n,'the sweep is not told that a segment was split',desc)
    tell(c,'split',W,~pr & ~hit & (r&1 != 0),n,'the sweep is told of a split that did not happen',desc)
    mark = [set() for _ in range(n)]; und = False
    for e in s.effects:
        if e.kind != 'store' or root(e.ptr) is not root(lv): continue
        p,po = w(e.ptr); v,pv = w(e.val); g = must(w,e.guard)
        if (may(w,e.guard)&(po|pv)).any() or (may(w,e.guard)&~g).any(): und = True
        for i in np.flatnonzero(g & ~po):
            idx,o = divmod(int(p[i])-LPB,lp['size'])
            if o == lp['state'] and v[i] == ls['check']: mark[i].add(idx)
            elif not pv[i]: mark[i].add('changed')
    if und: c.undecided('reconsider','which points')
    else:
        ep = {S1:(10,11),S2:(12,13)}
        want = []
        for i in range(n):
            x = set()
            if hit[i]:
                if not ends[i]: x = {70,71}
                elif w['e1'][i] == at['both']: x = {10,11,12,13}
                else: x = {10 if w['e1'][i] == at['start'] else 11,12 if w['e2'][i] == at['start'] else 13}
            want.append(x)
        bad = np.array([not want[i] <= mark[i] for i in range(n)])
        tell(c,'reconsider',W,bad,n,'a point where segments meet is not reconsidered',lambda i: desc(i)+': marked %s of %s' % (sorted(map(str,mark[i])),sorted(want[i])))
        bad = np.array([bool(mark[i]-want[i]) for i in range(n)])
        tell(c,'reconsider',W,np.array([bool(mark[i]) and not hit[i] for i in range(n)]),n,'points are changed although nothing crosses',desc)
    return c
