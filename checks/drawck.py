"""P26-P29, P50: the rasterizer (witness/draw.cpp)."""
import itertools
from fractions import Fraction
import numpy as np
from harness import Check, Inconclusive
from irsum import Undecided, mk, ptr, pparts, root, show, E
from world import World
from wide import Wide
from flow import walk, may, must, origins, dominates, every_round, block_loops, reach, Rounds
from checks.sweepck import tell, enum
from checks.meta import TABLE
import engine

RA = 'poly_ops::draw::rasterizer<int>'; SS = 'poly_ops::draw::scan_line_sweep_state<int>'; EVT = 'poly_ops::draw::detail::event<int>'
LP = 'poly_ops::draw::detail::loop_point<int>'; EVS = 'poly_ops::draw::detail::events_t<int>'; SL = 'poly_ops::draw::scan_line'
RULES = {'non_zero':lambda v: v != 0,'even_odd':lambda v: v%2 != 0,'positive':lambda v: v > 0,'negative':lambda v: v < 0}
WINDS = [-(1<<63),-(1<<63)+1,-(1<<32)-1,-(1<<31),-7,-6,-5,-4,-3,-2,-1,0,1,2,3,4,5,6,7,(1<<31)-1,1<<31,(1<<32)+1,(1<<63)-2,(1<<63)-1]
def load(root_,*opaque,noclobber=None,models=None):
    m,f,s = engine.load('draw',root_,list(opaque),noclobber=noclobber,models=models)
    return m,f,s
def size(m,t):
    if t not in m.structs: raise Inconclusive('type %s vanished' % t)
    return m.structs[t]['size']

def P26():
    c = Check('P26','For every fill rule and winding number (all small ones of either sign, and the extremes of the type): the row is passed on iff the rule, by its name, fills that winding number, with the position of the scan line; and drawing goes on exactly as long as there are scan lines.','decision table over compiler IR: '+TABLE)
    m,f,s = load('w_should_fill')
    c.saw('functions',f.where)
    rule = enum(m,'fill_rule_t',*RULES)
    rows = list(itertools.product(rule.items(),WINDS))
    w = World([(b,v) for (a,b),v in rows],['rule','w']); w.summ = s
    w.arg(0,w['rule']); w.arg(1,w['w'])
    want = np.array([RULES[a](v) if a in RULES else False for (a,b),v in rows])
    known = np.array([a in RULES for (a,b),v in rows])
    d = lambda k: 'rule %s, winding number %d' % (rows[k][0][0],rows[k][1])
    r,p = w(s.retexpr())
    tell(c,'rule',f.where,known&~p&((r != 0) != want),w.n,'the rule does not decide as named',d)
    if p.any(): c.undecided('rule','a decision',int(p.sum()))
    # the loop
    m,f,s = load('w_draw','opaque rasterizer::scan_lines$','opaque scan_line_sweep_state::operator\\(\\)$',noclobber='scan_lines$|scan_line_sweep_state::operator')
    c.saw('functions',f.where)
    L = {n:o for n,o,*_ in m.structs[SL]['members']} if SL in m.structs else None
    if not L or not {'x1','x2','y','winding'} <= set(L): raise Inconclusive('scan_line changed')
    st = s.calls_to('scan_line_sweep_state::operator\\(\\)$'); row = s.calls_to('^w_row$')
    if len(st) != 1 or not row: raise Inconclusive('draw: %d calls for a scan line, %d for a row' % (len(st),len(row)))
    st = st[0]; sc = root(st.args[2])
    rows = list(itertools.product(rule.items(),WINDS,(0,1),((11,22,33),(11,11,33),(0,0,0),(0,7,0))))
    w = World([(b,v,g)+h for (a,b),v,g,h in rows],['rule','w','more','x1','x2','y']); w.summ = s; n = w.n
    w.arg(3,w['rule']); w.call('operator()',lambda e,ev: (w['more'],np.zeros(n,bool)))
    w.place(sc,1<<16,size(m,SL),{L['x1']:w['x1'],L['x2']:w['x2'],L['y']:w['y'],L['winding']:w['w']})
    want = np.array([RULES[a](v) if a in RULES else False for (a,b),v,g,h in rows]) & (w['more'] == 1); known = np.array([a in RULES for (a,b),v,g,h in rows])
    d = lambda k: 'rule %s, winding number %d, from %d to %d in row %d%s' % ((rows[k][0][0],rows[k][1])+rows[k][3]+('' if rows[k][2] else ', after the last scan line',))
    t = np.zeros(n,np.int64); u = np.zeros(n,bool)
    for e in row:
        g,p = w(e.guard); u |= p; t += (g != 0)&~p
        for k,(v,nm) in enumerate(((w['x1'],'left end'),(w['x2'],'right end'),(w['y'],'row'))):
            x,px = w(e.args[k]); on = (g != 0)&~p
            tell(c,'draw',f.where,on&~px&(x != v),n,'a row is drawn with another %s than the scan line has' % nm,d)
    tell(c,'draw',f.where,known&~u&((t > 0) != want),n,'a row is drawn or left out against the fill rule',d)
    tell(c,'draw',f.where,~u&(t > 1),n,'a row is drawn twice',d)
    bk = [e for e in s.effects if e.kind == 'backedge']; go = np.zeros(n,bool); ug = np.zeros(n,bool)
    for e in bk: g,p = w(e.guard); go |= (g != 0)&~p; ug |= p
    tell(c,'draw',f.where,~ug&(go != (w['more'] == 1)),n,'drawing does not go on exactly while there are scan lines',d)
    # the state is the one scan_lines made for this canvas
    for e in s.calls_to('rasterizer::scan_lines$'):
        c.decide('draw',f.where,'the scan lines are of another canvas',all(e.args[k] is mk('arg',k-1) for k in (1,2,3)) if len(e.args) == 4 else None,None,'scan_lines(width,height) of the same rasterizer')
        c.decide('draw',f.where,'scan lines of another state are drawn',root(st.args[0]) is root(e.args[0]))
    return c

SELF,PV,NX,END = 9,20,21,30
CALLS = ['opaque events_t::next$','opaque rasterizer::(swap_and_check|check_intersection|check_intersection_after_swap)$','opaque ^std::(prev|next|advance)$']+engine.SW
def fields(m,t,*need):
    if t not in m.structs: raise Inconclusive('type %s vanished' % t)
    d = {n:o for n,o,*_ in m.structs[t]['members']}
    if not set(need) <= set(d): raise Inconclusive('members of %s changed' % t)
    return d
class Layout:
    """where the members are (looked up when needed: a module has only the types its roots reach)"""
    def __init__(self,m): self.m = m
    def __getattr__(self,name):
        m = self.m
        if name == 'ra': v = fields(m,RA,'lpoints','events','sweep_nodes','ran')
        elif name == 'ss': v = fields(m,SS,'width','height','sweep','y','s_itr','x','winding','suspended') if SS in m.structs else None
        elif name == 'evs': v = fields(m,EVS,'events','new_events','current_i','last_size')
        elif name == 'lp': v = fields(m,LP,'data','next')
        elif name == 'lps': v = size(m,LP)
        elif name == 'evz': v = size(m,EVT)
        elif name == 'evt':
            e = fields(m,EVT,'type','ab'); u = [o for n,o,*_ in m.structs[EVT]['members'] if n == '' and o > e['ab']]
            if len(u) != 1: raise Inconclusive('event changed')
            v = {'type':e['type'],'a':e['ab'],'b':e['ab']+8,'node':u[0],'whole':u[0],'num':u[0]+8,'den':u[0]+16}
        elif name in ('sn','snz'):
            sn = [k for k in m.structs if k.startswith('poly_ops::detail::set_node<')]
            if len(sn) != 1: raise Inconclusive('set_node changed')
            v = fields(m,sn[0],'parent','left','right','color','value') if name == 'sn' else size(m,sn[0])
        elif name == 'seg':
            cs = fields(m,'poly_ops::detail::cached_segment<unsigned long, int>','pa','pb'); o = self.sn['value']
            v = {'a':o,'b':o+8,'ax':o+cs['pa'],'ay':o+cs['pa']+4,'bx':o+cs['pb'],'by':o+cs['pb']+4}
        elif name == 'types': v = enum(m,'event_type_t','forward','backward','swap')
        else: raise AttributeError(name)
        setattr(self,name,v); return v
A0,A1,A2 = 1<<12,1<<14,1<<16
class Scan:
    """one step of the scan of a canvas"""
    def __init__(self,c):
        self.m,self.f,self.s = load('w_scan',*CALLS,noclobber='.',models=NMODELS)
        c.saw('functions',self.f.where); self.L = Layout(self.m)
    def world(self,cols,width=9,height=9,y=5,x=3,winding=1,suspended=0,n_events=2,current=1,cur=SELF,prev=PV,next_=NX,ins=True,events=None,points=None,nodes=None):
        """cols: name -> values; the others may refer to columns of it"""
        names = list(cols); rows = list(itertools.product(*cols.values()))
        w = World(rows,names); w.summ = self.s; w.rows = rows; L = self.L
        v = lambda q: q(w) if callable(q) else q
        w.vectors(); w.arg(0,A0); w.arg(1,A1); w.arg(2,A2)
        st = {L.ss['width']:v(width),L.ss['height']:v(height),L.ss['y']:v(y),L.ss['sweep']:A1+L.ra['sweep_nodes'],L.ss['s_itr']:A1+L.ra['sweep_nodes'],L.ss['s_itr']+8:v(cur),L.ss['x']:v(x),L.ss['winding']:v(winding),L.ss['suspended']:v(suspended)}
        st[L.ss['sweep']+8] = v(y)-1
        w.put(A0,size(self.m,SS),st,1)
        ev = L.ra['events']
        w.put(A1,size(self.m,RA),{L.ra['lpoints']:8,ev+L.evs['events']:v(n_events),ev+L.evs['current_i']:v(current),ev+L.evs['last_size']:v(n_events),L.ra['sweep_nodes']:40,L.ra['ran']:1},1)
        w.put(A2,size(self.m,SL),{0:0,4:0,8:0,16:0},1)
        if events: w.put(w.elems(A1+ev+L.evs['events']),L.evz,{L.evt[k]:v(t) for k,t in events.items()},4)
        if points: w.put(w.elems(A1+L.ra['lpoints']),L.lps,{o:v(t) for o,t in points.items()},8)
        if nodes: w.put(w.elems(A1+L.ra['sweep_nodes']),L.snz,{L.seg[k]:v(t) for k,t in nodes.items()},40)
        n = w.n; none = np.zeros(n,bool); full = lambda q: np.full(n,q,np.int64) if not isinstance(q,np.ndarray) else q
        prev,next_,ins = full(v(prev)),full(v(next_)),full(1*v(ins))
        succ = lambda x: np.where(x == SELF,next_,np.where(x == PV,np.where(ins,SELF,next_),np.where(x == NX,END,-1)))
        pred = lambda x: np.where(x == SELF,prev,np.where(x == NX,np.where(ins,SELF,prev),np.where(x == END,np.where(next_ == NX,NX,np.where(ins,SELF,prev)),-1)))
        first = np.where(prev == PV,PV,np.where(ins,SELF,next_))
        def one(e,ev,fn):
            x,po = ev(e.a[2][0][1]); r = fn(x); return r,po|(r == -1)
        by1 = lambda e: e.a[2][1][1].op == 'const' and e.a[2][1][1].a[0] == 1
        w.call('pos:insert',lambda e,ev: (full(SELF),none))
        w.call('pos:inc',lambda e,ev: one(e,ev,succ)); w.call('pos:dec',lambda e,ev: one(e,ev,pred))
        w.call('pos:next',lambda e,ev: one(e,ev,succ) if by1(e) else (full(0),~none)); w.call('pos:prev',lambda e,ev: one(e,ev,pred) if by1(e) else (full(0),~none))
        def ext(e,ev):
            if e.op == 'ext' and e.a[0].op == 'call':
                nm,k = e.a[0].a[0],e.a[1]
                if nm.endswith(('sweep_set::begin','sweep_set::cbegin')): return (first if k == 1 else full(A1+L.ra['sweep_nodes'])),none
                if nm.endswith(('sweep_set::end','sweep_set::cend')): return full(END if k == 1 else A1+L.ra['sweep_nodes']),none
                if nm.endswith('sweep_set::erase'): return (next_ if k == 1 else full(A1+L.ra['sweep_nodes'])),none
            return None
        w.extra.append(ext)
        return w
    def stores(self,at,field=None):
        """stores to a member of the state (arg 0), or of the line (arg 2)"""
        return [e for e in self.s.effects if e.kind == 'store' and e.ptr is ptr(mk('arg',at),field)]
    def which(self,w,es,part,c,what):
        """rows in which any of the stores happens, its value there"""
        t = np.zeros(w.n,bool); u = np.zeros(w.n,bool); r = np.zeros(w.n,np.int64)
        for e in es:
            g,p = w(e.guard); x,px = w(e.val); on = (g != 0)&~p
            t |= on; u |= p|(on&px); r = np.where(on,x,r)
        if u.any(): c.undecided(part,what,int(u.sum()))
        return t&~u,r,u
    def told(self,w):
        return lambda k: ', '.join('%s %s' % (a,b) for a,b in zip(w.cols,w.rows[k]))
from checks.neighck import MODELS as NMODELS

BIG = (1<<31)-1
def P27():
    c = Check('P27','For every position of a segment relative to the canvas and every canvas size: the position of a segment on the scan line is taken exactly, up to rounding to a pixel, and cut to the canvas; a run goes from the segment to the one before; runs are only produced on rows of the canvas, on canvases with a width; and each row is looked at once.','decision table over compiler IR: '+TABLE)
    q = Scan(c); s,L,W = q.s,q.L,q.f.where
    xs,rx = q.stores(0,L.ss['x']),[q.stores(2,o) for o in (0,4,8,16)]
    if not xs or not all(rx): raise Inconclusive('anchor vanished: what a scan line is made of')
    # positions; the segment goes from (ax,0) to (bx,8) or the other way
    big = 1<<28
    w = q.world({'width':[1,2,5,9,100,BIG,BIG+1,BIG+2,2*BIG+1],'ax':[-big,-30,-1,0,1,4,8,9,99,30000,big],'bx':[-big,-7,-1,0,3,4,5,9,120,big],'up':[0,1],'y':[0,3,5,7],'winding':[-1,1,2]},
        width=lambda w: np.where(w['width'] > BIG,w['width']-(1<<32),w['width']),height=1000,y=lambda w: w['y'],winding=lambda w: w['winding'],suspended=1,x=7,
        nodes={'ax':lambda w: np.where(w['up'] == 1,w['ax'],w['bx']),'ay':lambda w: np.where(w['up'] == 1,0,8),'bx':lambda w: np.where(w['up'] == 1,w['bx'],w['ax']),'by':lambda w: np.where(w['up'] == 1,8,0),'a':1,'b':2},
        points={L.lp['data']:0,L.lp['data']+4:0,L.lp['next']:2})
    d = q.told(w)
    t,x,u = q.which(w,xs,'canvas',c,'position of a segment')
    c.decide('canvas',W,'the position of a segment is not taken',bool(t.any()) or None)
    last = np.minimum(w['width']-1,BIG)
    tell(c,'canvas',W,t&((x < 0)|(x > last)),w.n,'a position outside the canvas',d)
    # within less than a pixel of the exact one
    num = 8*w['ax']+(w['bx']-w['ax'])*w['y']
    lo = np.clip(-((-num)//8)-1,0,last); hi = np.clip(num//8+1,0,last)
    tell(c,'canvas',W,t&((x < lo)|(x > hi)),w.n,'a position that is not the one of the segment',d)
    # the run
    vals = [x,7,w['y'],w['winding']]
    for k,(es,nm) in enumerate(zip(rx,('left end','right end','row','winding number'))):
        es = [e for e in es if e.val.op != 'undef']
        g,v,u2 = q.which(w,es,'run',c,nm)
        vv = np.where(g,v,0)&0xffffffff if k < 3 else v
        tell(c,'run',W,g&~u&(vv != (np.asarray(vals[k])&0xffffffff if k < 3 else vals[k])),w.n,'a run has another %s than its segments say' % nm,d)
    r,pr = w(s.retexpr()); g = np.zeros(w.n,bool)
    g = q.which(w,[e for e in rx[0]],'run',c,'run')[0]
    tell(c,'run',W,~pr&((r != 0) != g),w.n,'the caller is told of a run that was not set, or not of one that was',d) if not pr.any() else c.undecided('run','result',int(pr.sum()))
    sus = q.stores(0,L.ss['suspended']); gs,vs,_ = q.which(w,[e for e in sus if e.val is mk('const',1,8)],'run',c,'suspended')
    tell(c,'run',W,gs != g,w.n,'the scan is not taken up after a run where it was left',d)
    # no run where nothing is inside; winding zero
    w = q.world({'winding':[-3,-1,0,1,2],'dir':[0,1]},height=1000,winding=lambda w: w['winding'],suspended=1,
        nodes={'ax':2,'ay':0,'bx':2,'by':8,'a':1,'b':2},points={L.lp['data']:0,L.lp['data']+4:0,L.lp['next']:lambda w: np.where(w['dir'] == 1,2,7)})
    g = q.which(w,rx[0],'run',c,'run')[0]
    tell(c,'run',W,g&(w['winding'] == 0),w.n,'a run outside of every polygon',q.told(w)); tell(c,'run',W,~g&(w['winding'] != 0),w.n,'no run between two segments with something between them',q.told(w))
    t,x,u = q.which(w,q.stores(0,L.ss['winding']),'run',c,'winding number')
    tell(c,'run',W,t&(x != w['winding']+np.where(w['dir'] == 1,1,-1)),w.n,'a segment does not change the winding number by one in its direction',q.told(w))
    c.decide('run',W,'winding numbers are not counted',bool(t.any()) or None)
    # which rows are looked at: no event any more at or before the row
    w = q.world({'width':[0,1,9,-1],'height':[0,1,9,-1],'y':[-9,-1,0,1,8,9,10,BIG],'end':[0,1]},width=lambda w: w['width'],height=lambda w: w['height'],y=lambda w: w['y'],winding=50,
        n_events=2,current=lambda w: np.where(w['end'] == 1,2,1),events={'type':L.types['forward'],'a':1,'b':2,'node':5},points={L.lp['data']:0,L.lp['data']+4:lambda w: np.where(w['y'] < BIG,w['y']+1,BIG),L.lp['next']:2},
        nodes={'ax':2,'ay':0,'bx':2,'by':8,'a':1,'b':2})
    t = q.which(w,q.stores(0,L.ss['winding'])+xs+rx[0],'rows',c,'start of a row')[0]
    hh = w['height']&0xffffffff; free = (w['end'] == 1)|(w['y'] == BIG)   # events at the row come first there
    good = (w['width'] != 0)&(w['y'] >= 0)&(w['y'] < hh)
    tell(c,'rows',W,t&~good,w.n,'a row outside the canvas is looked at',q.told(w)); tell(c,'rows',W,~t&good&~free,w.n,'a row of the canvas is passed over',q.told(w))
    g,v,u = q.which(w,q.stores(0,L.ss['winding']),'rows',c,'winding number at the start of a row')
    tell(c,'rows',W,t&(~g|(np.abs(v) > 1)),w.n,'a row does not start outside of everything',q.told(w))
    g,v,u = q.which(w,q.stores(0,L.ss['s_itr']+8),'rows',c,'first segment of a row')
    tell(c,'rows',W,t&~u&(~g|(v != PV)),w.n,'a row does not start with the first segment',q.told(w))
    # the end of a row
    w = q.world({'y':[0,3,7],'end':[0,1]},height=1000,y=lambda w: w['y'],suspended=1,cur=END,current=lambda w: np.where(w['end'] == 1,2,1),events={'type':L.types['forward'],'a':1,'b':2,'node':5},points={L.lp['data']:0,L.lp['data']+4:99,L.lp['next']:2})
    t,x,u = q.which(w,q.stores(0,L.ss['y']),'rows',c,'the next row')
    tell(c,'rows',W,~u&~t,w.n,'the scan does not go on to the next row',q.told(w)); tell(c,'rows',W,t&(x != w['y']+1),w.n,'the scan goes on to another row than the next',q.told(w))
    g = q.which(w,rx[0],'rows',c,'run')[0]
    tell(c,'rows',W,g,w.n,'a run after the last segment of a row',q.told(w))
    return c

def P28():
    c = Check('P28','For every history: polygons added after a drawing start from an empty set, clearing leaves no polygon, a drawing starts with no events, no segments and nothing in its sweep, schedules every edge that is not horizontal once from its upper to its lower end, and leaves the polygons as they are.','effect summary of the flattened functions over compiler IR; decision table over compiler IR: '+TABLE)
    for name,at in (('w_add_loop',1),('w_clear',0)):
        m,f,s = load(name); c.saw('functions',f.where); L = Layout(m)
        w = World(itertools.product((0,1),(0,3,70)),['ran','n']); w.summ = s
        w.vectors(); w.arg(0,A2); w.arg(at,A1); w.put(A1,size(m,RA),{L.ra['ran']:w['ran'],L.ra['lpoints']:w['n']},1)
        d = lambda k: '%d points, %s' % (w['n'][k],'already drawn' if w['ran'][k] else 'not drawn')
        mem = s.exit_mem(); p = mk('arg',at)
        n,pn = w(s.load(mem,ptr(p,L.ra['lpoints']),8,'i64')); r,pr = w(s.load(mem,ptr(p,L.ra['ran']),1,'i8'))
        if pn.any() or pr.any(): c.undecided('add',name,int((pn|pr).sum())); continue
        new = np.where(w['ran'] == 1,0,w['n']) if at else 0*w['n']
        tell(c,'add',f.where,(n != new)&(n > new),w.n,'polygons of an earlier drawing stay',d)
        tell(c,'add',f.where,(n != new)&(n < new),w.n,'polygons that were not drawn yet are lost',d)
        tell(c,'add',f.where,(r&1) != 0,w.n,'the next polygon would be taken for the first one after a drawing',d)
        if at:
            sk = fields(m,RA+'::point_sink','started')
            v,pv = w(s.load(mem,ptr(mk('arg',0),sk['started']),1,'i8'))
            if pv.any(): c.undecided('add','started')
            else: tell(c,'add',f.where,(v&1) != 0,w.n,'a loop does not start without points',d)
    start(c)
    # a drawing does not change the polygons
    for name,at,op in (('w_draw',0,('opaque ^poly_ops::draw::rasterizer::(check_intersection_after_swap|swap_and_check)$',)),('w_after',0,()),('w_swap',0,())):
        m,f,s = load(name,*op,*engine.SW[:0]); c.saw('functions',f.where); L = Layout(m)
        lv = ptr(mk('arg',at),L.ra['lpoints']); el = mk('elemof',lv); k = 0; bad = []
        for e in s.effects:
            if e.kind == 'store':
                k += 1; b = pparts(e.ptr)[0]
                if b is el or e.ptr is lv: bad.append(show(e.ptr,4))
            elif e.kind == 'call' and e.name.startswith('vv_'):
                k += 1
                if e.args and e.args[0] is lv: bad.append(e.name)
        for b in bad[:3]: c.fail('keep',f.where,'a drawing changes the polygons',b)
        if not bad: c.ok('keep',k,'%s: %d stores and growths' % (name,k))
    return c

def start(c):
    m,f,s = load('w_scan_lines','opaque events_t::next$','opaque rasterizer::add_fb_events$',noclobber='.')
    W = f.where; c.saw('functions',W); L = Layout(m)
    ad = s.calls_to('add_fb_events$'); nx = s.calls_to('events_t::next$')
    if not ad or not nx: raise Inconclusive('anchor vanished: scheduling of edges')
    ev = L.ra['events']; R = mk('arg',1)
    # what is there when edges are scheduled, and the state the scan starts with
    w = World(itertools.product((0,1,5),(1,3),(0,4),(0,1)),['n','nodes','cur','ran']); w.summ = s
    w.vectors(); w.arg(0,A0); w.arg(1,A1); w.arg(2,640); w.arg(3,480)
    w.put(A1,size(m,RA),{L.ra['lpoints']:0,ev+L.evs['events']:w['n'],ev+L.evs['new_events']:0,ev+L.evs['current_i']:w['cur'],ev+L.evs['last_size']:w['n'],L.ra['sweep_nodes']:w['nodes'],L.ra['ran']:w['ran']},1)
    d = lambda k: 'drawn before: %d events and %d segments left' % (w['n'][k],w['nodes'][k]-1)
    for e in ad+nx:
        for off,z,want,nm in ((ev+L.evs['events'],8,0,'events'),(ev+L.evs['new_events'],8,0,'events'),(ev+L.evs['current_i'],8,-1,'the place in the events'),(ev+L.evs['last_size'],8,0,'the number of sorted events'),(L.ra['sweep_nodes'],8,1,'segments')):
            v,p = w(s.load(e.mem,ptr(R,off),z,'i64'))
            if p.any(): c.undecided('start',nm,int(p.sum())); continue
            tell(c,'start',W,v != want,w.n,'%s of the drawing before are still there' % nm,d)
    v,p = w(s.load(s.exit_mem(),ptr(R,L.ra['ran']),1,'i8'))
    if p.any(): c.undecided('start','ran')
    else: tell(c,'start',W,(v&1) == 0,w.n,'polygons added after this drawing are added to the ones it drew',d)
    for off,want,nm in ((L.ss['width'] if L.ss else 0,640,'width'),(L.ss['height'] if L.ss else 4,480,'height')):
        v,p = w(s.load(s.exit_mem(),ptr(mk('arg',0),off),4,'i32'))
        if p.any(): c.undecided('start',nm)
        else: tell(c,'start',W,v != want,w.n,'the %s of the canvas is not the one asked for' % nm,d)
    v,p = w(s.load(s.exit_mem(),ptr(mk('arg',0),L.ss['suspended']),1,'i8'))
    if p.any(): c.undecided('start','suspended')
    else: tell(c,'start',W,(v&1) != 0,w.n,'a new scan starts in the middle of a row',d)
    # an empty sweep: every link of the root is set after the segments of before are gone
    root_ = mk('elemof',ptr(R,L.ra['sweep_nodes']))
    w.put(w.elems(A1+L.ra['sweep_nodes']),L.snz,{L.sn[k]:77 for k in ('parent','left','right')},1)
    for nm in ('parent','left','right'):
        v,p = w(s.load(s.exit_mem(),ptr(root_,L.sn[nm]),8,'i64'))
        if p.any(): c.undecided('start',nm+' of the root')
        else: tell(c,'start',W,v == 77,w.n,'the sweep of the drawing before is still linked (%s of its root)' % nm,d)
    # which edges: rings of three and four points
    hs = [h for e in ad for h in block_loops(s,e.block)[-1:]]
    if not hs: c.undecided('edges','edges are not scheduled in a loop'); return
    for k in (0,3,4):
        w = World(itertools.product(*[(0,1,2)]*k,(0,1)),['y%d' % i for i in range(k)]+['x']); w.summ = s
        w.vectors(); w.arg(0,A0); w.arg(1,A1); w.arg(2,640); w.arg(3,480)
        w.put(A1,size(m,RA),{L.ra['lpoints']:k,ev+L.evs['events']:0,ev+L.evs['new_events']:0,ev+L.evs['current_i']:-1,ev+L.evs['last_size']:0,L.ra['sweep_nodes']:1,L.ra['ran']:0},1)
        Y = np.zeros((w.n,max(k,1)),np.int64); X = Y.copy(); N = Y.copy(); nxt = [(i+1)%k for i in range(k)]
        for i in range(k): Y[:,i] = w['y%d' % i]; X[:,i] = w['x']*i; N[:,i] = nxt[i]
        w.put(w.elems(A1+L.ra['lpoints']),L.lps,{L.lp['data']:X,L.lp['data']+4:Y,L.lp['next']:N},max(k,1))
        d = lambda r: 'points with y %s' % [int(y) for y in Y[r]]
        rd = Rounds(s,w,hs[0],k+1)
        got = rd.happens(ad); bad = {z:np.zeros(w.n,bool) for z in ('flat','turn','miss','twice')}; un = 0
        for r in range(w.n):
            ps = []
            for e,ev_ in got[r] or []:
                a,pa = ev_(e.args[1]); b,pb = ev_(e.args[2])
                ps = None if pa[r] or pb[r] or ps is None else ps+[(int(a[r]),int(b[r]))]
            if got[r] is None or ps is None: un += 1; continue
            want = {(i,j) if Y[r,i] < Y[r,j] else (j,i) for i,j in enumerate(nxt) if Y[r,i] != Y[r,j]}
            bad['flat'][r] = any(0 <= a < k and 0 <= b < k and Y[r,a] == Y[r,b] for a,b in ps); bad['turn'][r] = any((b,a) in want for a,b in ps)
            bad['miss'][r] = any(p not in ps and p[::-1] not in ps for p in want); bad['twice'][r] = len(set(ps)) != len(ps)
        if un: c.undecided('edges','which edges',un)
        if un == w.n: continue
        for z,what in (('flat','a horizontal edge is scheduled'),('turn','an edge is not scheduled from its upper to its lower end'),('miss','an edge is left out'),('twice','an edge is scheduled twice')): tell(c,'edges',W,bad[z],w.n,what,d)

def fraction_offsets(m):
    k = [k for k in m.structs if k.startswith('poly_ops::draw::detail::whole_and_frac<int')]
    g = [k for k in m.structs if k.startswith('poly_ops::draw::detail::fraction<int, 2U, 2U>')]
    if not k or not g: raise Inconclusive('fractions changed')
    w,f = fields(m,k[0],'whole','frac'),fields(m,g[0],'num','denom')
    return {'whole':w['whole'],'num':w['frac']+f['num'],'den':w['frac']+f['denom']},f
def compare(c,root_,rows,place,want,part,what,d):
    """a comparison against the order of exact values"""
    from wide import WideWorld
    m,f,s = load(root_); c.saw('functions',f.where)
    w = WideWorld({'r':list(range(len(rows)))}); w.summ = s
    place(w,m)
    if s.loops:
        if len(s.loops) > 1: c.undecided(part,'%s has %d loops' % (root_,len(s.loops)),len(rows)); return None
        rd = Rounds(s,w,next(iter(s.loops)),5); ev = rd.after
        for k,v in rd.exitvals.items(): w.exits[k] = v
        w.spaces['L%d' % rd.h] = rd.space; w.ev.memo.clear()
        r,p = w(s.retexpr()); p = p|(rd.unsure&rd.entered)
    else: r,p = w(s.retexpr())
    r = np.array([int(x) for x in r]) & 1
    if p.any(): c.undecided(part,root_,int(p.sum()))
    want = np.array([1*bool(x) for x in want])
    tell(c,part,f.where,~p&(r != want),len(rows),what,d)
    return r,p,f
PA,PB,PC = 4096,8192,12288
def colm(rows,i): return np.array([r[i] for r in rows],object)
def P29():
    c = Check('P29','Comparisons of fractions and of whole numbers with fractions agree with exact arithmetic at every combination of corner values; events are ordered by exact position, then ends before swaps before starts, as a strict weak order; segments are ordered by decreasing exact x on the line, and those that meet there by the x they have below it, as a strict weak order.','decision table over compiler IR (exact integers): '+TABLE)
    ops = {'lt':lambda a,b: a < b,'gt':lambda a,b: a > b,'eq':lambda a,b: a == b,'ge':lambda a,b: a >= b}
    V = [-(1<<63)+1,-(1<<62)-1,-(1<<32),-3,-1,0,1,2,7,(1<<32)+1,(1<<62)+3,(1<<63)-1]; D = [v for v in V if v > 0]
    B = [-(1<<31),-7,-1,0,1,2,1<<30,(1<<31)-1]
    m = load('w_frac_lt')[0]; wo,fo = fraction_offsets(m)
    rows = list(itertools.product(V,D,V,D))
    def two(w,m):
        w.arg(0,PA); w.arg(1,PB); w.put(PA,16,{fo['num']:colm(rows,0),fo['denom']:colm(rows,1)},1); w.put(PB,16,{fo['num']:colm(rows,2),fo['denom']:colm(rows,3)},1)
    d = lambda k: '%d/%d and %d/%d' % rows[k]
    for o in ('lt','gt','eq'): compare(c,'w_frac_'+o,rows,two,[ops[o](Fraction(r[0],r[1]),Fraction(r[2],r[3])) for r in rows],'fractions','fractions are compared wrongly',d)
    rows2 = list(itertools.product(V,D,B))
    def one(w,m): w.arg(0,PA); w.arg(1,colm(rows2,2)); w.put(PA,16,{fo['num']:colm(rows2,0),fo['denom']:colm(rows2,1)},1)
    for o in ('lt','eq'): compare(c,'w_frac_%si' % o,rows2,one,[ops[o](Fraction(r[0],r[1]),r[2]) for r in rows2],'fractions','a fraction and a whole number are compared wrongly',lambda k: '%d/%d and %d' % rows2[k])
    # whole numbers with fractions below one
    FR = [(0,1),(0,5),(1,3),(2,6),(1,2),((1<<62)-1,1<<62),((1<<62)+1,(1<<62)+2),(1,(1<<63)-1)]
    rows3 = list(itertools.product([-(1<<31),-1,0,1,(1<<31)-1],FR,[-(1<<31),-1,0,1,(1<<31)-1],FR))
    def wf(w,m):
        w.arg(0,PA); w.arg(1,PB)
        for at,i in ((PA,0),(PB,2)): w.put(at,24,{wo['whole']:colm(rows3,i),wo['num']:np.array([r[i+1][0] for r in rows3],object),wo['den']:np.array([r[i+1][1] for r in rows3],object)},1)
    for o in ('lt','eq'): compare(c,'w_wf_'+o,rows3,wf,[ops[o](r[0]+Fraction(*r[1]),r[2]+Fraction(*r[3])) for r in rows3],'fractions','positions are compared wrongly',lambda k: '%d+%d/%d and %d+%d/%d' % (rows3[k][0],*rows3[k][1],rows3[k][2],*rows3[k][3]))
    rows4 = list(itertools.product([-(1<<31),-1,0,1,(1<<31)-1],FR,B))
    def wi(w,m):
        w.arg(0,PA); w.arg(1,colm(rows4,2)); w.put(PA,24,{wo['whole']:colm(rows4,0),wo['num']:np.array([r[1][0] for r in rows4],object),wo['den']:np.array([r[1][1] for r in rows4],object)},1)
    for o in ('lt','ge','eq'): compare(c,'w_wf_%si' % o,rows4,wi,[ops[o](r[0]+Fraction(*r[1]),r[2]) for r in rows4],'fractions','a position and a whole number are compared wrongly',lambda k: '%d+%d/%d and %d' % (rows4[k][0],*rows4[k][1],rows4[k][2]))
    events(c); segments(c)
    return c

def strict(c,part,where,lt,known,d,what):
    """lt: square table of a comparison that must be a strict weak order"""
    n = len(lt)
    bad = np.flatnonzero(np.diag(lt)&np.diag(known))
    if len(bad): c.fail(part,where,what+': something comes before itself',d(bad[0],bad[0]))
    q = lt&lt.T&known&known.T; k = np.argwhere(q)
    if len(k): c.fail(part,where,what+': each of two comes before the other',d(*k[0]))
    if known.all() and not len(k):
        L = lt.astype(np.int32); t = (L@L > 0)&~lt
        k = np.argwhere(t)
        if len(k): c.fail(part,where,what+': not transitive',d(*k[0]))
        e = (~lt&~lt.T); t = ((e.astype(np.int32)@e.astype(np.int32)) > 0)&~e; k = np.argwhere(t)
        if len(k): c.fail(part,where,what+': being at the same place is not transitive',d(*k[0]))
        c.ok(part,n*n,'strict weak order over %d' % n)
    else: c.undecided(part,'a comparison',int((~known).sum()))

def events(c):
    m,f,s = load('w_event_cmp'); L = Layout(m); ty = L.types; c.saw('functions',f.where)
    PT = [4,4,5,5,-3,-3]   # y of the points
    it = []
    for k in ('forward','backward'): it += [(ty[k],a,b,None) for a,b in ((0,2),(2,0),(1,3),(0,3),(4,0),(5,1),(3,4),(1,2))]
    it += [(ty['swap'],a,b,p) for p in ((4,0,1),(4,1,2),(4,2,4),(4,(1<<61)+1,1<<62),(5,0,3),(5,1,3),(-3,0,7),(-4,1,2)) for a,b in ((1,2),(2,1),(7,8))]
    pos = [Fraction(PT[a]) if p is None else p[0]+Fraction(p[1],p[2]) for t,a,b,p in it]
    n = len(it); nm = {v:k for k,v in ty.items()}
    show1 = lambda i: '%s (%d,%d) at %s' % (nm[it[i][0]],it[i][1],it[i][2],pos[i])
    I,J = np.repeat(np.arange(n),n),np.tile(np.arange(n),n)
    from wide import WideWorld
    def put(w,at,ix):
        g = lambda fn: np.array([fn(it[i]) for i in ix],object)
        w.put(at,L.evz,{L.evt['type']:g(lambda e: e[0]),L.evt['a']:g(lambda e: e[1]),L.evt['b']:g(lambda e: e[2]),L.evt['whole']:g(lambda e: e[3][0] if e[3] else 0),L.evt['num']:g(lambda e: e[3][1] if e[3] else 77),L.evt['den']:g(lambda e: e[3][2] if e[3] else 78)},1)
    def points(w):
        Y = np.array([PT]*w.n,object); w.put(w.elems(1<<12),L.lps,{L.lp['data']:0,L.lp['data']+4:Y,L.lp['next']:0},6)
    w = WideWorld({'r':list(range(n*n))}); w.summ = s; w.vectors(); w.arg(0,1<<12); w.arg(1,PB); w.arg(2,PC)
    points(w); put(w,PB,I); put(w,PC,J)
    r,p = w(s.retexpr()); r = (np.array([int(x) for x in r])&1).astype(bool)
    order = {ty['backward']:0,ty['swap']:1,ty['forward']:2}
    bad = np.zeros(n*n,bool)
    for k in range(n*n):
        a,b = (pos[I[k]],order[it[I[k]][0]]),(pos[J[k]],order[it[J[k]][0]])
        if a != b and not p[k]: bad[k] = r[k] != (a < b)
    tell(c,'events',f.where,bad,n*n,'events are handled in the wrong order',lambda k: show1(I[k])+' and '+show1(J[k]))
    strict(c,'events',f.where,r.reshape(n,n),~p.reshape(n,n),lambda i,j: show1(i)+' and '+show1(j),'the order of events')
    # is an event at or before a line
    m,f,s = load('w_event_le'); c.saw('functions',f.where)
    ys = [-5,-4,-3,-2,3,4,5,6]; I,J = np.repeat(np.arange(n),len(ys)),np.tile(np.array(ys),n)
    w = WideWorld({'r':list(range(len(I)))}); w.summ = s; w.vectors(); w.arg(0,1<<12); w.arg(1,PB); w.arg(2,J.astype(object)); points(w); put(w,PB,I)
    r,p = w(s.retexpr()); r = np.array([int(x) for x in r])&1
    if p.any(): c.undecided('events','line',int(p.sum()))
    tell(c,'events',f.where,~p&(r != np.array([1*(pos[i] <= int(y)) for i,y in zip(I,J)])),len(I),'an event is taken to be on the wrong side of the line',lambda k: show1(I[k])+', line %d' % J[k])

def segments(c):
    m,f,s = load('w_sweep_cmp'); c.saw('functions',f.where); L = Layout(m)
    import os
    from wide import WideWorld
    B = 1<<28; y0 = 1
    E = [(x,y) for x in (0,1,2,3) for y in (0,1)]; F = [(x,y) for x in (0,1,2,3) for y in (2,3)]
    segs = [(a,b) for a in E for b in F]+[((x,-B),(z,B)) for x in (-B,0,1,B) for z in (-B,-1,0,B)]
    n = len(segs); I,J = np.repeat(np.arange(n),n),np.tile(np.arange(n),n)
    at = lambda g,y: g[0][0]+Fraction((g[1][0]-g[0][0])*(y-g[0][1]),g[1][1]-g[0][1])
    X = [at(g,y0) for g in segs]; X1 = [at(g,y0+1) for g in segs]
    v = L.sn['value']; O = {k:o-v for k,o in L.seg.items()}
    for tie in (0,1):
        # the indices decide between coinciding ones: different in every pair
        w = WideWorld({'r':list(range(n*n))}); w.summ = s; w.arg(0,y0); w.arg(1,PB); w.arg(2,PC)
        for p_,ix in ((PB,I),(PC,J)):
            g = lambda fn: np.array([fn(segs[i]) for i in ix],object); id_ = np.array([int(i) if tie else n-int(i) for i in ix],object)
            w.put(p_,L.snz-v,{O['a']:id_,O['b']:id_//2+1000,O['ax']:g(lambda q: q[0][0]),O['ay']:g(lambda q: q[0][1]),O['bx']:g(lambda q: q[1][0]),O['by']:g(lambda q: q[1][1])},1)
        r,p = w(s.retexpr()); r = (np.array([int(x) for x in r])&1).astype(bool)
        show1 = lambda i: '%s-%s' % segs[i]
        bad = np.zeros(n*n,bool)
        for k in range(n*n):
            a,b = (X[I[k]],X1[I[k]]),(X[J[k]],X1[J[k]])
            if a != b and not p[k]: bad[k] = r[k] != (a > b)
        tell(c,'segments',f.where,bad,n*n,'segments are in the wrong order on line %d' % y0,lambda k: show1(I[k])+' and '+show1(J[k]))
        strict(c,'segments',f.where,r.reshape(n,n),~p.reshape(n,n),lambda i,j: show1(i)+' and '+show1(j),'the order of segments')

def P50():
    c = Check('P50','For every kind of event and every presence of neighbours: the segment of the event enters, leaves or is swapped, exactly when the event is at or before the scan line, and every pair of segments that are next to each other after that and were not before is tested for a crossing from there on; a swap only happens between neighbours; and a test schedules a swap exactly for pairs that cross inside both further ahead, at the exact position, or swaps at once where they cross on the spot.','decision table over compiler IR: '+TABLE)
    scan(c); swap(c); crossing(c)
    return c

def scan(c):
    q = Scan(c); s,L,W,ty = q.s,q.L,q.f.where,q.L.types
    sw,ck = s.calls_to('rasterizer::swap_and_check$'),s.calls_to('rasterizer::check_intersection$')
    ins,ers,nx = s.calls_to('sweep_set::_?insert$'),s.calls_to('sweep_set::_?erase$'),s.calls_to('events_t::next$')
    if not sw or not ck or not ins or not ers or not nx: raise Inconclusive('anchor vanished: handling of events')
    EA,EB = 3,4
    cols = {'type':list(ty.values()),'hp':[0,1],'hn':[0,1],'y':[4,5,6],'frac':[0,1],'end':[0,1]}
    pt = lambda w: np.stack([np.where(np.arange(w.n) >= 0,0,0)]*3+[w['y']]+[w['y']]*4,1)
    w = q.world(cols,y=5,height=1000,current=lambda w: np.where(w['end'] == 1,2,1),prev=lambda w: np.where(w['hp'] == 1,PV,END),next_=lambda w: np.where(w['hn'] == 1,NX,END),ins=lambda w: w['type'] == ty['forward'],
        events={'type':lambda w: w['type'],'a':EA,'b':EB,'whole':lambda w: np.where(w['type'] == ty['swap'],w['y'],SELF),'num':lambda w: w['frac'],'den':3},points={L.lp['data']:0,L.lp['data']+4:pt,L.lp['next']:0})
    n = w.n; d = q.told(w); told = {v:k for k,v in ty.items()}
    d = lambda k: '%s event at y %s%s of a line at 5, %s segment before, %s after' % (told[w['type'][k]],w['y'][k],'+1/3' if w['frac'][k] and w['type'][k] == ty['swap'] else '','a' if w['hp'][k] else 'no','one' if w['hn'][k] else 'none')
    now = (w['end'] == 0)&((w['y'] < 5)|((w['y'] == 5)&((w['type'] != ty['swap'])|(w['frac'] == 0))))
    F,B,X = now&(w['type'] == ty['forward']),now&(w['type'] == ty['backward']),now&(w['type'] == ty['swap'])
    def node(e,a):
        v,p = w(a)
        at = w.addr_of(a) if hasattr(w,'addr_of') else None
        # by reference: what is there
        ref = (root(a).op == 'alloca' or v > 1000)
        if np.any(ref): v,p = w(s.load(e.mem,a,8,'i64'))
        return v,p
    def did(es,k):
        t = np.zeros(n,bool); u = np.zeros(n,bool)
        for e in es:
            g,p = w(e.guard); v,pv = node(e,e.args[k]); on = (g != 0)&~p
            u |= p|(on&pv); t |= on
            tell(c,'events',W,on&~pv&(v != SELF),n,'another segment than the one of the event enters or leaves',d)
        return t&~u,u
    ti,ui = did(ins,-1); te,ue = did(ers,-1)
    if (ui|ue).any(): c.undecided('events','which segment',int((ui|ue).sum()))
    tell(c,'events',W,F&~ti&~ui,n,'the segment of an event does not enter',d); tell(c,'events',W,ti&~F,n,'a segment enters although no event says so',d)
    tell(c,'events',W,B&~te&~ue,n,'the segment of an event does not leave',d); tell(c,'events',W,te&~B,n,'a segment leaves although no event says so',d)
    # segments are put in by their place on this line
    for e in ins:
        g,p = w(e.guard); v,pv = w(s.load(e.mem,ptr(mk('arg',0),L.ss['sweep']+8),4,'i32')); on = (g != 0)&~p
        if (on&pv).any(): c.undecided('events','line'); continue
        tell(c,'events',W,on&(v != 5),n,'a segment is put in by its place on another line',d)
    # swaps
    t = np.zeros(n,bool); u = np.zeros(n,bool)
    for e in sw:
        g,p = w(e.guard); on = (g != 0)&~p; u |= p; t |= on
        ar = e.args[-3:]
        a,pa = w(ar[0]); b,pb = w(ar[1])
        if (on&(pa|pb)).any(): c.undecided('events','swapped segments',int((on&(pa|pb)).sum()))
        tell(c,'events',W,on&~pa&~pb&((a != EA)|(b != EB)),n,'other segments are swapped than the event says',d)
        for o,z,want in ((L.evt['whole']-L.evt['whole'],4,w['y']),(L.evt['num']-L.evt['whole'],8,w['frac']),(L.evt['den']-L.evt['whole'],8,3)):
            v,pv = w(s.load(e.mem,ptr(ar[2],o),z,'i%d' % (8*z)))
            if (on&pv).any(): c.undecided('events','position of a swap'); continue
            tell(c,'events',W,on&(v != want),n,'segments are swapped at another position than they cross',d)
    if u.any(): c.undecided('events','swap',int(u.sum()))
    tell(c,'events',W,X&~t&~u,n,'segments that cross are not swapped',d); tell(c,'events',W,t&~X,n,'segments are swapped although no event says so',d)
    # every event is done with
    t = np.zeros(n,bool); u = np.zeros(n,bool)
    for e in nx: g,p = w(e.guard); u |= p; t |= (g != 0)&~p
    tell(c,'events',W,now&~t&~u,n,'the event is not passed',d); tell(c,'events',W,~now&t,n,'an event is passed that was not handled',d)
    # neighbours
    got = [set() for _ in range(n)]; und = np.zeros(n,bool); late = np.zeros(n,bool)
    for e in ck:
        g,p = w(e.guard); a,pa = node(e,e.args[1]); b,pb = node(e,e.args[2]); y,py = w(e.args[3]); on = (g != 0)&~p
        und |= p|(on&(pa|pb))
        late |= on&~py&(y > w['y'])
        for k in np.flatnonzero(on&~pa&~pb): got[k].add((int(a[k]),int(b[k])))
    if und.any(): c.undecided('neighbours','pairs tested',int(und.sum()))
    miss = np.zeros(n,bool); turned = np.zeros(n,bool); end = np.zeros(n,bool)
    for k in np.flatnonzero(~und):
        want = set()
        if F[k]: want = ({(PV,SELF)} if w['hp'][k] else set())|({(SELF,NX)} if w['hn'][k] else set())
        elif B[k] and w['hp'][k] and w['hn'][k]: want = {(PV,NX)}
        miss[k] = any(p not in got[k] and p[::-1] not in got[k] for p in want); turned[k] = any(p[::-1] in got[k] for p in want)
        end[k] = any(END in p for p in got[k])
    tell(c,'neighbours',W,miss,n,'segments that become neighbours are not tested',d); tell(c,'neighbours',W,turned,n,'segments are tested in the wrong order',d)
    tell(c,'neighbours',W,end,n,'the end of the sweep is tested as if it were a segment',d); tell(c,'neighbours',W,late,n,'crossings between the event and the line are not looked for',d)

def swap(c):
    m,f,s = load('w_swap',*CALLS[:1],'opaque rasterizer::(check_intersection|check_intersection_after_swap)$',*CALLS[2:],'opaque sweep_set::insert_before$',noclobber='.',models=NMODELS)
    W = f.where; c.saw('functions',W); L = Layout(m)
    ck,ers,ib = s.calls_to('check_intersection_after_swap$'),s.calls_to('sweep_set::_?erase$'),s.calls_to('sweep_set::insert_before$')
    if not ck or not ers or not ib: raise Inconclusive('anchor vanished: swapping')
    rows = list(itertools.product((0,1),(0,1),(0,1,2)))
    w = World(rows,['hp','hn','adj']); w.summ = s; n = w.n; w.vectors()
    S1,S2 = 11,12
    w.arg(0,A1); w.arg(1,A0); w.arg(2,S1); w.arg(3,S2); w.arg(4,A2)
    w.put(A0,16,{0:A1+L.ra['sweep_nodes'],8:5},1)
    w.put(A1,size(m,RA),{L.ra['lpoints']:8,L.ra['events']:2,L.ra['sweep_nodes']:40},1)
    none = np.zeros(n,bool); p0 = np.where(w['hp'] == 1,PV,END); n0 = np.where(w['hn'] == 1,NX,END)
    adj = w['adj'] == 1; first = np.where(w['hp'] == 1,PV,S1)
    order = {e.k:(e.block,e.k) for e in s.effects if e.kind == 'call' and getattr(e,'k',None) is not None}
    def later(k):     # the call comes after the swap
        if k not in order: return False
        b = order[k][0]; x = ib[0]
        return (b == x.block and k > x.k) or (b != x.block and dominates(s,x.block,b))
    # between the two there is another segment (adj 0) or they are the other way round (adj 2)
    def nxt(x,k):
        if later(k): return np.where(x == S1,np.where(adj,n0,-1),np.where(x == S2,np.where(adj,S1,-1),np.where(x == PV,S2,-1)))
        return np.where(x == S1,np.where(adj,S2,np.where(w['adj'] == 2,n0,77)),np.where(x == S2,np.where(w['adj'] == 2,S1,n0),np.where(x == PV,np.where(w['adj'] == 2,S2,S1),-1)))
    def prv(x,k):
        if later(k): return np.where(x == S2,np.where(adj,p0,-1),np.where(x == S1,np.where(adj,S2,-1),-1))
        return np.where(x == S2,np.where(adj,S1,np.where(w['adj'] == 2,p0,77)),np.where(x == S1,np.where(w['adj'] == 2,S2,p0),-1))
    def one(e,ev,fn):
        x,po = ev(e.a[2][0][1]); r = fn(x,e.a[1]); return r,po|(r == -1)
    by1 = lambda e: e.a[2][1][1].op == 'const' and e.a[2][1][1].a[0] == 1
    w.call('pos:inc',lambda e,ev: one(e,ev,nxt)); w.call('pos:dec',lambda e,ev: one(e,ev,prv))
    w.call('pos:next',lambda e,ev: one(e,ev,nxt) if by1(e) else (np.zeros(n,np.int64),~none)); w.call('pos:prev',lambda e,ev: one(e,ev,prv) if by1(e) else (np.zeros(n,np.int64),~none))
    full = lambda v: np.full(n,v,np.int64)
    def ext(e,ev):
        if e.op == 'ext' and e.a[0].op == 'call':
            nm,k = e.a[0].a[0],e.a[1]
            if nm.endswith(('sweep_set::begin','sweep_set::cbegin')): return (np.where(w['hp'] == 1,PV,S2 if later(e.a[0].a[1]) else S1) if k == 1 else full(A1+L.ra['sweep_nodes'])),none
            if nm.endswith(('sweep_set::end','sweep_set::cend')): return full(END if k == 1 else A1+L.ra['sweep_nodes']),none
            if nm.endswith('sweep_set::erase'): return (n0 if k == 1 else full(A1+L.ra['sweep_nodes'])),none
            if nm.endswith('sweep_set::insert_before'): return full(S2 if k == 1 else A1+L.ra['sweep_nodes']),none
        return None
    w.extra.append(ext)
    d = lambda k: 'segments %s, %s before, %s after' % (('with another between them','next to each other','the other way round')[w['adj'][k]],'one' if w['hp'][k] else 'none','one' if w['hn'][k] else 'none')
    def val(e,a):
        v,p = w(a)
        if root(a).op == 'alloca': v,p = w(s.load(e.mem,a,8,'i64'))
        return v,p
    for es,wants,what in ((ers,(S2,),'taken out'),(ib,(S1,S2),'put in')):
        t = np.zeros(n,bool); u = np.zeros(n,bool)
        for e in es:
            g,p = w(e.guard); on = (g != 0)&~p; u |= p; t |= on
            for k,x in enumerate(wants):
                v,pv = val(e,e.args[len(e.args)-len(wants)+k])
                if (on&pv).any(): c.undecided('swap',what); continue
                tell(c,'swap',W,on&(v != x),n,'swapping: the wrong segment is %s' % what,d)
        if u.any(): c.undecided('swap',what,int(u.sum()))
        tell(c,'swap',W,t&~adj,n,'segments are swapped that are not in order next to each other',d); tell(c,'swap',W,~t&~u&adj,n,'segments are not swapped',d)
    got = [set() for _ in range(n)]; und = np.zeros(n,bool)
    for e in ck:
        g,p = w(e.guard); a,pa = w(e.args[-3]); b,pb = w(e.args[-2]); on = (g != 0)&~p; und |= p|(on&(pa|pb))
        for k in np.flatnonzero(on&~pa&~pb): got[k].add((int(a[k]),int(b[k])))
        y,py = w(e.args[-1])
        if (on&~py&(y == A2)).any() or not on.any(): c.ok('swap',int(on.sum()),'position handed on')
        else: c.undecided('swap','position of a test')
    if und.any(): c.undecided('swap','pairs tested',int(und.sum()))
    miss = np.zeros(n,bool); turned = np.zeros(n,bool); end = np.zeros(n,bool)
    for k in np.flatnonzero(~und):
        want = set()
        if adj[k]: want = ({(PV,S2)} if w['hp'][k] else set())|({(S1,NX)} if w['hn'][k] else set())
        miss[k] = any(p not in got[k] and p[::-1] not in got[k] for p in want); turned[k] = any(p[::-1] in got[k] for p in want); end[k] = any(END in p for p in got[k])
    tell(c,'swap',W,miss,n,'segments that become neighbours by a swap are not tested',d); tell(c,'swap',W,turned,n,'segments are tested in the wrong order',d); tell(c,'swap',W,end,n,'the end of the sweep is tested as if it were a segment',d)

def crossing(c):
    import os
    from wide import WideWorld
    nx,ny = (4,4) if os.environ.get('VERIF_TIER') == 'thorough' else (3,4)
    pts = [(x,y) for x in range(nx) for y in range(ny)]
    segs = [(a,b) for a in pts for b in pts if a[1] < b[1]]
    B = 1<<27
    far = [((-B,0),(B,3)),((B,0),(-B,3)),((-B,0),(B-1,3)),((B,-B),(-B,B)),((B-1,-B+1),(-B,B)),((-B,-B),(B,B))]
    at = lambda g,y: g[0][0]+Fraction((g[1][0]-g[0][0])*(y-g[0][1]),g[1][1]-g[0][1])
    slope = lambda g: Fraction(g[1][0]-g[0][0],g[1][1]-g[0][1])
    def rows(ys,after):
        for p,q in itertools.chain(itertools.product(segs,segs),itertools.product(far,far)):
            for y,fr in ys:
                if not (p[0][1] <= y <= p[1][1] and q[0][1] <= y <= q[1][1]): continue
                a,b = at(p,y),at(q,y)
                # p is before q: further right; just after a swap, or where several meet, they may still be to be swapped
                if a < b or (a == b and not after and slope(p) < slope(q)): continue
                if y in (p[1][1],q[1][1]): continue
                for sh in ((1,2,3,4),(1,2,1,4),(1,2,3,2)):
                    if sh[0] == sh[2] and p[0] != q[0] or sh[1] == sh[3] and p[1] != q[1]: continue
                    yield p,q,y,fr,sh
    for name,after in (('w_check',0),('w_after',1)):
        m,f,s = load(name,'opaque rasterizer::swap_and_check$',*CALLS[2:],noclobber='.',models=NMODELS)
        W = f.where; c.saw('functions',W); L = Layout(m); wo,fo = fraction_offsets(m)
        ys = [(Fraction(y),(y,0,k)) for y in range(3) for k in ((1,5) if after else (1,))]
        if after: ys += [(w_+Fraction(a,b),(w_,a,b)) for w_ in range(3) for a,b in ((1,2),(2,4),(1,3),(2,3),(3,4),(4,5))]
        R = list(rows(ys,after)); n = len(R)
        w = WideWorld({'r':list(range(n))}); w.summ = s; w.vectors()
        S1,S2 = 3,4
        w.arg(0,A1)
        if after: w.arg(1,A0); w.put(A0,16,{0:A1+L.ra['sweep_nodes'],8:0},1); w.arg(2,S1); w.arg(3,S2); w.arg(4,A2); w.put(A2,24,{wo['whole']:np.array([r[3][0] for r in R],object),wo['num']:np.array([r[3][1] for r in R],object),wo['den']:np.array([r[3][2] for r in R],object)},1)
        else: w.arg(1,S1); w.arg(2,S2); w.arg(3,np.array([int(r[2]) for r in R],object))
        w.put(A1,size(m,RA),{L.ra['lpoints']:8,L.ra['events']:2,L.ra['sweep_nodes']:40},1)
        T = {}
        for k,fn in (('a',lambda r,i: r[4][2*i]),('b',lambda r,i: r[4][2*i+1]),('ax',lambda r,i: r[i][0][0]),('ay',lambda r,i: r[i][0][1]),('bx',lambda r,i: r[i][1][0]),('by',lambda r,i: r[i][1][1])):
            t = np.zeros((n,6),object)
            for i in (0,1): t[:,S1+i] = [fn(r,i) for r in R]
            T[L.seg[k]] = t
        w.put(w.elems(A1+L.ra['sweep_nodes']),L.snz,T,6)
        def idiv(e,ev):
            if e.op != 'ext' or e.a[0].op != 'call' or e.a[0].a[0] is not None and 'indirect' not in str(e.a[0].a[0]): return None
            ar = [x for _,x in e.a[0].a[2]]
            if len(ar) != 3: return None
            (lo,p),(hi,q),(dv,r) = ev(ar[0]),ev(ar[1]),ev(ar[2])
            out = np.zeros(n,object); bad = p|q|r
            for k in range(n):
                z = (int(hi[k])<<64)|(int(lo[k])&((1<<64)-1)); v = int(dv[k])
                if v == 0: bad[k] = True; continue
                qn = abs(z)//abs(v)*(1 if (z < 0) == (v < 0) else -1)
                out[k] = qn if e.a[1] == 0 else z-qn*v
            return out,bad
        w.extra.append(idiv)
        # what is to be found
        want = np.zeros(n,object); yy = [None]*n; free = np.zeros(n,bool)
        for k,(p,q,y,fr,sh) in enumerate(R):
            if sh[0] == sh[2] or sh[1] == sh[3]: continue
            ds = slope(q)-slope(p)      # q gains on p
            if ds <= 0: continue
            t = y+(at(p,y)-at(q,y))/ds; yy[k] = t
            if not (p[0][1] < t < p[1][1] and q[0][1] < t < q[1][1]): free[k] = p[0][1] <= t <= p[1][1] and q[0][1] <= t <= q[1][1]; continue
            want[k] = 2 if after and t == y else 1
        d = lambda k: '%s-%s and %s-%s from y %s%s' % (*R[k][0],*R[k][1],R[k][2],', with a common end' if R[k][4] != (1,2,3,4) else '')
        ap = [e for e in s.calls_to('^vv_append$')]; sw = s.calls_to('swap_and_check$') if after else []
        if not ap or (after and not sw): raise Inconclusive('anchor vanished: what a test does')
        t = np.zeros(n,bool); u = np.zeros(n,bool)
        for e in ap:
            g,p = w(e.guard); on = np.array([bool(x) for x in g])&~p; t |= on; u |= p
            ld = lambda o,z: w(s.load(e.mem,ptr(e.elem,o),z,'i%d' % (8*z)))
            got = {k:ld(L.evt[k],z) for k,z in (('type',4),('a',8),('b',8),('whole',4),('num',8),('den',8))}
            pq = np.zeros(n,bool)
            for v,q in got.values(): pq |= q
            if (on&pq).any(): c.undecided('crossing','event',int((on&pq).sum()))
            on &= ~pq
            bad = np.zeros(n,bool); off = np.zeros(n,bool)
            for k in np.flatnonzero(on):
                g1 = {x:int(v[0][k]) for x,v in got.items()}
                bad[k] = g1['type'] != L.types['swap'] or (g1['a'],g1['b']) != (S1,S2)
                off[k] = want[k] == 1 and (g1['den'] <= 0 or g1['whole']+Fraction(g1['num'],g1['den']) != yy[k] or not 0 <= g1['num'] < g1['den'])
            tell(c,'crossing',W,bad,n,'another event than a swap of the two is scheduled',d); tell(c,'crossing',W,off,n,'a swap is scheduled at another position than the crossing',d)
        sd = np.zeros(n,bool)
        for e in sw:
            g,p = w(e.guard); on = np.array([bool(x) for x in g])&~p; sd |= on; u |= p
            ok = np.ones(n,bool)
            for a,x in zip(e.args[-3:],(S1,S2,A2)):
                v,pv = w(a)
                if (on&pv).any(): c.undecided('crossing','immediate swap'); continue
                ok &= np.array([int(i) == x for i in v])
            tell(c,'crossing',W,on&~ok,n,'other segments are swapped than the ones that cross',d)
        if u.any(): c.undecided('crossing',name,int(u.sum()))
        one,two = want == 1,want == 2
        tell(c,'crossing',W,~u&~free&one&~t,n,'a crossing ahead is not scheduled',d); tell(c,'crossing',W,~u&~free&~one&~two&(t|sd),n,'a swap is scheduled although the two do not cross ahead',d)
        if after: tell(c,'crossing',W,~u&~free&two&~sd,n,'segments that cross on the spot are not swapped at once',d); tell(c,'crossing',W,~u&~free&(one&sd|two&t),n,'a swap is done at the wrong time',d)

def P41():
    c = Check('P41','For every state of a loop that is being given to the rasterizer: a point is stored unless it repeats the last one, points are linked in the order given, the loop is closed from its last to its first point and never to another loop, loops of fewer than three points vanish entirely, and a sink that was moved from stores nothing; every point of every loop of a range is passed on.','decision table over compiler IR: '+TABLE)
    SP = 64
    def sink(name):
        m,f,s = load(name); c.saw('functions',f.where); L = Layout(m)
        sk = fields(m,RA+'::point_sink','n','prev','first_i','started')
        return m,f,s,L,sk
    # one point
    m,f,s,L,sk = sink('w_sink_point')
    w = World([r for r in itertools.product((0,1),(0,3),(0,1,2,5),(0,1,2,3)) if (r[0] == 0) == (r[2] == 0) and (r[0] or r[3] == 0)],['started','first','k','diff']); w.summ = s; n = w.n; w.vectors()
    st,fi,k = w['started'],w['first'],w['k']
    w.arg(0,A0); w.arg(1,A2)
    w.put(A0,size(m,RA+'::point_sink'),{sk['n']:A1,sk['prev']:20,sk['prev']+4:30,sk['first_i']:np.where(st == 1,fi,55),sk['started']:st},1)
    w.put(A1,size(m,RA),{L.ra['lpoints']:fi+k,L.ra['ran']:0},1); w.put(A2,8,{0:40,4:50},1)
    CNT = 12; X = np.zeros((n,CNT),np.int64)+7; Y = X.copy(); r = np.arange(n); last = np.maximum(fi+k-1,0)
    X[r,last] = np.where(w['diff']&1,21,20); Y[r,last] = np.where(w['diff']&2,31,30)
    w.put(w.elems(A1+L.ra['lpoints']),L.lps,{L.lp['data']:X,L.lp['data']+4:Y,L.lp['next']:99},CNT)
    d = lambda i: 'point %d of a loop, %d points stored before it%s' % (k[i]+1,fi[i],'' if not st[i] or w['diff'][i] else ', the one held back repeats the last stored one')
    W = f.where; mem = s.exit_mem(); a0 = mk('arg',0)
    want = (st == 0)|(w['diff'] != 0)
    t = np.zeros(n,bool); u = np.zeros(n,bool)
    ap = s.calls_to('^vv_append$')
    if not ap: raise Inconclusive('anchor vanished: no point is stored')
    for e in ap:
        g,p = w(e.guard); on = (g != 0)&~p; u |= p
        tell(c,'points',W,on&t,n,'a point is stored twice',d); t |= on
        q,pq = w(e.elem)
        if not (on&pq).any(): tell(c,'points',W,on&(q != w.elems(A1+L.ra['lpoints'])+L.lps*(fi+k)),n,'a point is stored somewhere else',d)
        for o,z,x in ((L.lp['data'],4,np.where(st == 1,20,40)),(L.lp['data']+4,4,np.where(st == 1,30,50)),(L.lp['next'],8,fi+k+1)):
            v,pv = w(s.load(e.mem,ptr(e.elem,o),z,'i%d' % (8*z)))
            if (on&pv).any(): c.undecided('points','stored point'); continue
            tell(c,'points',W,on&(v != x),n,'a point is not linked to the one after it' if o == L.lp['next'] else 'another point is stored than the one that is due',d)
    if u.any(): c.undecided('points','stored',int(u.sum()))
    tell(c,'points',W,~u&t&~want,n,'a repeated point is stored',d); tell(c,'points',W,~u&want&~t,n,'a point is lost',d)
    for o,z,x,what in ((sk['prev'],4,40,'the point is not kept'),(sk['prev']+4,4,50,'the point is not kept'),(sk['first_i'],8,np.where(st == 1,fi,fi+k),'the start of the loop is not kept'),(sk['started'],1,1,'the loop is not taken to have started')):
        v,pv = w(s.load(mem,ptr(a0,o),z,'i%d' % (8*z)))
        if pv.any(): c.undecided('points',what,int(pv.sum()))
        tell(c,'points',W,~pv&(v != x),n,what,d)
    # the end
    m,f,s,L,sk = sink('w_sink_end'); W = f.where
    rows = [r for r in itertools.product((0,1),(0,4),(0,1,2,3,4),(0,1,2,3),(0,1,2,3)) if (r[0] == 0) == (r[2] == 0) and (r[0] or r[3] == r[4] == 0) and (r[2] != 1 or r[3] == r[4])]
    w = World(rows,['started','first','k','dl','df']); w.summ = s; n = w.n; w.vectors()
    st,fi,k = w['started'],w['first'],w['k']
    w.arg(0,A0)
    w.put(A0,size(m,RA+'::point_sink'),{sk['n']:A1,sk['prev']:20,sk['prev']+4:30,sk['first_i']:np.where(st == 1,fi,55),sk['started']:st},1)
    w.put(A1,size(m,RA),{L.ra['lpoints']:fi+k,L.ra['ran']:0},1)
    X = np.zeros((n,CNT),np.int64)+20; Y = X.copy()+10; r = np.arange(n); N = X*0+np.arange(CNT)+1   # the loop before ends in the very same point
    last = np.maximum(fi+k-1,0); on = st == 1
    for col,at in (('df',fi),('dl',last)):
        X[r[on],at[on]] = np.where(w[col]&1,21,20)[on]; Y[r[on],at[on]] = np.where(w[col]&2,31,30)[on]
    N[r,np.maximum(fi-1,0)] = np.where(fi > 0,0,N[r,0])
    w.put(w.elems(A1+L.ra['lpoints']),L.lps,{L.lp['data']:X,L.lp['data']+4:Y,L.lp['next']:N},CNT)
    tot = k+((w['dl'] != 0)&(w['df'] != 0)&on); keep = tot >= 3
    d = lambda i: 'end of a loop with %d stored points%s%s, %d before it' % (k[i],', another held back' if w['dl'][i] else '',' that repeats the first' if on[i] and not w['df'][i] else '',fi[i])
    if len(s.loops) > 1: c.undecided('end','%d loops' % len(s.loops))
    else:
        if s.loops: rd = Rounds(s,w,next(iter(s.loops)),6); fin,un = rd.final(); un = un&rd.entered|rd.unsure
        else:
            from flow import copied, put
            fin = copied(w.space); un = put(w,fin,[e for e in s.effects if e.kind == 'store'],w.ev,np.ones(n,bool))
        nn = next(f_[L.ra['lpoints']] for lo,es,cnt,f_ in fin if lo == A1)[:,0]; nx = next(f_[L.lp['next']] for lo,es,cnt,f_ in fin if lo == w.elems(A1+L.ra['lpoints']))
        xs = next(f_[L.lp['data']] for lo,es,cnt,f_ in fin if lo == w.elems(A1+L.ra['lpoints'])); ys = next(f_[L.lp['data']+4] for lo,es,cnt,f_ in fin if lo == w.elems(A1+L.ra['lpoints']))
        if un.any(): c.undecided('end','final state',int(un.sum()))
        ok = ~un; end = np.where(keep,fi+tot,fi+k*(st == 0))
        tell(c,'end',W,ok&keep&(nn < end),n,'points of a loop are lost at its end',d); tell(c,'end',W,ok&(nn > end)&(tot >= 3),n,'the end of a loop stores too many points',d)
        tell(c,'end',W,ok&~keep&(nn != end),n,'a loop of fewer than three points does not vanish, or takes others with it',d)
        at = np.maximum(fi+tot-1,0)
        tell(c,'end',W,ok&keep&(nx[r,at] != fi),n,'a loop is not closed to its first point',d)
        chg = np.zeros(n,bool)
        for i in range(CNT): chg |= (i < fi+tot-1)&(nx[:,i] != np.where((i == fi+k-1)&(tot > k),fi+k,N[:,i]))
        tell(c,'end',W,ok&keep&chg,n,'the links of other points are changed',d)
        tell(c,'end',W,ok&keep&(tot > k)&((xs[r,at] != 20)|(ys[r,at] != 30)),n,'another point is stored last than the one held back',d)
    # a sink that was moved from; a range of loops
    m,f,s,L,sk = sink('w_sink_move'); W = f.where
    w = World([(0,),(1,)],['started']); w.summ = s; w.vectors(); w.arg(0,A0); w.arg(1,A2)
    w.put(A2,size(m,RA+'::point_sink'),{sk['n']:A1,sk['prev']:20,sk['prev']+4:30,sk['first_i']:5,sk['started']:w['started']},1)
    for at,o,z,x,what in ((1,sk['started'],1,0,'a sink that was moved from still closes its loop'),(0,sk['started'],1,w['started'],'moving a sink forgets its loop'),(0,sk['first_i'],8,5,'moving a sink forgets where its loop starts'),(0,sk['prev'],4,20,'moving a sink forgets the point held back'),(0,sk['prev']+4,4,30,'moving a sink forgets the point held back'),(0,sk['n'],8,A1,'moving a sink forgets its rasterizer')):
        v,p = w(s.load(s.exit_mem(),ptr(mk('arg',at),o),z,'i%d' % (8*z)))
        if p.any(): c.undecided('move',what)
        tell(c,'move',W,~p&(v != x)&((w['started'] == 1)|(o == sk['started'])),2,what,lambda i: 'started' if i else 'not started')
    m,f,s = load('w_add_loops','opaque point_sink::(operator\\(\\)|~point_sink)$',noclobber='.'); W = f.where; c.saw('functions',W)
    op,en = s.calls_to('point_sink::operator\\(\\)$'),s.calls_to('point_sink::~point_sink$')
    if not op or not en: raise Inconclusive('anchor vanished: loops of a range')
    for e in op:
        hs = block_loops(s,e.block)
        if len(hs) != 2: c.undecided('range','points are not passed in a loop in a loop'); continue
        c.decide('range',W,'a point of a loop is passed over',every_round(s,e,hs[0]) or None,None,'every point is passed on')
        c.decide('range',W,'points of different loops go to one sink',all(block_loops(s,x.block)[:1] == hs[1:] for x in en) or None,None,'a sink ends with its loop')
    return c
