"""P16, P43: what splitting a segment does, as a table over the abstract
situations (which endpoint, direction, verticality, rounding, set, tracker)."""
import itertools
import numpy as np
from harness import Check, Inconclusive
from irsum import Undecided, mk, ptr, pparts, root, show
from world import World
from flow import may, must
from checks.sweepck import layout, enum, tell
from checks.meta import TABLE
import engine

CL = 'poly_ops::clipper<int, unsigned long>'
A,B,S,NL,NE,NN = 2,5,3,7,9,8   # endpoints, node, number of points, events, nodes
LPB,EVB,SNB = 1<<24,1<<20,1<<22

def setup(name='w_split'):
    m,f,s = engine.load('engine',name,engine.SW+['opaque events_t::find$'],noclobber='events_t::find|sweep_set::|tree_iterator|virtual::')
    ev,lp = layout(m)
    cl = {k:engine.member(m,CL,k) for k in ('lpoints','events','sweep_nodes')}
    return m,f,s,ev,lp,cl

class Split:
    def __init__(self,c):
        self.c = c
        m,f,s,ev,lp,cl = setup(); self.m,self.f,self.s,self.ev,self.lp,self.cl = m,f,s,ev,lp,cl
        c.saw('functions',f.where)
        self.at = enum(m,'at_edge_t','start','end','no'); self.et = enum(m,'event_type_t','vforward','backward','forward','vbackward'); self.es = enum(m,'event_status_t','deleted')
        self.bs = enum(m,'bool_set','subject','clip')
        rows = []
        for at,rev,xb,set_,pt in itertools.product((self.at['start'],self.at['end'],self.at['no']),(0,1),(0,2),self.bs.values(),(0,4096)):
            for xm in (range(0,3) if xb else (0,)): rows.append((at,rev,xb,set_,pt,xm))
        w = self.w = World(rows,['at','rev','xb','set','pt','xm']); n = self.n = w.n; w.summ = s
        w.arg(4,w['at']); w.arg(5,w['pt']); w.arg(2,S); w.arg(1,1<<12); w.arg(0,1<<13)
        X = np.zeros((n,NL),np.int64); Y = np.zeros((n,NL),np.int64); NX = np.zeros((n,NL),np.int64); ST = np.zeros((n,NL),np.int64)
        for i in range(NL): X[:,i] = 50+i; Y[:,i] = 60+i; NX[:,i] = 40+i; ST[:,i] = 1-self.w['set']
        X[:,A] = 0; Y[:,A] = 0; X[:,B] = w['xb']; Y[:,B] = 10
        NX[:,A] = np.where(w['rev'] == 1,41,B); NX[:,B] = np.where(w['rev'] == 1,A,41)
        ST[:,A] = w['set']; ST[:,B] = w['set']
        self.X,self.Y,self.NX,self.ST = X,Y,NX,ST
        self.lv = ptr(mk('arg',0),cl['lpoints']); self.evv = ptr(mk('arg',0),cl['events']); self.snv = ptr(mk('arg',0),cl['sweep_nodes'])
        for v,k in ((self.lv,NL),(self.evv,NE),(self.snv,NN)): w.field(v,k)
        w.place(mk('elemof',self.lv),LPB,lp['size'],{lp['x']:X,lp['y']:Y,lp['next']:NX,lp['set']:ST,lp['state']:0},NL)
        # sweep nodes: where the value is
        sn = [k for k in m.structs if k.startswith('poly_ops::detail::set_node<poly_ops::detail::cached_segment<')]
        cs = [k for k in m.structs if k.startswith('poly_ops::detail::cached_segment<unsigned long')]
        if len(sn) != 1 or len(cs) != 1: raise Inconclusive('set_node or cached_segment changed: %s %s' % (sn,cs))
        self.sn = sn[0]; vo = engine.member(m,sn[0],'value')
        seg = {x[0]:x[1] for x in m.structs[cs[0]]['members']}
        base = next((x[1] for x in m.structs[cs[0]]['members'] if 'segment' in x[0] or 'segment' in (x[3] or '')),0)
        self.sv = {'a':vo+base,'b':vo+base+8,'pax':vo+seg['pa'],'pay':vo+seg['pa']+4,'pbx':vo+seg['pb'],'pby':vo+seg['pb']+4}
        self.snsize = m.structs[sn[0]]['size']
        T = {k:np.zeros((n,NN),np.int64) for k in self.sv}
        T['a'][:,S] = A; T['b'][:,S] = B; T['pax'][:,S] = 0; T['pay'][:,S] = 0; T['pbx'][:,S] = w['xb']; T['pby'][:,S] = 10
        w.place(mk('elemof',self.snv),SNB,self.snsize,{self.sv[k]:T[k] for k in T},NN)
        # the point
        p = mk('arg',3)
        w.place(p,1<<15,8,{0:w['xm'],4:5})
        self.split = w['at'] == self.at['no']
    def desc(self,i):
        w = self.w
        return 'segment %s, %s, split point %s, %s tracker' % ('right to left' if w['rev'][i] else 'left to right','vertical' if w['xb'][i] == 0 else 'not vertical',
            'at the start' if w['at'][i] == self.at['start'] else 'at the end' if w['at'][i] == self.at['end'] else 'inside (x %d of 0..%d)' % (w['xm'][i],w['xb'][i]),'with' if w['pt'][i] else 'without')
    def appends(self,vec):
        return [e for e in self.s.calls_to('^vv_append$') if e.args[0] is vec]
    def count(self,es):
        t = np.zeros(self.n,np.int64); u = np.zeros(self.n,np.int64)
        for e in es: t += must(self.w,e.guard); u += may(self.w,e.guard)
        return t,u
    def load(self,mem,p,size):
        return self.w(self.s.load(mem,p,size,'i%d' % (8*size)))

def P16():
    c = Check('P16','In every situation in which split_segment stores a new point, it calls new_point_between of the tracker exactly once if a tracker was given, with the first and second endpoint of the edge in its direction; otherwise never. No other function of the engine that stores points does so without telling the tracker, except temporary points added after the sweep.','decision table over compiler IR: '+TABLE)
    x = Split(c); w,n = x.w,x.n
    W = x.f.where
    tells = x.s.calls_to('^virtual::0$')
    others = x.s.calls_to('^virtual::[123]$')
    at,au = x.count(x.appends(x.lv))
    tt,tu = x.count(tells)
    if not len(x.appends(x.lv)): raise Inconclusive('no point is stored')
    want = np.where((w['pt'] != 0)&(au > 0),au,0)
    und = (at != au)|(tt != tu)
    if und.any(): c.undecided('told',x.desc(np.flatnonzero(und)[0]),int(und.sum()))
    tell(c,'told',W,~und & (tt > at),n,'the tracker is told of more points than were stored',x.desc)
    tell(c,'told',W,~und & (w['pt'] != 0) & (tt < at),n,'a point is stored without telling the tracker',x.desc)
    tell(c,'told',W,~und & (w['pt'] == 0) & (tu > 0),n,'a tracker is called although none was given',x.desc)
    _,ou = x.count(others)
    tell(c,'told',W,ou > 0,n,'another notification is sent when a segment is split',x.desc)
    bad = np.zeros(n,bool)
    for e in tells:
        g = must(w,e.guard)
        o,po = w(e.args[0]); a,pa = w(e.args[1]); b,pb = w(e.args[2])
        first = np.where(w['rev'] == 1,B,A); second = np.where(w['rev'] == 1,A,B)
        bad |= g & ~(pa|pb) & ((a != first)|(b != second))
        if (g&(pa|pb|po)).any(): c.undecided('endpoints','endpoint not decided')
        bad |= g & ~po & (o != w['pt'])
    tell(c,'endpoints',W,bad,n,'the endpoints reported are not those of the edge that was split, in its direction',x.desc)
    # the moment: nothing else is stored in between for which the tracker would be late
    if len(tells):
        # the point told is the last one stored: no second append in between
        tell(c,'told',W,au > 1,n,'more than one point is stored by one split',x.desc)
    # both users of split points go through here
    m2,f2,s2 = engine.load('engine','w_check_intersection',engine.SW+['opaque clipper::(split_segment|intersects)$|^poly_ops::detail::rand_generator','opaque poly_ops::detail::(intersects|intersects_parallel)$'],noclobber='split_segment|intersects')
    c.saw('functions',f2.where)
    lv = ptr(mk('arg',0),x.cl['lpoints'])
    own = [e for e in s2.calls_to('^vv_append$') if e.args[0] is lv]
    sp = s2.calls_to('split_segment$')
    c.decide('passed on',f2.where,'check_intersection stores points by itself',not own)
    if not sp: raise Inconclusive('check_intersection splits nothing')
    for e in sp: c.decide('passed on',f2.where,'split_segment is not given the tracker (line %s)' % e.where,e.args[-1] is mk('arg',4),None,'split_segment gets the tracker')
    m3,f3,s3 = engine.load('engine','w_self_intersection',engine.SW+['opaque clipper::check_intersection$','opaque events_t::(next|more|reserve|add_fb_events)$'],noclobber='check_intersection')
    c.saw('functions',f3.where)
    ci = s3.calls_to('check_intersection$')
    if not ci: raise Inconclusive('self_intersection checks nothing')
    for e in ci: c.decide('passed on',f3.where,'check_intersection is not given the tracker',e.args[-1] is mk('arg',1),None,'check_intersection gets the tracker')
    c.decide('passed on',f3.where,'self_intersection stores points by itself',not [e for e in s3.calls_to('^vv_append$') if e.args[0] is lv])
    return c

def P43():
    c = Check('P43','For every situation (endpoint or inside, direction, vertical or not, any rounding of the new point, either set): inside, the segment leaves the sweep, its pending start event is deleted, one point is stored that continues the edge in its direction and set, and two segments with four events of the right kinds, left ends first, are added that refer to nodes with exactly those endpoints; at an endpoint nothing changes and the endpoint is returned.','decision table over compiler IR: '+TABLE)
    x = Split(c); w,n,s,ev,lp = x.w,x.n,x.s,x.ev,x.lp
    W = x.f.where; sp = x.split
    D = x.desc
    first = np.where(w['rev'] == 1,B,A); second = np.where(w['rev'] == 1,A,B)
    # at an endpoint: no change at all
    st = [e for e in s.effects if e.kind in ('store','copy') and root(e.ptr).op != 'alloca' or e.kind == 'call' and e.name.startswith(('vv_','virtual')) and not e.name.startswith('vv_elems')]
    ch = np.zeros(n,bool)
    for e in st: ch |= must(w,e.guard)
    er = s.calls_to('sweep_set::_?erase$'); te,ue = x.count(er)
    tell(c,'endpoint',W,~sp & (ch|(te > 0)),n,'something is changed although the point is an endpoint of the segment',D)
    r,pr = w(s.retexpr())
    want = np.where(w['at'] == x.at['start'],A,B)
    tell(c,'endpoint',W,~sp & ~pr & (r != want),n,'the wrong endpoint is returned',D)
    tell(c,'point',W,sp & ~pr & (r != NL),n,'the new point is not returned',D)
    if pr.any(): c.undecided('point','result')
    # the point
    ap = x.appends(x.lv); ta,ua = x.count(ap)
    tell(c,'point',W,sp & (ua < 1),n,'no point is stored',D); tell(c,'point',W,sp & (ta > 1),n,'more than one point is stored',D)
    mem = s.exit_mem()
    def expect(i,want,what):
        for k in ('x','y','next','set'):
            v,p = x.load(mem,ptr(mk('elemof',x.lv),lp['size']*i+lp[k]),4 if k in('x','y') else m_size(x,k))
            bad = sp & ~p & (v != want[k])
            if (sp&p).any(): c.undecided('point','%s of %s' % (k,what)); continue
            tell(c,'point',W,bad,n,'%s of %s is wrong after the split' % (k,what),D)
    full = lambda v: np.full(n,v,np.int64)
    expect(NL,{'x':w['xm'],'y':full(5),'next':second,'set':w['set']},'the new point')
    for i in (A,B):
        expect(i,{'x':x.X[:,i],'y':x.Y[:,i],'next':np.where(first == i,NL,x.NX[:,i]),'set':x.ST[:,i]},'an endpoint')
    for i in range(NL):
        if i not in (A,B): expect(i,{'x':x.X[:,i],'y':x.Y[:,i],'next':x.NX[:,i],'set':x.ST[:,i]},'another point')
    # out of the sweep, out of the pending events
    tell(c,'removed',W,sp & (ue < 1),n,'the segment stays in the sweep',D)
    tell(c,'removed',W,sp & (te > 1),n,'the segment is removed twice',D)
    for e in er:
        v = None
        for q in candidates(s,e): 
            y,p = w(q)
            if not p.any(): v = y; 
            if v is not None and (v == S).all(): break
        if v is None: c.undecided('removed','argument of erase')
        else: tell(c,'removed',W,must(w,e.guard) & (v != S),n,'another segment is removed',D)
    fd = s.calls_to('events_t::find$'); okd = np.zeros(n,bool); bad = np.zeros(n,bool); und = False
    for e in fd:
        g = may(w,e.guard)
        a,pa = w(s.load(e.mem,e.args[2],8,'i64')); b,pb = w(s.load(e.mem,ptr(e.args[2],8),8,'i64')); t,pt_ = w(e.args[3])
        dels = [q for q in s.effects if q.kind == 'store' and q.ptr is ptr(e.res,ev['status'])]
        for q in dels:
            v,p = w(q.val)
            und = und or (g&(pa|pb|pt_|p)).any()
            kind = np.where(w['xb'] == 0,x.et['vforward'],x.et['forward'])
            okd |= may(w,q.guard) & (a == A)&(b == B)&(t == kind)&(v == x.es['deleted'])
            bad |= must(w,q.guard) & ~((a == A)&(b == B)&(t == kind)) & (v == x.es['deleted'])
    if und or not fd: c.undecided('removed','the event that is deleted')
    else:
        tell(c,'removed',W,sp & ~okd,n,'the start event of the segment is not deleted',D)
        tell(c,'removed',W,bad,n,'an event of another segment or kind is deleted',D)
    # the halves
    got = []
    for e in x.appends(x.evv):
        g = w.guard(e)
        d = {k:x.load(e.mem,ptr(e.elem,ev[k]),sz) for k,sz in (('a',8),('b',8),('node',8),('type',4),('status',4))}
        got.append((g,d))
    nodes = []
    for e in x.appends(x.snv):
        g = w.guard(e)
        idx,pi = w(e.elem); idx = (idx-SNB)//x.snsize
        d = {k:x.load(e.mem,ptr(e.elem,x.sv[k]),8 if k in 'ab' else 4) for k in x.sv}
        nodes.append((g,idx,d))
    if any(p[g].any() for g,d in got for v,p in d.values()) or any(p[g].any() for g,i,d in nodes for v,p in d.values()): c.undecided('halves','values'); return c
    why = {}; bad = np.zeros(n,bool)
    for k in range(n):
        evs = sorted((int(d['a'][0][k]),int(d['b'][0][k]),int(d['type'][0][k]),int(d['node'][0][k]),int(d['status'][0][k])) for g,d in got if g[k])
        ns = {int(i[k]):{q:int(v[0][k]) for q,v in d.items()} for g,i,d in nodes if g[k]}
        if not sp[k]:
            if evs or ns: bad[k] = True; why[k] = 'events or nodes added'
            continue
        xs = {A:0,B:int(w['xb'][k]),NL:int(w['xm'][k])}; ys = {A:0,B:10,NL:5}
        p = [int(first[k]),NL,int(second[k])]; wanted = []
        for i,j in ((p[0],p[1]),(p[1],p[2])):
            l,r_ = (i,j) if xs[i] <= xs[j] else (j,i)
            v = 'v' if xs[i] == xs[j] else ''
            wanted.append((l,r_,x.et[v+'forward'],x.et[v+'backward']))
        ok = len(evs) == 4 and len(ns) == 2 and all(e[4] != x.es['deleted'] for e in evs)
        for l,r_,tf,tb in wanted:
            nf = [e for e in evs if e[:3] == (l,r_,tf)]; nb = [e for e in evs if e[:3] == (r_,l,tb)]
            ok = ok and len(nf) == 1 and len(nb) == 1 and nf[0][3] == nb[0][3]
            if ok:
                q = ns.get(nf[0][3])
                ok = q is not None and (q['a'],q['b'],q['pax'],q['pay'],q['pbx'],q['pby']) == (l,r_,xs[l],ys[l],xs[r_],ys[r_])
        if not ok: bad[k] = True; why[k] = '%s: events (a,b,kind,node,status) %s nodes %s' % (D(k),evs,ns)
    tell(c,'halves',W,bad,n,'the two halves are not scheduled as segments of their own',lambda k: why[k])
    return c
def m_size(x,k): return 8 if k == 'next' else x.setsize if hasattr(x,'setsize') else 4
def candidates(s,e):
    """numbers an iterator argument may stand for"""
    for a in e.args[1:]:
        yield a
        if root(a).op == 'alloca':
            for o in (8,0): yield s.load(e.mem,ptr(a,o),8,'i64')
