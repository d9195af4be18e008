"""P46: which of several lines continues a loop."""
import itertools
import numpy as np
from harness import Check, Inconclusive
from irsum import mk, ptr, root, show, pparts
from world import World
from flow import Rounds, block_loops, origins, put, copied, walk
from checks.sweepck import layout, enum, tell
from checks.splitck import CL, LPB
from checks.meta import TABLE
import engine

OP = dict(opaque=['opaque ^std::map::','opaque clipper::(self_intersection|calc_line_bal)$','opaque follow_balance$','opaque find_loops$','opaque insert_anchor_point$'],noclobber='virtual::|std::map')
def load(c):
    m,f,s = engine.load('engine','w_do_op',OP['opaque'],noclobber=OP['noclobber'])
    c.saw('functions',f.where)
    bk = [k for k in m.structs if k.startswith('poly_ops::detail::breaks_t<')]
    if len(bk) != 1: raise Inconclusive('breaks_t changed')
    b = {x[0]:x[1] for x in m.structs[bk[0]]['members']}
    if not {'broken_starts','broken_ends','virtual_points','orphans'} <= set(b): raise Inconclusive('members of breaks_t changed')
    bo = engine.member(m,CL,'breaks')
    return m,f,s,{k:ptr(mk('arg',0),bo+o) for k,o in b.items()}
INTR,AT = 3,8                 # the end that is continued, the point it ends at
CAND = (11,6,14,9); NEXTP = (20,21,22,23); TMP = (16,17,18,19)
CNT = 26
DIRS = [(x,y) for x in range(-2,3) for y in range(-2,3) if np.gcd(x,y) == 1]
VB,BEB = 1<<20,1<<19
def turn(u,v):
    """clockwise turn from direction u to v, as a number that grows with it (y up or down: the
    sense in which triangle_winding is positive)"""
    c = u[0]*v[1]-u[1]*v[0]; d = u[0]*v[0]+u[1]*v[1]
    return np.arctan2(c,d)

class Join:
    def __init__(self,c):
        m,f,s,br = load(c); self.m,self.f,self.s,self.br = m,f,s,br
        ev,lp = layout(m); self.lp = lp
        ls = self.ls = enum(m,'type','check','undef','keep','discard','keep_rev','discard_rev','anchor')
        fd = [e for e in s.calls_to(r'std::map::(find|at|operator\[\])$') if e.args[0] is br['broken_starts']]
        fd = [e for e in fd if block_loops(s,e.block) and self.walks(e,br['broken_ends'])]
        if len(fd) != 1: raise Inconclusive('%d lookups of what continues a line' % len(fd))
        self.fd = fd[0]
        self.h1 = block_loops(s,self.fd.block)[0]
        inner = [h for h,L in s.loops.items() if h != self.h1 and h in s.loops[self.h1]['body']]
        if len(inner) != 1: raise Inconclusive('%d loops over the candidates' % len(inner))
        self.h2 = inner[0]
        # the list of candidates
        vs = {}
        for e in s.calls_to('^vv_(shrink|erase)$'):
            if self.h1 in block_loops(s,e.block): vs[e.args[0].n] = e.args[0]
        if len(vs) != 1: raise Inconclusive('candidates are taken out elsewhere')
        self.vec = next(iter(vs.values())); 
        if root(self.vec).op != 'call': raise Inconclusive('candidates are kept elsewhere: %s' % show(self.vec,4))
        rows = []
        R = range(len(DIRS))
        for u in R:
            if abs(DIRS[u][0])+abs(DIRS[u][1]) > 3: continue
            back = tuple(-x for x in DIRS[u]); ok = [k for k in R if DIRS[k] != back]
            rows += [(u,k,0,0,1,a) for k in ok[::5] for a in (0,1)]
            for p in itertools.permutations(ok,2): rows += [(u,p[0],p[1],0,2,0)]
            for p in itertools.permutations(ok[::2]+ok[1:2],3): rows += [(u,)+p+(3,0)]
        # temporary points between
        for u,a in itertools.product((0,5,9),range(1,8)):
            back = tuple(-x for x in DIRS[u]); ok = [k for k in R if DIRS[k] != back][::3]
            for p in itertools.permutations(ok,3): rows += [(u,)+p+(3,a)]
        w = self.w = World(rows,['u','d0','d1','d2','cnt','tmp']); n = self.n = w.n; w.summ = s
        w.arg(0,1<<10); w.arg(1,0); w.arg(2,0); w.arg(3,0)
        w.field(br['broken_ends'],1); w.field(br['orphans'],0)
        w.field(ptr(mk('arg',0),engine.member(m,CL,'samples')),0)
        lv = ptr(mk('arg',0),engine.member(m,CL,'lpoints')); w.field(lv,CNT)
        D = np.array(DIRS); PX,PY = 70,90
        X = np.zeros((n,CNT),np.int64)+500+np.arange(CNT); Y = np.zeros((n,CNT),np.int64)+700-np.arange(CNT)**2
        NX = np.zeros((n,CNT),np.int64); ST = np.full((n,CNT),ls['keep'],np.int64)
        X[:,AT] = PX; Y[:,AT] = PY
        X[:,INTR] = PX-D[w['u'],0]; Y[:,INTR] = PY-D[w['u'],1]
        NX[:,INTR] = AT
        self.turns = np.zeros((n,3))
        for k in range(3):
            d = D[w['d%d' % k]]
            t = (w['tmp']>>k&1) == 1
            NX[:,CAND[k]] = np.where(t,TMP[k],NEXTP[k]); NX[:,TMP[k]] = NEXTP[k]
            ST[:,TMP[k]] = np.where(t,ls['anchor']|ls['keep'],ls['keep'])
            for T,o,q in ((X,PX,0),(Y,PY,1)):
                T[:,CAND[k]] = o; T[:,TMP[k]] = o; T[:,NEXTP[k]] = o+d[:,q]
            self.turns[:,k] = np.where(w['cnt'] > k,turn(D[w['u']].T,d.T),-9)
        self.NX = NX
        w.place(mk('elemof',lv),LPB,lp['size'],{lp['x']:X,lp['y']:Y,lp['next']:NX,lp['state']:ST},CNT)
        w.place(mk('elemof',br['broken_ends']),BEB,8,{0:INTR},1)
        C = np.zeros((n,4),np.int64)+np.array(CAND)
        for k,p in enumerate((br['orphans'],ptr(mk('arg',0),engine.member(m,CL,'samples')))): w.addr[mk('elemof',p).n] = 1<<(12+k)
        w.place(mk('elemof',self.vec),VB,8,{0:C},4)
        w.place(self.vec,1<<18,64,{0:w['cnt']},1)
        w.call('std::map::find',lambda e,ev_: ev_.full((1<<18)-pparts(self.vec)[1])); w.call('std::map::operator[]',lambda e,ev_: ev_.full((1<<18)-pparts(self.vec)[1]))
        w.call('std::map::end',lambda e,ev_: ev_.full(1<<17))
        self.PX,self.PY = PX,PY
        self.r = Rounds(s,w,self.h2,4)
    def walks(self,e,vec):
        o = origins(self.s,e.args[1])
        for a in e.args[1:2]:
            # what the key was made from: also memory written before
            for z in (4,8):
                try: o.update(origins(self.s,self.s.load(e.mem,a,z,'i%d' % (8*z))))
                except Exception: pass
        el = mk('elemof',vec)
        return any(x is el or (x.op == 'phi' and el.n in origins(self.s,x)) for x in o.values())
    def desc(self,i):
        w = self.w
        return 'incoming direction %s, candidates %s%s' % (DIRS[w['u'][i]],[DIRS[w['d%d' % k][i]] for k in range(w['cnt'][i])],', with temporary points' if w['tmp'][i] else '')

def P46():
    c = Check('P46','For every incoming direction, one to three lines that could continue the loop, in every order of being stored, with and without temporary points at their start: the loop is continued with the one that makes the greatest clockwise turn, the rest stay available and nothing else is changed; the candidates looked at are those at the point where the line ends.','decision table over compiler IR: '+TABLE)
    x = Join(c); w,n,W,r,s,lp = x.w,x.n,x.f.where,x.r,x.s,x.lp
    # the key
    ev = r.at[0][1]
    for o,z,want in ((0,4,x.PX),(4,4,x.PY)):
        v,p = ev(s.load(x.fd.mem,ptr(x.fd.args[1],o),z,'i32'))
        if p.any(): c.undecided('candidates','where they are looked up')
        else: tell(c,'candidates',W,v != want,n,'the candidates are not those at the point where the line ends',x.desc)
    fin,un = r.final()
    # one candidate: the loop is not entered and the value after it comes from elsewhere
    tab = next(f for lo,es,cnt,f in fin if lo == LPB); vt = next(f for lo,es,cnt,f in fin if lo == VB); sz = next(f for lo,es,cnt,f in fin if lo == 1<<18)
    for e in s.calls_to('^vv_erase$'):    # elements after the ones erased move up
        if e.args[0] is not x.vec: continue
        (g,pg),(at,pa),(k,pk) = (r.after(q) for q in (e.guard,e.args[1],e.args[2]))
        un = un|pg|pa|pk|(r.inside(e) & (g != 0))
        for i in np.flatnonzero((g != 0)&~un):
            q = list(vt[0][i]); vt[0][i] = q[:at[i]]+q[at[i]+k[i]:]+[-1]*int(k[i])
    if un.any(): c.undecided('choice',x.desc(np.flatnonzero(un)[0]),int(un.sum()))
    best = np.array(CAND)[np.argmax(x.turns,1)]
    got = tab[lp['next']][:,INTR]
    tell(c,'choice',W,~un & (got != best),n,'the loop is not continued with the greatest clockwise turn',lambda i: x.desc(i)+': takes %s' % str(DIRS[w['d%d' % CAND.index(got[i])][i]] if got[i] in CAND[:3] else 'another point'))
    left = sz[0][:,0]
    bad = np.zeros(n,bool); 
    for i in np.flatnonzero(~un & (got == best)):
        k = int(w['cnt'][i])
        if left[i] != k-1 or set(vt[0][i,:k-1]) != set(CAND[:k])-{got[i]}: bad[i] = True
    tell(c,'rest',W,bad,n,'the remaining lines are not all available, or the one taken still is',x.desc)
    oth = tab[lp['next']] != x.NX; oth[:,INTR] = False
    tell(c,'others',W,~un & oth.any(1),n,'another point is relinked',x.desc)
    return c

def one_round(s,w,h):
    """array contents after the first round of loop h, and rows in which that
    is not known"""
    sp = copied(w.space)
    un = put(w,sp,[e for e in s.effects if e.kind == 'store' and e.block in s.loops[h]['body']],w,np.ones(w.n,bool))
    return sp,un
def orphans(c):
    """the points that a reversed line leaves without a start get one"""
    part = 'orphans'
    m,f,s,br = load(c); ev,lp = layout(m); W = f.where
    ls = enum(m,'type','keep','discard','keep_rev','discard_rev')
    vpn = [k for k in m.structs if k.startswith('poly_ops::detail::virt_point<')]
    if len(vpn) != 1: raise Inconclusive('virt_point changed')
    vp = {x[0]:x[1] for x in m.structs[vpn[0]]['members']}; vs = m.structs[vpn[0]]['size']
    fd = [e for e in s.calls_to(r'std::map::(find|at|operator\[\])$') if e.args[0] is br['virtual_points']]
    if len(fd) != 1 or not block_loops(s,fd[0].block): raise Inconclusive('%d lookups of virtual points' % len(fd))
    fd = fd[0]; h = block_loops(s,fd.block)[0]
    lists = {}
    for e in s.calls_to('^vv_(shrink|erase)$'):
        if h in block_loops(s,e.block): lists[e.args[0].n] = e.args[0]
    if not lists: c.fail(part,W,'the start that was used stays available'); return
    if len(lists) != 1: raise Inconclusive('virtual points are taken out elsewhere')
    vec = next(iter(lists.values()))
    if root(vec).op != 'call': raise Inconclusive('virtual points are kept elsewhere: %s' % show(vec,4))
    rows = [r for r in itertools.product((1,2,3),(0,1),(0,1),(ls['keep_rev'],ls['discard_rev'])) if r[1] or not r[2]]
    w = World(rows,['cnt','keep','end','was']); n = w.n; w.summ = s
    for k in range(4): w.arg(k,(1<<10,0,0,0)[k])
    O,OB,BS,BSB = 5,1<<19,1<<21,1<<22
    lv = ptr(mk('arg',0),engine.member(m,CL,'lpoints')); w.field(lv,CNT)
    w.field(br['orphans'],1); w.field(br['broken_ends'],2); w.field(ptr(mk('arg',0),engine.member(m,CL,'samples')),0)
    w.addr[mk('elemof',ptr(mk('arg',0),engine.member(m,CL,'samples'))).n] = 1<<13
    w.place(mk('elemof',br['orphans']),OB,8,{0:O},1)
    X = np.zeros((n,CNT),np.int64)+500+np.arange(CNT); NX = np.zeros((n,CNT),np.int64)+2; ST = np.full((n,CNT),ls['keep'],np.int64); ST[:,O] = w['was']
    w.place(mk('elemof',lv),LPB,lp['size'],{lp['x']:X,lp['y']:X+50,lp['next']:NX,lp['state']:ST},CNT)
    # all virtual points at one place are interchangeable: they agree in what they are
    V = np.zeros((n,4),np.int64)+np.array((11,14,9,20))
    w.place(mk('elemof',vec),VB,vs,{vp['next']:V,vp['keep']:w['keep'],vp['next_is_end']:w['end']},4)
    w.place(vec,1<<18,64,{0:w['cnt']},1)
    w.call('std::map::find',lambda e,ev_: ev_.full((1<<18)-pparts(vec)[1])); w.call('std::map::end',lambda e,ev_: ev_.full(1<<17))
    w.call('std::map::operator[]',lambda e,ev_: ev_.full(1<<18)-pparts(vec)[1] if e.a[2][0][1] is br['virtual_points'] else ev_.full(BS))
    desc = lambda i: 'a point without start, %d starts at its place, of a line that is %s%s' % (w['cnt'][i],'kept' if w['keep'][i] else 'discarded',' and has one edge only' if w['end'][i] else '')
    got = {}
    def val(e,p,z):
        v,q = w(s.load(e.mem,p,z,'i%d' % (8*z)))
        return None if q.any() else v
    v = val(fd,ptr(fd.args[1],lp['x']),4)
    if v is None: c.undecided(part,'where the start is looked up')
    else: tell(c,part,W,v != 500+O,n,'the start is looked up at another place',desc)
    sp,un = one_round(s,w,h)
    if un.any(): c.undecided(part,desc(np.flatnonzero(un)[0]),int(un.sum())); return
    tab = next(f_ for lo,es,cnt,f_ in sp if lo == LPB); left = next(f_ for lo,es,cnt,f_ in sp if lo == 1<<18)[0][:,0]
    nx = tab[lp['next']][:,O]
    tell(c,part,W,(nx != 11)&(nx != 14)&(nx != 9)|(nx == 14)&(w['cnt'] < 2)|(nx == 9)&(w['cnt'] < 3),n,'the point is not linked to a start at its place',desc)
    vt = next(f_ for lo,es,cnt,f_ in sp if lo == VB)[vp['next']]
    bad = np.zeros(n,bool)
    er = [e for e in s.calls_to('^vv_erase$') if e.args[0] is vec]
    for i in range(n):
        k = int(w['cnt'][i])
        if left[i] != k-1: bad[i] = True
        elif not er and set(vt[i,:k-1]) != {11,14,9}&set(V[i,:k])-{nx[i]}: bad[i] = True
    tell(c,part,W,bad,n,'the start that was used stays available, or another one is lost',desc)
    st = tab[lp['state']][:,O]&255
    tell(c,part,W,(st&ls['keep'] != 0) != (w['keep'] == 1),n,'the point is not kept or discarded like the line it now starts',desc)
    oth = np.zeros(n,bool)
    for o,t in ((lp['next'],NX),(lp['state'],ST),(lp['x'],X)):
        d = tab[o] != t
        if o != lp['x']: d[:,O] = False
        oth |= d.any(1)
    tell(c,part,W,oth,n,'another point is changed',desc)
    # entries
    for nm,cond,what in (('broken_starts',w['keep'] == 1,'starts of lines'),('broken_ends',w['end'] == 1,'ends of lines')):
        t = np.zeros(n,np.int64); u = np.zeros(n,bool); wrong = np.zeros(n,bool)
        for e in s.calls_to('^vv_append$'):
            v = e.args[0]
            if h not in block_loops(s,e.block): continue
            if nm == 'broken_ends' and v is not br[nm]: continue
            if nm == 'broken_starts' and not (root(v).op == 'call' and 'operator[]' in root(v).a[0] and root(v).a[2][0][1] is br[nm]): continue
            g,q = w(e.guard); u |= q; t += (g != 0)
            x = val(e,e.args[1],8)
            if x is None: u |= (g != 0)
            else: wrong |= (g != 0) & (x != O)
            if nm == 'broken_starts':
                k = val(e,ptr(root(v).a[2][1][1],lp['x']),4)
                if k is None: u |= (g != 0)
                else: wrong |= (g != 0) & (k != 500+O)
        if u.any(): c.undecided(part,nm); continue
        tell(c,part,W,(t != cond)|wrong,n,'the list of %s gets a wrong entry or misses one' % what,desc)

def marks(c):
    """index values given to kept, temporary and discarded points before loops
    are collected"""
    part = 'marks'
    m,f,s,br = load(c); ev,lp = layout(m); W = f.where
    ls = enum(m,'type','check','undef','keep','discard','keep_rev','discard_rev','anchor')
    lo_ = {x[0]:x[1] for x in m.structs['poly_ops::detail::loop_point<unsigned long, int>']['members']}
    lv = ptr(mk('arg',0),engine.member(m,CL,'lpoints')); el = mk('elemof',lv)
    A = ls['anchor']
    st = [s_ for s_ in s.effects if s_.kind == 'store' and block_loops(s,s_.block) and e4(s,s_,el,lp)]
    hs = {block_loops(s,e.block)[0] for e in st}
    hs = {block_loops(s,e.block)[0] for e in st if any(x.op == 'phi' and x.a[1] == block_loops(s,e.block)[0] for x in walk([e.ptr]))}
    if len(hs) != 1: raise Inconclusive('%d loops over all points' % len(hs))
    h = hs.pop()
    rows = [(k|a,) for k in (ls['keep'],ls['discard'],ls['keep_rev'],ls['discard_rev']) for a in (0,A)]
    w = World(rows,['state']); n = w.n; w.summ = s
    for k in range(4): w.arg(k,(1<<10,0,0,0)[k])
    for k,p in enumerate((br['orphans'],br['broken_ends'],ptr(mk('arg',0),engine.member(m,CL,'samples')))): w.field(p,0); w.addr[mk('elemof',p).n] = 1<<(13+k)
    w.field(lv,3)
    w.place(el,LPB,lp['size'],{lp['state']:w['state'],lp['x']:5,lp['next']:1,lp['set']:77},3)
    sp,un = one_round(s,w,h)
    if un.any(): c.undecided(part,'index of a point'); return None
    t = next(f_ for lo,es,cnt,f_ in sp if lo == LPB)[lp['set']]
    kind = {}
    for i in range(n): kind.setdefault(('discarded' if not w['state'][i]&ls['keep'] else 'temporary' if w['state'][i]&A else 'kept'),set()).add(int(t[i,0]))
    desc = lambda i: 'point in state %d gets index %d' % (w['state'][i],t[i,0])
    one = lambda k: min(kind[k])
    bad = np.array([(int(t[i,0]) >= 0) or len(kind[('discarded' if not w['state'][i]&ls['keep'] else 'temporary' if w['state'][i]&A else 'kept')]) > 1 for i in range(n)])
    vals = [one(k) for k in ('kept','temporary','discarded')]
    if len(set(vals)) < 3: bad[:] = True
    tell(c,part,W,bad,n,'points that are kept, temporary and discarded are not told apart before loops are collected',desc)
    return dict(zip(('kept','temporary','discarded'),vals))
def e4(s,e,el,lp):
    b,o,v = pparts(e.ptr)
    return (o == lp['set']) and (b is el or b.op == 'phi')
