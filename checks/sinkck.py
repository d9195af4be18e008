"""P17, P19: adding points of a loop one by one, as a state machine over how
many points were stored, told of, and are still held back."""
import itertools
import numpy as np
from harness import Check, Inconclusive
from irsum import Undecided, mk, ptr, pparts, root, show
from world import World
from flow import may, must, block_loops, every_round
from checks.sweepck import layout, enum, tell
from checks.splitck import CL, LPB
from checks.meta import TABLE
import engine

SK = 'point_sink'
ORIG = lambda k: 101+k    # input index of the k-th point of the loop
NOW,PX,PY = 900,5,6
class Sink:
    """kind: 'add' (a point with an index), 'add1' (without), 'end'"""
    def __init__(self,c,kind):
        m,f,s = engine.load('engine',{'add':'w_sink_point','add1':'w_sink_point1','end':'w_sink_end'}[kind],noclobber='virtual::')
        self.m,self.f,self.s,self.kind = m,f,s,kind
        c.saw('functions',f.where)
        ev,lp = layout(m); self.lp = lp
        st = [k for k in m.structs if k.endswith('point_sink')]
        if len(st) != 1: raise Inconclusive('point_sink changed')
        sk = self.sk = {x[0]:x[1] for x in m.structs[st[0]]['members']}
        need = {'n','pt','prev','prev_orig_i','first_i','first_orig_i','second_orig_i','cat','started'}
        if not need <= set(sk): raise Inconclusive('members of point_sink changed: %s' % sorted(sk))
        a0 = mk('arg',0)
        lpo = engine.member(m,CL,'lpoints'); no = engine.member(m,CL,'_next_orig_i')
        ap = s.calls_to('^vv_append$')
        if not ap: raise Inconclusive('no point is stored')
        self.lv = ap[0].args[0]; N = root(self.lv)
        if N.op != 'ld' or N.a[0] is not ptr(a0,sk['n']) or self.lv is not ptr(N,lpo): raise Inconclusive('points are stored elsewhere: %s' % show(self.lv,4))
        self.next = ptr(N,no)
        self.bs = enum(m,'bool_set','subject','clip'); self.ls = enum(m,'type','check','undef')
        rows = []
        for k,fi,started,same,pt,cat in itertools.product((0,1,2,3,4,7),(0,3),(0,1),range(4),(0,4096),self.bs.values()):
            if not started and (k or same): continue
            if kind == 'end' and k == 0 and same: continue
            rows.append((k,fi,started,same,pt,cat))
        w = self.w = World(rows,['k','first','started','same','pt','cat']); n = self.n = w.n; w.summ = s
        k,fi = w['k'],w['first']
        w.field(ptr(a0,sk['pt']),w['pt']); w.field(ptr(a0,sk['prev']),PX); w.field(ptr(a0,sk['prev']+4),PY)
        self.porig = np.where(w['started'] == 1,101+k,55)
        w.field(ptr(a0,sk['prev_orig_i']),self.porig)
        w.field(ptr(a0,sk['first_i']),fi)
        w.field(ptr(a0,sk['first_orig_i']),np.where((k >= 1),ORIG(0),77)); w.field(ptr(a0,sk['second_orig_i']),np.where(k >= 2,ORIG(1),78))
        w.field(ptr(a0,sk['cat']),w['cat']); w.field(ptr(a0,sk['started']),w['started'])
        w.field(self.lv,fi+k); w.field(self.next,NOW)
        CNT = 20
        X = np.full((n,CNT),40,np.int64); Y = np.full((n,CNT),41,np.int64)
        r = np.arange(n)
        if kind == 'end':
            # the last point against the first of this loop; the loop before ends in the very same point
            X[:,:] = PX; Y[:,:] = PY
            live = k > 0
            X[r,fi] = np.where(live & ((w['same'] == 1)|(w['same'] == 2)),PX,40); Y[r,fi] = np.where(live & ((w['same'] == 1)|(w['same'] == 3)),PY,41)
        NX = np.zeros((n,CNT),np.int64)+np.arange(CNT)+1
        w.place(mk('elemof',self.lv),LPB,lp['size'],{lp['x']:X,lp['y']:Y,lp['next']:NX,lp['set']:1-w['cat'][:,None]*np.ones((1,CNT),np.int64),lp['state']:self.ls['undef']},CNT)
        if kind != 'end':
            p = mk('arg',1)
            w.field(p,np.where((w['same'] == 1)|(w['same'] == 2),PX,15)); w.field(ptr(p,4),np.where((w['same'] == 1)|(w['same'] == 3),PY,16))
            w.arg(2,500)
        self.dup = (w['started'] == 1) & (w['same'] == 1)
        self.emit = (w['started'] == 1) & ~self.dup     # the point held back is stored now
        self.cnt = k+self.emit                          # points of this loop afterwards
    def desc(self,i):
        w = self.w
        return '%d points of the loop stored%s%s, %s tracker, %d points before the loop' % (w['k'][i],', one held back' if w['started'][i] else '',
            (', %s %s' % ('the last point' if self.kind == 'end' else 'the new point',['differs from','equals','has the x of','has the y of'][w['same'][i]]+(' the first' if self.kind == 'end' else ' the one before'))) if w['started'][i] else '','with' if w['pt'][i] else 'without',w['first'][i])
    def told(self):
        """per state: input indices the tracker is told of, in order; None if unknown"""
        out = [[] for _ in range(self.n)]; w = self.w
        for e in self.s.calls_to('^virtual::2$'):
            g,h = must(w,e.guard),may(w,e.guard); v,p = w(e.args[1]); o,po = w(e.args[0])
            for i in np.flatnonzero(h):
                if out[i] is None: continue
                if not g[i] or p[i] or po[i] or block_loops(self.s,e.block): out[i] = None
                else: out[i].append((int(o[i]),int(v[i])))
        return out
    def stored(self):
        w = self.w; t = np.zeros(self.n,np.int64); u = np.zeros(self.n,np.int64)
        for e in self.s.calls_to('^vv_append$'): t += must(w,e.guard); u += may(w,e.guard)
        return t,u
    def after(self,p,size):
        return self.w(self.s.load(self.s.exit_mem(),p,size,'i%d' % (8*size)))

def tracker(c,x):
    w,n,W = x.w,x.n,x.f.where
    told = x.told()
    ts,us = x.stored()
    bad = np.zeros(n,bool); early = np.zeros(n,bool); und = np.zeros(n,bool); none = np.zeros(n,bool); why = {}
    for i in range(n):
        t = told[i]
        if t is None or ts[i] != us[i]: und[i] = True; continue
        k,cnt = int(w['k'][i]),int(w['k'][i]+ts[i])
        already = k if k >= 3 else 0
        want = list(range(already,cnt)) if cnt >= 3 else []
        why[i] = x.desc(i)+': told of input points %s instead of %s' % ([b for _,b in t],[ORIG(q) for q in want] if w['pt'][i] else [])
        if not w['pt'][i]: none[i] = bool(t)
        elif any(a != w['pt'][i] for a,_ in t): bad[i] = True
        elif cnt < 3 and t: early[i] = True
        elif [b for _,b in t] != [ORIG(q) for q in want]: bad[i] = True
    if und.any(): c.undecided('told',x.desc(np.flatnonzero(und)[0]),int(und.sum()))
    tell(c,'told',W,none,n,'a tracker is called although none was given',lambda i: why[i])
    tell(c,'told',W,early,n,'the tracker is told of a point of a loop that may still be dropped',lambda i: why[i])
    tell(c,'told',W,bad,n,'the tracker is not told of each point once, in order, with its input index',lambda i: why[i])
    oth = [e for e in x.s.calls_to('^virtual::[013]$')]
    b = np.zeros(n,bool)
    for e in oth: b |= must(w,e.guard)
    tell(c,'told',W,b,n,'the tracker gets another notification while points are added',x.desc)

def P17():
    c = Check('P17','For the function that takes the next point and the one that ends a loop, from every state (0 to 4 or more points of the loop stored, one held back or not, new point equal to the one before or to the first, tracker or not): if the loop then has three points, the tracker has been told of all that are stored, in order, with the input index each came with; before that, of none; and the indices held back are carried over to the next state. The index counter moves on by one with every point, also for skipped ones.','decision table over compiler IR: '+TABLE)
    for kind in ('add','add1'):
        x = Sink(c,kind); w,n,W = x.w,x.n,x.f.where
        tracker(c,x)
        a0 = mk('arg',0); sk = x.sk
        own = np.full(n,500 if kind == 'add' else NOW)
        def state(name,want,where,what):
            v,p = x.after(ptr(a0,sk[name]),1 if name == 'started' else 8)
            if name == 'started': v = v&1
            if (p&where).any(): c.undecided('held back',what); where = where & ~p
            if where.any(): tell(c,'held back',W,where & (v != want),n,what,x.desc)
        state('prev_orig_i',own,~x.dup,'the input index of the point held back is lost')
        state('prev_orig_i',x.porig,x.dup,'the input index of the point held back is replaced by that of its duplicate')
        state('started',np.ones(n,np.int64),np.ones(n,bool),'the point is not held back')
        has = x.cnt >= 1; two = x.cnt >= 2
        state('first_orig_i',np.full(n,ORIG(0)),has & (x.cnt < 3) & (w['pt'] != 0),'the input index of the first point is lost before the tracker was told')
        state('second_orig_i',np.full(n,ORIG(1)),two & (x.cnt < 3) & (w['pt'] != 0),'the input index of the second point is lost before the tracker was told')
        v,p = x.after(x.next,8)
        if p.any(): c.undecided('counting','next input index')
        else: tell(c,'counting',W,v != own+1,n,'the input index of the next point does not follow',x.desc)
    x = Sink(c,'end'); tracker(c,x)
    return c

def P19():
    c = Check('P19','From every state: a point equal to the one before is skipped, any other makes the one held back stored once, with its coordinates, the set of the loop and the next position as successor. At the end the last point is stored unless it equals the first point of this loop (and no other); with three or more points the last one is linked to the first, with fewer every point of the loop is taken out again; points stored before the loop are neither read for this nor changed.','decision table over compiler IR: '+TABLE)
    for kind in ('add','add1','end'):
        x = Sink(c,kind); w,n,W,s,lp = x.w,x.n,x.f.where,x.s,x.lp
        t,u = x.stored()
        if (t != u).any(): c.undecided('stored',x.desc(np.flatnonzero(t != u)[0]),int((t != u).sum()))
        ok = t == u
        if kind != 'end':
            tell(c,'stored',W,ok & x.dup & (t > 0),n,'a point equal to the one before is stored again',x.desc)
            tell(c,'stored',W,ok & (w['started'] == 0) & (t > 0),n,'a point is stored before the first one was given',x.desc)
            tell(c,'stored',W,ok & x.emit & (t != 1),n,'the point held back is not stored once when the next one differs',x.desc)
            a0 = mk('arg',0)
            for o,new in ((0,1),(4,1)):
                v,p = x.after(ptr(a0,x.sk['prev']+o),4)
                nv = np.where((w['same'] == 1)|(w['same'] == (2 if o == 0 else 3)),PX if o == 0 else PY,15 if o == 0 else 16)
                g = (w['started'] == 1)|(w['started'] == 0)
                if p.any(): c.undecided('stored','the point held back')
                else: tell(c,'stored',W,g & (v != nv),n,'the new point is not the one held back',x.desc)
        else:
            drop = (x.cnt < 3)
            # dropped or not, what remains must be right
            tell(c,'stored',W,ok & x.dup & (w['k'] >= 3) & (t > 0),n,'a last point equal to the first one is stored again',x.desc)
            tell(c,'stored',W,ok & x.emit & (x.cnt >= 3) & (t != 1),n,'the last point is not stored',x.desc)
            size(c,x,drop,t,ok)
        # contents
        fin = s.exit_mem(); live = (x.emit if kind != 'end' else x.emit & (x.cnt >= 3)) & ok
        i = w['first']+w['k']
        for nm,want,sz in (('x',np.full(n,PX),4),('y',np.full(n,PY),4),('set',w['cat'],4),('next',i+1,8),('state',np.full(n,x.ls['undef']),1)):
            if kind == 'end' and nm == 'next': want = w['first']
            if kind == 'end' and nm == 'state': want = np.full(n,x.ls['check'])
            bad = np.zeros(n,bool); un = np.zeros(n,bool)
            for q in range(0,11):
                m_ = live & (i == q)
                if not m_.any(): continue
                v,p = w(s.load(fin,ptr(mk('elemof',x.lv),lp['size']*q+lp[nm]),sz,'i%d' % (8*sz)))
                bad |= m_ & ~p & (v != want); un |= m_ & p
            if nm == 'state' and kind != 'end': continue
            if un.any(): c.undecided('contents',nm)
            else: tell(c,'contents',W,bad,n,'%s of the point that is stored is wrong' % {'next':'the successor','set':'the set','state':'the state'}.get(nm,nm),x.desc)
        if kind == 'end':
            # a loop whose last point was skipped: its last stored point is closed to the first
            m0 = x.dup & (w['k'] >= 3)
            bad = np.zeros(n,bool); un = np.zeros(n,bool)
            for q in range(2,11):
                m_ = m0 & (i-1 == q)
                if not m_.any(): continue
                for nm,want,sz in (('next',w['first'],8),('state',np.full(n,x.ls['check']),1)):
                    v,p = w(s.load(fin,ptr(mk('elemof',x.lv),lp['size']*q+lp[nm]),sz,'i%d' % (8*sz)))
                    bad |= m_ & ~p & (v != want); un |= m_ & p
            if un.any(): c.undecided('closed','last point')
            else: tell(c,'closed',W,bad,n,'the last point is not linked to the first one of its loop',x.desc)
        # other points
        bad = np.zeros(n,bool); un = False
        for e in s.effects:
            if e.kind != 'store' or root(e.ptr) is not root(mk('elemof',x.lv)): continue
            v,p = w(e.ptr); g = must(w,e.guard) & ~p
            idx = (v-LPB)//lp['size']
            if block_loops(s,e.block): un = True; continue
            bad |= g & (idx < w['first'])
            new = i
            bad |= g & (idx < new) & ~((kind == 'end') & (idx == new-1))
        if un: c.undecided('others','stores in a loop')
        tell(c,'others',W,bad,n,'a point stored earlier is changed',x.desc)
    return c

def size(c,x,drop,t,ok):
    """what is taken out again at the end"""
    w,n,W,s = x.w,x.n,x.f.where,x.s
    sh = s.calls_to('^vv_shrink$')
    if not sh: c.fail('dropped',W,'loops with fewer than three points are never taken out again'); return
    total = w['first']+w['k']+t      # points when taking out starts
    gone = np.zeros(n,bool); und = np.zeros(n,bool); wrong = np.zeros(n,bool)
    for e in sh:
        if e.args[0] is not x.lv and show(e.args[0],9).split('@')[0] not in show(x.lv,9) and root(e.args[0]).op != 'ld': continue
        hs = block_loops(s,e.block)
        if not hs:
            v,p = w(e.args[1]); g = must(w,e.guard)
            if (may(w,e.guard)&(p|~g)).any(): und |= may(w,e.guard); continue
            gone |= g & (v == w['first']); wrong |= g & (v != w['first'])
            continue
        h = hs[0]; L = s.loops[h]
        # a counting loop that takes out one point per round
        cnt = [(pid,v) for q in s.effects if q.kind == 'backedge' and q.header == h for pid,v in q.phis.items()]
        done = False
        for pid,v in cnt:
            ph = L['phis'].get(pid)
            if ph is None or ph.a[3] == 'ptr': continue
            a,pa = w(ph); b,pb = w(v)
            if (pa|pb).any() or not ((b-a) == (b-a)[0]).all() or not every_round(s,e,h): continue
            step = int((b-a)[0])
            if step not in (-1,1): continue
            # rounds: as long as the guard holds, counting from the entry value
            rounds = np.zeros(n,np.int64); on = np.ones(n,bool); bad = np.zeros(n,bool); inl = np.zeros(n,bool)
            for r in range(9):
                ww = Shift(w,ph,a+step*r)
                g,p = ww.ev(e.guard)
                bad |= p & on; on &= (g != 0) & ~p
                rounds += on
                if r == 0: inl = (g != 0) & ~p
            und |= bad|on
            left = total-rounds
            gone |= inl & (left == w['first']); wrong |= inl & (left != w['first']) & ~bad & ~on
            done = True
        if not done: und |= may(w,e.guard)
    und |= ~ok
    if und.any(): c.undecided('dropped','how many points are taken out',int(und.sum()))
    tell(c,'dropped',W,wrong & drop & ~und,n,'a dropped loop leaves points behind, or takes others with it',x.desc)
    nothing = drop & ~gone & ~und & (total > w['first'])
    tell(c,'dropped',W,nothing & ~wrong,n,'a loop with fewer than three points is kept',x.desc)
    tell(c,'dropped',W,~drop & (gone|wrong) & ~und,n,'a loop with three or more points is dropped',x.desc)

class Shift:
    """a world in which one loop variable has another value"""
    def __init__(self,w,ph,val):
        from veval import VEval
        self.w = w
        def leaf(e,ev):
            if e is ph: return val
            return w.leaf(e,ev)
        self.ev = VEval(w.n,leaf)
