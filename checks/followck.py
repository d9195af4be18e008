"""P18, P45: what happens to the run of points between a crossing and the next
one, round by round, for every kind of line and every pattern of temporary
points."""
import itertools
import numpy as np
from harness import Check, Inconclusive
from irsum import mk, ptr, root, show
from world import World
from flow import Rounds
from checks.sweepck import layout, enum, tell
from checks.splitck import CL, LPB
from checks.meta import TABLE
import engine
from checks import joinck

RUN = (7,2,5)          # position of the points of the run
INTR,END,CNT = 4,9,12
class Follow:
    def __init__(self,c):
        m,f,s = engine.load('engine','w_follow',['opaque ^std::map::'],noclobber='virtual::|std::map')
        self.m,self.f,self.s = m,f,s
        c.saw('functions',f.where)
        ev,lp = layout(m); self.lp = lp
        ls = self.ls = enum(m,'type','check','undef','keep','discard','keep_rev','discard_rev','anchor')
        bk = [k for k in m.structs if k.startswith('poly_ops::detail::breaks_t<')]
        vp = [k for k in m.structs if k.startswith('poly_ops::detail::virt_point<')]
        if len(bk) != 1 or len(vp) != 1: raise Inconclusive('breaks_t or virt_point changed')
        b = {x[0]:x[1] for x in m.structs[bk[0]]['members']}; v = self.vp = {x[0]:x[1] for x in m.structs[vp[0]]['members']}
        if not {'broken_starts','broken_ends','virtual_points','orphans'} <= set(b) or not {'next','keep','next_is_end'} <= set(v): raise Inconclusive('members of breaks_t or virt_point changed')
        self.b = {k:ptr(mk('arg',2),o) for k,o in b.items()}
        if len(s.loops) != 1: raise Inconclusive('%d loops' % len(s.loops))
        rows = [r for r in itertools.product([ls[k] for k in ('keep','discard','keep_rev','discard_rev')],range(4),range(8),(0,4096),(0,1)) if r[2] < (1<<r[1])]
        w = self.w = World(rows,['kind','len','anchors','pt','ring']); n = self.n = w.n; w.summ = s
        w.arg(1,INTR); w.arg(3,w['pt']); w.arg(0,1<<13); w.arg(2,1<<14)
        self.end = np.where(w['ring'] == 1,INTR,END)
        X = np.zeros((n,CNT),np.int64)+100+np.arange(CNT); NX = np.zeros((n,CNT),np.int64)+1; ST = np.full((n,CNT),ls['keep'],np.int64)
        # positions: intr, run, end; the next of a position
        self.pts = np.zeros((n,4),np.int64)
        for i in range(n):
            seq = [INTR]+list(RUN[:w['len'][i]])+[int(self.end[i])]
            for k,(p,q) in enumerate(zip(seq,seq[1:])): NX[i,p] = q
            for k,p in enumerate(RUN[:w['len'][i]]): ST[i,p] = ls['undef']|(ls['anchor'] if w['anchors'][i]>>k&1 else 0)
            ST[i,INTR] = w['kind'][i]
            if not w['ring'][i]: NX[i,END] = 3
        # the end point: any state a run can end with
        self.X,self.NX,self.ST = X,NX,ST
        w.place(mk('elemof',mk('arg',0)),LPB,lp['size'],{lp['x']:X,lp['y']:X+100,lp['next']:NX,lp['state']:ST},CNT)
        self.r = Rounds(s,w,next(iter(s.loops)),4)
    def desc(self,i):
        w = self.w
        a = [('temporary' if w['anchors'][i]>>k&1 else 'real') for k in range(w['len'][i])]
        return '%s, run of %d points%s%s, %s tracker' % ([k for k,v in self.ls.items() if v == w['kind'][i]][0],len(a),' ('+', '.join(a)+')' if a else '',', back to the crossing itself' if w['ring'][i] else '','with' if w['pt'][i] else 'without')
    def run(self,i): return list(RUN[:self.w['len'][i]])
    def real(self,i): return [p for k,p in enumerate(RUN[:self.w['len'][i]]) if not self.w['anchors'][i]>>k&1]
    def kind(self,i): return next(k for k in ('keep','discard','keep_rev','discard_rev') if self.ls[k] == self.w['kind'][i])
    def values(self,rows,*get):
        """numbers the calls of every row were given; None if not known"""
        memo = {}
        def num(e,ev,k,i):
            x = memo.get((e.n if hasattr(e,'n') else id(e),id(ev),k))
            if x is None: x = memo[(e.n if hasattr(e,'n') else id(e),id(ev),k)] = (ev(get[k](e)),e,ev)
            v,p = x[0]
            return None if p[i] else int(v[i])
        return [None if r is None else [tuple(num(e,ev,k,i) for k in range(len(get))) for e,ev in r] for i,r in enumerate(rows)]

def P18():
    c = Check('P18','For a run of 0 to 3 points after a crossing, every pattern of temporary (anchor) points among them, every kind of line, with and without tracker: a line that is kept, in either direction, merges no point away; a discarded one merges the crossing into the first point of the run that is not temporary, every such point into the next one, and the last into the point the run ends at; one discarded in reverse merges only points of the run, in order. Temporary points are never mentioned to the tracker, and without a tracker none is called.','decision table over compiler IR: '+TABLE)
    x = Follow(c); w,n,W,r = x.w,x.n,x.f.where,x.r
    calls = x.s.calls_to('^virtual::1$')
    if not calls: raise Inconclusive('follow_balance merges nothing')
    got = x.values(r.happens(calls),lambda e: e.args[0],lambda e: e.args[1],lambda e: e.args[2])
    bad = {k:np.zeros(n,bool) for k in ('none','kept','anchor','chain','rev')}; why = {}; und = np.zeros(n,bool)
    for i in range(n):
        g = got[i]
        if g is None or any(None in q for q in g): und[i] = True; continue
        m = [q[1:] for q in g]; k = x.kind(i); real = x.real(i); run = x.run(i); tmp = set(run)-set(real)
        why[i] = x.desc(i)+': merges %s' % (m or 'nothing')
        if not w['pt'][i]: bad['none'][i] = bool(m); continue
        if any(q[0] != w['pt'][i] for q in g): bad['none'][i] = True; continue
        if any(p in tmp for q in m for p in q): bad['anchor'][i] = True; continue
        if k in ('keep','keep_rev'): bad['kept'][i] = bool(m); continue
        E = int(x.end[i]); seq = [INTR]+real
        if k == 'discard': bad['chain'][i] = m != list(zip(seq,seq[1:]+[E]))
        else:
            # the chain of the run itself; the point the run ends at may only come last
            ok = list(zip(seq,seq[1:]))
            bad['rev'][i] = m[:len(ok)] != ok or any(p != E for _,p in m[len(ok):]) or len(m) > len(ok)+1
    if und.any(): c.undecided('merged',x.desc(np.flatnonzero(und)[0]),int(und.sum()))
    say = lambda i: why.get(i) or x.desc(i)
    tell(c,'no tracker',W,bad['none'],n,'a tracker is called although none was given, or another object than the tracker',say)
    tell(c,'temporary points',W,bad['anchor'],n,'the tracker is told of a temporary point, which it does not know',say)
    tell(c,'kept',W,bad['kept'],n,'a point of a line that is kept is merged away',say)
    tell(c,'merged',W,bad['chain'],n,'the points of a discarded line are not merged one into the next up to the end of the run',say)
    tell(c,'merged',W,bad['rev'],n,'the points of a line discarded in reverse are not merged one into the next',say)
    oth = x.values(r.happens(x.s.calls_to('^virtual::[0234]$')))
    b = np.array([bool(g) for g in oth])
    tell(c,'other',W,b,n,'another notification is sent while a line is followed',x.desc)
    return c

def P45():
    c = Check('P45','For a run of 0 to 3 points after a crossing, every pattern of temporary points and every kind of line: all points of the run get the kind of the crossing and stay temporary or not; only a line kept in reverse is relinked, each point to the one before it, and its temporary points move to where their old successor is; the crossing and the ends of the run are entered in the lists that the loops are later assembled from exactly as the kind of the line demands, under the coordinates of the point where they must be joined.','decision table over compiler IR: '+TABLE)
    x = Follow(c); w,n,W,r,s,lp = x.w,x.n,x.f.where,x.r,x.s,x.lp
    fin,un = r.final()
    if un.any(): c.undecided('points',x.desc(np.flatnonzero(un)[0]),int(un.sum()))
    tab = next(f for lo,es,cnt,f in fin if lo == LPB)
    # points
    bad = {k:np.zeros(n,bool) for k in ('state','link','place','other')}; why = {}
    for i in range(n):
        if un[i]: continue
        run = x.run(i); k = x.kind(i); seq = [INTR]+run
        for j,p in enumerate(run):
            a = x.ls['anchor'] if w['anchors'][i]>>j&1 else 0
            if tab[lp['state']][i,p]&255 != int(w['kind'][i])|a: bad['state'][i] = True
            link = seq[j] if k == 'keep_rev' else int(x.NX[i,p])
            if tab[lp['next']][i,p] != link: bad['link'][i] = True
            at = int(x.X[i,x.NX[i,p]]) if k == 'keep_rev' and a else int(x.X[i,p])
            if tab[lp['x']][i,p] != at: bad['place'][i] = True
        for p in set(range(CNT))-set(run):
            if any(tab[o][i,p] != t[i,p] for o,t in ((lp['state'],x.ST),(lp['next'],x.NX),(lp['x'],x.X))): bad['other'][i] = True
    tell(c,'kind',W,bad['state'],n,'a point of the run does not get the kind of the line, or its mark as temporary is changed',x.desc)
    tell(c,'links',W,bad['link'],n,'links of the run: only a line kept in reverse is turned around, point by point',x.desc)
    tell(c,'temporary points',W,bad['place'],n,'a point of the run is not where it belongs (only temporary points of a line kept in reverse move, to their old successor)',x.desc)
    tell(c,'others',W,bad['other'],n,'a point that is not part of the run is changed',x.desc)
    # lists
    ap = s.calls_to('^vv_append$')
    lists = {}
    for e in ap:
        v = e.args[0]
        nm = next((k for k,p in x.b.items() if p is v),None)
        key = None
        if nm is None:
            if v.op != 'call' or 'operator[]' not in v.a[0] or len(v.a[2]) != 2: raise Inconclusive('appends to %s' % show(v,4))
            nm = next((k for k,p in x.b.items() if p is v.a[2][0][1]),None); key = v.a[2][1][1]
            if nm is None: raise Inconclusive('appends to %s' % show(v,4))
        lists.setdefault(nm,[]).append((e,key))
    c.saw('lists',*('%s (%d places)' % (k,len(v)) for k,v in sorted(lists.items())))
    ld = lambda e,o,z: s.load(e.mem,ptr(e.args[1],o),z,'i%d' % (8*z))
    def entries(nm,parts):
        es = lists.get(nm,[])
        keys = {id(e):k for e,k in es}
        def key(e): return s.load(e.mem,ptr(keys[id(e)],lp['x']),4,'i32') if keys[id(e)] is not None else mk('const',0,64)
        return x.values(r.happens([e for e,_ in es]),key,*[(lambda o,z: lambda e: ld(e,o,z))(o,z) for o,z in parts])
    bs = entries('broken_starts',[(0,8)]); be = entries('broken_ends',[(0,8)]); orp = entries('orphans',[(0,8)])
    vp = entries('virtual_points',[(x.vp['next'],8),(x.vp['keep'],1),(x.vp['next_is_end'],1)])
    for nm,got,want,what in (
        ('broken_starts',bs,lambda i,k,run,E: [(int(x.X[i,INTR]),INTR)] if k == 'keep' else [],'starts of lines'),
        ('broken_ends',be,lambda i,k,run,E: [(0,([INTR]+run)[-1])] if k == 'keep' else [(0,run[0])] if k == 'keep_rev' and run else [],'ends of lines'),
        ('orphans',orp,lambda i,k,run,E: [(0,INTR)] if k in ('keep_rev','discard_rev') else [],'points whose start must be found'),
        ('virtual_points',vp,lambda i,k,run,E: [(int(x.X[i,E]),([INTR]+run)[-1],int(k == 'keep_rev'),int(k == 'keep_rev' and not run))] if k in ('keep_rev','discard_rev') else [],'starts of reversed lines')):
        bad = np.zeros(n,bool); un = np.zeros(n,bool); why = {}
        for i in range(n):
            g = got[i]
            if g is None or any(None in q for q in g): un[i] = True; continue
            k = x.kind(i); E = int(x.end[i])
            a = want(i,k,x.run(i),E)
            b = [tuple(q[:2])+tuple(z&1 for z in q[2:]) for q in g]
            if a != b: bad[i] = True; why[i] = '%s: enters %s instead of %s' % (x.desc(i),b or 'nothing',a or 'nothing')
        if un.any(): c.undecided(nm,x.desc(np.flatnonzero(un)[0]),int(un.sum()))
        tell(c,nm,W,bad,n,'the list of %s gets a wrong entry or misses one' % what,lambda i: why[i])
    joinck.orphans(c)
    joinck.marks(c)
    return c
