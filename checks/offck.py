"""P25, P48: corners, lone points and lines that are offset (witness/offset.cpp)."""
import itertools, math
import numpy as np
from fractions import Fraction
from harness import Check, Inconclusive
from irsum import mk, ptr, root, pparts, show, E
from world import World
from flow import Rounds, Sequence, block_loops, walk
from checks.sweepck import tell
from checks.meta import TABLE
import engine

SINK = ['opaque point_sink::operator\\(\\)']
# ---- expressions over the reals: sums of products of powers of atoms
def fadd(p,q,k=1):
    r = dict(p)
    for m,c in q.items():
        r[m] = r.get(m,0)+k*c
        if r[m] == 0: del r[m]
    return r
def fmul(p,q):
    r = {}
    for m,c in p.items():
        for n,d in q.items():
            t = dict(m)
            for a,x in n:
                t[a] = t.get(a,0)+x
                if t[a] == 0: del t[a]
            k = tuple(sorted(t.items(),key=repr)); r[k] = r.get(k,0)+c*d
            if r[k] == 0: del r[k]
    return r
def num(x): return {():Fraction(x)} if x else {}
def atom(*a): return {((tuple(a),1),):Fraction(1)}
def key(p): return tuple(sorted(p.items(),key=repr))
def inv(p):
    if len(p) == 1:
        (m,c), = p.items()
        return {tuple((a,-x) for a,x in m):1/c}
    return atom('inv',key(p))
def fn(name,*p): return atom(name,*[key(x) for x in p])
class Form:
    """the real-valued meaning of an expression, up to rearrangement"""
    def __init__(self,s): self.s = s; self.memo = {}
    def __call__(self,e):
        if e.n not in self.memo: self.memo[e.n] = self.ev(e)
        return self.memo[e.n]
    def ev(self,e):
        op,a = e.op,e.a
        if op == 'const': return num(a[0])
        if op == 'fconst':
            v = float(a[0])
            if not math.isfinite(v): return atom('e',e.n)
            return num(Fraction(v))
        if op in ('sitofp','sext','zext') and not (op == 'zext' and a[0] == 1): return self(a[2])
        if op in ('fpext','fptrunc'): return self(a[2])
        if op == 'uitofp': return self(a[2])
        if op in ('fadd','fsub','add','sub') :
            x,y = a[-2:]; return fadd(self(x),self(y),1 if op.endswith('add') else -1)
        if op in ('fmul','mul'): return fmul(self(a[-2]),self(a[-1]))
        if op == 'fdiv': return fmul(self(a[0]),inv(self(a[1])))
        if op == 'fneg': return fmul(num(-1),self(a[0]))
        if op == 'shl' and a[2].op == 'const': return fmul(num(1<<a[2].a[0]),self(a[1]))
        if op in ('fptosi','trunc') and op == 'fptosi': return fn('trunc',self(a[2]))
        if op == 'trunc': return self(a[2])
        if op == 'intr':
            nm = a[0].split('.')[0]; v = [self(y) for _,y in a[1]]
            if nm in ('fmuladd','fma'): return fadd(fmul(v[0],v[1]),v[2])
            if nm in ('sqrt','sin','cos','fabs','round','floor','ceil'): return fn(nm,*v)
        if op == 'call':
            nm = a[0].split('::')[-1]; v = [y for _,y in a[2]]
            if nm in ('lround','llround','round','lroundf'): return fn('round',self(v[0]))
            if nm in ('sqrt','sin','cos','acos','atan2','fabs'): return fn(nm,*[self(x) for x in v])
            if nm == 'hypot': return fn('sqrt',fadd(fmul(self(v[0]),self(v[0])),fmul(self(v[1]),self(v[1]))))
        if op == 'arg': return atom('arg',a[0])
        if op == 'ite' and a[0].op == 'fcmp':
            # a limit at or beyond 1 or -1 does nothing to a cosine
            k,x,l = a[0].a
            if l.op == 'fconst' and self.cosine(self(x)) and (k in ('ogt','oge') and float(l.a[0]) >= 1 or k in ('olt','ole') and float(l.a[0]) <= -1): return self(a[2])
        return atom('e',e.n)
    def cosine(self,p):
        """a.b/(|a||b|)"""
        d = [m for m,_ in p.items()]
        if not d: return False
        common = set(d[0]).intersection(*map(set,d))
        q = [k for k,x in common if k[0] == 'sqrt' and x == -1]
        return len(q) == 2 and len(p) in range(2,9) and all(sum(1 for k,x in m if k[0] == 'arg' and x > 0) in (1,2) for m in d)
    def arg(self,k): return atom('arg',k)

def math_calls(w):
    def f(name,g):
        def h(e,ev):
            vs = [ev(y) for _,y in e.a[2]]
            p = np.zeros(w.n,bool)
            for _,q in vs: p = p|q
            with np.errstate(all='ignore'): return g(*[np.asarray(v,float) for v,_ in vs]),p
        w.call(name,h)
    rnd = lambda x: (np.sign(x)*np.floor(np.abs(x)+.5)).astype(np.int64)
    for k,g in (('lround',rnd),('hypot',np.hypot),('sqrt',np.sqrt),('acos',np.arccos),('atan2',np.arctan2),('cos',np.cos),('sin',np.sin)): f(k,g)
def floats(w,k,v): w.args[k] = np.asarray(v,float)

def point(s,e,k):
    """x and y of argument k of a call that takes a point by reference or value"""
    a = e.args[k]
    if a.op in ('alloca','ptr','arg'): return [s.load(e.mem,ptr(a,o),4,'i32') for o in (0,4)]
    return None

# ---- P48: one corner
DIRS = [(x,y) for x in range(-2,3) for y in range(-2,3) if math.gcd(x,y) == 1]
class Corner:
    A = dict(zip(('m','step','i1','i2','x1','y1','x2','y2','x3','y3'),range(1,11)))
    def __init__(self,c):
        self.m,self.f,self.s = engine.load('offset','w_corner',SINK,noclobber='.')
        c.saw('functions',self.f.where)
        s = self.s
        self.sinks = s.calls_to(r'point_sink::operator\(\)$')
        if not self.sinks: raise Inconclusive('no point is produced')
        self.first = [e for e in self.sinks if not block_loops(s,e.block)]
        self.arcs = [e for e in self.sinks if block_loops(s,e.block)]
        rows = [(u,v,m,st) for u in range(len(DIRS)) for v in range(len(DIRS)) for m in (-300,300) for st in (1,100)]
        w = self.w = World(rows,['u','v','m','st']); w.summ = s
        D = np.array(DIRS); self.D = D
        P = {'x1':100,'y1':70}; K = 13
        u,v = D[w['u']],D[w['v']]
        w.arg(0,1<<12); floats(w,1,w['m']); w.arg(2,w['st']); w.arg(3,41); w.arg(4,42)
        self.p1 = np.stack([np.full(w.n,100),np.full(w.n,70)],1); self.p2 = self.p1+K*u; self.p3 = self.p2+K*v
        for j,p in ((5,self.p1),(7,self.p2),(9,self.p3)):
            w.arg(j,p[:,0]); w.arg(j+1,p[:,1])
        math_calls(w)
        self.u,self.v = u,v
    def desc(self,i):
        w = self.w
        return 'edge of direction %s followed by %s, magnitude %d, step %d' % (tuple(int(x) for x in self.u[i]),tuple(int(x) for x in self.v[i]),w['m'][i],w['st'][i])

def displaced(c,x):
    part = 'edge'; s,w,W,n = x.s,x.w,x.f.where,x.w.n
    F = Form(s); a = x.A
    dx,dy = (fadd(F.arg(a[k+'2']),F.arg(a[k+'1']),-1) for k in 'xy')
    ln = fn('sqrt',fadd(fmul(dx,dx),fmul(dy,dy)))
    off = [fmul(fmul(q,F.arg(a['m'])),inv(ln)) for q in (dy,fmul(num(-1),dx))]
    un = np.zeros(n,bool)
    gs = [w(e.guard) for e in x.first]
    t = sum((g != 0).astype(int) for g,_ in gs)
    for _,p in gs: un |= p
    if un.any(): c.undecided(part,'which points are made')
    else: tell(c,part,W,t != 2,n,'an edge does not make two points',x.desc)
    L = np.hypot(x.u[:,0],x.u[:,1]); ex = x.w['m']*x.u[:,1]/L,-x.w['m']*x.u[:,0]/L
    if len(x.first) != 2 or any(e.guard.op != 'const' for e in x.first): c.undecided(part,'the points of an edge depend on conditions'); return off
    for k,(e,base,idx) in enumerate(zip(x.first,(('x1','y1'),('x2','y2')),(3,4))):
        which = 'start' if k == 0 else 'end'
        xy = point(s,e,1)
        if xy is None: c.undecided(part,'point of the %s' % which); continue
        for q in range(2):
            got = F(xy[q]); want = fadd(F.arg(a[base[q]]),fn('round',off[q]))
            if key(got) == key(want): c.ok(part,1,'%s of the %s is that of the point plus the rounded normal of length |magnitude|' % ('xy'[q],which)); continue
            v,p = w(xy[q]); wv = (x.p1 if k == 0 else x.p2)[:,q]+ex[q]
            bad = ~p & (np.abs(v-wv) > 1.01)
            if bad.any(): tell(c,part,W,bad,n,'the %s of an edge is not moved by magnitude along its normal' % which,x.desc)
            else: c.undecided(part,'%s of the %s' % ('xy'[q],which))
        i,p = w(e.args[2])
        if p.any(): c.undecided(part,'origin of the %s' % which)
        else: tell(c,part,W,i != (41,42)[k],n,'the %s of an edge is said to come from another point' % which,x.desc)
    return off

def arc(c,x,off):
    """what is between one edge and the next"""
    part = 'arc'; s,w,W,n = x.s,x.w,x.f.where,x.w.n
    hs = {block_loops(s,e.block)[0] for e in x.arcs}
    if len(hs) != 1: c.undecided(part,'%d loops make points' % len(hs)); return
    h = hs.pop(); L = s.loops[h]; F = Form(s)
    # which two loop variables are the displacement
    entry = {}; back = {}
    for pb,p,v in L['enter']: entry.setdefault(p,[]).append(v)
    for pb,p,v in L['back']: back.setdefault(p,[]).append(v)
    dbl = {p:ph for p,ph in L['phis'].items() if ph.a[3] == 'double' and len(entry.get(p,())) == 1 and len(back.get(p,())) == 1}
    ids = [next((p for p in dbl if key(F(entry[p][0])) == key(off[q])),None) for q in range(2)]
    if None in ids: c.undecided(part,'where the arc begins'); return
    X,Y = (atom('e',dbl[p].n) for p in ids); bx,by = (F(back[p][0]) for p in ids)
    # bx = cX - sY, by = sX + cY with c, s of one angle
    def coef(p,v):
        r = {}
        (k,), = v.keys()
        for m,q in p.items():
            if k in m: r[tuple(z for z in m if z != k)] = q
        return r
    cx,sy,sx,cy = coef(bx,X),coef(bx,Y),coef(by,X),coef(by,Y)
    whole = key(bx) == key(fadd(fmul(cx,X),fmul(sy,Y))) and key(by) == key(fadd(fmul(sx,X),fmul(cy,Y)))
    ang = None
    if whole and key(cx) == key(cy) and key(sy) == key(fmul(num(-1),sx)) and len(cx) == 1 and len(sx) == 1:
        (mc,kc), = cx.items(); (ms,ks), = sx.items()
        if kc == 1 and abs(ks) == 1 and len(mc) == len(ms) == 1 and mc[0][0][0] == 'cos' and ms[0][0][0] == 'sin' and mc[0][0][1] == ms[0][0][1] and mc[0][1] == ms[0][1] == 1: ang = mc[0][0][1],int(ks)
    if ang: c.ok(part,4,'each point of the arc is the one before turned about the corner by one angle')
    else: c.undecided(part,'how one point of the arc is made from the one before')
    # by the angle between the edges, in as many steps as there are
    a1 = [fadd(F.arg(a),F.arg(b),-1) for a,b in ((5,7),(6,8))]; a3 = [fadd(F.arg(a),F.arg(b),-1) for a,b in ((9,7),(10,8))]
    dot = lambda p,q: fadd(fmul(p[0],q[0]),fmul(p[1],q[1])); ab = lambda p: fn('sqrt',dot(p,p))
    angle_ = fadd(num(Fraction(math.pi)),fn('acos',fmul(dot(a1,a3),fmul(inv(ab(a1)),inv(ab(a3))))),-1)
    ideal = np.abs(np.arctan2(x.u[:,0]*x.v[:,1]-x.u[:,1]*x.v[:,0],(x.u*x.v).sum(1)))
    ds = divisors(s,s.calls_to('(^|::)(sin|cos)$'))
    if not ds: c.undecided(part,'the angle of an arc')
    for e,dv,q in ds:
        if key(F(dv.a[0])) == key(angle_): c.ok(part,1,'the angle turned in all is that between the edges')
        else:
            v,p = w(dv.a[0]); g,pg = w(e.guard)
            bad = ~p & ~pg & (g != 0) & (np.abs(np.abs(v)-ideal) > 1e-3)
            if bad.any(): tell(c,part,W,bad,n,'an arc does not turn by the angle between the edges',x.desc)
            else: c.undecided(part,'the angle of an arc')
        if key(F(dv.a[1])) == key(fn('trunc',fmul(fmul(F.arg(1),angle_),inv(F.arg(2))))): c.ok(part,1,'the number of steps is the length of the arc divided by the step size')
        else: c.undecided(part,'the number of steps of an arc')
    # as many points as it takes to get there in equal steps: first points against the ideal arc
    r = Rounds(s,w,h,6); un = np.zeros(n,bool)
    turn = np.arctan2(x.u[:,0]*x.v[:,1]-x.u[:,1]*x.v[:,0],(x.u*x.v).sum(1))
    rev = (x.v == -x.u).all(1)
    cross = x.u[:,0]*x.v[:,1]-x.u[:,1]*x.v[:,0]
    mag = x.w['m']
    # triangle_winding > 0 is clockwise, which is a turn of positive cross product with y down
    back_ = rev
    outer = np.where(mag > 0,(cross > 0)|back_,(cross < 0))
    made = np.zeros(n,bool)
    for e in x.arcs:
        for on,ev in r.at[:1]:
            g,p = ev(e.guard); un |= on & p; made |= on & (g != 0) & ~p
    g_on = r.at[0][0]; un |= r.w is None
    angle = np.abs(turn)
    many = np.trunc(np.abs(mag)*angle/x.w['st']-1e-9) > 1
    if un.any(): c.undecided(part,'when an arc is made',int(un.sum()))
    tell(c,part,W,~un & made & ~outer,n,'an arc is made at an inner corner',x.desc)
    tell(c,part,W,~un & ~made & outer & many & (angle > 1e-6),n,'no arc is made at an outer corner',x.desc)
    bad = np.zeros(n,bool); org = bad.copy(); unk = np.zeros(n,bool)
    steps = np.trunc(np.abs(mag)*angle/x.w['st'])
    for k,(on,ev) in enumerate(r.at[:5]):
        for e in x.arcs:
            g,p = ev(e.guard); on_ = on & (g != 0) & ~p & outer
            i,pi = ev(e.args[2]); org |= on_ & ~pi & (i != 42); unk |= on_ & pi
            xy = point(s,e,1)
            if xy is None: unk |= on_; continue
            # displacement of edge u turned towards that of v
            sg = np.where(back_,1,np.sign(turn)); th = sg*angle*(k+1)/np.maximum(steps,1)
            ox,oy = mag*x.u[:,1]/np.hypot(*x.u.T),-mag*x.u[:,0]/np.hypot(*x.u.T)
            wx,wy = ox*np.cos(th)-oy*np.sin(th),ox*np.sin(th)+oy*np.cos(th)
            for q,z in ((0,wx),(1,wy)):
                v,pv = ev(xy[q]); unk |= on_ & pv
                tol = 2+np.where(steps > 0,np.abs(mag)*angle/np.maximum(steps,1)/np.maximum(steps,1)*(k+1),0)
                bad |= on_ & ~pv & (np.abs(v-x.p2[:,q]-z) > tol)
    if unk.any(): c.undecided(part,'points of an arc',int(unk.sum()))
    tell(c,part,W,bad&~un,n,'a point of an arc is not on the circle around the corner, in equal steps from one edge to the next',x.desc)
    tell(c,part,W,org&~un,n,'a point of an arc is said to come from another point',x.desc)
    return h

# ---- P48: whole lines
LINE = ['opaque ::add_offset_point$','opaque ::offset_lone_point$','opaque clipper::add_loop$','opaque point_sink::~point_sink$','thread']
PTS = ((3,5),(17,4),(8,29))
BASE,FIRST = 1<<20,50
def runs(t):
    """consecutive equal points of an input: (point, first index, last index)"""
    q = []
    for i,p in enumerate(t):
        if q and q[-1][0] == p: q[-1][2] = i
        else: q.append([p,i,i])
    return q
def want_open(t):
    q = runs(t)
    if len(q) < 2: return []
    z = q+q[-2::-1]
    return [(z[k],z[k+1],z[k+2] if k+2 < len(z) else z[k]) for k in range(len(z)-1)]
def want_closed(t):
    q = [list(x)+[[x]] for x in runs(t)]
    if len(q) < 2: return []
    q = [(x[0],{i for i in range(x[1],x[2]+1)}) for x in q]
    if q[0][0] == q[-1][0] : q[0] = q[0][0],q[0][1]|q[-1][1]; q.pop()
    n = len(q)
    return [(q[k],q[(k+1)%n],q[(k+2)%n]) for k in range(n)]
def lines(c,name,closed):
    part = 'closed' if closed else 'open'
    m,f,s = engine.load('offset',name,LINE,noclobber='.'); W = f.where
    c.saw('functions',W)
    rows = [t for k in range(0,6) for t in itertools.product(range(3),repeat=k) if not t or t[0] == 0]
    w = World([(len(t),)+t+(0,)*(5-len(t)) for t in rows],['k']+['p%d' % j for j in range(5)]); n = w.n; w.summ = s
    CL_ = 1<<12
    w.arg(0,CL_); w.arg(1,BASE); w.arg(2,w['k']); w.arg(3,1); floats(w,4,np.full(n,10.)); w.arg(5,2); w.arg(6,0)
    P = np.array(PTS); t = np.stack([w['p%d' % j] for j in range(5)],1)
    w.put(BASE,8,{0:P[t,0],4:P[t,1]},5)
    no = ptr(mk('arg',0),engine.member(m,'poly_ops::clipper<int, unsigned long>','_next_orig_i'))
    w.field(no,FIRST)
    def hook(e,ev):
        # the sink refers to the clipper it was made from; points as a whole
        if e.op == 'ld' and root(e.a[0]).op == 'alloca':
            return None
        if e.op == 'ld' and e.a[1] == 8:
            p = e.a[0]; x,px = ev(p)
            if ((x >= BASE)&(x < BASE+40)).any():
                a,pa = ev(mk('ld',p,4,e.a[2],'i32')); b,pb = ev(mk('ld',ptr(p,4),4,e.a[2],'i32'))
                return (a&0xffffffff)|(b<<32),pa|pb
            b_,o,vs = pparts(p)
            if o == pparts(no)[1] and b_ is not mk('arg',0) and root(b_).op == 'alloca': return ev.full(FIRST)
        return None
    al = s.calls_to('clipper::add_loop$')
    if len(al) != 1: raise Inconclusive('%s: a loop is begun %d times' % (name,len(al)))
    sink = al[0].args[0]
    def sinkref(e,ev):
        if e.op == 'ld' and root(e.a[0]) is sink and pparts(e.a[0])[1] == 0 and e.a[1] == 8 and pparts(e.a[0])[0] is sink: return ev.full(CL_)
        if e.op == 'ld' and e.a[1] == 8:
            b_,o,vs = pparts(e.a[0])
            if o == pparts(no)[1] and not vs and b_.op == 'ld' and root(b_.a[0]) is sink: return ev.full(FIRST)
        return None
    w.extra += [sinkref,hook]
    def desc(i): return 'points %s' % ' '.join('abc'[k] for k in t[i,:w['k'][i]]) if w['k'][i] else 'no points'
    q = Sequence(s,w,6)
    ad,lone = s.calls_to('::add_offset_point$'),s.calls_to('::offset_lone_point$')
    if not ad or not lone: raise Inconclusive('%s makes no corners or no lone points' % name)
    seq = q.happens(ad+lone)
    cache = {}
    def get(e,ev):
        k = (e.n,id(ev))
        if k not in cache: cache[k] = ev(e)
        return cache[k]
    un = 0
    bad = {k:np.zeros(n,bool) for k in ('edges','origin','lone','next','params')}
    idx = {PTS[k]:k for k in range(3)}
    for i in range(n):
        if seq[i] is None: un += 1; continue
        calls = []; ok = True
        for e,ev in seq[i]:
            vs = []
            for a in e.args[1:]:
                v,p = get(a,ev)
                if p[i]: ok = False; break
                vs.append(v[i])
            if not ok: break
            calls.append((e in lone,vs))
        if not ok: un += 1; continue
        k = int(w['k'][i]); inp = tuple(int(z) for z in t[i,:k])
        pt = lambda v: idx.get((int(v)&0xffffffff,int(v)>>32))
        if any(v[0] != 10 or v[1] != 2 for _,v in calls): bad['params'][i] = True; continue
        r = runs(inp)
        if len(r) < 2:
            bad['lone'][i] = k > 0 and (len(calls) != 1 or not calls[0][0] or pt(calls[0][1][3]) != inp[0] or not FIRST <= calls[0][1][2] < FIRST+k) or k == 0 and len(calls) > 0
            continue
        if any(l for l,_ in calls): bad['lone'][i] = True; continue
        got = [(pt(v[4]),pt(v[5]),pt(v[6]),int(v[2])-FIRST,int(v[3])-FIRST) for _,v in calls]
        if closed: wt = [(a[0],b[0],d[0],a[1],b[1]) for a,b,d in want_closed(inp)]
        else: wt = [(a[0],b[0],d[0],set(range(a[1],a[2]+1)),set(range(b[1],b[2]+1))) for a,b,d in want_open(inp)]
        rot = range(len(wt)) if closed else (0,)
        best = [wt[j:]+wt[:j] for j in rot]
        e2 = [x for x in best if [(a,b) for a,b,*_ in x] == [g[:2] for g in got]]
        e3 = [x for x in e2 if [z[2] for z in x] == [g[2] for g in got]]
        if not e2: bad['edges'][i] = True
        elif not e3: bad['next'][i] = True
        elif not any(all(g[3] in z[3] and g[4] in z[4] for g,z in zip(got,x)) for x in e3): bad['origin'][i] = True
    if un: c.undecided(part,'what is made of a line',un)
    line = 'closed line' if closed else 'open line'
    tell(c,part,W,bad['edges'],n,'the edges of the %s are not offset each once%s' % (line,'' if closed else ' in each direction'),desc)
    tell(c,part,W,bad['next'],n,'a corner of the %s is not between an edge and the one that follows' % line,desc)
    tell(c,part,W,bad['origin'],n,'an edge of the %s is said to come from other points' % line,desc)
    tell(c,part,W,bad['lone'],n,'a single point is not offset as one, or something else is',desc)
    tell(c,part,W,bad['params'],n,'magnitude or step size are not passed on',desc)
    # points are counted
    st = [e for e in s.effects if e.kind == 'store' and e.ptr is no]
    nb = np.zeros(n,bool); un = np.zeros(n,bool); val = np.full(n,FIRST)
    for e in st:
        g,p = q.after(e.guard); v,pv = q.after(e.val)
        un |= p|((g != 0)&pv); val = np.where(g != 0,v,val)
    un |= q.unsure
    if un.any(): c.undecided(part,'how many points were read',int(un.sum()))
    if st: tell(c,part,W,~un & (val != FIRST+w['k']),n,'the points of the %s are not counted' % line,desc)
    else: c.undecided(part,'where the points are counted')

def P48():
    c = Check('P48','An edge that is offset makes two points, both displaced by its normal scaled to the magnitude and rounded (an identity of real-valued terms), from the point at its start and at its end; at outer corners the points between are the last one turned about the corner in equal steps. For lines of up to five points with every pattern of repetitions: each edge of a closed line is offset once, those of an open line once in each direction, with the corner that follows and the indices of its points.','term identities and decision table over compiler IR: '+TABLE)
    x = Corner(c)
    off = displaced(c,x); arc(c,x,off)
    lines(c,'w_closed',True); lines(c,'w_open',False)
    return c

# ---- P25
def forced(w,nodes,vals):
    for e in nodes: w.ev.memo[e.n] = (vals,np.zeros(w.n,bool))
def divisors(s,es):
    """(fdiv node, rounded-down number in its divisor) of what calls get"""
    out = []
    for e in es:
        for x in walk(e.args):
            if x.op == 'fdiv' :
                q = [y for y in walk([x.a[1]]) if y.op == 'fptosi']
                if q: out.append((e,x,q))
    return out
def P25():
    c = Check('P25','For every number of steps that magnitude, step size and angle can come to (every sign, zero and small ones decide): nothing is divided by zero steps; a lone point becomes a loop of at least three different points for positive magnitudes and nothing otherwise; an arc is made exactly at the outer side of a corner, for all directions of two edges.','decision table over compiler IR: '+TABLE)
    x = Corner(c); s,f = x.s,x.f; W = f.where
    part = 'steps'
    trig = s.calls_to('(^|::)(sin|cos|tan)$')
    ds = divisors(s,trig)
    if not ds: c.undecided(part,'what arcs are divided by')
    outer = [(i,j) for i,u in enumerate(DIRS) for j,v in enumerate(DIRS) if u[0]*v[1]-u[1]*v[0] > 0][:6]
    inner = [(i,j) for i,u in enumerate(DIRS) for j,v in enumerate(DIRS) if u[0]*v[1]-u[1]*v[0] < 0][:6]
    rows = [(i,j,g,k) for i,j in outer+inner for g in (-5,5) for k in range(-6,7)]
    for e,dv,q in ds:
        w = World(rows,['u','v','m','n']); w.summ = s; n = w.n; D = np.array(DIRS)
        w.arg(0,1<<12); floats(w,1,w['m']); w.arg(2,3); w.arg(3,0); w.arg(4,1)
        p = np.array([[100,70]])+0*D[w['u']]
        for j in (5,7,9):
            w.arg(j,p[:,0]); w.arg(j+1,p[:,1]); p = p+7*D[w['u' if j == 5 else 'v']]
        math_calls(w); forced(w,q,w['n'])
        g,pg = w(e.guard); d,pd = w(dv.a[1])
        if (pg|pd).any(): c.undecided(part,'whether %s is reached' % e.name); continue
        tell(c,part,W,(g != 0)&(d == 0),n,'the angle of an arc is divided by zero steps',lambda i: 'steps come to %d, magnitude %d' % (w['n'][i],w['m'][i]))
    # one arc, on the outer side
    arc_only(c,x)
    lone(c)
    return c
def arc_only(c,x):
    part = 'side'; s,w,W,n = x.s,x.w,x.f.where,x.w.n
    g = np.zeros(n,bool); un = g.copy()
    hs = {block_loops(s,e.block)[0] for e in x.arcs}
    if len(hs) != 1: c.undecided(part,'%d loops make points' % len(hs)); return
    r = Rounds(s,w,hs.pop(),6)
    for e in x.arcs:
        on,ev = r.at[0]; v,p = ev(e.guard); un |= on & p; g |= on & (v != 0)&~p
    cross = x.u[:,0]*x.v[:,1]-x.u[:,1]*x.v[:,0]; rev = (x.v == -x.u).all(1); mag = w['m']
    outer = np.where(mag > 0,(cross > 0)|rev,cross < 0)
    ang = np.abs(np.arctan2(cross,(x.u*x.v).sum(1))); many = np.trunc(np.abs(mag)*ang/w['st']-1e-9) > 1
    if un.any(): c.undecided(part,'when an arc is made',int(un.sum()))
    tell(c,part,W,~un & g & ~outer,n,'an arc is made at an inner corner',x.desc)
    tell(c,part,W,~un & ~g & outer & many,n,'no arc is made at an outer corner',x.desc)
def lone(c):
    part = 'lone'
    m,f,s = engine.load('offset','w_lone',SINK,noclobber='.'); W = f.where
    c.saw('functions',W)
    sk = s.calls_to(r'point_sink::operator\(\)$')
    hs = {block_loops(s,e.block)[0] for e in sk if block_loops(s,e.block)}
    if len(hs) != 1 or any(not block_loops(s,e.block) for e in sk): c.undecided(part,'how the points of a circle are made'); return
    h = hs.pop(); L = s.loops[h]; F = Form(s)
    trig = s.calls_to('(^|::)(sin|cos)$'); ds = divisors(s,trig)
    q = list({y.n:y for e in s.effects for z in [e.guard]+list(getattr(e,'args',[])) for y in walk([z]) if y.op == 'fptosi'}.values())
    if not q: c.undecided(part,'the number of points'); return
    rows = [(g,k) for g in (-7,-1,0,1,7) for k in range(-6,9)]
    def world():
        w = World(rows,['m','n']); w.summ = s
        w.arg(0,1<<12); floats(w,1,w['m']); w.arg(2,3); w.arg(3,41); w.arg(4,100); w.arg(5,70); math_calls(w)
        return w
    w = world(); n = w.n
    import copy
    class Q(Rounds):
        def evaluator(self,vals,space):
            ev = Rounds.evaluator(self,vals,space)
            for e in q: ev.memo[e.n] = (w['n'],np.zeros(n,bool))
            return ev
    forced(w,q,w['n'])
    r = Q(s,w,h,12)
    seq = r.happens(sk); un = 0; few = np.zeros(n,bool); some = few.copy(); org = few.copy(); same = few.copy()
    for i in range(n):
        if seq[i] is None: un += 1; continue
        if w['m'][i] <= 0: some[i] = bool(seq[i]); continue
        few[i] = len(seq[i]) < 3
        for e,ev in seq[i]:
            v,p = ev(e.args[2]); org[i] |= not p[i] and v[i] != 41
    desc = lambda i: 'magnitude %d, steps come to %d: %s points' % (w['m'][i],w['n'][i],len(seq[i]) if seq[i] is not None else '?')
    if un: c.undecided(part,'the number of points',un)
    tell(c,part,W,few,n,'a single point does not become a loop of three points',desc)
    tell(c,part,W,some,n,'a single point is offset inward',desc)
    tell(c,part,W,org,n,'the points of a circle are said to come from another point',desc)
    for e,dv,_ in ds:
        g,pg = w(e.guard); d,pd = w(dv.a[1])
        if (pg|pd).any(): c.undecided(part,'what the full circle is divided by'); continue
        tell(c,part,W,(g != 0)&(d == 0),n,'the full circle is divided by zero steps',desc)
        # a full circle in as many steps as there are points
        t,pt = w(dv); cnt = np.array([len(z) if z is not None else -1 for z in seq])
        ok = (g != 0)&~pt&(cnt > 0)&(d != 0)
        tell(c,part,W,ok & (np.abs(np.abs(t)*cnt-2*math.pi) > 1e-6),n,'the points of a circle do not go around it once',desc)
    # equal steps about the point
    X = [p for p,ph in L['phis'].items() if ph.a[3] == 'double']
    ent = {p:F(v) for pb,p,v in L['enter']}; bk = {p:F(v) for pb,p,v in L['back']}
    if len(X) == 2:
        a,b = X
        if key(ent[a]) == () : a,b = b,a
        A,B = (atom('e',L['phis'][p].n) for p in (a,b))
        th = [z for e,dv,_ in ds for z in [F(dv)]]
        if th and all(key(z) == key(th[0]) for z in th):
            C,S = fn('cos',th[0]),fn('sin',th[0])
            good = key(bk[a]) == key(fadd(fmul(C,A),fmul(S,B),-1)) and key(bk[b]) == key(fadd(fmul(S,A),fmul(C,B))) and key(ent[b]) == () and key(ent[a]) == key(F.arg(1))
            if good: c.ok(part,4,'the points of a circle are at distance magnitude and each is the one before turned by one step')
            else: c.undecided(part,'how one point of a circle is made from the one before')
        else: c.undecided(part,'angle between the points of a circle')
    else: c.undecided(part,'how one point of a circle is made from the one before')
    # where they are
    bad = np.zeros(n,bool); unk = bad.copy()
    for k,(on,ev) in enumerate(r.at[:9]):
        for e in sk:
            g,p = ev(e.guard); o_ = on&(g != 0)&~p&(w['m'] == 7)
            xy = point(s,e,1)
            if xy is None: unk |= o_; continue
            (x,px),(y,py) = ev(xy[0]),ev(xy[1]); unk |= o_&(px|py)
            bad |= o_ & ~px & ~py & (np.abs(np.hypot(x-100,y-70)-7) > 1.5)
    if unk.any(): c.undecided(part,'the points of a circle')
    tell(c,part,W,bad,n,'a point of a circle is not at distance magnitude',desc)
