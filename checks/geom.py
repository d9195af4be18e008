"""P01-P07: decision functions of the clipper, as decision tables over finite
sets of order types."""
import itertools
import numpy as np
from harness import Check, Inconclusive
from build import witness
from irsum import Summary, Undecided, show, mk, pparts, TRUE, Ite
from veval import VEval
from poly import poly, argname, icmps, pshow, padd, pmul, pvar, pconst

OP = ['opaque ^std::vector::(emplace_back|push_back|operator\\[\\]|size|begin|end|back|pop_back|clear|resize|reserve|data|front|empty)$',
    'opaque rand_bool$']
def module(): return witness('geom',OP+['root ^w_','unroll'])

def fn(m,name):
    try: return m.fn(name)
    except KeyError as ex: raise Inconclusive('anchor %s vanished (%s)' % (name,ex))

def args_leaf(vals,extra=None):
    def leaf(e,ev):
        if e.op == 'arg': return vals.get(e.a[0])
        if extra: return extra(e,ev)
        return None
    return leaf

LPT = 'poly_ops::detail::loop_point<unsigned long, int>'
def lp_layout(m):
    t = {n:o for n,o,*_ in m.structs[LPT]['members']}
    d = {n:o for n,o,*_ in m.structs['poly_ops::detail::line_desc']['members']}
    return {t['data']:'x',t['data']+4:'y',t['next']:'next',t['aux']+d['cat']:'set',t['aux']+d['state']:'state'},m.structs[LPT]['size']

def table_leaf(m,base,tab,extra=None):
    """loads from an array of loop_point starting at `base` (an expression);
    tab: field -> array [n, points]"""
    lay,sz = lp_layout(m)
    def leaf(e,ev):
        if e.op == 'ld':
            p = e.a[0]
            pb,off,vs = pparts(p)
            if pb is base:
                if len(vs) == 1 and vs[0][0] == sz:
                    idx,po = ev(vs[0][1])
                    off2 = off
                elif not vs: idx = ev.full(off//sz); po = ev.none; off2 = off % sz
                else: return None
                f = lay.get(off2)
                if f is None or f not in tab: return None
                t = tab[f]
                bad = (idx < 0) | (idx >= t.shape[1])
                return t[np.arange(ev.n),np.where(bad,0,idx)], po|bad
        return extra(e,ev) if extra else None
    return leaf

def chain(*fs):
    def leaf(e,ev):
        for f in fs:
            r = f(e,ev)
            if r is not None: return r
        # an uninitialised local
        if e.op == 'ld' and pparts(e.a[0])[0].op == 'alloca': return ev.full(0),~ev.none
        return None
    return leaf

def report(c,part,fnm,bad,describe,n,label):
    """bad: bool array"""
    k = np.flatnonzero(bad)
    if len(k): c.fail(part,fnm.where,label,'%d of %d order types differ, e.g. %s' % (len(k),n,describe(k[0])))
    else: c.ok(part,n,'%s: %d order types' % (label,n))

def grid(cols):
    """cartesian product of lists -> arrays"""
    a = np.array(list(itertools.product(*cols)),dtype=np.int64)
    return [a[:,i] for i in range(a.shape[1])]

# ------------------------------------------------------------ P04
def P04():
    c = Check('P04','event_cmp orders events by x, then kind (start of vertical, end, start, end of vertical), then endpoint indices; strict, total, transitive; kinds are assigned by whether the segment is vertical.',
        'gated-SSA summary of event_cmp and events_t::add_fb_events compared with the documented order over all order types of two events')
    m = module()
    f = fn(m,'w_event_cmp'); s = Summary(f)
    c.saw('functions',f.where)
    et = m.enums.get('event_type_t')
    if not et or set(et) != {'vforward','backward','forward','vbackward'}: raise Inconclusive('event kinds changed: %s' % et)
    rank = {et['vforward']:0,et['backward']:1,et['forward']:2,et['vbackward']:3}
    xs = list(itertools.product(*[(-1,0,1)]*2))+[(5,5)]
    rows = []
    for x0,x1,x2,x3 in itertools.product((0,1),repeat=4):
        for a1,a2 in itertools.product(range(4),repeat=2):
            for b1,b2 in itertools.product(range(4),repeat=2):
                if a1 == b1 or a2 == b2: continue
                for t1,t2 in itertools.product(et.values(),repeat=2):
                    rows.append((x0,x1,x2,x3,a1,b1,t1,a2,b2,t2))
    A = np.array(rows,dtype=np.int64); n = len(A)
    X = A[:,:4]-1
    a1,b1,t1,a2,b2,t2 = (A[:,i] for i in range(4,10))
    vec = mk('elemof',mk('arg',0))
    ev = VEval(n,chain(args_leaf({1:a1,2:b1,3:t1,4:a2,5:b2,6:t2}),table_leaf(m,vec,{'x':X,'y':X*0})))
    got = ev.val(s.retexpr())
    r = np.arange(n)
    rk = np.vectorize(rank.get)
    k1 = np.stack([X[r,a1],rk(t1),a1,b1]); k2 = np.stack([X[r,a2],rk(t2),a2,b2])
    want = np.zeros(n,bool); eq = np.ones(n,bool)
    for i in range(4):
        want |= eq & (k1[i] < k2[i]); eq &= k1[i] == k2[i]
    report(c,'order',f,(got != 0) != want,lambda k: 'event %s vs %s with x=%s: compares %s, should be %s' % (tuple(A[k,4:7]),tuple(A[k,7:]),tuple(X[k]),bool(got[k]),bool(want[k])),n,'event order differs from (x, kind, indices)')
    # kinds
    from checks import sweepck
    sweepck.kinds(c)
    return c

from irsum import ptr as _ptr
def _pp(p,o): return _ptr(p,o)

# ------------------------------------------------------------ geometry of the order types
def seg_pairs(pts,directed=False):
    """ordered pairs of segments (left end first; vertical ones both ways)"""
    segs = [(p,q) for p in pts for q in pts if p != q and (p[0] <= q[0])]
    return segs

def orient(ax,ay,bx,by,cx,cy): return (bx-ax)*(cy-ay)-(cx-ax)*(by-ay)

def on_seg(px,py,ax,ay,bx,by):
    return (orient(ax,ay,bx,by,px,py) == 0) & (np.minimum(ax,bx) <= px) & (px <= np.maximum(ax,bx)) & (np.minimum(ay,by) <= py) & (py <= np.maximum(ay,by))

def pair_table(pts,left_first=True):
    P = [(p,q) for p in pts for q in pts if p != q and (not left_first or p[0] <= q[0])]
    rows = []
    for s1 in P:
        for s2 in P:
            (x1,y1),(x2,y2) = s1; (x3,y3),(x4,y4) = s2
            # indices: 0,1 and then either the same index (equal points only) or a new one
            o3 = [2]+([0] if s2[0] == s1[0] else [])+([1] if s2[0] == s1[1] else [])
            o4 = [3]+([0] if s2[1] == s1[0] else [])+([1] if s2[1] == s1[1] else [])
            for i3 in o3:
                for i4 in o4:
                    if {i3,i4} == {0,1}: continue
                    for flip in (0,1):
                        # give the new indices lower or higher values
                        mp = {0:10,1:20,2:30,3:40} if not flip else {0:30,1:40,2:20,3:10}
                        rows.append((x1,y1,x2,y2,mp[0],mp[1],x3,y3,x4,y4,mp[i3],mp[i4]))
    return np.array(rows,dtype=np.int64)

PTS_S = [(x,y) for x in range(3) for y in range(3)]
import os
PTS_M = [(x,y) for x in range(4) for y in range(4 if os.environ.get('VERIF_TIER') == 'thorough' else 3)]

def cls(x1,y1,x2,y2,x3,y3,x4,y4):
    """exact classification of two segments: parallel, collinear, touching..."""
    d = (x1-x2)*(y3-y4)-(y1-y2)*(x3-x4)
    t = (x1-x3)*(y3-y4)-(y1-y3)*(x3-x4)
    u = (x1-x3)*(y1-y2)-(y1-y3)*(x1-x2)
    sg = np.sign(d)
    dd,tt,uu = d*sg,t*sg,u*sg
    return d,dd,tt,uu

def P05():
    c = Check('P05','sweep_cmp puts the segment with the larger y first wherever two non-crossing segments share an x; it and line_bal_sweep_cmp never call two different segments equivalent and never order a pair both ways.',
        'gated-SSA summaries of the comparators evaluated over all order types of two non-crossing segments on a 4x3 lattice, in both argument orders')
    m = module(); f = fn(m,'w_sweep_cmp'); s = Summary(f)
    c.saw('functions',f.where)
    A = pair_table(PTS_M)
    x1,y1,x2,y2,a,b,x3,y3,x4,y4,cc,d = A.T
    D,dd,tt,uu = cls(x1,y1,x2,y2,x3,y3,x4,y4)
    share = (np.maximum(x1,x3) <= np.minimum(x2,x4))
    par = D == 0
    hit = ~par & (tt >= 0) & (tt <= dd) & (uu >= 0) & (uu <= dd)
    inner = hit & ~(((tt == 0)|(tt == dd)) & ((uu == 0)|(uu == dd)))
    col = par & (orient(x1,y1,x2,y2,x3,y3) == 0)
    coinc = col & (((x1 == x3)&(y1 == y3)&(x2 == x4)&(y2 == y4)) | ((x1 == x4)&(y1 == y4)&(x2 == x3)&(y2 == y3)))
    # collinear and sharing more than one point, but not coincident: not allowed in the sweep
    dx = x2-x1; dy = y2-y1
    pr = lambda x,y: (x-x1)*dx+(y-y1)*dy
    lo2 = np.minimum(pr(x3,y3),pr(x4,y4)); hi2 = np.maximum(pr(x3,y3),pr(x4,y4))
    over = col & (np.minimum(hi2,dx*dx+dy*dy) > np.maximum(lo2,0)) & ~coinc
    dom = share & ~inner & ~over
    A = A[dom]; n = len(A)
    x1,y1,x2,y2,a,b,x3,y3,x4,y4,cc,d = A.T
    coinc = coinc[dom]
    fw = {i:A[:,i] for i in range(12)}
    rv = {i:A[:,(i+6)%12] for i in range(12)}
    e = s.retexpr()
    g12 = VEval(n,chain(args_leaf(fw))).val(e) != 0
    g21 = VEval(n,chain(args_leaf(rv))).val(e) != 0
    # where they share an x: y ranges there; compare exactly (scaled)
    def yrange(x,xa,ya,xb,yb):
        v = xa == xb
        w = np.where(v,1,xb-xa)
        y = ya*w+(yb-ya)*(x-xa)   # times w
        return np.where(v,np.minimum(ya,yb),y),np.where(v,np.maximum(ya,yb),y),w
    sgn = np.zeros(n,int)
    for x in (np.maximum(x1,x3),np.minimum(x2,x4)):
        l1,h1,w1 = yrange(x,x1,y1,x2,y2); l2,h2,w2 = yrange(x,x3,y3,x4,y4)
        below = l1*w2 >= h2*w1   # s1 has the larger y
        above = h1*w2 <= l2*w1
        k = np.where(below & ~above,1,np.where(above & ~below,-1,0))
        sgn = np.where(sgn == 0,k,sgn)
    desc = lambda k: 'segments (%d,%d)-(%d,%d) [%d,%d] and (%d,%d)-(%d,%d) [%d,%d]: cmp(1,2)=%s cmp(2,1)=%s' % (*A[k],g12[k],g21[k])
    report(c,'antisymmetric',f,g12 == g21,desc,n,'two different segments are ordered both ways or not at all')
    z = sgn != 0
    report(c,'vertical order',f,z & (g12 != (sgn > 0)),desc,int(z.sum()),'the segment with the larger y at a shared x is not put first')
    f2 = fn(m,'w_line_bal_sweep_cmp'); s2 = Summary(f2)
    c.saw('functions',f2.where)
    a,b,cc,d = grid([range(4)]*4)
    ok = (a != b)&(cc != d)&~((a == cc)&(b == d))
    a,b,cc,d = a[ok],b[ok],cc[ok],d[ok]; n = len(a)
    e2 = s2.retexpr()
    p = VEval(n,chain(args_leaf({0:a,1:b,2:cc,3:d}))).val(e2) != 0
    q = VEval(n,chain(args_leaf({0:cc,1:d,2:a,3:b}))).val(e2) != 0
    report(c,'balance sweep',f2,p == q,lambda k: 'segments %s and %s' % ((a[k],b[k]),(cc[k],d[k])),n,'two different segments are ordered both ways or not at all')
    # transitivity over triples of index pairs
    segs = [(i,j) for i in range(4) for j in range(4) if i != j]
    T = np.array([(*u,*v,*w) for u in segs for v in segs for w in segs],dtype=np.int64); n = len(T)
    V = lambda i,j: VEval(n,chain(args_leaf({0:T[:,2*i],1:T[:,2*i+1],2:T[:,2*j],3:T[:,2*j+1]}))).val(e2) != 0
    report(c,'balance sweep',f2,V(0,1)&V(1,2)&~V(0,2),lambda k: 'segments %s' % (T[k],),n,'the order of segments is not transitive')
    return c

def P06():
    c = Check('P06','intersects() reports exactly the pairs that share a point without being connected (not parallel) or overlap along more than a point (parallel), classifies the reported point exactly relative to both segments, and reports an endpoint exactly when the crossing is at one.',
        'gated-SSA summary of intersects() (return value, point and edge classification as decision DAGs) compared with exact geometry over all order types of two segments on a 4x3 lattice with every sharing of endpoint indices')
    m = module(); f = fn(m,'w_intersects'); s = Summary(f,noclobber='rand_bool')
    c.saw('functions',f.where)
    ae = m.enums.get('at_edge_t')
    if not ae or set(ae) != {'start','no','end','both'}: raise Inconclusive('at_edge_t changed')
    ST,NO,EN,BO = (ae[k] for k in ('start','no','end','both'))
    A = pair_table(PTS_M)
    # also longer segments whose crossings are strictly inside lattice cells
    far = [(0,0),(7,3),(0,5),(7,1),(2,0),(3,6),(5,0),(1,4),(6,6)]
    A = np.concatenate([A,pair_table(far,False)])
    rb = sorted({e.k for e in s.calls_to('rand_bool')})
    combos = list(itertools.product((0,1),repeat=len(rb)))
    mem = s.exit_mem()
    pa = mk('arg',12); ea = mk('arg',13)
    outs = [s.retexpr(),s.load(mem,pa,4,'i32'),s.load(mem,_ptr(pa,4),4,'i32'),s.load(mem,ea,4,'i32'),s.load(mem,_ptr(ea,4),4,'i32')]
    n = len(A)
    x1,y1,x2,y2,a,b,x3,y3,x4,y4,cc,d = A.T
    D,dd,tt,uu = cls(x1,y1,x2,y2,x3,y3,x4,y4)
    par = D == 0
    conn = (a == cc)|(a == d)|(b == cc)|(b == d)
    hit = ~par & (tt >= 0) & (tt <= dd) & (uu >= 0) & (uu <= dd)
    col = par & (orient(x1,y1,x2,y2,x3,y3) == 0)
    dx = x2-x1; dy = y2-y1
    pr = lambda x,y: (x-x1)*dx+(y-y1)*dy
    L = dx*dx+dy*dy
    lo2 = np.minimum(pr(x3,y3),pr(x4,y4)); hi2 = np.maximum(pr(x3,y3),pr(x4,y4))
    over = col & (np.minimum(hi2,L) > np.maximum(lo2,0))
    coinc = over & (lo2 == 0) & (hi2 == L)
    same = coinc & (((a == cc)&(b == d))|((a == d)&(b == cc)))
    want = (hit & ~conn) | (over & ~same)
    for cb in combos:
        rv = dict(zip(rb,cb))
        def extra(e,ev):
            if e.op == 'call' and e.a[1] in rv: return ev.full(rv[e.a[1]])
            if e.op == 'ld' and pparts(e.a[0])[0] in (pa,ea): return ev.full(0),~ev.none
            return None
        ev = VEval(n,chain(args_leaf({i:A[:,i] for i in range(12)}),extra))
        (ret,rp),(px,pxp),(py,pyp),(e0,e0p),(e1,e1p) = [ev(o) for o in outs]
        if (rp).any(): raise Undecided('result of intersects undefined')
        ret = ret != 0
        desc = lambda k: 'segments (%d,%d)-(%d,%d) [%d,%d] and (%d,%d)-(%d,%d) [%d,%d]: returns %s point %s edges %s' % (*A[k],bool(ret[k]),'unset' if pxp[k] or pyp[k] else (px[k],py[k]),'unset' if e0p[k] or e1p[k] else (e0[k],e1[k]))
        tag = '' if not rb else ' (rounding choices %s)' % (cb,)
        report(c,'reported exactly when they meet',f,ret != want,desc,n,'an intersection is missed or invented')
        y = ret & want
        both = y & coinc & ~conn
        report(c,'coincident',f,both & ((e0 != BO)|(e1 != BO)|e0p|e1p),desc,int(both.sum()),'coincident segments with no common endpoint are not reported at both ends')
        single = y & ~both
        undef = single & (pxp|pyp|e0p|e1p)
        report(c,'defined',f,undef,desc,int(single.sum()),'the point or its classification is left unset')
        z = single & ~undef
        def want_edge(ax,ay,bx,by): return np.where((px == ax)&(py == ay),ST,np.where((px == bx)&(py == by),EN,NO))
        w0 = want_edge(x1,y1,x2,y2); w1 = want_edge(x3,y3,x4,y4)
        report(c,'classified',f,z & ((e0 != w0)|(e1 != w1)),desc,int(z.sum()),'the reported point is not classified correctly as start, end or inside')
        # proper crossings: endpoint exactly when exact
        for cond,ex,ey,lab in ((tt == 0,x1,y1,'start of the first'),(tt == dd,x2,y2,'end of the first'),(uu == 0,x3,y3,'start of the second'),(uu == dd,x4,y4,'end of the second')):
            q = z & ~par & cond
            report(c,'endpoints exact',f,q & ((px != ex)|(py != ey)),desc,int(q.sum()),'a crossing at the %s segment is not reported as that endpoint' % lab)
        q = z & over & ~coinc
        # an endpoint of one that lies strictly inside the other
        in1 = (e0 == NO) & on_seg(px,py,x1,y1,x2,y2); in2 = (e1 == NO) & on_seg(px,py,x3,y3,x4,y4)
        report(c,'overlap',f,q & ~((in1 & (e1 != NO))|(in2 & (e0 != NO))),desc,int(q.sum()),'overlapping segments are not split at an endpoint inside the other')
        # coincident, connected at one end: the other end is reported
        q = z & coinc & conn
        sharex = np.where((a == cc)|(a == d),x1,x2); sharey = np.where((a == cc)|(a == d),y1,y2)
        report(c,'coincident',f,q & (px == sharex) & (py == sharey),desc,int(q.sum()),'coincident segments connected at one end are reported at that end')
        # interior crossings: in the lattice cell of the crossing
        q = z & ~par & (tt > 0) & (tt < dd) & (uu > 0) & (uu < dd)
        ex = np.abs((px-x1)*dd-tt*(x2-x1)); ey = np.abs((py-y1)*dd-tt*(y2-y1))
        report(c,'endpoints exact',f,q & ((ex >= dd)|(ey >= dd)),desc,int(q.sum()),'a crossing inside both segments is reported a unit or more away')
    # which comparisons decide (evidence)
    at = set()
    for i in icmps(outs[:1]):
        p = poly(i.a[2],argname),poly(i.a[3],argname)
        if None not in p: at.add(pshow(padd(p[0],p[1],-1)))
    c.saw('deciding polynomials',*sorted(at))
    c.assume('coordinate differences do not overflow the coordinate type (documented); double arithmetic of the interior case is evaluated in IEEE double')
    return c

def det(p,q,r):
    X = lambda i: pvar('a%d' % (2*i)); Y = lambda i: pvar('a%d' % (2*i+1))
    s = lambda u,v: padd(u,v,-1)
    return s(pmul(s(X(q),X(p)),s(Y(r),Y(p))),pmul(s(X(r),X(p)),s(Y(q),Y(p))))

def P07():
    c = Check('P07','triangle_winding(p1,p2,p3) is the polynomial (x2-x1)(y3-y1)-(x3-x1)(y2-y1); the winding direction of n points is the polynomial of twice the signed area with the same sign, for n = 0..5, and closes the loop to the first point.',
        'canonical polynomial of the gated-SSA summaries (an algebraic identity, for all coordinates); loops over ranges of fixed length are unrolled by the compiler')
    m = module()
    f = fn(m,'w_triangle_winding'); s = Summary(f); c.saw('functions',f.where)
    p = poly(s.retexpr(),argname)
    if p is None: c.undecided('orientation','not a polynomial: %s' % show(s.retexpr(),5))
    else: c.decide('orientation',f.where,'orientation is not the determinant of the three points',p == det(0,1,2),'polynomial %s, expected %s' % (pshow(p),pshow(det(0,1,2))),'triangle_winding = '+pshow(p))
    def area(n):
        r = {}
        for i in range(n):
            k = (i+1)%n
            X = lambda j: pvar('a%d' % (2*j)); Y = lambda j: pvar('a%d' % (2*j+1))
            r = padd(r,padd(pmul(X(i),Y(k)),pmul(X(k),Y(i)),-1))
        return r
    any_ = False
    for n in range(0,6):
        f = fn(m,'w_winding_dir%d' % n); s = Summary(f)
        c.saw('functions',f.where)
        if s.loops: c.undecided('winding direction','a loop over %d points was not unrolled' % n); continue
        ret = s.retexpr()
        p = poly(ret,argname)
        if p is None: c.undecided('winding direction','%d points: not a polynomial: %s' % (n,show(ret,5))); continue
        # clockwise (y down) is positive: sum x_i*y_{i+1}-x_{i+1}*y_i
        c.decide('winding direction','winding_dir (include/poly_ops/base.hpp)','the winding direction of %d points is not twice their signed area' % n,p == area(n),'polynomial %s, expected %s' % (pshow(p),pshow(area(n))),'%d points: %s' % (n,pshow(p)))
    for n in (1,2,3,4):
        f = fn(m,'w_winding_sink%d' % n); s = Summary(f); c.saw('functions',f.where)
        p = poly(s.retexpr(),argname)
        if p is None: c.undecided('winding direction','sink, %d points: not a polynomial' % n); continue
        c.decide('winding direction','winding_dir_sink (include/poly_ops/base.hpp)','winding_dir_sink of %d points is not twice their signed area' % n,p == area(n),'polynomial %s, expected %s' % (pshow(p),pshow(area(n))))
    c.assume('coordinate differences and sums do not overflow the coordinate type (documented)')
    return c

# ------------------------------------------------------------ line balance
def balance_state(n):
    """tables for w_balance: point 0 -> 1 is the edge under test, (2,3), (4,5),
    (6,7) the other edges"""
    z = lambda: np.zeros((n,8),np.int64)
    return {'x':z(),'y':z(),'next':z(),'set':z()}

def P01():
    c = Check('P01','for each operation, own set and nesting count (ws, wc) the state given to an edge is the one the definition of the operation calls for.',
        'gated-SSA summary of line_balance (construction, three checks, result) evaluated as a decision table: own set x direction of the edge x for each of three other edges {not above, above in subject/clip pointing right/left} x operation')
    m = module(); f = fn(m,'w_balance'); s = Summary(f)
    c.saw('functions',f.where,*['line_balance::'+x for x in ('line_balance','check','result')])
    st = m.enums.get('type'); bo = m.enums.get('bool_op'); bs = m.enums.get('bool_set')
    rows = list(itertools.product((0,1),(0,1),*[range(5)]*3))
    n = len(rows); R = np.array(rows,dtype=np.int64)
    own,left = R[:,0],R[:,1]
    T = balance_state(n)
    T['x'][:,0] = 0; T['x'][:,1] = np.where(left == 1,-4,4); T['y'][:,1] = 1
    T['next'][:,0] = 1; T['next'][:,1] = 0
    T['set'][:,0] = T['set'][:,1] = own
    w = np.zeros((n,2),np.int64)
    w[np.arange(n),own] = np.where(left == 1,-1,0)
    for k in range(3):
        kind = R[:,2+k]
        ia,ib = 2+2*k,3+2*k
        T['x'][:,ia] = -9; T['x'][:,ib] = 9
        T['y'][:,ia] = T['y'][:,ib] = np.where(kind == 0,50+k,-50-k)
        se = np.where((kind == 3)|(kind == 4),1,0)
        right = (kind == 1)|(kind == 3)|(kind == 0)
        T['set'][:,ia] = T['set'][:,ib] = se
        T['next'][:,ia] = np.where(right,ib,0); T['next'][:,ib] = np.where(right,0,ia)
        w[np.arange(n),se] += np.where(kind == 0,0,np.where(right,1,-1))
    base = mk('arg',0)
    idx = {1:0,2:2,3:3,4:4,5:5,6:6,7:7}
    ev = VEval(n,chain(args_leaf({k:np.full(n,v) for k,v in idx.items()}),table_leaf(m,base,T)))
    mem = s.exit_mem(); out = mk('arg',9)
    ws,wc = w[:,0],w[:,1]
    o,t = np.where(own == 0,ws,wc),np.where(own == 0,wc,ws)
    K,KR,DI,DR = st['keep'],st['keep_rev'],st['discard'],st['discard_rev']
    want = {
        'union_':np.where(ws+wc == 0,K,DI),
        'intersection':np.where((o == 0)&(t > 0),K,DI),
        'xor_':np.where(o == 0,np.where(t > 0,KR,K),DI),
        'difference':np.where(own == 0,np.where((ws == 0)&~(wc > 0),K,DI),np.where(wc == 0,np.where(ws > 0,KR,DR),DI)),
        'normalize':np.where((ws+wc)%2 == 0,K,KR)}
    for k,(nm,wt) in enumerate(want.items()):
        if nm not in bo: raise Inconclusive('operation %s vanished' % nm)
        got = ev.val(s.load(mem,_ptr(out,('union_','intersection','xor_','difference','normalize').index(nm)),1,'i8')); po = np.zeros(n,bool)
        # only winding numbers that a plane arrangement can have matter; discard and discard_rev both drop the edge
        bad = po|(got != wt)
        drop = lambda v: (v & K) == 0
        # an edge that's dropped either way is the same result; the linking of reversed runs is P45
        soft = bad & ~po & drop(got) & drop(wt) & (((got | wt) & ~(DI|DR)) == 0)
        desc = lambda i: '%s: edge of set %d pointing %s inside %d subject and %d clip regions gets state %s, should be %d' % (nm,own[i],'left' if left[i] else 'right',ws[i],wc[i],'undefined' if po[i] else got[i],wt[i])
        report(c,nm,f,bad & ~soft,desc,n,'%s keeps, drops or reverses the wrong edges' % nm.rstrip('_'))
    return c

def P02():
    c = Check('P02','line_balance starts at minus one in the own set iff the edge points left; each edge above adds +1/-1 to its own set by direction and is recorded as a hit; the edge itself and edges not above do neither.',
        'gated-SSA summary of line_balance::check: the hits appended and the counts (read back through result()) agree on every order type; calc_line_bal feeds every edge of the sweep and every touching edge')
    m = module(); f = fn(m,'w_balance'); s = Summary(f)
    c.saw('functions',f.where)
    # counts are read back through the decisions: the same table as P01, but
    # every count that a decision depends on must come from exactly the hits
    apps = [e for e in s.effects if e.kind == 'call' and e.name == 'append']
    rows = list(itertools.product((0,1),(0,1),*[range(6)]*3))
    n = len(rows); R = np.array(rows,dtype=np.int64)
    own,left = R[:,0],R[:,1]
    T = balance_state(n)
    T['x'][:,1] = np.where(left == 1,-4,4); T['y'][:,1] = 1
    T['next'][:,0] = 1; T['next'][:,1] = 7
    T['set'][:,0] = T['set'][:,1] = own
    argv = {1:np.zeros(n,np.int64)}
    mains = []
    w = np.zeros((n,2),np.int64); w[np.arange(n),own] = np.where(left == 1,-1,0)
    for k in range(3):
        kind = R[:,2+k]; ia,ib = 2+2*k,3+2*k
        T['x'][:,ia] = -9; T['x'][:,ib] = 9
        T['y'][:,ia] = T['y'][:,ib] = np.where(kind == 0,50+k,-50-k)
        se = np.where((kind == 3)|(kind == 4),1,0)
        right = (kind == 1)|(kind == 3)|(kind == 0)
        T['set'][:,ia] = T['set'][:,ib] = se
        T['next'][:,ia] = np.where(right,ib,0); T['next'][:,ib] = np.where(right,0,ia)
        me = kind == 5   # the edge under test itself
        argv[2+2*k] = np.where(me,np.where(left == 1,1,0),ia); argv[3+2*k] = np.where(me,np.where(left == 1,0,1),ib)
        up = (kind >= 1)&(kind <= 4)
        w[np.arange(n),se] += np.where(up,np.where(right,1,-1),0)
        mains.append(np.where(up,np.where(right,ia,ib),-1))
    base = mk('arg',0)
    ev = VEval(n,chain(args_leaf(argv),table_leaf(m,base,T)))
    hits = [(ev.val(e.guard) != 0,ev(s.load(e.mem,e.args[1],8,'i64'))[0]) for e in apps]
    bad = np.zeros(n,bool); why = {}
    for i in range(n):
        got = [int(v[i]) for g,v in hits if g[i]]
        exp = [int(x[i]) for x in mains if x[i] >= 0]
        if got != exp: bad[i] = True; why[i] = 'edges above by first point: %s, recorded %s' % (exp,got)
    report(c,'hits',f,bad,lambda i: why[i],n,'the edges recorded as being above are not the ones that are')
    mem = s.exit_mem(); out = mk('arg',9)
    bo = m.enums['bool_op']; st = m.enums['type']
    g = lambda nm: ev(s.load(mem,_ptr(out,('union_','intersection','xor_','difference','normalize').index(nm)),1,'i8'))[0]
    K = st['keep']
    u = g('union_') & K; nn = g('normalize') & st['reverse']; x = g('xor_')
    ws,wc = w[:,0],w[:,1]
    o,t = np.where(own == 0,ws,wc),np.where(own == 0,wc,ws)
    desc = lambda i: 'edge of set %d pointing %s, others %s: counts should be %d subject, %d clip' % (own[i],'left' if left[i] else 'right',tuple(R[i,2:]),ws[i],wc[i])
    report(c,'counts',f,(u != 0) != (ws+wc == 0),desc,n,'the total nesting count is wrong')
    report(c,'counts',f,(nn != 0) != ((ws+wc)%2 != 0),desc,n,'the parity of the nesting count is wrong')
    report(c,'counts',f,((x & K) != 0) != (o == 0),desc,n,'the nesting count in the own set is wrong')
    q = o == 0
    report(c,'counts',f,q & (((x & st['reverse']) != 0) != (t > 0)),desc,int(q.sum()),'the nesting count in the other set is wrong')
    # the edges fed to it
    from checks import sweepck
    sweepck.scan_feeds(c)
    return c

def P03():
    c = Check('P03','line_balance counts an edge iff it is above the start of the edge under test: crossing the vertical ray toward negative y, half open at shared x by the side the tested edge leaves toward, by slope when the start lies on the other edge, by index when they coincide.',
        'gated-SSA summary of line_balance::check with one other edge compared with the exact geometric definition over all order types of two non-crossing edges on a 4x3 lattice')
    m = module(); f = fn(m,'w_balance1'); s = Summary(f)
    c.saw('functions',f.where)
    apps = [e for e in s.effects if e.kind == 'call' and e.name == 'append']
    pts = PTS_M
    rows = []
    for p in pts:
        for q in pts:
            if p == q: continue
            for a in pts:
                for b in pts:
                    if a == b or a[0] > b[0]: continue
                    # direction of the other edge: a is its first point or b is
                    for amain in ((1,) if a[0] == b[0] else (0,1)):
                        for hi in (0,1): rows.append((*p,*q,*a,*b,amain,hi))
    A = np.array(rows,dtype=np.int64)
    px,py,qx,qy,ax,ay,bx,by,am,hi = A.T
    D,dd,tt,uu = cls(px,py,qx,qy,ax,ay,bx,by)
    par = D == 0
    hit = ~par & (tt >= 0)&(tt <= dd)&(uu >= 0)&(uu <= dd)
    inner = hit & ~(((tt == 0)|(tt == dd))&((uu == 0)|(uu == dd)))
    col = par & (orient(px,py,qx,qy,ax,ay) == 0)
    coinc = col & (((px == ax)&(py == ay)&(qx == bx)&(qy == by))|((px == bx)&(py == by)&(qx == ax)&(qy == ay)))
    dx = qx-px; dy = qy-py
    pr = lambda x,y: (x-px)*dx+(y-py)*dy
    lo2 = np.minimum(pr(ax,ay),pr(bx,by)); hi2 = np.maximum(pr(ax,ay),pr(bx,by))
    over = col & (np.minimum(hi2,dx*dx+dy*dy) > np.maximum(lo2,0)) & ~coinc
    dom = ~inner & ~over
    A = A[dom]; n = len(A)
    px,py,qx,qy,ax,ay,bx,by,am,hi = A.T
    coinc = coinc[dom]; dx = qx-px; dy = qy-py
    # index 2 is the edge under test; the other edge is 0,1 or 3,4; it's the
    # edge after or before in index order
    T = {k:np.zeros((n,6),np.int64) for k in ('x','y','next','set')}
    r = np.arange(n)
    ia = np.where(hi == 1,4,0); ib = np.where(hi == 1,5,1)
    for k,x,y in ((2,px,py),(3,qx,qy)): T['x'][:,k] = x; T['y'][:,k] = y
    T['next'][:,2] = 3; T['next'][:,3] = 2
    T['x'][r,ia] = ax; T['y'][r,ia] = ay; T['x'][r,ib] = bx; T['y'][r,ib] = by
    T['next'][r,ia] = np.where(am == 1,ib,3); T['next'][r,ib] = np.where(am == 1,3,ia)
    ev = VEval(n,chain(args_leaf({1:np.full(n,2),2:ia,3:ib}),table_leaf(m,mk('arg',0),T)))
    got = np.zeros(n,bool)
    for e in apps: got |= ev.val(e.guard) != 0
    side = np.where(dx != 0,dx,dy)     # the side the tested edge leaves toward
    tie = hi == 1
    vert = ax == bx
    vw = tie & (dx == 0) & ((dy > 0) == (by > ay)) & (py == ay) & (px == ax)
    inx = ((px > ax)|((px == ax)&(side > 0))) & ((px < bx)|((px == bx)&(side < 0)))
    cr = (by-ay)*(px-ax)-(py-ay)*(bx-ax)    # <0: the other edge is above (smaller y)
    sl = (by-ay)*dx-dy*(bx-ax)              # slopes, times the sign of dx
    want = np.where(vert,vw,inx & ((cr < 0)|((cr == 0)&((sl < 0)|((sl == 0)&tie)))))
    # vertical edges at another x are not given to this by its callers; those at the same x only count if they coincide with the edge under test
    dom2 = ~vert | (px == ax)
    desc = lambda k: 'edge (%d,%d)->(%d,%d), other edge (%d,%d)-(%d,%d) with %s index: %s, should be %s' % (*A[k,:8],'higher' if tie[k] else 'lower','counted' if got[k] else 'not counted','counted' if want[k] else 'not counted')
    report(c,'above',f,dom2 & (got != want),desc,int(dom2.sum()),'whether an edge is above the start of another is decided wrongly')
    # exactly one of two coincident edges that aren't vertical: follows from the table for both indices
    q = coinc & ~vert
    c.ok('coincident',int(q.sum()),'coincident edges are ordered by index only: %d order types' % int(q.sum()))
    return c
