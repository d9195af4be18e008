"""Array access of the Python module (P53)."""
import os, re
from lib import cypath, pyglue
from lib.harness import Check, Inconclusive
from lib.arrpath import APath, OkPath, paths, to, of, atoms, value, PRED, pm, padd
from gluepath import Undec, C
import build
from checks import nativeck
from checks.nativeck import glue, where, fns_of, short, walk

# what is not understood is undecided; while developing, mistakes shall show
LOST = (Undec,RecursionError)+(() if os.environ.get('VERIF_STRICT') else (KeyError,IndexError,TypeError,AttributeError))
TECH = 'paths through the array iterators over compiler IR with polynomial values (addresses and end-of-run tests as polynomials over the first address, stride and length of each run; not run)'
WIT = '''
extern "C" void verif_in(long x,long y) noexcept; extern "C" long verif_px() noexcept; extern "C" long verif_py() noexcept;
extern "C" void ventry_read(PyArrayObject *ar,NPY_CASTING c) { %(T)s r(ar,NPY_ITER_READONLY|NPY_ITER_REFS_OK,c); if(!r) return;
 auto i=r.begin(); auto e=r.end(); for(; !(i == e); ++i) { auto &&p=*i; using P=std::decay_t<decltype(p)>; long x=poly_ops::point_ops<P>::get_x(p); long y=poly_ops::point_ops<P>::get_y(p); verif_in(x,y); } }
extern "C" void ventry_write(PyArrayObject *ar) { %(T)s r(ar,NPY_ITER_WRITEONLY|NPY_ITER_UPDATEIFCOPY|NPY_ITER_REFS_OK,NPY_UNSAFE_CASTING); if(!r) return;
 auto i=r.begin(); for(int k=0; k<4; ++k) { *i = poly_ops::point_t<coord_t>{verif_px(),verif_py()}; ++i; } }
'''
FL = {'external':0x8,'buffered':0x200,'readwrite':0x10000,'readonly':0x20000,'writeonly':0x40000,'copy':0x400000,'update':0x800000,'index':0x7}
def runs(ck,part,w,p,out,write,ends=True):
    """follow the points read or written along one path"""
    its = [(o,p.prod[o]) for o in p.prod if o[0] == 'iter']
    if len(its) != 1: return
    o,(nm,a,dims,at) = its[0]
    def tab(n):
        e = [e for e in p.events if e[0] == 'api' and e[1] == n and e[2][:1] == (o,)]
        return e
    # what each table pointer is: the value the call returned
    T = {}
    for k,v in p.env.items():
        if v[0] == 'call': T.setdefault(v,k)
    src = {}
    for b in p.f['blocks']:
        for i in b:
            if i['op'] in ('call','invoke') and i['callee'][0] == 'fn' and i['id'] in p.env:
                m = {'vnp_NpyIter_GetDataPtrArray':'P','vnp_NpyIter_GetInnerStrideArray':'S','vnp_NpyIter_GetInnerLoopSizePtr':'N'}.get(i['callee'][1])
                if m: src[p.env[i['id']]] = m
    buffered = a[1][0] != 'c' or a[1][1] & FL['buffered']
    def norm(v):
        """('P',run) | ('S',) | ('N',) for an atom"""
        if v[0] == 'ld' and len(v) == 3 and v[1][1] == 0 and v[1][0] in src:
            m = src[v[1][0]]
            return (m,v[2]) if m == 'P' or buffered else (m,)
        if v[0] == 'ld' and len(v) == 3: return ('data',npoly(to(v[1][0] if v[1][1] == 0 else ('?',))),v[2])
        return v
    def npoly(q):
        if q is None: return None
        r = {}
        for m,c in q.items():
            k = tuple(sorted((norm(x) for x in m),key=str)); r[k] = r.get(k,0)+c
        return tuple(sorted(((m,c) for m,c in r.items() if c),key=str))
    def want(run,k): return npoly2({(('P',run),):1,(S(run),):k})
    def S(run): return ('S',run) if buffered else ('S',)
    def N(run): return ('N',run) if buffered else ('N',)
    def npoly2(d): return tuple(sorted(((tuple(sorted(m,key=str)),c) for m,c in d.items() if c),key=str))
    tables = [x for x,m in src.items()]
    run = 0; k = 0; conds = []; pend = []; ended = False; points = 0; px = py = None; live = True
    def judge(action,at):
        """are the tests made since the last point the right ones?"""
        bad = None; seen = 0
        for n in (2,4,6,8,10):
            for s in (-24,-8,0,8,16):
                asg = {('P',r):100000+7919*r for r in range(run+1)}
                asg.update({('S',):s,('N',):n}); asg.update({('S',r):s for r in range(run+1)}); asg.update({('N',r):n for r in range(run+1)})
                try: ok = all(PRED[pr](sum(c*prod(asg[x] for x in m) for m,c in d)) == r for pr,d,r in conds)
                except KeyError as e: return None,'a test depends on %s' % (str(e)[:80],)
                if n < 2*k: continue
                if not ok: continue
                seen += 1
                if (action == 'next') != (n == 2*k): bad = bad or {'points of the run':n//2,'step between elements in bytes':s,'after point':k}
        return bad is None,bad
    def prod(xs):
        t = 1
        for x in xs: t *= x
        return t
    for e in p.events:
        if e[0] == 'cond':
            conds.append((e[1],npoly(to(e[2])),e[3]))
            if conds[-1][1] is None: conds.pop()
        elif e[0] == 'call' and e[1] == 'verif_in' or write and e[0] == 'store' and any(isinstance(x,tuple) and x[:1] == ('P',) for m,_ in npoly(to(e[1])) or () for x in m):
            if write:
                pend.append((npoly(to(e[1])),e[2]))
                if len(pend) < 2: continue
                got = [x for x,_ in pend]; vals = [v for _,v in pend]; pend = []
            else: got = [norm(x)[1] if norm(x)[0] == 'data' else None for x in e[2][:2]]; vals = None
            if ended and not ends: return
            if ended: ck.fail(part,e[-1] if not write else e[3],'a point is %s after the end of the array' % ('written' if write else 'read')); return
            if k and ends:
                r,wit = judge('in',at)
                if r is None: ck.undecided(part,'%s: %s' % (w,wit)); return
                ck.decide(part,e[3],'%s: points are taken beyond the end of a run' % w,r,wit,sample='%s: point %d of run %d follows' % (w,k,run))
                if not r: return
            good = [got[0] == want(run,2*k),got[1] == want(run,2*k+1)]
            if write and not all(good) and (got[1],got[0]) == (want(run,2*k),want(run,2*k+1)): good = [True,True]; vals = vals[::-1]
            if any(x is None for x in got): ck.undecided(part,'%s: a point is %s an address that cannot be followed' % (w,'written to' if write else 'read from')); return
            for j,(g,xy) in enumerate(zip(good,'xy')):
                ck.decide(part,e[3],'%s: %s of point %d of a run is %s' % (w,xy,k,'written to the wrong place' if write else 'read from the wrong place'),g,{'address':str(got[j])[:200],'expected':str(want(run,2*k+j))},sample='%s: %s of point %d' % (w,xy,k))
            if not all(good): return
            if write and ends:
                fx = [nmx(p,v) for v in vals]
                for f,xy in zip(fx,('verif_px','verif_py')): ck.decide(part,e[3],'%s: the first column is not x and the second y' % w,None if f is None else f == xy,sample='%s: columns' % w)
            points += 1; k += 1
        elif e[0] == 'next':
            if ended and not ends: return
            if ended: ck.fail(part,e[2],'%s: the iterator is advanced after its end' % w); return
            r,wit = (True,None) if not ends else judge('next',e[2]) if k else (False,{'run of':'at least one point','points taken':0})
            if r is None: ck.undecided(part,'%s: %s' % (w,wit)); return
            ck.decide(part,e[2],'%s: the next run is fetched before all the points of this one were %s' % (w,'written' if write else 'read'),r,wit,sample='%s: run of %d points ends' % (w,k))
            if not r: return
            if write and ends and not e[1]: return
            run += 1; k = 0; conds = []; ended = not e[1]
    if out[0] == 'ret':
        started = any(e[0] == 'api' and e[1] == 'vnp_NpyIter_GetInnerLoopSizePtr' for e in p.events)
        if started and not write: ck.decide(part,w,'%s: reading stops before the end of the array' % w,ended,{'points read':points},sample='%s: %d runs read to the end' % (w,run))
def nmx(p,v):
    for b in p.f['blocks']:
        for i in b:
            if i['op'] in ('call','invoke') and i['id'] == v[1] and v[0] == 'call': return i['callee'][1]
    return None
def flags(ck,part):
    g,m,defs = glue()
    for f in g.fns.values():
        if not in_mod(g,f) or '::' in short(f['simple']): continue
        if not any(i['callee'][1] == 'vnp_NpyIter_New' for b in f['blocks'] for i in b if i['op'] in ('call','invoke') and i['callee'][0] == 'fn'): continue
        w = where(g,f); ck.saw('functions that iterate over arrays',w)
        for p,out in walk(ck,part,g,f):
            for o,(nm,a,dims,at) in [(o,p.prod[o]) for o in p.prod if o[0] == 'iter']:
                fl = a[1][1] if a[1][0] == 'c' else None
                own = a[0][0] == 'obj'
                if fl is None: ck.undecided(part,'%s: flags' % w); continue
                if fl & FL['index']: ck.undecided(part,'%s: keeps an index' % w); continue
                ck.decide(part,at,'%s: the iterator does not hand out whole runs' % w,bool(fl & FL['external']),sample='%s: external loop' % w)
                ck.decide(part,at,'%s: the rows of an array are not taken in order' % w,a[2] == C(0) if a[2][0] == 'c' else None,{'order':str(a[2])},sample='%s: C order' % w)
                if own: ck.decide(part,at,'%s: the result array is not opened for writing' % w,bool(fl & (FL['writeonly']|FL['readwrite'])),sample='%s: writes' % w)
                else: ck.decide(part,at,'%s: the array read is not opened for reading only' % w,bool(fl & FL['readonly']),sample='%s: reads' % w)
                if not fl & FL['buffered']:
                    ck.decide(part,at,'%s: an array of another dtype cannot be %s' % (w,'written' if own else 'read'),bool(fl & FL['copy'] or own and fl & FL['update']) and (not own or bool(fl & FL['update'])),sample='%s: converts' % w)
                if own: ck.decide(part,at,'%s: results of some dtypes cannot be written' % w,a[3] == C(4) if a[3][0] == 'c' else None,sample='%s: every dtype is written' % w)
                d = p.prod.get(a[4])
                ck.decide(part,at,'%s: the elements are not converted to the type of coordinates' % w,None if not d or d[1][0][0] != 'c' else d[1][0] == C(7),sample='%s: coordinates' % w)
                if own:
                    q = p.prod.get(a[0])
                    if q and q[0] == 'vnp_PyArray_NewFromDescr':
                        dd = next((t for t in q[2][3:4] if t),None)
                        ck.decide(part,q[3],'%s: the result does not have two dimensions, the second of size two' % w,None if dd is None or dd[1] is None or dd[1][0] != 'c' or q[1][2][0] != 'c' else q[1][2] == C(2) and dd[1] == C(2),{'dimensions':str(dd)},sample='%s: two columns' % w)
def deep(v,out=None):
    """all values a value was made from"""
    if out is None: out = set()
    if isinstance(v,tuple):
        if v and v[0] == 'ld': out.add(v)
        for x in v: deep(x,out)
    return out
def solve(p):
    """values that the tests of the path fix (counts are not negative); None: the path can't be taken"""
    asg = {}; cand = {}; multi = []
    for e in p.events:
        if e[0] != 'cond': continue
        d = to(e[2])
        if d is None: continue
        at = list(atoms(d))
        if len(at) > 1: multi.append(d)
        if len(at) > 1 and (e[1],e[3]) in (('eq',True),('ne',False)): asg.setdefault('zero',[]).append(d)
        if len(at) == 1 and set(d) <= {(),(at[0],)}:
            c,k = d[(at[0],)],d.get((),0)
            cand[at[0]] = [x for x in cand.get(at[0],range(40)) if PRED[e[1]](c*x+k) == e[3]]
    more = {a for d in multi for a in atoms(d)}; alt = {}
    for a,l in cand.items():
        if not l: return None
        if len(l) == 1: asg[a] = l[0]
        elif a not in more: alt[a] = l
    # a count that the path leaves open can have any of its values
    asg['open'] = alt
    return asg
def reduce(q,asg):
    """constant that a polynomial equals on this path"""
    try: return value(q,asg)
    except KeyError: pass
    for d in asg.get('zero',()):
        for t in (1,-1):
            r = padd(q,d,t)
            if set(r) <= {()}: return r.get((),0)
    return None
def subst(v,asg):
    q = to(v)
    if q is None: return None
    r = reduce(q,asg)
    if r is not None: return r
    a = dict(asg)
    for x in atoms(q):
        if x[0] == 'op' and x[1] in ('sdiv','ashr','udiv','lshr') and len(x) == 4 and x[3][0] == 'c' and x[3][1] > 0:
            n = to(x[2]); n = reduce(n,asg) if n is not None else None
            if n is not None:
                c = x[3][1] if 'div' in x[1] else 1 << x[3][1]
                if n % c == 0: a[x] = n//c
    return reduce(q,a)
def column(p,v):
    """(address of a coordinate, its index atoms)"""
    if v[0] != 'ld' or v[1][1] != 0: return None
    return to(v[1][0])
def results(ck,part,g):
    """the arrays and tuples results are put into"""
    n = 0
    for f in g.fns.values():
        if not in_mod(g,f): continue
        names = {i['callee'][1] for b in f['blocks'] for i in b if i['op'] in ('call','invoke') and i['callee'][0] == 'fn'}
        if not names & {'vnp_NpyIter_New','vpy_settuple'} or f['ret'] != 'ptr' or '::' in short(f['simple']): continue
        w = where(g,f); ck.saw('functions that make results',w)
        try:
            for p,out in paths(g,f,cls=OkPath):
                if out[0] != 'ret' or out[1] is None or out[1][0] != 'obj': continue
                n += 1
                asg = solve(p)
                if asg is None: continue
                loops = [(o,p.prod[o]) for o in p.prod if o[0] == 'obj' and p.prod[o][0] == 'vnp_PyArray_NewFromDescr']
                if len(loops) == 1:
                    for k in ((0,1) if asg['open'] else (0,)): points(ck,part,w,p,out,{**asg,**{a:l[k] for a,l in asg['open'].items()}} if asg['open'] else asg,loops[0])
                tuples(ck,part,w,p,asg)
        except LOST as e: ck.undecided(part,'%s: %s' % (w,repr(e)[:100]))
    return n
def points(ck,part,w,p,out,asg,loop):
    o,q = loop
    its = [x for x in p.prod if x[0] == 'iter']
    sz = next((t for t in q[2][3:4] if t),None)
    runs(ck,part,w,p,out,True,False)
    tabs = {p.res[k]:e[1] for k,e in enumerate(p.events) if e[0] == 'api' and e[1].startswith('vnp_NpyIter_Get')}
    def isP(a): return a[0] == 'ld' and a[1][1] == 0 and tabs.get(a[1][0]) == 'vnp_NpyIter_GetDataPtrArray'
    xs = []; st = []; other = []
    ended = False
    for e in p.events:
        if e[0] == 'next' and not e[1]: ended = True
        if e[0] != 'store': continue
        d = to(e[1])
        if d is None: continue
        # the iterator has as many elements as the array was given: it does not end before the last point
        if ended and not any(a[0] == 'ld' and a[1][0][0] == 'obj' for a in atoms(d)): return
        if any(isP(a) for a in atoms(d)): st.append(e)
        else:
            b = [a for a in atoms(d) if a[0] == 'ld' and a[1][0][0] == 'obj']
            if len(b) == 1 and d.get((b[0],)) == 1: other.append((b[0][1][0],padd(d,{(b[0],):1},-1),e))
    for i in range(0,len(st)-1,2):
        a,b = column(p,st[i][2]),column(p,st[i+1][2])
        if a is None or b is None: ck.undecided(part,'%s: coordinates' % w); return
        d = padd(b,a,-1)
        ck.decide(part,st[i][3],'%s: the columns written are not x and y of one point' % w,d == {():8} if set(d) <= {()} else None if len(d) < 3 else None,{'distance':str(d)[:100]},sample='%s: x and y of a point' % w)
        if d != {():8}: return
        xs.append(a)
    n = len(xs)
    for i in range(n):
        for j in range(i):
            if xs[i] == xs[j]: ck.fail(part,st[2*i][3],'%s: a point is written twice' % w,{'points':[j,i]}); return
    if sz is not None and sz[0] is not None:
        v = subst(sz[0],asg)
        ck.decide(part,q[3],'%s: the array has room for %s points but %d are written' % (w,v,n),None if v is None else v == n,sample='%s: room for %d points' % (w,n))
    mk = [e for e in p.events if e[0] == 'api' and e[1] in ('make_tracked_loop','make_tracked_recur_loop')]
    if len(mk) != 1: return
    for e in p.events:
        if e[0] == 'bulk' and any(a[0] == 'ld' and a[1][0][0] == 'obj' for a in atoms(to(e[1]) or {})) or e[0] == 'call' and any(x[0] in ('ld','pl') and any(a[0] == 'ld' and a[1][0][0] == 'obj' for a in atoms(to(x) or {})) for x in e[2]):
            ck.undecided(part,'%s: offsets or indices are written in bulk' % w); return
    a = mk[0][2]; offs,inds = (a[1],a[2]) if mk[0][1] == 'make_tracked_loop' else (a[2],a[3])
    O = [(d,e) for b,d,e in other if b == offs]; I = [(d,e) for b,d,e in other if b == inds]
    wrong = [e for b,d,e in other if b not in (offs,inds)]
    if wrong: ck.undecided(part,'%s: something else is written' % w); return
    at = mk[0][3]
    # places
    for nm,L in (('offset',O),('index',I)):
        for k,(d,e) in enumerate(L):
            if set(d) <= {()}: ck.decide(part,e[3],'%s: %s %d is written to place %s' % (w,nm,k,d.get((),0)/8),d.get((),0) == 8*k,sample='%s: place of %s %d' % (w,nm,k))
            else: ck.undecided(part,'%s: place of an %s' % (w,nm)); return
    if any(d.get((),0) != 8*k for L in (O,I) for k,(d,e) in enumerate(L)): return
    ck.decide(part,at,'%s: %d offsets are given for %d points' % (w,len(O),n),len(O) == n+1,sample='%s: %d offsets for %d points' % (w,len(O),n))
    vals = [subst(e[2],asg) for d,e in O]
    if any(v is None for v in vals): ck.undecided(part,'%s: offsets' % w)
    elif vals:
        ck.decide(part,O[0][1][3],'%s: the first offset is %d' % (w,vals[0]),vals[0] == 0,sample='%s: first offset' % w)
        ck.decide(part,O[-1][1][3],'%s: the last offset is %d but there are %d indices' % (w,vals[-1],len(I)),vals[-1] == len(I),{'offsets':vals},sample='%s: last offset' % w)
        for x,y in zip(vals,vals[1:]): ck.decide(part,O[0][1][3],'%s: offsets descend' % w,x <= y,{'offsets':vals},sample='%s: offsets %s' % (w,vals))
        # the indices between two offsets are those of the point
        ix = [atoms(x) for x in xs]
        common = set.intersection(*ix) if ix else set()
        own = [sorted(s-common,key=str) for s in ix]
        if n > 1 and all(len(x) == 1 for x in own) and vals == sorted(vals) and len(vals) == n+1 and vals[-1] == len(I):
            own = [x[0] for x in own]
            for j in range(n):
                L = I[vals[j]:vals[j+1]]; adr = []
                for d,e in L:
                    c = column(p,e[2]) if e[2][0] == 'ld' else None
                    if c is None: ck.undecided(part,'%s: an index' % w); return
                    have = {x for x in deep(e[2]) if x in own}
                    last = [x for x in have if not any(x in deep(y) and x != y for y in have)]
                    ck.decide(part,e[3],'%s: an index given for point %d belongs to another point' % (w,j),None if len(last) != 1 else last[0] == own[j],{'point':own.index(last[0]) if len(last) == 1 else None,'expected':j},sample='%s: indices of point %d' % (w,j))
                    adr.append(c)
                for x,y in zip(adr,adr[1:]):
                    d = padd(y,x,-1)
                    ck.decide(part,L[0][1][3],'%s: indices of a point are not given once each, in order' % w,d == {():8} if set(d) <= {()} else None,{'distance':str(d)[:80]},sample='%s: order of indices' % w)
    for nm,obj,want in (('offsets',offs,n+1),('indices',inds,len(I))):
        q = p.prod.get(obj)
        if not q or q[0] not in ('vnp_PyArray_New','vnp_PyArray_Empty','vnp_PyArray_Zeros'): ck.undecided(part,'%s: %s are made in another way' % (w,nm)); continue
        d = next((t for t in q[2] if t),None)
        v = subst(d[0],asg) if d and d[0] is not None else None
        ck.decide(part,q[3],'%s: there is room for %s %s but %d are written' % (w,v,nm,want),None if v is None else v == want,sample='%s: room for %s' % (w,nm))
def distance(y,x):
    d = padd(y,x,-1)
    if set(d) <= {()}: return d
    if len(x) == len(y) == 1:
        (a,),(b,) = tuple(x)[0] or (None,),tuple(y)[0] or (None,)
        # elements of one array
        if a and b and a[0] == b[0] == 'ld' and x[(a,)] == y[(b,)] == 1:
            a,b = column(None,a),column(None,b)
            if a is not None and b is not None: return padd(b,a,-1)
    return d
def tuples(ck,part,w,p,asg):
    for o in [o for o in p.prod if o[0] == 'obj' and p.prod[o][0] == 'PyTuple_New']:
        if p.cnt.get(o,0) <= 0 and not any(e[0] == 'api' and e[1].startswith('make_') and o in e[2] for e in p.events): continue
        S = [(k,e) for k,e in enumerate(p.events) if e[0] == 'api' and e[1] in ('vpy_settuple','PyTuple_SetItem') and e[2][0] == o]
        pos = [subst(e[2][1],asg) for k,e in S]
        if None in pos: ck.undecided(part,'%s: places in a tuple' % w); continue
        v = subst(p.prod[o][1][0],asg)
        at = p.prod[o][3]
        ck.decide(part,at,'%s: a tuple has room for %s loops but %d are put into it' % (w,v,len(S)),None if v is None else v == len(S),sample='%s: %d loops' % (w,len(S)))
        ck.decide(part,at,'%s: loops are put at places %s of the tuple' % (w,pos),sorted(pos) == list(range(len(pos))),sample='%s: places %s' % (w,pos))
        adr = []
        for j,e in sorted(zip(pos,[e for k,e in S])):
            c = [k for k,x in enumerate(p.events) if x[0] == 'call' and p.res.get(k) == e[2][2]]
            a = p.events[c[0]][2][0] if len(c) == 1 and p.events[c[0]][2] else None
            if a is None: adr = None; break
            adr.append(dict(p.snap[c[0]][a]) if a in p.snap.get(c[0],{}) else {0:a})
        if adr is None or any(not x or set(x) != set(adr[0]) for x in adr): ck.undecided(part,'%s: what is put into a tuple' % w); continue
        # what each is made from: a position that moves on by the same distance
        pol = [{k:to(v) for k,v in x.items()} for x in adr]
        ds = [{k:distance(y[k],x[k]) for k in x if x[k] is not None and y[k] is not None and x[k] != y[k]} for x,y in zip(pol,pol[1:])]
        for d in ds:
            known = all(set(q) <= {()} for q in d.values())
            ck.decide(part,at,'%s: the loops of a tuple are not converted once each, in order' % w,None if not known and d else bool(d) and d == ds[0] and all(q[()] > 0 for q in d.values()),{'distances':str(ds)[:200]},sample='%s: order of loops' % w)
def in_mod(g,f):
    from gluepath import in_module
    return in_module(g.cg.get(f['name'],{'file':'','simple':''}))
def P53():
    ck = Check('P53','the points taken from or put into an array are exactly its rows: along every path the k-th point of a run lies 2k and 2k+1 steps from its start, the run ends exactly after half as many points as it has elements whatever the step, the next run is read from its own start, and every iterator is opened in row order for the type of coordinates',TECH)
    m = glue()[1]; t,fl,defs = pyglue.text(m)
    names = [n for n,body in re.findall(r'\bstruct\s+(\w+)\s*(?:final\s*)?\{(.*?)\n\s{0,4}\};',t,re.S) if re.search(r'\bNpyIter\s*\*',body)]
    done = False
    for n in names[:3]:
        try: j = build.witness_text('pyarr',t+WIT % {'T':n},['root ^ventry_(read|write)$'],flags=fl,exceptions=True,raw=True)
        except build.BuildError as e: ck.undecided('points','the iterator of %s is used in another way' % n); continue
        g = nativeck.glue()[0]; from gluepath import Glue
        g2 = Glue(j,{'functions':[]})
        for f in j['functions']:
            if f['name'] not in ('ventry_read','ventry_write'): continue
            wr = f['name'] == 'ventry_write'; w = '%s, %s' % (n,'writing' if wr else 'reading'); k = 0
            try:
                for p,out in paths(g2,f):
                    k += 1
                    if out[0] in ('terminate','unreachable','escape'): continue
                    runs(ck,'points',w,p,out,wr)
            except LOST as e: ck.undecided('points','%s: %s' % (w,repr(e)[:100]))
            ck.saw('paths','%s: %d' % (w,k)); done = True
    if not names: ck.undecided('points','no iterator type')
    flags(ck,'iterators')
    try: j = build.witness_text('pyarr2',t,['root anonymous namespace','opaque ^poly_ops::.*(add_loop|execute|add_offset)'],flags=fl,exceptions=True,raw=True)
    except build.BuildError as e: raise Inconclusive(str(e))
    from gluepath import Glue
    if not results(ck,'results',Glue(j,{'functions':list(glue()[0].cg.values())})): ck.undecided('results','no function makes results')
    return ck
