"""P23: strided iterators (witness/strided.cpp)."""
import itertools
import numpy as np
from harness import Check, Inconclusive
from irsum import Summary
from replay import Replay
from checks.meta import TABLE
from build import witness
A,B,OUT,D = 1<<20,1<<21,1<<22,1<<30
class Mem(dict):
    """the points' data: what is at an address is told by the address"""
    def get(self,a,d=None): return 7*a+3 if D-(1<<20) < a < D+(1<<20) else dict.get(self,a,d)
class SR(Replay):
    wid = {4,8}
def P23():
    c = Check('P23','Every operation on strided iterators for positive and negative strides and distances up to four either way, points and loops of points at every combination of strides: addresses, distances and order as for the n-th element.',TABLE)
    c.assume('addresses are polynomials of low degree of strides and numbers (mod 2^64); distances are only asked of iterators a whole number of strides apart')
    m = witness('strided',['root ^w_'])
    k = [x for x in m.structs if x.startswith('poly_ops::detail::strided_itr<')]
    if not k: raise Inconclusive('strided_itr changed')
    t = {n:o for n,o,sz,btn,kind in m.structs[k[0]]['members']}
    if len(t) != 2 or set(t.values()) != {0,8}: raise Inconclusive('strided_itr changed')
    po = t.get('ptr',0); so = 8-po
    def run(name,part,what,rows,args,cells,want):
        """rows: dicts; want(row) -> returned value or {address: value}"""
        f = m.fn(name); s = Summary(f); c.saw('functions',name); label = 'strided_itr.hpp (witness/strided.cpp: %s)' % name
        rp = SR(s,{i:np.array([fn(r) for r in rows],dtype=np.int64) for i,fn in args.items()},[Mem(cells(r)) for r in rows],{})
        bad = []; n = 0
        for q,r in enumerate(rows):
            w = want(r)
            if rp.unknown[q]: got = None
            elif isinstance(w,dict): got = {a:rp.mem[q].get(a) for a in w}; got = None if None in got.values() else got
            else: got = None if rp.ret is None or rp.ret[1][q] else int(rp.ret[0][q])&1 if isinstance(w,bool) else int(rp.ret[0][q])
            if rp.fault[q]: bad.append((r,rp.fault[q])); n += 1; continue
            if got is None: c.undecided(part,name+': '+', '.join(sorted(rp.why))); continue
            n += 1
            if got != w: bad.append((r,'%s instead of %s' % (got,w)))
        if bad: c.fail(part,label,what,'%d of %d, e.g. %s: %s' % (len(bad),n,bad[0][0],bad[0][1]))
        c.ok(part,n-len(bad),'%s: %d states' % (what,n))
    S = [s for s in range(-4,5) if s]+[16,-24]; N = range(-4,5)
    rows = [{'stride':s,'n':n} for s in S for n in N]
    def it(at,p,s): return {at+po:p,at+so:s}
    one = lambda r: {**it(A,D,r['stride']),OUT+po:None,OUT+so:None}
    args = {0:lambda r: OUT,1:lambda r: A,2:lambda r: r['n']}
    for nm,k in (('plus',1),('nplus',1),('minus',-1),('pluseq',1),('minuseq',-1)):
        run('w_'+nm,'moving','a sum or difference of an iterator and a number is not that many elements away',rows,args,one,lambda r,k=k: it(OUT,D+k*r['n']*r['stride'],r['stride']))
    rows1 = [{'stride':s} for s in S]; a2 = {0:lambda r: OUT,1:lambda r: A}
    for nm,k in (('inc',1),('incd',1),('pinc',1),('dec',-1),('decd',-1),('pdec',-1),('pincr',0),('pdecr',0)):
        run('w_'+nm,'moving','an increment or decrement does not move by one element (or returns the wrong iterator)',rows1,a2,one,lambda r,k=k: it(OUT,D+k*r['stride'],r['stride']))
    run('w_star','elements','the element is not the one pointed to',rows1,{0:lambda r: A},one,lambda r: D)
    run('w_at','elements','[n] is not the n-th element',rows,{0:lambda r: A,1:lambda r: r['n']},one,lambda r: D+r['n']*r['stride'])
    # two iterators, one n elements after the other
    two = lambda r: {**it(A,D+r['n']*r['stride'],r['stride']),**it(B,D,r['stride'])}
    ab = {0:lambda r: A,1:lambda r: B}
    run('w_diff','distance and order','the difference is not the number of elements between',rows,ab,two,lambda r: r['n'])
    for nm,f in (('eq',lambda n: n == 0),('ne',lambda n: n != 0),('lt',lambda n: n < 0),('le',lambda n: n <= 0),('gt',lambda n: n > 0),('ge',lambda n: n >= 0)):
        run('w_'+nm,'distance and order','order does not agree with the distance',rows,ab,two,lambda r,f=f: f(r['n']))
    # ranges
    run('w_size','ranges','a range has another number of points than asked for',[{'stride':s,'n':n,'cs':4} for s in S for n in range(5)],{0:lambda r: D,1:lambda r: r['cs'],2:lambda r: r['stride'],3:lambda r: r['n']},lambda r: {},lambda r: r['n'])
    val = lambda a: 7*a+3
    def pt(p,cs): return {OUT:val(p),OUT+8:val(p+cs)}
    rows = [{'stride':s,'cs':cs,'n':n,'i':i} for s in S for cs in (-8,-3,0,8,40) for n in range(1,4) for i in range(n)]
    base = {0:lambda r: D,1:lambda r: r['cs'],2:lambda r: r['stride'],3:lambda r: r['n'],4:lambda r: OUT,5:lambda r: r['i']}
    o = lambda r: {OUT:None,OUT+8:None}
    for nm in ('nth','narrow'): run('w_'+nm,'ranges','the n-th point is read from elsewhere',rows,base,o,lambda r: pt(D+r['i']*r['stride'],r['cs']))
    r0 = [r for r in rows if r['i'] == 0]
    run('w_front','ranges','the first point is read from elsewhere',r0,{k:v for k,v in base.items() if k < 5},o,lambda r: pt(D,r['cs']))
    run('w_last','ranges','the last point is read from elsewhere',r0,{k:v for k,v in base.items() if k < 5},o,lambda r: pt(D+(r['n']-1)*r['stride'],r['cs']))
    SS = (-24,-3,-1,2,5,16)
    rows = [{'stride':s,'cs':cs,'n':n,'i':i,'ls':ls,'k':k,'j':j} for s in SS for cs in (-3,8) for ls in SS+(100,) for n in (2,3) for k in (2,4) for i in range(n) for j in range(k)]
    run('w_nth2','ranges','a point of a loop is read from elsewhere',rows,{**base,6:lambda r: r['ls'],7:lambda r: r['k'],8:lambda r: r['j']},o,lambda r: pt(D+r['j']*r['ls']+r['i']*r['stride'],r['cs']))
    r0 = [r for r in rows if r['i'] == 0 and r['j'] == 0]
    run('w_step2','ranges','the second point of the second loop is read from elsewhere',r0,{**{k:v for k,v in base.items() if k < 5},5:lambda r: r['ls'],6:lambda r: r['k']},o,lambda r: pt(D+r['ls']+r['stride'],r['cs']))
    b4 = {0:lambda r: D,1:lambda r: r['cs'],2:lambda r: r['stride'],3:lambda r: r['n'],4:lambda r: r['ls'],5:lambda r: r['k']}
    run('w_sizes','ranges','there is another number of loops than asked for',r0,b4,lambda r: {},lambda r: r['k'])
    run('w_size2','ranges','a loop has another number of points than asked for',r0,{**b4,6:lambda r: 1},lambda r: {},lambda r: r['n'])
    return c
