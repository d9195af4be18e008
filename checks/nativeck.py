"""The native half of the Python module (P32, P33, P34; parts of P31, P35, P36)."""
import os, re
from lib import cypath, pyglue
from lib.gluepath import Glue, Undec, in_module
from lib.harness import Check, Inconclusive
import build

TECH = 'enumeration of the paths through the native functions over compiler IR with exceptional edges (typestate of the interpreter lock, ownership of references, exception state; not run)'
OPAQUE = ['opaque ^poly_ops::','opaque ^std::ranges','opaque ^std::__']
_g = None
def glue():
    global _g
    if _g is None:
        try: m = cypath.Module(cypath.load(build.REPO))
        except RuntimeError as e: raise Inconclusive(str(e))
        t,fl,defs = pyglue.text(m)
        try:
            j = build.witness_text('pyglue',t,OPAQUE+['root anonymous namespace','root ^[A-Za-z_0-9]+$'],flags=fl,exceptions=True,raw=True)
            cj = build.witness_text('pygluec',t,['calls'],flags=fl,exceptions=True,raw=True)
        except build.BuildError as e: raise Inconclusive(str(e))
        _g = (Glue(j,cj),m,defs)
    return _g
def short(n): return n.replace('(anonymous namespace)::','')
def roots(g,m,defs):
    """functions that are entered with the lock held and Python objects in hand: those Cython calls, and the
    converters they call"""
    out = []
    for n,f in g.fns.items():
        c = g.cg.get(n)
        if c is None or not in_module(c): continue
        s = short(f['simple'])
        if '::' in s: continue            # members of helper classes are looked at where they are used
        if f['ret'] == 'ptr' or s in defs: out.append(f)
    return sorted(out,key=lambda f: f['simple']+f['name'])
def entries(g): return [f for n,f in g.fns.items() if n.startswith('ventry_')]
def where(g,f):
    c = g.cg.get(f['name'],{})
    return '%s:%s %s' % (c.get('file','?'),c.get('line','?'),short(f['simple']))
def need(g,m,defs):
    for n in ('_clipper_add_loop','_clipper_add_offset','_clipper_execute_','_tracked_clipper_execute_','_winding_dir'):
        if n not in defs: raise Inconclusive('native function %s is gone' % n)

def each(ck,part,uniq=True):
    g,m,defs = glue(); need(g,m,defs)
    for f in roots(g,m,defs):
        w = where(g,f); ck.saw('functions',w)
        k = 0
        try:
            for p,out in g.paths(f):
                k += 1
                yield g,f,w,p,out
        except (Undec,KeyError,IndexError,RecursionError) as e: ck.undecided(part,'%s: %s' % (w,e))
        ck.saw('paths','%s: %d' % (w,k))

def trail(p): return [('%s at %s' % (e[1].replace('vnp_','').replace('vpy_',''),e[3])) for e in p.events if e[0] == 'api'][-8:]+['failing: '+', '.join('%s' % (k[1],) for i,n,k in p.made if i and k[0] in ('fails','throws'))][:1]

def P32():
    ck = Check('P32','on every path the interpreter lock is held at every call of the Python or NumPy API and of functions that work on Python objects, the iteration over an array runs without it only if NumPy says it does not need it, and the lock is held again when the function is left, normally or by an exception',TECH)
    for g,f,w,p,out in each(ck,'lock'):
        if out[0] in ('terminate','unreachable'): continue
        if out[0] in ('ret','escape') and not p.gil: ck.fail('lock',w,'the function is left without the lock',{'calls':trail(p)})
        for part,at,what in p.problems:
            if part == 'gil': ck.fail('lock',at,'%s: %s' % (w,what),{'calls':trail(p)})
        if p.unsure and any('iteration' in u for u in p.unsure): ck.undecided('lock',p.unsure[0])
        elif not any(x[0] == 'gil' for x in p.problems): ck.ok('lock',1,'%s: path %s' % (w,' > '.join(e[1] for e in p.events if e[1] in ('PyEval_SaveThread','PyEval_RestoreThread')) or 'with the lock throughout'))
        if any(e[1] == 'PyEval_SaveThread' for e in p.events): ck.ok('release',1,'%s releases and takes the lock' % w)
    return ck

def P34():
    ck = Check('P34','on every path every reference and iterator that the function owns is given up exactly once (released, stolen or returned), no null or dead object is used, and the function returns an owned object with no exception set or null with one',TECH)
    for g,f,w,p,out in each(ck,'references'):
        if out[0] in ('terminate','unreachable'): continue
        bad = [(at,what) for part,at,what in p.problems if part == 'refs']
        for at,what in bad: ck.fail('references',at,'%s: %s' % (w,what),{'calls':trail(p)})
        if bad: continue
        if out[0] == 'loop': continue
        cnt = dict(p.cnt); r = out[1] if out[0] == 'ret' else None
        ptr = f['ret'] == 'ptr'
        if ptr and r is not None:
            if r == ('null',):
                if not p.exc: ck.fail('result',w,'null is returned with no exception set',{'calls':trail(p)})
                else: ck.ok('result')
            elif r[0] in ('obj','arg','none','g','iter'):
                if r[0] in ('obj','arg'): cnt[r] = cnt.get(r,0)-1
                if p.exc: ck.fail('result',w,'an object is returned although an exception is set',{'calls':trail(p)})
                elif p.caught: ck.fail('result',w,'an object is returned although the library threw an exception',{'calls':trail(p)})
                else: ck.ok('result',1,'%s returns an owned object' % w)
            else: p.unsure.append('result of unknown origin: %s' % str(r)[:60])
        elif not ptr and r is not None and r[0] == 'c' and f['ret'] in ('i32','i8'):
            # NPY_FAIL goes with an exception
            if (r[1] == 0) != p.exc: ck.fail('result',w,'the status returned is %d although %s exception is set' % (r[1],'an' if p.exc else 'no'),{'calls':trail(p)})
            else: ck.ok('result')
        if p.unsure: ck.undecided('references','%s: %s' % (w,p.unsure[0])); continue
        lost = {o:n for o,n in cnt.items() if n}
        for o,n in lost.items():
            if n > 0: ck.fail('references',w,'%s is never given up' % ('an iterator' if o[0] == 'iter' else 'a reference to an argument' if o[0] == 'arg' else 'a reference'),{'calls':trail(p)})
            else: ck.fail('references',w,'a reference that is not owned is %s' % ('returned' if o == r else 'given up'),{'calls':trail(p)})
        if not lost: ck.ok('references',1,'%s: %d objects balanced' % (w,len(cnt)))
    return ck

def P33():
    ck = Check('P33','no function called from Cython can be left by a C++ exception or end the process because of one: each call that can throw (decided over the call graph down to operator new and throw) is inside a handler that reports failure to Python',TECH)
    g,m,defs = glue()
    for g,f,w,p,out in each(ck,'exceptions'):
        if out[0] in ('terminate','escape') and p.thrown:
            th = p.thrown[3] if len(p.thrown) > 3 else True
            if th: ck.fail('exceptions',p.thrown[1],'%s: an exception thrown by %s %s' % (w,p.thrown[2] if len(p.thrown) > 2 else p.thrown[0],'ends the process' if out[0] == 'terminate' else 'leaves the function'),{'throws through':g.throws.witness(p.thrown[0])[:12]})
            else: ck.undecided('exceptions','%s: cannot say whether %s throws' % (w,p.thrown[2]))
        elif p.thrown:
            r = out[1] if out[0] == 'ret' else None
            if out[0] == 'ret': ck.decide('reported',w,'after an exception of %s the function does not return null with a Python exception set' % (p.thrown[2] if len(p.thrown) > 2 else ''),r == ('null',) and p.exc if f['ret'] == 'ptr' and r is not None else None,{'result':str(r),'calls':trail(p)},sample='%s: exception of %s' % (w,p.thrown[2] if len(p.thrown) > 2 else ''))
            ck.ok('exceptions',1,'%s: %s throws' % (w,p.thrown[2] if len(p.thrown) > 2 else ''))
        elif out[0] == 'ret': ck.ok('exceptions')
    # the functions of the library that Cython calls directly
    for f in entries(g):
        ck.saw('direct calls',f['name'][7:])
        for blk in f['blocks']:
            for i in blk:
                if i['op'] in ('call','invoke') and i['callee'][0] == 'fn' and not i.get('nounwind'):
                    t = g.throws.get(i['callee'][1],i['callee'][2])
                    # a vector that is given a size throws only if it's smaller, which is a question of values
                    if t and g.throws2.get(i['callee'][1],i['callee'][2]) is False: t = None
                    ck.decide('direct calls','%s' % f['name'][7:],'%s can throw into Cython code' % i['callee'][2],None if t is None else not t,{'throws through':g.throws.witness(i['callee'][1])[:12]},sample='%s cannot throw' % f['name'][7:])
        ck.ok('direct calls',1,f['name'][7:])
    # and below them
    from checks import failck
    import callir
    e = failck.Ends(list(g.cg.values())); n = 0
    for f in g.cg.values():
        if not callir.in_lib(f.get('file','')): continue
        n += 1
        for c in f['calls']:
            if 'terminate' in c.get('lands',''): e.site(ck,'inside the library',c,short(f['simple']),'%s:%s' % (callir.short(c.get('file') or f['file']),c.get('line')))
        ck.ok('inside the library')
    if n < 50: raise Inconclusive('only %d functions of the library found in the module' % n)
    return ck

# ---------------------------------------------------------------- parts of P31, P35 and P36
def fns_of(g,n): return [f for f in g.fns.values() if short(f['simple']) == n and in_module(g.cg.get(f['name'],{'file':'','simple':''}))]
def walk(ck,part,g,f):
    try:
        for p,out in g.paths(f): yield p,out
    except (Undec,KeyError,IndexError,RecursionError) as e: ck.undecided(part,'%s: %s' % (where(g,f),e))
def consts(ck,part,g):
    """the numbers Cython code uses are the library's"""
    def value(n):
        f = g.fns.get(n)
        if f is None: return None
        r = [i for b in f['blocks'] for i in b if i['op'] == 'ret']
        return int(r[0]['ops'][0][1]) if len(r) == 1 and r[0]['ops'][0][0] == 'c' else None
    for cls,pre,vals in (('bool_op','BOOL_OP_',('union_','intersection','xor_','difference','normalize')),('bool_set','BOOL_SET_',('subject','clip'))):
        for v in vals:
            n = pre+v.rstrip('_').upper(); a,b = value('vconst_'+n),value('vlib_%s_%s' % (cls,v))
            ck.decide(part,'py/_polyops.pyx','%s is %s but the library calls %s %s' % (n,a,v,b),None if a is None or b is None else a == b,sample='%s = %s' % (n,a))
def same(v,k):
    """is v parameter k? None: cannot say"""
    if v == ('arg',k): return True
    if v[0] in ('arg','c','null','obj','alloca','fn','g'): return False
    return None
def boolean(v,k):
    yes = (('not',('eq',('arg',k),C(0))),('zext',('not',('eq',('arg',k),C(0)))))
    no = (('eq',('arg',k),C(0)),('zext',('eq',('arg',k),C(0))))
    return True if v in yes else False if v in no or v[0] == 'c' else None
C = lambda v: ('c',v)
PAR = {'_clipper_add_loop':('clipper','array','set','casting rule','tracker'),
       '_clipper_add_offset':('clipper','array','set','magnitude','arc step size','closed','casting rule','tracker'),
       '_clipper_execute_':('tree','clipper','operation','dtype'),
       '_tracked_clipper_execute_':('tree','clipper','operation','dtype','tracker')}
LIB = {'_clipper_add_loop':({'poly_ops::clipper::add_loops','poly_ops::clipper::add_loop'},('clipper',None,'set','tracker')),
       '_clipper_add_offset':({'poly_ops::add_offset'},('clipper',None,'set','magnitude','arc step size','closed','tracker')),
       '_clipper_execute_':({'poly_ops::clipper::execute'},(None,'clipper','operation')),
       '_tracked_clipper_execute_':({'poly_ops::clipper::execute'},(None,'clipper','operation','tracker'))}
def tree_of(p,k=0):
    """value of the tree parameter on this path"""
    for key,v in p.memo.items():
        if key == ('eq',('arg',k),C(0)) or key == ('eq',C(0),('arg',k)): return not v
    for key,v in p.memo.items():
        if key[0] == 'b' and key[1] == ('arg',k): return bool(v)
    return None
def native31(ck,part='native code'):
    g,m,defs = glue(); need(g,m,defs); consts(ck,part,g)
    for n,(lib,order) in LIB.items():
        par = PAR[n]; alll = {x for a,b in LIB.values() for x in a}
        for f in fns_of(g,n):
            w = where(g,f); ck.saw('native functions',w)
            for p,out in walk(ck,part,g,f):
                if out[0] in ('terminate','unreachable'): continue
                calls = [e for e in p.events if e[0] == 'call' and e[1] in lib]
                other = [e for e in p.events if e[0] == 'call' and e[1].startswith('poly_ops::') and re.search(r'(^|::)(add_\w+|execute|union_op|boolean_op|normalize_op|offset)$',e[1]) and e not in calls]
                if other: ck.undecided(part,'%s uses %s' % (w,other[0][1])); continue
                if len(calls) > 1: ck.fail(part,calls[1][3],'%s: done twice' % w,{'calls':trail(p)}); continue
                if not calls:
                    # nothing is done only if the array is empty or something failed
                    size = [v for k,v in p.memo.items() if k[0] == 'size']
                    done = out[0] == 'ret' and out[1] is not None and out[1] != ('null',)
                    if done: ck.decide(part,w,'nothing is done although the array is not empty and nothing failed',None if not size and 'array' in par else size[:1] == [0],{'calls':trail(p)})
                    continue
                e = calls[0]
                if order[0] is None and len(e[2]) == len(order)-1: e = e[:2]+((None,)+e[2],)+e[3:]      # the result is returned by value
                if len(e[2]) < len(order): ck.undecided(part,'%s: %s has other parameters' % (w,e[1])); continue
                for a,x in zip(order,e[2]):
                    if a is None: continue
                    k = par.index(a)
                    r = boolean(x,k) if a == 'closed' else same(x,k)
                    ck.decide(part,e[3],'%s: the %s given is not what the library is called with' % (w,a),r,{'given to the library':str(x)[:200]},sample='%s: %s' % (short(f['simple']),a))
                if 'tree' in par:
                    t = tree_of(p); mt = re.search(r'7executeILb([01])E',str(e[4]))
                    ck.decide(part,e[3],'%s: the library is asked for %s but the tree parameter is %s' % (w,'a tree' if mt and mt[1] == '1' else 'a list',t),None if t is None or not mt else t == (mt[1] == '1'),sample='%s: tree=%s' % (short(f['simple']),t))
                its = [p.prod[o] for o in p.prod if o[0] == 'iter']
                if 'array' in par and len(its) == 1: ck.decide(part,its[0][3],'%s: the array read is not the one given' % w,same(its[0][1][0],par.index('array')))
def kinds(ck,part,g):
    """what each converter makes: {function: set of kinds}; arguments of the makers are checked on the way"""
    out = {}
    for f in g.fns.values():
        if not in_module(g.cg.get(f['name'],{'file':'','simple':''})) or f['ret'] != 'ptr': continue
        n = short(f['simple'])
        if not any(True for blk in f['blocks'] for i in blk if i['op'] in ('call','invoke') and i['callee'][0] == 'fn' and ('temp_polygon_proxy' in (i['callee'][2] or ''))): continue
        w = where(g,f); got = set()
        for p,o in walk(ck,part,g,f):
            if o[0] != 'ret' or o[1] is None or o[1][0] != 'obj': continue
            def kind(x):
                q = p.prod.get(x)
                if q is None: return 'made by '+short(next((e[1] for e in reversed(p.events) if e[0] == 'call' and e[1].startswith('(anon')),'?'))
                if q[0] == 'vnp_PyArray_NewFromDescr' and q[1][2] == C(2): return 'loop'
                if q[0] == 'PyTuple_New': return 'children'
                if q[0].startswith('make_'): return q[0]
                if q[0] in ('vnp_PyArray_New','vnp_PyArray_SimpleNew','vnp_PyArray_EMPTY','vnp_PyArray_Empty','vnp_PyArray_Zeros'):
                    d = next((t[0] for t in q[2] if t),None)
                    if d is None: return '?'
                    # one more than the number of points
                    return 'offsets' if d[0] == 'op' and d[1] == 'add' and C(1) in d[2:] and any(x[0] == 'call' for x in d[2:]) else 'indices'
                return '?'
            k = kind(o[1])
            if k.startswith('make_'):
                a = p.prod[o[1]][1]
                want = {'make_tracked_loop':('loop','offsets','indices'),'make_recur_loop':('loop','children'),'make_tracked_recur_loop':('loop','children','offsets','indices')}.get(k)
                have = tuple(kind(x) for x in a)
                if want is None or any(h == '?' or h.startswith('made by') for h in have): ck.undecided(part,'%s: %s(%s)' % (w,k,', '.join(have)))
                else: ck.decide(part,p.prod[o[1]][3],'%s: %s is given %s instead of %s' % (w,k,', '.join(have),', '.join(want)),have == want,sample='%s: %s(%s)' % (n,k,', '.join(have)))
            got.add(k)
        out[f['name']] = (n,got,w)
    return out
def native35(ck,part='native code'):
    g,m,defs = glue(); need(g,m,defs); ks = kinds(ck,part,g)
    for n,tracked in (('_clipper_execute_',False),('_tracked_clipper_execute_',True)):
        for f in fns_of(g,n):
            w = where(g,f)
            for p,out in walk(ck,part,g,f):
                t = tree_of(p)
                for e in p.events:
                    if e[0] != 'call' or e[4] not in ks: continue
                    nm,got,cw = ks[e[4]]
                    want = {(False,False):'loop',(True,False):'make_recur_loop',(False,True):'make_tracked_loop',(True,True):'make_tracked_recur_loop'}[(bool(t),tracked)]
                    ck.decide(part,e[3],'%s: results are converted by %s, which gives %s instead of %s' % (w,nm,', '.join(sorted(got)),want),None if t is None or not got or any(x == '?' or x.startswith('made by') for x in got) else got == {want},sample='%s, tree=%s: %s' % (n,t,', '.join(sorted(got))))
    # a converter that gives children converts them like itself
    for name,(nm,got,w) in ks.items():
        if not any('recur' in x for x in got): continue
        for p,out in walk(ck,part,g,g.fns[name]):
            for e in p.events:
                if e[0] == 'call' and e[4] in ks: ck.decide(part,e[3],'%s: children are converted by %s' % (w,ks[e[4]][0]),ks[e[4]][1] == got if ks[e[4]][1] else None,sample='%s: children by %s' % (nm,ks[e[4]][0]))
def native36(ck,part='native code'):
    g,m,defs = glue(); need(g,m,defs)
    pos = {'_clipper_add_loop':3,'_clipper_add_offset':6,'_winding_dir':1}
    for n,k in pos.items():
        for f in fns_of(g,n):
            w = where(g,f); ck.saw('native functions',w)
            for p,out in walk(ck,part,g,f):
                for e in p.events:
                    if e[1] == 'vnp_NpyIter_New': ck.decide(part,e[3],'%s: the array is read with another casting rule than the one given' % w,same(e[2][3],k),{'rule':str(e[2][3])},sample='%s passes the casting rule on' % n)
    for n,k in (('_clipper_execute_',3),('_tracked_clipper_execute_',3)):
        for f in fns_of(g,n):
            w = where(g,f); ck.saw('native functions',w)
            for p,out in walk(ck,part,g,f):
                for e in p.events:
                    if e[0] == 'call' and e[4] in g.own and len(e[2]) == 2: ck.decide(part,e[3],'%s: the result is made with another dtype than the one given' % w,same(e[2][1],k),sample='%s passes the dtype on' % n)
                    if e[1] == 'vnp_PyArray_NewFromDescr': ck.decide(part,e[3],'%s: the result is made with another dtype than the one given' % w,same(e[2][1],k))
    for name,f in g.fns.items():
        if not in_module(g.cg.get(name,{'file':'','simple':''})) or f['ret'] != 'ptr': continue
        w = where(g,f)
        if short(f['simple']) in PAR: continue
        if not any(i['callee'][1] == 'vnp_PyArray_NewFromDescr' for b in f['blocks'] for i in b if i['op'] in ('call','invoke') and i['callee'][0] == 'fn'): continue
        for p,out in walk(ck,part,g,f):
            for e in p.events:
                if e[1] == 'vnp_PyArray_NewFromDescr': ck.decide(part,e[3],'%s: the array is made with another dtype than the one given' % w,same(e[2][1],1),sample='%s uses its dtype' % short(f['simple']))
                if e[0] == 'call' and e[4] in g.own and len(e[2]) == 2: ck.decide(part,e[3],'%s: children are made with another dtype than the one given' % w,same(e[2][1],1))
    for f in fns_of(g,'_casting_converter'):
        w = where(g,f); n = 0
        for p,out in walk(ck,part,g,f):
            if out[0] != 'ret': continue
            ok = [e for e in p.events if e[1] == 'vnp_PyArray_CastingConverter']
            v = p.mem.get((('arg',1),0)); failed = any(i and k[0] == 'fails' for i,_,k in p.made)
            if failed: ck.decide(part,w,'a bad casting rule is not reported',out[1] == C(0) if out[1] and out[1][0] == 'c' else None,sample='failure is reported'); continue
            ck.decide(part,w,'the casting rule is not converted from the object given, or None does not mean same_kind',None if not ok or v is None else v == ('casting of',('arg',0),C(3)),{'rule':str(v)},sample='None means same_kind')
            ck.decide(part,w,'a good casting rule is reported as bad',out[1] != C(0) if out[1] and out[1][0] == 'c' else None)
            n += 1
