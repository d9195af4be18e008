"""The Python module: paths through the Cython functions (P30, P31, P35, P36, P37, P38)."""
import os, ast, re, subprocess, tempfile
from lib import cypath, build
from lib.cypath import C, NONE, Raise, Unsupported, Run, paths
from lib.harness import Check, Inconclusive
from checks import nativeck

PX = 'py/_polyops.pyx'
TECH = 'enumeration of the paths through the functions of the Cython syntax tree with abstract values (flow of every argument to the native calls, not run)'
MAGN = ('in','magnitude'); CAST = ('in','casting'); DT = ('dtobj','dtype')
NATIVE = {'_clipper_add_loop':'add','_clipper_add_offset':'add','_clipper_execute_':'exec','_tracked_clipper_execute_':'exec','_winding_dir':'wind'}

def join(*vs):
    s = frozenset()
    for v in vs:
        if v[0] != 'join': return None
        s |= v[1]
    return ('join',s)
def known(v):
    """is this value fully understood?"""
    if not isinstance(v,tuple) or not v: return True
    if v[0] in ('call','attr','op','global','ext','sub?','truth'): return False
    return all(known(x) for x in v[1:] if isinstance(x,tuple))

class Host:
    """what the functions called from the Cython code do"""
    real = ('magnitude',)
    def getattr(self,r,o,a):
        if o[0] == 'arr':
            if a in ('descr','dtype'): return ('join',frozenset([o]))
            if a == 'ndim': return self.ndim(r,o)
            if a == 'shape': return ('dims',o)
            if a in ('astype','copy','reshape','view'): return ('bound',o,a)
        if o[0] in ('iter','item','dict','tuple','c','in'): return ('bound',o,a)
    def ndim(self,r,o): return C(r.choose(('ndim',o),[2,0,1,3]))
    def dim(self,r,o,i,checked=False):
        n = self.ndim(r,o)[1]
        if i >= n or i < -n:
            if checked: raise Raise(('exc','IndexError'),'no such dimension')
            r.event('dims out of range',o,i,n); return C(2)
        return C(r.choose(('dim',o,i % n),[2,1,3] if i % n == 1 else [5,0,1,2]))
    def index(self,r,o,i):
        if o[0] == 'dims' and i[0] == 'c' and isinstance(i[1],int): return self.dim(r,o[1],i[1])
        return None
    def method(self,r,o,n,args):
        if o[0] in ('cpp','sub'):
            if n == 'callbacks': return ('cb',o)
            if n == 'reset': r.event('reset',o); return NONE
            if n == 'next_orig_i': return ('sub',o,n,'size_t')
            raise Unsupported('method %s of %s' % (n,o[1]))
        if n in ('format','join','append'): return ('call',n,r.fresh('m'))
        r.fails('method '+str(n)); return ('call',n,r.fresh('m'))
    def arr(self,r,x):
        if x[0] == 'arr': return x
        r.fails('conversion to an array'); return ('arr',x)
    def promote(self,r,vals):
        if NONE in vals: raise Unsupported('a promotion of None')
        r.fails('promotion of dtypes')
        j = join(*vals)
        return j if j is not None else ('call','promote',tuple(vals))
    def apply(self,r,g,args,kw):
        if g[0] in ('ext','builtin','bound'):
            n = g[-1]
            if n in ('PyArray_FROM_O','asarray','asanyarray','array','ascontiguousarray') and args: return self.arr(r,args[0])
            if n == 'PyArray_NDIM': return self.ndim(r,args[0])
            if n in ('PyArray_DIMS','PyArray_SHAPE'): return ('dims',args[0])
            if n == 'PyArray_DIM' and args[1][0] == 'c': return self.dim(r,args[0],args[1][1])
            if n == 'PyArray_DESCR': return ('join',frozenset([args[0]]))
            if n == 'PyArray_DescrFromType': return ('dtype','coord')
            if n in ('PyArray_PromoteTypes','promote_types','result_type'): return self.promote(r,args)
            if g[0] == 'builtin':
                if n == 'len' and args[0][0] == 'dims': return self.ndim(r,args[0][1])
                if n == 'len' and args[0][0] == 'tuple': return C(len(args[0][1]))
                if n == 'iter': return args[0]
                if n in ('list','tuple') and args: return ('tuple',tuple(r.iterate(args[0])))
                if n in ('tuple','list'): return ('tuple',())
                if n == 'enumerate': return ('enumerate',args[0])
                if n == 'range' and all(a[0] == 'c' for a in args): return ('range',tuple(a[1] for a in args))
                if n == 'isinstance': return C(r.choose(('isinstance',args[0],r.fresh('i')),[True,False]))
                if n in ('bool',): return C(r.truth(args[0]))
                if n == 'int' and args[0][0] == 'c' and isinstance(args[0][1],(int,bool)): return C(int(args[0][1]))
                if n == 'next': raise Unsupported('next()')
                if n.endswith(('Error','Exception','Warning')): return ('exc',n)
                if n in ('max','min') and all(a[0] == 'c' for a in args): return C((max if n == 'max' else min)(a[1] for a in args))
            r.fails('call of '+str(n))
            return ('call',n,r.fresh('v'))
        return None
    def setref(self,ref,v):
        if ref[0] == 'ref': ref[1][0][ref[1][1]] = v
    def extern(self,r,f,v):
        n = f.name
        exc = getattr(f,'exc',None) is not None or getattr(f,'check',False)
        if n in NATIVE:
            kind = NATIVE[n]
            r.event('native',n,tuple(v))
            ob = f.ret in ('object',None,'')
            if not ob and not exc: raise Unsupported('%s does not return an object' % n)
            r.fails(n)
            if kind == 'add': r.event('added',v[1],v[0]); return NONE
            return ('native',n,r.fresh('r'))
        if n == 'obj_to_dtype_opt':
            if v[0] == NONE: return NONE
            if v[0][0] in ('dtype',): return v[0]
            if v[0] == DT: r.fails(n); return ('dtype',v[0])
            raise Unsupported('a dtype of '+str(v[0])[:60])
        if n == 'PyArray_PromoteTypes': return self.promote(r,v)
        if n == 'PyArray_CanCastTypeTo': return C(r.choose(('can cast',r.fresh('c')),[True,False]))
        if n == '_casting_converter':
            if exc:
                r.fails(n); self.setref(v[1],('casting',v[0])); return C(1)
            bad = r.choose(('bad casting',r.fresh('c')),[False,True])
            self.setref(v[1],('unchecked casting',v[0]) if bad else ('casting',v[0]))
            return C(0 if bad else 1)
        if any(x[0] in ('cpp','sub','cb') for x in v): raise Unsupported('native function %s' % n)
        for x in v:
            if x[0] == 'ref': self.setref(x,('call','out of '+n,r.fresh('o')))
        if exc or f.ret in ('object','dtype','ndarray'): r.fails(n)
        return ('call',n,r.fresh('x'))

def library_values(repo):
    """the numbers behind the enumerations of the library, from its own headers; None if they cannot be had"""
    names = [('bool_op',x) for x in ('union_','intersection','xor_','difference','normalize')]+[('bool_set',x) for x in ('subject','clip')]
    src = '#include "poly_ops/poly_ops.hpp"\n'+''.join('extern "C" const long long verif_%s_%s = static_cast<long long>(poly_ops::%s::%s);\n' % (e,x,e,x) for e,x in names)
    with tempfile.TemporaryDirectory() as t:
        f = os.path.join(t,'v.cpp'); open(f,'w').write(src)
        r = subprocess.run(['clang++-18','-std=c++20','-w','-I',os.path.join(repo,'include'),'-S','-emit-llvm','-O0','-o','-',f],capture_output=True,text=True)
    if r.returncode: return None
    out = {}
    for e,x in names:
        m = re.search(r'@verif_%s_%s = .*constant i64 (-?\d+)' % (e,x),r.stdout)
        if not m: return None
        out['%s_%s' % (e.upper(),x.rstrip('_').upper())] = int(m.group(1))
    return out

class Py:
    def __init__(self,real=False):
        self.repo = build.REPO if hasattr(build,'REPO') else os.environ.get('VERIF_REPO','/repo')
        try: self.m = cypath.Module(cypath.load(self.repo))
        except RuntimeError as e: raise Inconclusive(str(e))
        # the constants of the enumerations get distinct stand-in values; what they stand for is decided on the native side
        self.enums = {}
        for e,names in self.m.enums.items():
            self.enums[e] = {n:i+(10 if 'set' in e else 20) for i,n in enumerate(names)}
        if real:
            lib = library_values(self.repo)
            if lib is None: raise Inconclusive('the values of the enumerations of the library cannot be found')
            for e,names in self.m.enums.items():
                if not any(n in lib for n in names): continue
                self.enums[e] = {n:lib[n] for n in names if n in lib}
                # the one that stands for no operation or set is outside the others, with some distance
                for n in names:
                    if n not in lib: self.enums[e][n] = max(self.enums[e].values())+1
        self.host = Host()
        for n in NATIVE:
            if n not in self.m.externs: raise Inconclusive('native function %s is gone' % n)
    def ops(self): return {n[len('BOOL_OP_'):].lower():v for n,v in self.enums.get('_bool_op',{}).items() if not n.endswith('INVALID')}
    def sets(self): return {n[len('BOOL_SET_'):].lower():v for n,v in self.enums.get('_bool_set',{}).items() if not n.endswith('INVALID')}
    def bad(self,which):
        vals = set(self.enums[which].values()); good = set((self.ops() if which == '_bool_op' else self.sets()).values())
        out = {v for v in vals-good}
        for v in vals: out |= {v-1,v+1,v+(1<<32),v-(1<<32),-v}
        out |= {0,-1,1<<31,-(1<<31),1<<40}
        return sorted(out-good)
    def paths(self,body,limit=20000): return paths(self.m,self.enums,self.host,body,limit)
    def func(self,cls,name):
        if cls is None:
            f = self.m.funcs.get(name)
            return f if f is not None and f.kind == 'def' else None
        return self.m.classes.get(cls,{'methods':{}})['methods'].get(name)
    def where(self,cls,name):
        f = self.func(cls,name)
        return '%s:%d %s' % (PX,f.line if f else 0,(cls+'.' if cls else '')+name)

FREE = ('union','normalize','offset','boolean_op')
ADDS = [a+s for a in ('add_loop','add_loops','add_offset','add_offsets') for s in ('','_subject','_clip')]
CLASSES = ('Clipper','TrackedClipper')

def args_for(name,n,**over):
    """named arguments of a public function or method"""
    kw = {'casting':CAST}
    if name in FREE or name == 'winding_dir' or name == 'execute':
        if name != 'winding_dir': kw['dtype'] = NONE; kw['tree_out'] = C(False)
        if name == 'execute': kw.pop('casting')
        if name in FREE: kw['track_points'] = C(False)
    if name in ('union','normalize','offset') or name.startswith(('add_loops','add_offsets')): kw['loops'] = ('iter','loops',n)
    if name == 'winding_dir' or (name.startswith('add_') and not name.startswith(('add_loops','add_offsets'))): kw['loop'] = ('item','loop',0)
    if name == 'boolean_op': kw['subject'] = ('iter','subject',n); kw['clip'] = ('iter','clip',n)
    if 'offset' in name: kw['magnitude'] = MAGN; kw['arc_step_size'] = C(7); kw['closed'] = C(True)
    kw.update(over)
    return kw
def items(kw):
    """the arrays an adding call is given, in order"""
    out = []
    if 'loop' in kw: out.append(kw['loop'])
    for k in ('loops','subject','clip'):
        if k in kw: out += [('item',k,i) for i in range(kw[k][2])]
    return [('arr',x) for x in out]
def natives(r,kind=None): return [e for e in r.events if e[0] == 'native' and (kind is None or NATIVE[e[1]] == kind)]
def show(out): return out[0] if out[0] == 'return' else 'exception (%s)' % out[2]

def owner(c):
    """the clipper object a native clipper reference belongs to"""
    return c[1] if c[0] == 'sub' and c[2] == 'base' else c
def tracker_ok(pt,c,tracked):
    if not tracked: return True if pt == ('null',) else (None if not known(pt) else False)
    if pt[0] != 'cb': return None if not known(pt) else False
    t = pt[1]
    if c[0] == 'sub': return t[0] == 'sub' and t[1] == owner(c) and t[2] == 'tracker'
    return t[0] == 'cpp' and t[1] == 'point_tracker'

def eq(a,b):
    if a == b: return True
    return None if not known(a) else False

def check_adds(ck,part,where,py,r,out,kw,bset,tracked,casting=True,detail=None):
    """the add events of a path: the arrays given, in order, each once, with the right set, parameters and tracker"""
    adds = natives(r,'add'); want = items(kw)
    for i,e in enumerate(adds):
        n,v,line = e[1],e[2],e[3]
        w = '%s:%d' % (PX,line)
        d = dict(detail or {},path=path_of(r))
        if i >= len(want): ck.fail(part,w,'%s: an array is added that was not given' % where,d); continue
        x = eq(v[1],want[i])
        ck.decide(part,w,'%s: the array added is not the next one given' % where,x,d)
        s = bset(want[i])
        ck.decide(part,w,'%s: array is added to the wrong set' % where,eq(v[2],C(s)),d)
        off = 'offset' in where.split(':')[-1]
        if (n == '_clipper_add_offset') != off: ck.fail(part,w,'%s: %s is used' % (where,n),d)
        elif off:
            ck.decide(part,w,'%s: the magnitude is not passed on' % where,eq(v[3],kw['magnitude']),d)
            ck.decide(part,w,'%s: the arc step size is not passed on' % where,eq(v[4],kw['arc_step_size']),d)
            cl = v[5]
            ck.decide(part,w,'%s: open/closed is not passed on' % where,None if cl[0] != 'c' and not known(cl) else (cl[0] == 'c' and bool(cl[1]) == bool(kw['closed'][1])),d)
        ck.decide(part,w,'%s: the tracker is not the right one' % where,tracker_ok(v[-1],v[0],tracked),d)
    if out[0] == 'return':
        done = [e[1] for e in r.events if e[0] == 'added']
        if len(done) < len(want) and all(known(x) for x in done): ck.fail(part,where,'%s: returns normally but %d of the %d arrays given were added' % (where,len(done),len(want)),dict(detail or {},path=path_of(r)))
    return adds

def path_of(r): return [str(e[:2]) if e[0] != 'native' else e[1]+str(tuple(str(x)[:50] for x in e[2][1:])) for e in r.events if e[0] in ('native','added','reset')][:12]+['choices: '+', '.join('%s=%s' % (str(k[2] if k[0] == 'fails' else k[:2]),k and i) for i,n,k in r.made if i)][:1]

def setfor(py,name,kw):
    s = py.sets()
    def f(arr):
        if name in FREE: return s['clip'] if name == 'boolean_op' and arr[1][1] == 'clip' else s['subject']
        if name.endswith('_subject'): return s['subject']
        if name.endswith('_clip'): return s['clip']
        return kw['bset'][1]
    return f

def invoke(py,run,cls,name,kw,obj=None):
    f = py.func(cls,name)
    if f is None: raise Inconclusive('%s is gone' % (cls+'.' if cls else '')+name)
    if cls is None: return run.call(f,[],kw)
    return run.call(f,[],kw,this=obj)

# ---------------------------------------------------------------- P31
def P31():
    ck = Check('P31','every public function and adding or executing method passes each array it is given, once and in order, to the native code with the set, operation, magnitude, step, open/closed flag and tracker that its name and arguments say',TECH)
    py = Py()
    ops = py.ops(); sets = py.sets()
    if set(sets) != {'subject','clip'} or set(ops) != {'union','intersection','xor','difference','normalize'}: raise Inconclusive('the sets or operations have changed')
    # the Python enumerations have members named like the constants they stand for
    for cls,want in (('BoolOp',ops),('BoolSet',sets)):
        g = py.m.pyclasses.get(cls)
        if g is None: raise Inconclusive(cls+' is gone')
        r = Run(py.m,[],py.enums,py.host)
        for n,v in want.items():
            if n not in g['members']: ck.fail('constants','%s:%d %s' % (PX,g['line'],cls),'there is no member %s' % n); continue
            try: x = r.ev(g['members'][n],({},{},None))
            except Unsupported as e: ck.undecided('constants',str(e)); continue
            ck.decide('constants','%s:%d %s' % (PX,g['line'],cls),'%s.%s does not stand for %s' % (cls,n,n),eq(x,C(v)),str(x),sample='%s.%s' % (cls,n))
    def scenario(part,cls,name,kw,tracked,start=()):
        where = py.where(cls,name)
        ck.saw('functions',where)
        def body(r):
            o = r.construct(cls,[],{}) if cls else None
            r.base = (o,)
            for nm,k in start: invoke(py,r,cls,nm,k,o)
            r.events.clear()
            return invoke(py,r,cls,name,kw,o)
        n = 0
        try:
            for r,out in py.paths(body):
                n += 1
                yield r,out,where
        except Unsupported as e: ck.undecided(part,'%s: %s' % (where,e))
        if n: ck.ok(part,n,'%s: %d paths' % (where,n))
    def execs(part,where,r,out,op,tree,tracked,adds,any_given):
        ex = natives(r,'exec')
        for e in ex:
            v = e[2]; w = '%s:%d' % (PX,e[3]); d = {'path':path_of(r)}
            ck.decide(part,w,'%s: runs %s' % (where,e[1]),(e[1] == '_tracked_clipper_execute_') == tracked,d)
            ck.decide(part,w,'%s: another operation is run' % where,eq(v[2],C(op)),d)
            ck.decide(part,w,'%s: the flag for a tree is not passed on' % where,None if v[0][0] != 'c' else bool(v[0][1]) == tree,d)
            for a in adds:
                if a[2][0] != v[1]: ck.fail(part,w,'%s: polygons are added to one clipper and another is run' % where,d)
                if tracked and e[1] == '_tracked_clipper_execute_' and a[2][-1][0] == 'cb' and a[2][-1][1] != v[4]: ck.fail(part,w,'%s: points are tracked by one tracker and another is used for the operation' % where,d)
            if tracked and e[1] == '_tracked_clipper_execute_' and v[1][0] == 'sub': ck.decide(part,w,'%s: the tracker is not the one of the clipper' % where,v[4][0] == 'sub' and v[4][1] == owner(v[1]) and v[4][2] == 'tracker',d)
        if out[0] == 'return':
            if any_given:
                if len(ex) != 1: ck.fail(part,where,'%s: the operation is run %d times' % (where,len(ex)),{'path':path_of(r)})
                else: ck.decide(part,where,'%s: the result is not what the native code returned' % where,out[1][0] == 'native' if known(out[1]) else None,{'result':str(out[1])})
    for name in FREE:
        ol = ops.items() if name == 'boolean_op' else [('union' if name == 'offset' else name,ops['union' if name == 'offset' else name])]
        for on,ov in ol:
            for tree in (False,True):
                for track in (False,True):
                    for n in (0,1,2):
                        for closed in ((True,False) if name == 'offset' and n == 1 else (True,)):
                            over = dict(tree_out=C(tree),track_points=C(track))
                            if name == 'boolean_op': over['op'] = C(ov)
                            if name == 'offset': over['closed'] = C(closed)
                            kw = args_for(name,n,**over)
                            for r,out,where in scenario('functions',None,name,kw,track):
                                adds = check_adds(ck,'functions',where,py,r,out,kw,setfor(py,name,kw),track)
                                execs('functions',where,r,out,ov,tree,track,adds,n > 0)
    for cls in CLASSES:
        tracked = cls == 'TrackedClipper'
        for name in ADDS:
            for bs in (list(sets.values()) if name in ('add_loop','add_loops','add_offset','add_offsets') else [None]):
                for closed in ((True,False) if 'offset' in name else (True,)):
                    over = {}
                    if bs is not None: over['bset'] = C(bs)
                    if 'offset' in name: over['closed'] = C(closed)
                    kw = args_for(name,2,**over)
                    for r,out,where in scenario('adding methods',cls,name,kw,tracked):
                        adds = check_adds(ck,'adding methods',where,py,r,out,kw,setfor(py,name,kw),tracked)
                        own = r.heap.get((r.base[0],'_clip'))
                        for a in adds:
                            if own is not None: ck.decide('adding methods','%s:%d' % (PX,a[3]),'%s: polygons are not added to the clipper of the object' % where,owner(a[2][0]) == own,{'path':path_of(r)})
        for on,ov in ops.items():
            for tree in (False,True):
                kw = args_for('execute',0,op=C(ov),tree_out=C(tree))
                first = ('add_loop_subject',args_for('add_loop_subject',1))
                for r,out,where in scenario('executing methods',cls,'execute',kw,tracked,[first]):
                    own = r.heap.get((r.base[0],'_clip'))
                    if not r.events and out[0] == 'raise': continue
                    execs('executing methods',where,r,out,ov,tree,tracked,[],True)
                    for e in natives(r,'exec'):
                        if own is not None: ck.decide('executing methods','%s:%d' % (PX,e[3]),'%s: another clipper is run' % where,owner(e[2][1]) == own)
        # next_orig_i
    cls = 'TrackedClipper'
    g = py.func(cls,'next_orig_i.getter'); s = py.func(cls,'next_orig_i.setter')
    if g is None or s is None: ck.undecided('next_orig_i','no property next_orig_i')
    else:
        where = py.where(cls,'next_orig_i.getter')
        try:
            for r,out in py.paths(lambda r: r.call(g,[],{},this=r.construct(cls,[],{}))):
                v = out[1]
                ck.decide('next_orig_i',where,'reading next_orig_i does not give the counter of the clipper',out[0] == 'return' and v[0] == 'sub' and v[2] == 'next_orig_i' if out[0] == 'return' and known(v) else None if out[0] == 'return' else False,str(out))
            def body(r):
                o = r.construct(cls,[],{}); r.o = o
                return r.call(s,[('in','val')],{},this=o)
            for r,out in py.paths(body):
                st = [e for e in r.events if e[0] == 'store']
                if out[0] == 'return': ck.decide('next_orig_i',py.where(cls,'next_orig_i.setter'),'setting next_orig_i does not set the counter of the clipper',len(st) == 1 and st[0][1][2] == 'next_orig_i' and st[0][2] == ('in','val') and owner(st[0][1][1]) == r.heap.get((r.o,'_clip')),str(st))
                else: ck.ok('next_orig_i')
        except Unsupported as e: ck.undecided('next_orig_i',e)
    nativeck.native31(ck)
    return ck

# ---------------------------------------------------------------- P30
def P30():
    ck = Check('P30','with a selector other than the documented constants no path of any public function reaches the native code with that value, and a method raises before it changes its clipper',TECH)
    py = Py()
    def go(part,cls,name,kw,bad,arg,start=()):
        where = py.where(cls,name)
        ck.saw('functions',where)
        def body(r):
            o = r.construct(cls,[],{}) if cls else None
            for nm,k in start: invoke(py,r,cls,nm,k,o)
            r.events.clear(); r.started = True
            return invoke(py,r,cls,name,kw,o)
        try:
            for r,out in py.paths(body):
                if not getattr(r,'started',False): continue
                for e in natives(r):
                    v = e[2][2]
                    if NATIVE[e[1]] == 'exec' or (NATIVE[e[1]] == 'add' and arg == 'bset'):
                        if v == C(bad): ck.fail(part,'%s:%d' % (PX,e[3]),'%s: the value %d of %s, which is no constant, reaches %s' % (where,bad,arg,e[1]),{'path':path_of(r)})
                        elif NATIVE[e[1]] == 'exec' or known(v): ck.fail(part,'%s:%d' % (PX,e[3]),'%s: with the value %d of %s, which is no constant, %s is called' % (where,bad,arg,e[1]),{'path':path_of(r)})
                        else: ck.undecided(part,'%s: a selector of unknown origin' % where)
                if out[0] == 'return' and (name != 'execute' or start): ck.fail(part,where,'%s: the value %d of %s, which is no constant, is accepted' % (where,bad,arg),{'path':path_of(r)})
                if cls is not None and (natives(r) or any(e[0] in ('reset','setattr','store') for e in r.events)):
                    ck.fail(part,where,'%s: with the value %d of %s, which is no constant, the clipper object is changed before the exception' % (where,bad,arg),{'events':[str(e)[:100] for e in r.events][:6],'path':path_of(r)})
                ck.ok(part,1,'%s(%s=%d)' % (where,arg,bad))
        except Unsupported as e: ck.undecided(part,'%s: %s' % (where,e))
    # once with the numbers the library gives its constants (code may compute with them), once with others (that tell operations and sets apart)
    for real in (False,True):
      py = Py(real)
      for bad in py.bad('_bool_op'):
        for track in (False,True):
            go('operations',None,'boolean_op',args_for('boolean_op',1,op=C(bad),track_points=C(track)),bad,'op')
        for cls in CLASSES:
            go('operations',cls,'execute',args_for('execute',0,op=C(bad)),bad,'op',[('add_loop_subject',args_for('add_loop_subject',1))])
      for bad in py.bad('_bool_set'):
        for cls in CLASSES:
            for name in ('add_loop','add_loops','add_offset','add_offsets'):
                go('sets',cls,name,args_for(name,1,bset=C(bad)),bad,'bset')
                go('sets',cls,name,args_for(name,1,bset=C(bad)),bad,'bset',[('add_loop_subject',args_for('add_loop_subject',1))])
    return ck

# ---------------------------------------------------------------- P36
def P36():
    ck = Check('P36','each array is read with the casting rule of the call; an operation gets the dtype asked for, or else the promotion of exactly the arrays added to the clipper since it was new, last run or reset, also after calls that failed half-way',TECH)
    py = Py(); ops = py.ops(); sets = py.sets(); OP = C(ops['union'])
    def castings(part,where,r):
        for e in natives(r):
            if NATIVE[e[1]] == 'exec': continue
            v = e[2][1] if NATIVE[e[1]] == 'wind' else e[2][-2]
            x = eq(v,('casting',CAST))
            if x is None and re.search(r"'NPY_\w*CASTING'",str(v)) and not isinstance(v[0],tuple) and v[0] in ('ext','attr','global'): x = False       # one of NumPy's constants
            ck.decide(part,'%s:%d' % (PX,e[3]),'%s: an array is read with another casting rule than the one given' % where,x,{'casting':str(v),'path':path_of(r)})
    # functions
    for name in FREE+('winding_dir',):
        for dt in ((NONE,DT) if name != 'winding_dir' else (NONE,)):
            for track in ((False,True) if name != 'winding_dir' else (False,)):
                for n in (0,1,2):
                    over = dict(dtype=dt,track_points=C(track)) if name != 'winding_dir' else {}
                    if name == 'boolean_op': over['op'] = OP
                    kw = args_for(name,n,**over); where = py.where(None,name)
                    ck.saw('functions',where)
                    try:
                        for r,out in py.paths(lambda r: invoke(py,r,None,name,kw)):
                            castings('functions',where,r)
                            added = frozenset(e[1] for e in r.events if e[0] == 'added')
                            want = ('dtype',DT) if dt == DT else ('join',added)
                            for e in natives(r,'exec'): ck.decide('functions','%s:%d' % (PX,e[3]),'%s: the result does not get the dtype asked for or promoted from all arrays' % where,eq(e[2][3],want),{'dtype':str(e[2][3]),'expected':str(want),'path':path_of(r)})
                            if out[0] == 'return' and not natives(r): ck.decide('functions',where,'%s: the result of nothing is not an empty tuple' % where,eq(out[1],('tuple',())),str(out))
                            ck.ok('functions',1,'%s: %s' % (where,show(out)))
                    except Unsupported as e: ck.undecided('functions','%s: %s' % (where,e))
    # histories of the clipper objects: every method from every kind of state, then what an operation would be given
    for cls in CLASSES:
        for name in ADDS+['reset','execute']:
            where = py.where(cls,name)
            ck.saw('methods',where)
            for first in (0,1):
                for dt in ((NONE,DT) if name == 'execute' else (NONE,)):
                    over = {}
                    if name in ('add_loop','add_loops','add_offset','add_offsets'): over['bset'] = C(sets['subject'])
                    if name == 'execute': over = dict(op=OP,dtype=dt)
                    kw = {} if name == 'reset' else args_for(name,2,**over)
                    def body(r):
                        o = r.construct(cls,[],{}); r.stage = 0
                        if first: invoke(py,r,cls,'add_loop_subject',{'loop':('item','first',0),'casting':CAST},o)
                        r.stage = 1
                        try: r.out = ('return',invoke(py,r,cls,name,kw,o))
                        except Raise as e: r.out = ('raise',e.v,e.how)
                        r.stage = 2; r.mark = len(r.events)
                        r.state = norm(r,o)
                        return invoke(py,r,cls,'execute',dict(op=OP,dtype=NONE,tree_out=C(False)),o)
                    try:
                        for r,out in py.paths(body):
                            if r.stage < 2: continue
                            castings('histories',where,r)
                            cur = set(); ex = []
                            for i,e in enumerate(r.events):
                                if e[0] == 'added': cur.add(e[1])
                                elif e[0] == 'native' and NATIVE[e[1]] == 'exec': ex.append((i,e,frozenset(cur)))
                                elif e[0] == 'reset': cur = set()
                            w = '%s, %s; then execute' % ('after one polygon' if first else 'new object',where)
                            d = {'call':show(r.out),'path':path_of(r)}
                            for i,e,c in ex:
                                want = ('dtype',DT) if dt == DT and i < r.mark else ('join',c)
                                ck.decide('histories','%s:%d' % (PX,e[3]),'%s: the result does not get the dtype asked for or promoted from the arrays added' % w,eq(e[2][3],want),dict(d,dtype=str(e[2][3]),expected=str(want)))
                                if not c: ck.fail('histories','%s:%d' % (PX,e[3]),'%s: an operation is run with nothing added' % w,d)
                            last = [x for x in ex if x[0] >= r.mark]
                            if out[0] == 'return' and not last:
                                if cur: ck.fail('histories',where,'%s: %d arrays were added, and then an operation returns without being run' % (w,len(cur)),d)
                                else: ck.decide('histories',where,'%s: the result of nothing is not an empty tuple' % w,eq(out[1],('tuple',())),d)
                            if name == 'execute' and r.out[0] == 'return' and ex and ex[0][0] < r.mark:
                                if not any(e[0] == 'reset' for e in r.events[ex[0][0]:r.mark]): ck.fail('histories',where,'%s: the clipper is not reset after the operation' % w,d)
                            if name == 'reset' and r.out[0] == 'return' and not any(e[0] == 'reset' for e in r.events[:r.mark]): ck.fail('histories',where,'%s: the native clipper is not reset' % w,d)
                            known_states = STATES.setdefault((cls,),set())
                            ck.ok('histories',1,'%s: %s' % (w,show(r.out)))
                            if ck.fails: continue
                            want = 1 if (frozenset(r.events_added(r.mark)) if hasattr(r,'events_added') else added_at(r,r.mark)) else 0
                            ref = ref_state(py,cls,want)
                            ck.decide('induction',where,'state of the object after %s' % w,True if r.state == ref else None,sample='the state after %s is the one of %s' % (w,('a new object','an object with something added')[want]))
                    except Unsupported as e: ck.undecided('histories','%s: %s' % (where,e))
    ck.assume('histories longer than two calls follow by induction: after every call the object is in the state of a new one or of one with something added (part induction)')
    nativeck.native36(ck)
    return ck
STATES = {}
def added_at(r,mark):
    cur = set()
    for e in r.events[:mark]:
        if e[0] == 'added': cur.add(e[1])
        elif e[0] == 'reset': cur = set()
    return cur
def norm(r,o):
    """the attributes of the object, with promoted dtypes and native objects made anonymous"""
    def n(v):
        if v[0] == 'join': return ('join','*')
        if v[0] in ('cpp','obj'): return v[:2]
        return v
    return tuple(sorted((a,str(n(v))) for (x,a),v in r.heap.items() if x == o and v != NONE))
REF = {}
def ref_state(py,cls,k):
    if (cls,k) not in REF:
        r = Run(py.m,[],py.enums,py.host)
        o = r.construct(cls,[],{})
        if k: invoke(py,r,cls,'add_loop_subject',{'loop':('item','first',0),'casting':CAST},o)
        REF[(cls,k)] = norm(r,o)
    return REF[(cls,k)]

# ---------------------------------------------------------------- P37
def P37():
    ck = Check('P37','no path from a public function reaches a native call that reads an array with an array that is not two-dimensional with two columns, or with an arc step size below one; arrays and sizes that are fine are accepted',TECH)
    py = Py(); OP = C(py.ops()['union']); S = C(py.sets()['subject'])
    def one(cls,name,steps):
        where = py.where(cls,name)
        ck.saw('functions',where)
        for step,closed in [(s,c) for s in steps for c in ((True,False) if s is not None else (True,))]:
            for n in (1,2):
                for track in ((False,True) if name in FREE else (False,)):
                    over = {} if step is None else {'closed':C(closed)}
                    if name in FREE: over['track_points'] = C(track)
                    if name == 'boolean_op': over['op'] = OP
                    if name in ('add_loop','add_loops','add_offset','add_offsets'): over['bset'] = S
                    if step is not None: over['arc_step_size'] = C(step)
                    kw = args_for(name,n,**over)
                    def body(r):
                        o = r.construct(cls,[],{}) if cls else None
                        return invoke(py,r,cls,name,kw,o)
                    clean = False
                    try:
                        for r,out in py.paths(body):
                            for e in r.events:
                                if e[0] == 'dims out of range': ck.fail('arrays','%s:%d' % (PX,e[-1]),'%s: dimension %d of an array with %d dimensions is read' % (where,e[2],e[3]),{'path':path_of(r)})
                            for e in natives(r):
                                k = NATIVE[e[1]]
                                if k == 'exec': continue
                                ar = e[2][0] if k == 'wind' else e[2][1]
                                if ar[0] != 'arr': ck.undecided('arrays','%s: array of unknown origin' % where); continue
                                # a path that has not looked at a dimension stands for all its values
                                nd = r.memo.get(('ndim',ar)); dm = r.memo.get(('dim',ar,1))
                                ck.decide('arrays','%s:%d' % (PX,e[3]),'%s: an array that %s reaches %s' % (where,'has %s dimensions' % ('any number of' if nd is None else nd) if nd != 2 else 'has %s columns' % ('any number of' if dm is None else dm),e[1]),nd == 2 and dm == 2,{'path':path_of(r)})
                                if e[1] == '_clipper_add_offset': ck.decide('step sizes','%s:%d' % (PX,e[3]),'%s: the arc step size %s reaches %s' % (where,e[2][4],e[1]),None if e[2][4][0] != 'c' else e[2][4][1] >= 1,{'path':path_of(r)})
                            if out[0] == 'return': clean = True
                            # nothing was wrong with the input, no call failed, and yet it is refused
                            if out[0] == 'raise' and not any(i and (k[0] in ('fails','iter fails','can cast','bad casting','truth','none','same','cmp','isinstance') or (k[0] == 'ndim') or (k[0] == 'dim' and k[2] == 1)) for i,_,k in r.made) and (step is None or step >= 1):
                                ck.fail('accepts','%s' % where,'%s: arrays of two columns%s are refused' % (where,'' if step is None else ' with arc step size %d' % step),{'how':out[2],'choices':[str((k,i)) for i,_,k in r.made][:8]})
                            ck.ok('arrays',1,'%s: %s' % (where,show(out)))
                    except Unsupported as e: ck.undecided('arrays','%s: %s' % (where,e)); continue
                    if step is None or step >= 1: ck.decide('accepts',where,'%s accepts no array' % where,clean,sample='%s step %s closed %s' % (where,step,closed))
    OFF = (1,2,7,2**31-1,0,-1,-2**31)
    for name in ('union','normalize','boolean_op','winding_dir'): one(None,name,(None,))
    one(None,'offset',OFF)
    for cls in CLASSES:
        for name in ADDS: one(cls,name,OFF if 'offset' in name else (None,))
    return ck

# ---------------------------------------------------------------- P35
def P35():
    ck = Check('P35','the flags for a tree and for tracking select the native function and flag, and the functions that build the result tuples build the documented tuple with each field in its place',TECH)
    py = Py(); ops = py.ops()
    for name in FREE:
        for tree in (False,True):
            for track in (False,True):
                over = dict(tree_out=C(tree),track_points=C(track))
                if name == 'boolean_op': over['op'] = C(ops['xor'])
                kw = args_for(name,1,**over); where = py.where(None,name); ck.saw('functions',where)
                try:
                    for r,out in py.paths(lambda r: invoke(py,r,None,name,kw)):
                        flags(ck,where,r,out,tree,track)
                except Unsupported as e: ck.undecided('flags','%s: %s' % (where,e))
    for cls in CLASSES:
        for tree in (False,True):
            kw = args_for('execute',0,op=C(ops['xor']),tree_out=C(tree)); where = py.where(cls,'execute'); ck.saw('functions',where)
            def body(r):
                o = r.construct(cls,[],{})
                invoke(py,r,cls,'add_loop_subject',args_for('add_loop_subject',1),o)
                return invoke(py,r,cls,'execute',kw,o)
            try:
                for r,out in py.paths(body): flags(ck,where,r,out,tree,cls == 'TrackedClipper')
            except Unsupported as e: ck.undecided('flags','%s: %s' % (where,e))
    fields = {}
    for n,want in (('TrackedLoop',('loop','originals')),('RecursiveLoop',('loop','children')),('TrackedRecursiveLoop',('loop','children','originals'))):
        a = py.m.assigns.get(n)
        f = nt_fields(a[2]) if a and a[2] is not None else None
        if f is None: ck.undecided('tuples','definition of %s not understood' % n)
        else:
            fields[n] = f[1]
            ck.decide('tuples','%s:%d' % (PX,a[2]['l']),'%s has the fields %s' % (n,' '.join(f[1])),f[1] == want,sample=n)
            ck.decide('tuples','%s:%d' % (PX,a[2]['l']),'%s is named %s' % (n,f[0]),f[0] == n)
    L,CH,OF,IX = ('in','loop'),('in','children'),('in','offsets'),('in','indices')
    for fn,args,cls,want in (('make_tracked_loop',[L,OF,IX],'TrackedLoop',{'loop':L,'originals':'map'}),('make_recur_loop',[L,CH],'RecursiveLoop',{'loop':L,'children':CH}),('make_tracked_recur_loop',[L,CH,OF,IX],'TrackedRecursiveLoop',{'loop':L,'children':CH,'originals':'map'})):
        f = py.m.funcs.get(fn)
        if f is None: raise Inconclusive(fn+' is gone')
        where = '%s:%d %s' % (PX,f.line,fn); ck.saw('functions',where)
        got = 0
        try:
            for r,out in py.paths(lambda r: r.call(f,args,{})):
                if out[0] != 'return': ck.ok('builders'); continue
                v = out[1]
                if v[0] != 'nt': ck.decide('builders',where,'%s does not return a tuple of the documented type' % fn,None if not known(v) else False,str(v)); continue
                got += 1
                ck.decide('builders',where,'%s builds a %s' % (fn,v[1]),v[1] == cls)
                if v[1] != cls or cls not in fields: continue
                vals = dict(zip(fields[cls],v[2])); vals.update(dict(v[3]))
                for k,w in want.items():
                    x = vals.get(k)
                    if x is None: ck.fail('builders',where,'%s: no value for %s' % (fn,k)); continue
                    if w == 'map':
                        ok = x[0] == 'obj' and x[1] == 'PointMap' and r.heap.get((x,'offsets')) == OF and r.heap.get((x,'indices')) == IX
                        ck.decide('builders',where,'%s: originals is not the map of the offsets and indices given' % fn,ok if known(x) else None,str(x))
                    else: ck.decide('builders',where,'%s: the field %s has another value' % (fn,k),eq(x,w),str(x))
            if not got: ck.undecided('builders','%s never returns a tuple' % fn)
        except Unsupported as e: ck.undecided('builders','%s: %s' % (where,e))
    overloads(ck,py)
    nativeck.native35(ck)
    return ck
def overloads(ck,py):
    """the result types the stubs promise for each value of the flags"""
    sp = os.path.join(py.repo,'py','__init__.pyi')
    try: stub = ast.parse(open(sp).read())
    except (OSError,SyntaxError) as e: raise Inconclusive('stubs: %s' % e)
    want = {(False,False):'PointArray',(True,False):'RecursiveLoop',(False,True):'TrackedLoop',(True,True):'TrackedRecursiveLoop'}
    def lit(f,n):
        for a in f.args.args+f.args.kwonlyargs:
            if a.arg == n and isinstance(a.annotation,ast.Subscript) and isinstance(a.annotation.slice,ast.Constant): return a.annotation.slice.value
    def visit(fs,name,tracked):
        seen = {}
        for f in fs:
            tr = lit(f,'tree_out'); tk = lit(f,'track_points') if tracked is None else tracked
            if tr is None or tk is None: ck.undecided('stubs','overload of %s in line %d' % (name,f.lineno)); continue
            r = ast.unparse(f.returns).replace(' ','') if f.returns else ''
            ck.decide('stubs','py/__init__.pyi:%d' % f.lineno,'%s with tree_out=%s, tracked=%s is declared to return %s' % (name,tr,tk,r),True if r == 'tuple[%s,...]' % want[(tr,tk)] else False if [x for x in want.values() if re.search(r'\b%s\b' % x,r)] else None,sample='%s %s %s' % (name,tr,tk))
            if (tr,tk) in seen: ck.fail('stubs','py/__init__.pyi:%d' % f.lineno,'%s has two declarations for tree_out=%s, tracked=%s' % (name,tr,tk))
            seen[(tr,tk)] = f
        for k in want:
            if (tracked is None or k[1] == tracked) and k not in seen and len(seen) < len(fs): ck.undecided('stubs','%s for tree_out=%s, tracked=%s' % (name,*k))
            elif (tracked is None or k[1] == tracked) and k not in seen: ck.fail('stubs','py/__init__.pyi','%s is not declared for tree_out=%s, tracked=%s' % (name,*k))
    fs = {}
    for n in stub.body:
        if isinstance(n,ast.FunctionDef): fs.setdefault(n.name,[]).append(n)
        if isinstance(n,ast.ClassDef) and n.name in CLASSES: visit([x for x in n.body if isinstance(x,ast.FunctionDef) and x.name == 'execute'],n.name+'.execute',n.name == 'TrackedClipper')
    for n in FREE: visit(fs.get(n,[]),n,None)
def flags(ck,where,r,out,tree,track):
    for e in natives(r,'exec'):
        v = e[2]; w = '%s:%d' % (PX,e[3])
        ck.decide('flags',w,'%s: with tree=%s tracked=%s, %s is called' % (where,tree,track,e[1]),(e[1] == '_tracked_clipper_execute_') == track,{'path':path_of(r)},sample='%s tree=%s tracked=%s' % (where,tree,track))
        ck.decide('flags',w,'%s: with tree=%s the native code is told %s' % (where,tree,v[0]),None if v[0][0] != 'c' else bool(v[0][1]) == tree,{'path':path_of(r)})
    if out[0] == 'return' and natives(r,'exec'): ck.decide('flags',where,'%s: the result is not what the native code returned' % where,out[1][0] == 'native' if known(out[1]) else None,str(out))
def nt_fields(x):
    """type name and field names of a namedtuple call"""
    if x['k'] not in ('SimpleCallNode','GeneralCallNode'): return None
    a = x['args'] if x['k'] == 'SimpleCallNode' else (x.get('positional_args') or {}).get('args') or []
    if len(a) < 2 or a[0]['k'] not in ('UnicodeNode','IdentifierStringNode'): return None
    s = a[1]
    if s['k'] in ('UnicodeNode','IdentifierStringNode'): return a[0]['value'],tuple(s['value'].replace(',',' ').split())
    if s['k'] in ('TupleNode','ListNode'):
        v = [i.get('value') if i['k'] != 'TupleNode' else i['args'][0].get('value') for i in s['args']]
        if all(v): return a[0]['value'],tuple(v)
    return None

# ---------------------------------------------------------------- P38
def sig_stub(f):
    a = f.args; out = []
    pos = a.posonlyargs+a.args; d = [None]*(len(pos)-len(a.defaults))+list(a.defaults)
    for x,df in zip(pos,d): out.append((x.arg,'pos' if x in a.posonlyargs else 'any',df is not None,df))
    if a.vararg: out.append((a.vararg.arg,'*',False,None))
    for x,df in zip(a.kwonlyargs,a.kw_defaults): out.append((x.arg,'kw',df is not None,df))
    if a.kwarg: out.append((a.kwarg.arg,'**',False,None))
    return out
def sig_mod(f):
    out = []
    for i,p in enumerate(f.params):
        if i == len([q for q in f.params if not q.kw]) and f.star[0]: out.append((f.star[0].get('name') or '*','*',False,None))
        out.append((p.name,'kw' if p.kw else 'pos' if i < f.posonly else 'any',p.default is not None,p.default))
    return out
def literal(x):
    """value of a default in the stubs (None: not said)"""
    if isinstance(x,ast.Constant) and x.value is not Ellipsis: return (x.value,)
    return None
def documented(path):
    """{(class or None, name): (line, ast.FunctionDef)} of the signatures in the reference documentation"""
    try: lines = open(path).read().split('\n')
    except OSError: return None
    out = {}; cls = None
    for k,l in enumerate(lines):
        x = re.match(r'(\s*)\.\. py:(class|function|method)::\s*(.*?)\s*$',l)
        if not x: continue
        if x[2] == 'class': cls = re.match(r'\w+',x[3])[0]; continue
        if not x[1]: cls = None
        if '(' not in x[3]: continue
        try: d = ast.parse('def %s: ...' % x[3]).body[0]
        except SyntaxError: continue
        out[(cls if x[2] == 'method' else None,d.name)] = (k+1,d)
    return out
def P38():
    ck = Check('P38','the public names of the module and of the stubs are the same; functions and methods have the same parameters in the same order, of the same kind, with and without default alike; classes have the same methods, properties, attributes, fields and members; the documented signatures and defaults are the real ones','comparison of the syntax tree of the stubs and of the documented signatures with the syntax tree of the Cython module')
    py = Py(); m = py.m
    sp = os.path.join(py.repo,'py','__init__.pyi')
    try: stub = ast.parse(open(sp).read())
    except (OSError,SyntaxError) as e: raise Inconclusive('stubs: %s' % e)
    PI = 'py/__init__.pyi'
    ip = os.path.join(py.repo,'py','__init__.py')
    init = ast.parse(open(ip).read())
    star = [n for n in init.body if isinstance(n,ast.ImportFrom) and n.module == '_polyops' and n.level == 1]
    names = None
    for n in star:
        if any(a.name == '*' for a in n.names): names = 'all'
        elif names != 'all': names = (names or set())|{a.asname or a.name for a in n.names}
    if names is None: ck.undecided('names','py/__init__.py does not import from the module in a known way'); names = 'all'
    public = {}
    for n,f in m.funcs.items():
        if f.kind == 'def' and f.mod == '_polyops': public[n] = ('function',f)
    for n,c in m.classes.items(): public[n] = ('class',c)
    for n,c in m.pyclasses.items(): public[n] = ('enum',c)
    for n,(k,t,r) in m.assigns.items():
        if k == 'py' and r is not None and nt_fields(r): public[n] = ('tuple',nt_fields(r)[1])
    public = {n:v for n,v in public.items() if not n.startswith('_')}
    al = m.assigns.get('__all__')
    if al and al[2] is not None and al[2]['k'] in ('ListNode','TupleNode'):
        listed = {i.get('value') for i in al[2]['args']}
        for n in list(public):
            if n not in listed: del public[n]
    if names != 'all':
        for n in list(public):
            if n not in names: del public[n]
    sfun = {}; scls = {}
    for n in stub.body:
        if isinstance(n,ast.FunctionDef): sfun.setdefault(n.name,[]).append(n)
        elif isinstance(n,ast.ClassDef): scls[n.name] = n
    for n in sorted(set(sfun)|set(scls)):
        l = (sfun[n][0] if n in sfun else scls[n]).lineno
        ck.decide('names','%s:%d' % (PI,l),'%s is declared in the stubs but not in the module' % n,n in public,sample=n)
    for n,(k,v) in sorted(public.items()):
        ck.decide('names',PX,'%s is in the module but not in the stubs' % n,n in sfun or n in scls)
    def compare(part,name,stubs,f,special=False):
        sm = sig_mod(f)
        ck.saw('signatures',name)
        if special:
            for s in stubs: ck.decide(part,'%s:%d' % (PI,s.lineno),'%s has %d parameters in the stubs and %d in the module' % (name,len(sig_stub(s)),len(sm)),len(sig_stub(s)) == len(sm),sample=name)
            return
        for s in stubs:
            ss = sig_stub(s); w = '%s:%d' % (PI,s.lineno)
            # parameters for keywords have no order
            a = [x[0] for x in ss if x[1] != 'kw']; b = [x[0] for x in sm if x[1] != 'kw']
            ck.decide(part,w,'%s takes (%s) in the stubs and (%s) in the module' % (name,', '.join(a),', '.join(b)),a == b,sample=name)
            a = {x[0] for x in ss if x[1] == 'kw'}; b = {x[0] for x in sm if x[1] == 'kw'}
            ck.decide(part,w,'%s takes the keywords (%s) in the stubs and (%s) in the module' % (name,', '.join(sorted(a)),', '.join(sorted(b))),a == b)
            mod = {x[0]:x for x in sm}
            for x in ss:
                y = mod.get(x[0])
                if y is None: continue
                ck.decide(part,w,'the parameter %s of %s %s in the stubs and %s in the module' % (x[0],name,'has a default' if x[2] else 'has no default','has one' if y[2] else 'has none'),x[2] == y[2])
                if x[1] != y[1] and 'kw' not in (x[1],y[1]): ck.fail(part,w,'the parameter %s of %s is of another kind' % (x[0],name))
                lit = literal(x[3]) if x[2] else None
                if lit is not None and y[2]:
                    r = Run(m,[],py.enums,py.host)
                    try: v = r.coerce(r.ev(y[3],({},{},None)),None)
                    except Unsupported: continue
                    if v[0] == 'c': ck.decide(part,w,'the parameter %s of %s defaults to %r in the stubs and to %r in the module' % (x[0],name,lit[0],v[1]),v[1] == lit[0])
    # the reference documentation, where it gives the signature
    DOC = 'doc/py/polyops.rst'
    doc = documented(os.path.join(py.repo,DOC))
    if doc is None: ck.undecided('documentation','%s is not there' % DOC); doc = {}
    def against_doc(name,d,f):
        line,s = d
        a = sig_stub(s); b = sig_mod(f); w = '%s:%d' % (DOC,line)
        a = [x for x in a if x[0] != 'self']; b = [x for x in b if x[0] != 'self']
        for what,i in (('positional parameters',lambda x: x[1] != 'kw'),('keyword parameters',lambda x: x[1] == 'kw')):
            u = [x[0] for x in a if i(x)]; v = [x[0] for x in b if i(x)]
            ck.decide('documentation',w,'%s has the %s (%s) in the documentation and (%s) in the module' % (name,what,', '.join(u),', '.join(v)),u == v if what[0] == 'p' else set(u) == set(v),sample=name)
        mod = {x[0]:x for x in b}
        for x in a:
            y = mod.get(x[0])
            if y is None: continue
            ck.decide('documentation',w,'the parameter %s of %s %s in the documentation and %s in the module' % (x[0],name,'has a default' if x[2] else 'has no default','has one' if y[2] else 'has none'),x[2] == y[2])
            lit = literal(x[3]) if x[2] else None
            if lit is None or not y[2]: continue
            r = Run(m,[],py.enums,py.host)
            try: v = r.coerce(r.ev(y[3],({},{},None)),None)
            except Unsupported: ck.undecided('documentation','default of %s of %s' % (x[0],name)); continue
            if v == NONE: v = ('c',None)
            ck.decide('documentation',w,'the parameter %s of %s defaults to %r in the documentation and to %r in the module' % (x[0],name,lit[0],v[1]),None if v[0] != 'c' else v[1] == lit[0],sample='%s of %s defaults to %r' % (x[0],name,lit[0]))
    for (cls,n),d in sorted(doc.items(),key=str):
        if n.startswith('__'): continue
        if cls is None:
            if n in public and public[n][0] == 'function': against_doc(n,d,public[n][1])
            else: ck.fail('documentation','%s:%d' % (DOC,d[0]),'%s is documented but not in the module' % n)
        elif cls in public and public[cls][0] == 'class':
            f = public[cls][1]['methods'].get(n)
            if f is None or f.kind != 'def': ck.fail('documentation','%s:%d' % (DOC,d[0]),'%s.%s is documented but not in the module' % (cls,n))
            else: against_doc('%s.%s' % (cls,n),d,f)
            if cls == 'Clipper':
                # documented as identical except for what execute returns
                g = public['TrackedClipper'][1]['methods'].get(n) if 'TrackedClipper' in public and public['TrackedClipper'][0] == 'class' else None
                if g is not None and g.kind == 'def': against_doc('TrackedClipper.%s' % n,d,g)
                else: ck.fail('documentation','%s:%d' % (DOC,d[0]),'TrackedClipper has no %s' % n)
    for n,(k,v) in sorted(public.items()):
        if k == 'function' and n in sfun: compare('functions',n,sfun[n],v)
        elif k == 'function' and n in scls or k != 'function' and n in sfun: ck.fail('names',PI,'%s is a function on one side only' % n)
        elif k == 'tuple' and n in scls:
            f = tuple(x.target.id for x in scls[n].body if isinstance(x,ast.AnnAssign) and isinstance(x.target,ast.Name))
            ck.decide('classes','%s:%d' % (PI,scls[n].lineno),'%s has the fields (%s) in the stubs and (%s) in the module' % (n,', '.join(f),', '.join(v)),f == v,sample=n)
        elif k == 'enum' and n in scls:
            f = {t.id for x in scls[n].body if isinstance(x,ast.Assign) for t in x.targets if isinstance(t,ast.Name)}|{x.target.id for x in scls[n].body if isinstance(x,ast.AnnAssign)}
            ck.decide('classes','%s:%d' % (PI,scls[n].lineno),'%s has the members (%s) in the stubs and (%s) in the module' % (n,', '.join(sorted(f)),', '.join(sorted(v['members']))),f == set(v['members']),sample=n)
        elif k == 'class' and n in scls:
            sm = {}; sp = {}; sa = set()
            for x in scls[n].body:
                if isinstance(x,ast.FunctionDef):
                    d = [y.id if isinstance(y,ast.Name) else y.attr if isinstance(y,ast.Attribute) else '' for y in x.decorator_list]
                    if 'property' in d: sp.setdefault(x.name,set()).add('get')
                    elif 'setter' in d: sp.setdefault(x.name,set()).add('set')
                    elif 'deleter' in d: sp.setdefault(x.name,set()).add('del')
                    else: sm.setdefault(x.name,[]).append(x)
                elif isinstance(x,ast.AnnAssign): sa.add(x.target.id)
            mm = {}; mp = {}
            for q,f in v['methods'].items():
                if f.kind != 'def': continue
                if q.endswith('.getter'): mp.setdefault(q[:-7],set()).add('get')
                elif q.endswith('.setter'): mp.setdefault(q[:-7],set()).add('set')
                elif q.endswith('.deleter'): mp.setdefault(q[:-8],set()).add('del')
                else: mm[q] = f
            ma = {a for a,vis in v['vis'].items() if vis in ('readonly','public')}
            for q in sorted(set(sm)|set(mm)):
                if q in sm and q not in mm: ck.fail('classes','%s:%d' % (PI,sm[q][0].lineno),'%s.%s is declared in the stubs but not in the module' % (n,q))
                elif q not in sm:
                    if not q.startswith('_'): ck.fail('classes','%s:%d' % (PX,mm[q].line),'%s.%s is in the module but not in the stubs' % (n,q))
                else: compare('methods','%s.%s' % (n,q),sm[q],mm[q],q.startswith('__') and q != '__init__')
            # an attribute of the stubs may be a readable property or a readable attribute
            have = {a:{'get'} if v['vis'][a] == 'readonly' else {'get','set'} for a in ma}
            for q,s in mp.items(): have[q] = s
            want = {a:{'get'} for a in sa}
            for q,s in sp.items(): want[q] = s
            for q in sorted(set(have)|set(want)):
                if q.startswith('_'): continue
                ck.decide('classes',PI,'%s.%s: %s in the stubs, %s in the module' % (n,q,'/'.join(sorted(want.get(q,['absent']))),'/'.join(sorted(have.get(q,['absent'])))),q in have and q in want and (have[q] == want[q] or q in sa),sample='%s.%s' % (n,q))
    return ck
