"""Enumeration of the paths through the native functions of the Python module, over compiler IR.

State along a path: whether the interpreter lock is held, which references are owned, whether a Python
exception is set. Every call of the Python API that can fail is followed both ways, every call that can throw
also along its exceptional edge. Library functions are opaque; loops are followed a few times."""
import re

class Stop(Exception): pass
class Undec(Exception): pass
NULL = ('null',)
C = lambda v: ('c',v)
PYAPI = re.compile(r'^(vnp_|vpy_|_?Py[A-Z_]|make_(tracked|recur)|make_\w+_loop$)')
SAFE_UNLOCKED = re.compile(r'^(PyEval_(Save|Restore)Thread|PyGILState_(Ensure|Release|Check)|vnp_NpyIter_(GetDataPtrArray|GetInnerStrideArray|GetInnerLoopSizePtr|GetIterSize|IterationNeedsAPI)|vnp_PyArray_MultiplyList)$')
NEWREF = re.compile(r'^(vnp_PyArray_(NewFromDescr|New|Zeros|Empty|DescrFromType|FromAny|CheckFromAny|DescrNew|Return|NewCopy|NewLikeArray|Cast\w*|PromoteTypes|ResultType)|Py(Tuple|List|Dict|Set)_New|PyTuple_Pack|PyLong_From\w+|PyFloat_From\w+|PyBool_From\w+|_PyLong_From\w+|PyUnicode_From\w+|PyObject_(Call\w*|GetAttr\w*|Str|Repr|GetItem)|Py_BuildValue|make_\w+)$')
BORROW = re.compile(r'^(Py(Tuple|List|Dict)_GetItem\w*|PyErr_Occurred)$')
STEAL = {'vnp_PyArray_NewFromDescr':[1],'vnp_PyArray_FromAny':[1],'vpy_settuple':[2],'PyTuple_SetItem':[2],'PyList_SetItem':[2],'PyErr_Restore':[0,1,2]}
SETEXC = re.compile(r'^PyErr_(SetString|SetObject|SetNone|Format|NoMemory|BadArgument\w*|SetFromErrno\w*)$')

class Throws:
    """which functions of the translation unit can throw, from the call graph"""
    def __init__(self,j,never=None):
        self.f = {f['name']:f for f in j['functions']}; self.memo = {}; self.never = never
    def get(self,n,simple=''):
        """True / False / None"""
        if n in self.memo: return self.memo[n]
        s = simple
        if PYAPI.match(n) or PYAPI.match(s) or (self.never and self.never.match(s)): r = False
        elif n in ('_Znwm','_Znam','_ZnwmSt11align_val_t','_ZnamSt11align_val_t','__cxa_throw','__cxa_rethrow','__cxa_allocate_exception') or s.startswith('std::__throw') or s in ('verif_assert_failed','verif_fail'): r = n != '__cxa_allocate_exception'
        elif n.startswith(('llvm.','__cxa_','_ZdlPv','_ZdaPv','mem','__assert_fail')): r = False
        elif n not in self.f: r = False if n in ('malloc','free','calloc','realloc','cos','sin','tan','atan2','acos','asin','sqrt','hypot','lrint','llrint','lround','llround','round','floor','ceil','fabs','strlen','abort','fmod','rand') or s.startswith(('std::terminate','std::exception::')) else True if s.startswith('std::pmr::memory_resource::') else None
        else:
            f = self.f[n]
            if f.get('nounwind'): r = False
            else:
                # tentatively no while its own calls are looked at
                self.memo[n] = False; r = False
                catches = any(c.get('simple','').startswith('__cxa_begin_catch') for c in f['calls'])
                for c in f['calls']:
                    if c.get('nounwind'): continue
                    t = self.get(c['fn'],c.get('simple','')) if 'fn' in c else None
                    # handlers that take some exceptions only may or may not let this one through
                    l = c.get('lands','') if 'lands' in c else 'catch resume' if catches and c.get('invoke') else 'resume'
                    if 'resume' not in l: continue
                    if t and 'catch' not in l: r = True; break
                    if t is None or t: r = None
                del self.memo[n]
        self.memo[n] = r
        return r
    def witness(self,n):
        """a call path from n to something that throws"""
        par = {n:None}; work = [n]
        while work:
            x = work.pop(0); f = self.f.get(x)
            if f is None:
                if x in ('_Znwm','_Znam','__cxa_throw') or self.memo.get(x):
                    r = []
                    while x is not None: r.append(self.f[x]['simple'] if x in self.f else x); x = par[x]
                    return r[::-1]
                continue
            if f.get('nounwind'): continue
            for c in f['calls']:
                if 'lands' in c and 'resume' not in c['lands'] and x != n: continue
                if 'fn' in c and not c.get('nounwind') and c['fn'] not in par and self.get(c['fn'],c.get('simple','')): par[c['fn']] = x; work.append(c['fn'])
        return [n]

class Path:
    def __init__(self,g,f,script):
        self.g = g; self.f = f; self.script = script; self.made = []; self.memo = {}; self.env = {}; self.mem = {}; self.pos = 0
        self.gil = True; self.ts = []; self.cnt = {}; self.kind = {}; self.exc = False; self.n = 0; self.events = []; self.problems = []; self.unsure = []
        self.caught = False; self.prod = {}; self.needs = {}; self.visits = {}; self.dead = set(); self.line = 0; self.file = ''; self.thrown = None
    def choose(self,key,opts):
        if key in self.memo: return self.memo[key]
        i = self.script[self.pos] if self.pos < len(self.script) else 0
        self.pos += 1
        self.made.append((i,len(opts),key)); self.memo[key] = opts[i]
        return opts[i]
    def fresh(self,t): self.n += 1; return (t,self.n)
    def at(self): return '%s:%s' % (self.file,self.line)
    def problem(self,what,part): self.problems.append((part,self.at(),what))
    # operands
    def val(self,o):
        k = o[0]
        if k == 'c': return C(int(o[1]) if not isinstance(o[1],int) else o[1])
        if k == 'null': return NULL
        if k == 'a': return ('arg',o[1])
        if k == 'v': return self.env.get(o[1],('x',o[1]))
        if k == 'g': return ('g',o[1])
        if k == 'fn': return ('fn',o[1])
        if k == 'zero': return C(0)
        if k == 'gep': 
            b = self.val(o[1]); return self.gep(b,o[2])
        if k == 'undef': return ('undef',)
        return ('?',str(o)[:40])
    def gep(self,b,off):
        if b[0] == 'p': return ('p',b[1],b[2]+off)
        return b if off == 0 else ('p',b,off)
    def cell(self,p): return (p[1],p[2]) if p[0] == 'p' else (p,0)
    # references
    def new(self,kind):
        o = self.fresh(kind); self.cnt[o] = 1; self.kind[o] = kind; return o
    def alive(self,o,how):
        if o in self.dead: self.problem('%s uses an object whose last owned reference was given up' % how,'refs')
    def dec(self,o,how,steal=False):
        if o == NULL:
            if not steal: self.problem('%s of a null pointer' % how,'refs')
            return
        if o[0] in ('obj','iter'):
            self.alive(o,how)
            self.cnt[o] -= 1
            if self.cnt[o] == 0 and not steal: self.dead.add(o)
            if self.cnt[o] < 0: self.problem('%s gives up a reference that is not owned' % how,'refs')
        elif o[0] == 'arg':
            self.cnt[o] = self.cnt.get(o,0)-1
            if self.cnt[o] < 0: self.problem('%s gives up a reference to an argument, which belongs to the caller' % how,'refs')
        elif o[0] in ('none','g'): pass
        else: self.unsure.append('%s of a value of unknown origin' % how)
    def inc(self,o,how):
        if o == NULL: self.problem('%s of a null pointer' % how,'refs'); return
        if o[0] in ('obj','iter'): self.alive(o,how); self.cnt[o] += 1
        elif o[0] == 'arg': self.cnt[o] = self.cnt.get(o,0)+1
        elif o[0] in ('none','g'): pass
        else: self.unsure.append('%s of a value of unknown origin' % how)
    # conditions
    def truth(self,v):
        if v[0] == 'c': return bool(v[1] & 1)
        if v[0] == 'not': return not self.truth(v[1])
        if v[0] == 'eq':
            a,b = v[1],v[2]
            if a[0] == 'c' and b[0] == 'c': return a[1] == b[1]
            nn = ('obj','iter','fp','ts','alloca','none','fn','g','p')
            if a == b: return True
            if NULL in (a,b):
                o = a if b == NULL else b
                if o[0] in nn: return False
            elif a[0] in nn and b[0] in nn and a[0] != 'p' and b[0] != 'p': return False
            if b[0] == 'c' and a[0] in ('x','call','ld'):
                k = ('is',a)
                if k in self.memo and self.memo[k] is not None: return self.memo[k] == b[1]
                r = self.choose(('eq',a,b),[True,False])
                if r: self.memo[('is',a)] = b[1]
                return r
            return self.choose(('eq',)+tuple(sorted((a,b),key=str)),[False,True])
        if v[0] in ('lt','op','x','ld','call','fls'): return self.choose(('b',v),[False,True])
        return self.choose(('b',v),[False,True])
    def icmp(self,pred,a,b):
        if pred in ('eq','ne'):
            for x,y in ((a,b),(b,a)):
                if y == C(0) and x[0] in ('zext','eq','not'):
                    t = x[1] if x[0] == 'zext' else x
                    return ('not',t) if pred == 'eq' else t
            r = ('eq',a,b)
            if a[0] == 'c' and b[0] == 'c': r = C(int(a[1] == b[1]))
            return r if pred == 'eq' else ('not',r)
        if a[0] == 'c' and b[0] == 'c':
            x,y = a[1],b[1]
            return C(int({'slt':x<y,'sle':x<=y,'sgt':x>y,'sge':x>=y,'ult':x<y,'ule':x<=y,'ugt':x>y,'uge':x>=y}[pred]))
        return ('lt',pred,a,b)
    def fork(self,what):
        """does this call of the API fail?"""
        return self.choose(('fails',what,self.n,self.line,self.pos),[False,True])
    # run
    def run(self):
        f = self.f; b = 0; prev = None
        while True:
            self.visits[b] = self.visits.get(b,0)+1
            if self.visits[b] > 3: raise Stop()
            blk = f['blocks'][b]
            phis = []
            for i in blk:
                if i['op'] != 'phi': break
                for o,pb in i['in']:
                    if pb == prev: phis.append((i['id'],self.val(o))); break
            for k,v in phis: self.env[k] = v
            nxt = None
            for i in blk:
                if i['op'] == 'phi': continue
                if i.get('line'): self.line = i['line']; self.file = i.get('file') or self.file
                nxt = self.step(i)
                if nxt is not None: break
            if nxt is None: raise Undec('block without an end')
            if isinstance(nxt,tuple): return nxt
            prev,b = b,nxt
    def step(self,i):
        op = i['op']; me = i['id']; env = self.env
        if op == 'br':
            if 'cond' in i: return i['succ'][0 if self.truth(self.val(i['cond'])) else 1]
            return i['succ'][0]
        if op == 'switch':
            v = self.val(i['cond'])
            for c,t in i['cases']:
                if self.truth(self.icmp('eq',v,self.val(c))): return t
            return i['default']
        if op == 'ret': return ('ret',self.val(i['ops'][0]) if i.get('ops') else None)
        if op == 'unreachable': return ('unreachable',)
        if op == 'resume': return ('escape',)
        if op in ('call','invoke'): return self.call(i)
        if op == 'alloca': env[me] = ('alloca',me)
        elif op == 'getelementptr':
            if i.get('vars') or 'base' not in i: env[me] = ('elem',self.val(i['base']) if 'base' in i else ('?',),me)
            else: env[me] = self.gep(self.val(i['base']),i['off'])
        elif op == 'load':
            p = self.val(i['ops'][0]); c = self.cell(p)
            if c in self.mem: env[me] = self.mem[c]
            elif p[0] == 'g': env[me] = ('ldg',p[1])
            else: env[me] = ('ld',c)
        elif op == 'store':
            p = self.val(i['ops'][1]); self.mem[self.cell(p)] = self.val(i['ops'][0])
        elif op == 'icmp': env[me] = self.icmp(i['pred'],self.val(i['ops'][0]),self.val(i['ops'][1]))
        elif op in ('zext','sext','trunc','freeze','bitcast','ptrtoint','inttoptr'):
            v = self.val(i['ops'][0])
            if op == 'zext' and v[0] in ('eq','not','lt'): v = ('zext',v)
            if op == 'trunc' and i.get('ty') == 'i1' and v[0] == 'zext': v = v[1]
            env[me] = v
        elif op == 'xor' and self.val(i['ops'][1]) in (C(-1),C(1)) and i.get('ty') == 'i1': 
            v = self.val(i['ops'][0]); env[me] = v[1] if v[0] == 'not' else ('not',v) if v[0] != 'c' else C(1-(v[1] & 1))
        elif op == 'select': env[me] = self.val(i['ops'][1 if self.truth(self.val(i['ops'][0])) else 2])
        elif op in ('and','or') and i.get('ty') == 'i1':
            a,b = self.val(i['ops'][0]),self.val(i['ops'][1])
            t = self.truth(a)
            env[me] = (b if t else C(0)) if op == 'and' else (C(1) if t else b)
        elif op == 'extractvalue':
            v = self.val(i['ops'][0])
            env[me] = v[1][i['idx'][0]] if v[0] == 'agg' and i['idx'][0] in v[1] else ('ev',v,tuple(i['idx'])) if v[0] != 'agg' else ('x',me)
        elif op == 'insertvalue':
            v = self.val(i['ops'][0]); d = dict(v[1]) if v[0] == 'agg' else {}
            d[i['idx'][0]] = self.val(i['ops'][1]); env[me] = ('agg',FD(d))
        elif op == 'landingpad': env[me] = ('lp',me)
        else:
            if i.get('ops') is not None and op in ('add','sub','mul','shl','and','or','xor','fcmp','sitofp','udiv','sdiv','lshr','ashr','urem','srem'):
                vs = [self.val(o) for o in i['ops']]
                if all(v[0] == 'c' for v in vs) and op in ('add','sub','mul'): env[me] = C({'add':lambda a,b:a+b,'sub':lambda a,b:a-b,'mul':lambda a,b:a*b}[op](vs[0][1],vs[1][1]))
                else: env[me] = ('op',op)+tuple(vs) if len(str(vs)) < 300 else ('x',me,self.visits.get('n',0))
            else: env[me] = ('x',me)
        return None
    def goto(self,i): return i['normal'] if i['op'] == 'invoke' else None
    def call(self,i):
        c = i['callee']; env = self.env; me = i['id']
        name = c[1] if c[0] == 'fn' else None
        simple = (c[2] if len(c) > 2 else '') if name else ''
        if c[0] == 'v':
            v = self.val(c)
            if v[0] == 'fn': name = v[1]; simple = self.g.simple.get(name,'')
        args = [self.val(a) for a in i['args']]
        nm = name if name and PYAPI.match(name) else simple if simple and PYAPI.match(simple) else None
        if name and name.startswith('llvm.'): return self.intrinsic(i,name,args)
        if nm: self.api(i,nm,args); return self.goto(i)
        if name in ('__cxa_begin_catch',): env[me] = ('exc',); self.caught = True; return self.goto(i)
        if name == '__cxa_end_catch': return self.goto(i)
        if name and (simple.startswith('std::terminate') or '__clang_call_terminate' in name or name == 'abort'): return ('terminate',)
        if name and name in ('__cxa_throw','__cxa_rethrow'):
            self.thrown = (name,self.at())
            return i['unwind'] if i['op'] == 'invoke' else ('escape',)
        # a function of the library, of the standard library, or one of the module's own that stays a call
        self.events.append(('call',simple or name or 'indirect',tuple(args),self.at(),name or self.val(c)))
        # an indirect call of a parameter: a converter handed to a function that was not inlined (a function pointer
        # read from memory or returned by NumPy is the iterator's step)
        own = name in self.g.own if name else self.val(c)[0] == 'arg'
        if not self.gil:
            if own: self.problem('a function of the module that works on Python objects is called without the lock','gil')
            elif name and self.g.reaches_api(name): self.problem('%s, which calls the Python API, runs without the lock' % (simple or name),'gil')
            for it,need in self.needs.items():
                if need and self.cnt.get(it,0) > 0: self.problem('%s runs without the lock although the iteration over the array needs it' % (simple or 'a call'),'gil'); break
            else:
                if any(self.kind.get(o) == 'iter' and n > 0 and o not in self.needs for o,n in self.cnt.items()): self.unsure.append('the lock is released without asking whether the iteration needs it')
        th = False if i.get('nounwind') else self.g.throws.get(name,simple) if name else None
        if name is None and (own or self.val(c)[0] == 'fp'): th = False      # converters are looked at themselves; NumPy's functions are C
        if th is not False and self.choose(('throws',me,self.visits.get(me,0),self.pos),[False,True]):
            self.thrown = (name or '?',self.at(),simple,th)
            return i['unwind'] if i['op'] == 'invoke' else ('escape',)
        if i['ty'] == 'ptr' and own and not i.get('sret'):
            if self.fork(simple or 'converter'): self.exc = True; env[me] = NULL
            else: env[me] = self.new('obj')
        elif i['ty'] == 'i1' or i['ty'].startswith('i'): env[me] = ('call',me,self.fresh('k')[1])
        else: env[me] = ('call',me,self.fresh('k')[1])
        return self.goto(i)
    def intrinsic(self,i,name,args):
        if name.startswith('llvm.eh.typeid.for'): self.env[i['id']] = ('tid',str(args[0]))
        elif name.startswith(('llvm.memcpy','llvm.memmove')):
            d,s = self.cell(args[0]),self.cell(args[1])
            if args[2][0] == 'c':
                for k in range(0,args[2][1],4):
                    v = self.mem.get((s[0],s[1]+k))
                    if v is not None: self.mem[(d[0],d[1]+k)] = v
                    elif (d[0],d[1]+k) in self.mem: del self.mem[(d[0],d[1]+k)]
        elif name.startswith('llvm.memset'):
            d = self.cell(args[0])
            if args[2][0] == 'c' and args[1] == C(0):
                for k in range(0,args[2][1],8): self.mem[(d[0],d[1]+k)] = NULL
        else: self.env[i['id']] = ('x',i['id'])
        return self.goto(i)
    def api(self,i,nm,args):
        env = self.env; me = i['id']; r = ('call',me,self.fresh('k')[1])
        self.events.append(('api',nm,tuple(args),self.at(),nm))
        if not self.gil and not SAFE_UNLOCKED.match(nm): self.problem('%s is called without the lock' % nm.replace('vnp_','').replace('vpy_','reference counting: '),'gil')
        if nm == 'PyEval_SaveThread':
            if not self.gil: self.problem('the lock is released twice','gil')
            self.gil = False; r = self.fresh('ts'); self.ts.append(r)
        elif nm == 'PyEval_RestoreThread':
            if self.gil: self.problem('the lock is taken although it is held','gil')
            elif not self.ts or args[0] != self.ts[-1]: self.problem('the lock is taken with another thread state than the one saved','gil')
            self.gil = True; self.ts = self.ts[:-1]
        elif nm == 'PyGILState_Ensure': r = ('gilstate',self.gil,self.n); self.gil = True
        elif nm == 'PyGILState_Release':
            if args[0][0] == 'gilstate': self.gil = args[0][1]
            else: self.unsure.append('PyGILState_Release of unknown state')
        elif nm == 'vpy_incref': self.inc(args[0],'Py_INCREF')
        elif nm == 'vpy_xincref': args[0] != NULL and self.inc(args[0],'Py_XINCREF')
        elif nm == 'vpy_newref': self.inc(args[0],'Py_NewRef'); r = args[0]
        elif nm == 'vpy_xnewref':
            if args[0] != NULL: self.inc(args[0],'Py_XNewRef')
            r = args[0]
        elif nm == 'vpy_decref': self.dec(args[0],'Py_DECREF')
        elif nm == 'vpy_xdecref': args[0] != NULL and self.dec(args[0],'Py_XDECREF')
        elif nm == 'vpy_none': r = self.fresh('none')
        elif nm == 'PyErr_Clear': self.exc = False
        elif nm == 'PyErr_Occurred': r = ('g','the exception') if self.exc else NULL
        elif SETEXC.match(nm): self.exc = True; r = NULL
        elif nm == 'vnp_NpyIter_New':
            self.use(args,nm)
            if self.fork(nm): self.exc = True; r = NULL
            else: r = self.new('iter'); self.prod[r] = (nm,tuple(args),(),self.at())
        elif nm == 'vnp_NpyIter_Deallocate':
            self.dec(args[0],'NpyIter_Deallocate')
            if self.g.used(self.f,me):
                ok = not self.fork(nm); r = C(1 if ok else 0)
                if not ok: self.exc = True
            else: r = C(1)
        elif nm == 'vnp_NpyIter_GetIterNext':
            self.use(args,nm)
            if self.fork(nm): self.exc = True; r = NULL
            else: r = self.fresh('fp')
        elif nm == 'vnp_NpyIter_IterationNeedsAPI':
            self.use(args,nm)
            r = C(self.choose(('needs',args[0]),[0,1])); self.needs[args[0]] = r[1]
        elif nm == 'vnp_PyArray_MultiplyList': r = C(self.choose(('size',)+tuple(args),[6,0,2]))
        elif nm in ('vnp_PyArray_DescrConverter2','vnp_PyArray_DescrConverter'):
            if self.fork(nm): self.exc = True; r = C(0)
            else:
                none = nm.endswith('2') and self.choose(('nodtype',me,self.pos),[False,True])
                self.mem[self.cell(args[1])] = NULL if none else self.new('obj'); r = C(1)
        elif nm == 'vnp_PyArray_CastingConverter':
            if self.fork(nm): self.exc = True; r = C(0)
            else: self.mem[self.cell(args[1])] = ('casting of',args[0],self.mem.get(self.cell(args[1]),('unset',))); r = C(1)
        elif NEWREF.match(nm):
            self.use(args,nm)
            for k in STEAL.get(nm,()): self.dec(args[k],nm.replace('vnp_',''),True)
            if self.fork(nm): self.exc = True; r = NULL
            else:
                r = self.new('obj')
                self.prod[r] = (nm,tuple(args),tuple(tuple(self.mem.get((self.cell(a)[0],self.cell(a)[1]+8*k)) for k in range(2)) if a[0] in ('alloca','p') else None for a in args),self.at())
        elif nm in STEAL:
            self.use(args,nm)
            for k in STEAL[nm]: self.dec(args[k],nm.replace('vpy_settuple','PyTuple_SET_ITEM'),True)
        elif BORROW.match(nm): r = ('borrowed',me,self.n)
        else: self.use(args,nm)
        env[me] = r
    def use(self,args,how):
        for a in args:
            if a in self.dead: self.problem('%s is given an object whose last owned reference was given up' % how.replace('vnp_',''),'refs')

class FD(dict):
    def __hash__(self): return hash(tuple(sorted((k,str(v)) for k,v in self.items())))

class Glue:
    def __init__(self,j,cj):
        self.fns = {f['name']:f for f in j['functions']}
        self.throws = Throws(cj); self.throws2 = Throws(cj,re.compile(r'^std::vector::resize$'))
        self.cg = {f['name']:f for f in cj['functions']}
        self.simple = {f['name']:f['simple'] for f in cj['functions']}
        # the module's own functions (those that the flattened ones may still call)
        self.own = {n for n,f in self.cg.items() if in_module(f)}
        self._api = {}; self._used = {}
    def reaches_api(self,n):
        """does this library function reach a call of the Python API by name (other than while iterating)?"""
        if n in self._api: return self._api[n]
        seen = {n}; work = [n]; r = None
        while work and not r:
            x = work.pop(); f = self.cg.get(x)
            if f is None: continue
            for c in f['calls']:
                t = c.get('fn')
                if t is None: continue
                k = t if PYAPI.match(t) else c.get('simple','') if PYAPI.match(c.get('simple','')) else None
                if k:
                    if not SAFE_UNLOCKED.match(k): r = k; break
                elif t not in seen: seen.add(t); work.append(t)
        self._api[n] = r
        return r
    def used(self,f,me):
        k = (f['name'],me)
        if k not in self._used:
            import json
            t = '["v", %d]' % me
            self._used[k] = any(t in json.dumps({a:b for a,b in i.items() if a != 'id'}) for blk in f['blocks'] for i in blk)
        return self._used[k]
    def paths(self,f,limit=6000):
        script = []; n = 0
        while True:
            p = Path(self,f,script)
            try: out = p.run()
            except Stop: out = ('loop',)
            yield p,out
            n += 1
            if n > limit: raise Undec('more than %d paths' % limit)
            m = p.made
            while m and m[-1][0]+1 >= m[-1][1]: m.pop()
            if not m: return
            script = [x[0] for x in m[:-1]]+[m[-1][0]+1]

def in_module(f):
    """written in the Cython sources (not the library, not the standard library)"""
    return (f.get('file') or '').startswith('py/') and not f['simple'].startswith(('poly_ops::','std::'))
