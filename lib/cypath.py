"""Enumeration of the paths through Cython functions, over their syntax trees.

A function is followed from its entry with abstract arguments. Values are terms that say where something
came from; small finite things (selectors, flags, sizes) are given as every value they can have. Whatever is not known
(does this call fail? how many dimensions has this array?) is a choice, and all combinations of choices are followed.
What reaches the native functions, in which order, is recorded as events. Nothing of the program is run.
"""
import os, sys, json, subprocess, itertools
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

class Unsupported(Exception): pass
class Raise(Exception):
    def __init__(self,v,how=''): self.v = v; self.how = how
class Return(Exception):
    def __init__(self,v): self.v = v
class Break(Exception): pass
class Continue(Exception): pass

CYPY = '/opt/vp/venv/bin/python3'
def load(repo):
    px = os.path.join(repo,'py','_polyops.pyx'); pc = os.path.join(repo,'py','common.pxd')
    for py in (CYPY,sys.executable,'python3'):
        try: r = subprocess.run([py,os.path.join(VERIF,'tools','cyast.py'),px,'poly_ops._polyops',pc,'common'],capture_output=True,text=True,timeout=200)
        except OSError: continue
        if r.returncode == 0: return json.loads(r.stdout)
        err = r.stderr
    raise RuntimeError('the Cython sources cannot be parsed: '+err[-400:])

INT_RANGE = {'int':(-2**31,2**31-1),'long':(-2**63,2**63-1),'size_t':(0,2**64-1),'Py_ssize_t':(-2**63,2**63-1),'npy_intp':(-2**63,2**63-1),
    'unsigned int':(0,2**32-1),'short':(-2**15,2**15-1),'char':(-128,127)}
OBJECT = ('object','ndarray','dtype','tuple','list','dict','str','type',None,'')

class Func:
    def __init__(self,node,kind,name,params,body,ret,prop=None,cls=None,mod=None):
        self.node = node; self.kind = kind; self.name = name; self.params = params; self.body = body; self.ret = ret
        self.cls = cls; self.mod = mod; self.noexcept = False; self.line = node['l']; self.decorators = []
class Param:
    def __init__(self,name,ctype,default,kw): self.name = name; self.ctype = ctype; self.default = default; self.kw = kw

def base_name(b):
    if b is None: return None
    k = b['k']
    if k == 'CSimpleBaseTypeNode':
        n = b.get('name')
        if n == 'long' or n == 'int':
            l = b.get('longness',0)
            if n == 'int' and l: n = 'long'
            if b.get('signed') == 0: n = 'unsigned '+n
        if n in ('uint32_t','unsigned'): n = 'unsigned int'
        return n
    if k in ('CConstTypeNode','CQualifierTypeNode','CConstOrVolatileTypeNode'): return base_name(b.get('base_type'))
    if k == 'MemoryViewSliceTypeNode': return 'memoryview'
    if k == 'TemplatedTypeNode': return base_name(b.get('base_type_node'))
    return k
def declarator(d):
    """name, suffix of the type, default, function declarator"""
    suf = ''; fn = None
    while True:
        if d['k'] == 'CNameDeclaratorNode': return d.get('name') or '',suf,d.get('default'),fn
        if d['k'] == 'CPtrDeclaratorNode': suf = '*'+suf
        elif d['k'] == 'CReferenceDeclaratorNode': suf = '&'+suf
        elif d['k'] == 'CFuncDeclaratorNode': fn = d
        elif d['k'] == 'CArrayDeclaratorNode': suf = '[]'+suf
        else: raise Unsupported('declarator '+d['k'])
        d = d['base']

def param(a):
    name,suf,dflt,_ = declarator(a['declarator'])
    t = base_name(a.get('base_type'))
    if not name: name,t = t,None
    return Param(name,(t+suf) if t else None,a.get('default') or dflt,bool(a.get('kw_only')))

class Module:
    def __init__(self,trees):
        self.funcs = {}; self.externs = {}; self.classes = {}; self.pyclasses = {}; self.assigns = {}; self.enums = {}; self.cpp = {}; self.imports = {}
        self.verbatim = {}
        for t in trees:
            self.mod = t['full_module_name'].split('.')[-1]
            self.scan(t['body'])
    def stats(self,b):
        if b is None: return []
        if b['k'] == 'StatListNode': return [s for x in b['stats'] for s in self.stats(x)]
        return [b]
    def scan(self,body,extern=False,cls=None):
        for s in self.stats(body):
            k = s['k']
            if k == 'CDefExternNode':
                if s.get('verbatim_include'): self.verbatim.setdefault(self.mod,[]).append((s['l'],s['verbatim_include']))
                self.scan(s['body'],True)
            elif k == 'CEnumDefNode':
                self.enums[s['name']] = [i['name'] for i in s['items']]
            elif k == 'CppClassNode':
                c = self.cpp.setdefault(s['name'],{})
                for a in s.get('attributes') or []:
                    if a['k'] == 'CVarDefNode':
                        for d in a['declarators']:
                            n,suf,_,fn = declarator(d)
                            c[n] = (base_name(a['base_type'])+suf,fn is not None)
            elif k == 'CVarDefNode':
                for d in s['declarators']:
                    n,suf,dflt,fn = declarator(d)
                    bt = base_name(s['base_type'])
                    if fn is not None and cls is None:
                        f = Func(fn,'extern' if extern else 'cdecl',n,[param(a) for a in fn['args']],None,bt+suf,mod=self.mod)
                        f.exc = fn.get('exception_value'); f.check = fn.get('exception_check')
                        self.externs[n] = f
                    elif cls is not None: cls['attrs'][n] = bt+suf
                    else: self.assigns.setdefault(n,('extern' if extern else 'var',bt+suf,dflt))
            elif k == 'CFuncDefNode':
                n,suf,_,fn = declarator(s['declarator'])
                f = Func(s,'cdef',n,[param(a) for a in fn['args']],s['body'],(base_name(s['base_type']) or '')+suf,cls=cls and cls['name'],mod=self.mod)
                f.noexcept = bool(fn.get('has_explicit_exc_clause')) and fn.get('exception_value') is None and not fn.get('exception_check')
                (cls['methods'] if cls else self.funcs)[n] = f
            elif k == 'DefNode':
                f = Func(s,'def',s['name'],[param(a) for a in s['args']],s['body'],None,cls=cls and cls['name'],mod=self.mod)
                f.star = (s.get('star_arg'),s.get('starstar_arg'))
                f.decorators = [d['decorator'] for d in s.get('decorators') or []]
                f.posonly = s.get('num_posonly_args') or 0
                key = s['name']
                for d in f.decorators:
                    if d['k'] == 'AttributeNode' and d['attribute'] in ('setter','deleter'): key += '.'+d['attribute']
                    if d['k'] == 'NameNode' and d['name'] == 'property': key += '.getter'
                (cls['methods'] if cls else self.funcs)[key] = f
            elif k == 'CClassDefNode':
                c = self.classes[s['class_name']] = {'name':s['class_name'],'methods':{},'attrs':{},'line':s['l'],'vis':{}}
                self.scan(s['body'],False,c)
                for a in self.stats(s['body']):
                    if a['k'] == 'CVarDefNode':
                        for d in a['declarators']: c['vis'][declarator(d)[0]] = a.get('visibility')
            elif k == 'PyClassDefNode':
                c = self.pyclasses[s['name']] = {'name':s['name'],'members':{},'bases':s.get('bases'),'line':s['l']}
                for a in self.stats(s['body']):
                    if a['k'] == 'SingleAssignmentNode' and a['lhs']['k'] == 'NameNode': c['members'][a['lhs']['name']] = a['rhs']
            elif k == 'SingleAssignmentNode' and s['lhs']['k'] == 'NameNode':
                if cls is None:
                    r = s['rhs']
                    if r['k'] == 'ImportNode': self.imports[s['lhs']['name']] = (r.get('module_name') or {}).get('value') if isinstance(r.get('module_name'),dict) else r.get('module_name')
                    else: self.assigns[s['lhs']['name']] = ('py',None,r)
            elif k == 'CImportStatNode': self.imports.setdefault(s.get('as_name') or s['module_name'],s['module_name'])

C = lambda v: ('c',v)
NONE = C(None)

class Run:
    """one path: choices are taken from a script, new ones take their first option and are noted"""
    LIMIT = 20000
    def __init__(self,m,script,enums,host):
        self.m = m; self.script = script; self.pos = 0; self.made = []; self.memo = {}
        self.heap = {}; self.events = []; self.steps = 0; self.n = 0; self.enums = enums; self.host = host; self.line = 0; self.depth = 0
        self.iters = {}
    # --- choices
    def choose(self,key,options):
        if key in self.memo: return self.memo[key]
        if self.pos < len(self.script): i = self.script[self.pos]
        else: i = 0
        self.pos += 1
        self.made.append((i,len(options),key))
        self.memo[key] = options[i]
        return options[i]
    def fresh(self,tag): self.n += 1; return '%s#%d' % (tag,self.n)
    def fails(self,what):
        if self.choose(('fails',self.fresh('f'),what),[False,True]): raise Raise(('exc',what),'the call of '+str(what)+' fails')
    def event(self,*e): self.events.append(e+(self.line,))
    # --- truth
    def truth(self,v):
        if v[0] == 'c': return bool(v[1])
        if v[0] == 'tuple': return bool(v[1])
        if v[0] in ('obj','cpp','dtype','join','arr','cb','func'): return True
        return self.choose(('truth',v),[True,False])
    def is_none(self,v):
        if v[0] == 'c': return v[1] is None
        if v[0] in ('in','call'): return self.choose(('none',v),[False,True])
        return False
    def is_cint(self,ctype): return ctype in INT_RANGE or ctype in self.m.enums
    def coerce(self,v,ctype,what=''):
        if ctype is None or ctype in OBJECT or ctype.endswith('*') or ctype.endswith('&'): return v
        if ctype == 'bint':
            if v[0] == 'c': return C(1 if v[1] else 0)
            if v[0] == 'flag': return v
            return C(1 if self.truth(v) else 0)
        if self.is_cint(ctype):
            if v[0] == 'c':
                if isinstance(v[1],bool): return C(int(v[1]))
                if isinstance(v[1],int):
                    lo,hi = INT_RANGE.get(ctype,(-2**31,2**32-1))
                    if not lo <= v[1] <= hi: raise Raise(('exc','OverflowError'),'value does not fit '+ctype)
                    return v
                raise Raise(('exc','TypeError'),'not an integer')
            if v[0] == 'in':
                self.fails('conversion to '+ctype)
                return v if v[1] not in self.host.real else ('as',ctype,v)
            return v
        if ctype in ('double','float'):
            if v[0] == 'in':
                self.fails('conversion to '+ctype)
                return v if ctype == 'double' else ('as',ctype,v)
            if v[0] == 'c' and not isinstance(v[1],(int,float)): raise Raise(('exc','TypeError'),'not a number')
            return v
        return v
    # --- calls
    def call(self,f,args,kw,this=None,typed=True):
        self.depth += 1
        if self.depth > 40: raise Unsupported('recursion')
        env = {}; types = {}
        ps = list(f.params)
        if this is not None:
            env[ps[0].name] = this; ps = ps[1:]
        kw = dict(kw)
        pos = [p for p in ps if not p.kw]
        if len(args) > len(pos): raise Raise(('exc','TypeError'),'too many arguments for '+f.name)
        for p,a in zip(pos,args): env[p.name] = a
        for p in ps:
            if p.name in kw:
                if p.name in env: raise Raise(('exc','TypeError'),'argument given twice')
                env[p.name] = kw.pop(p.name)
            elif p.name not in env:
                if p.default is None: raise Raise(('exc','TypeError'),'missing argument '+p.name)
                env[p.name] = self.ev(p.default,({},{},f))
        if kw: raise Raise(('exc','TypeError'),'unexpected argument '+str(sorted(kw)))
        for p in f.params:
            types[p.name] = p.ctype
            env[p.name] = self.coerce(env[p.name],p.ctype,p.name)
        fr = (env,types,f)
        try:
            try: self.block(f.body,fr)
            except Return as r: return self.coerce(r.v,f.ret if f.kind == 'cdef' else None)
            return NONE
        except Raise as e:
            if f.noexcept: self.event('swallowed',f.name); return C(0) if self.is_cint(f.ret) or f.ret == 'bint' else NONE
            raise
        finally: self.depth -= 1
    def block(self,b,fr):
        for s in self.m.stats(b): self.st(s,fr)
    # --- statements
    def st(self,s,fr):
        self.steps += 1
        if self.steps > self.LIMIT: raise Unsupported('too many steps')
        env,types,f = fr
        self.line = s['l'] or self.line
        k = s['k']
        if k == 'ExprStatNode': self.ev(s['expr'],fr)
        elif k == 'PassStatNode': pass
        elif k == 'ReturnStatNode': raise Return(self.ev(s['value'],fr) if s.get('value') else NONE)
        elif k == 'CVarDefNode':
            for d in s['declarators']:
                n,suf,dflt,_ = declarator(d)
                t = (base_name(s['base_type']) or 'object')+suf
                types[n] = t
                if dflt is not None: env[n] = self.coerce(self.ev(dflt,fr),t,n)
                elif t in self.m.cpp: env[n] = ('cpp',t,self.fresh(t))
                elif t in OBJECT: env.setdefault(n,NONE)
                else: env[n] = ('uninit',n)
        elif k == 'SingleAssignmentNode': self.assign(s['lhs'],self.ev(s['rhs'],fr),fr)
        elif k == 'CascadedAssignmentNode':
            v = self.ev(s['rhs'],fr)
            for l in s['lhs_list']: self.assign(l,v,fr)
        elif k == 'ParallelAssignmentNode':
            vs = [(a['lhs'],self.ev(a['rhs'],fr)) for a in self.m.stats({'k':'StatListNode','stats':s['stats']})]
            for l,v in vs: self.assign(l,v,fr)
        elif k == 'InPlaceAssignmentNode':
            v = self.arith(s['operator'],self.ev(s['lhs'],fr),self.ev(s['rhs'],fr))
            self.assign(s['lhs'],v,fr)
        elif k == 'IfStatNode':
            for c in s['if_clauses']:
                if self.truth(self.ev(c['condition'],fr)): self.block(c['body'],fr); return
            if s.get('else_clause'): self.block(s['else_clause'],fr)
        elif k == 'RaiseStatNode':
            v = self.ev(s['exc_type'],fr) if s.get('exc_type') else ('exc','re-raised')
            if not s.get('exc_type') and fr[0].get('%exc'): raise fr[0]['%exc']
            raise Raise(v,'raise statement in line %d' % s['l'])
        elif k == 'ForInStatNode':
            it = s['iterator']
            seq = self.ev(it['sequence'] if it['k'] == 'IteratorNode' else it,fr)
            done = True
            for v in self.iterate(seq):
                self.assign(s['target'],v,fr)
                try: self.block(s['body'],fr)
                except Break: done = False; break
                except Continue: continue
            if done and s.get('else_clause'): self.block(s['else_clause'],fr)
        elif k == 'WhileStatNode':
            n = 0
            while s.get('condition') is None or self.truth(self.ev(s['condition'],fr)):
                n += 1
                if n > 50: raise Unsupported('unbounded loop in line %d' % s['l'])
                try: self.block(s['body'],fr)
                except Break: return
                except Continue: continue
            if s.get('else_clause'): self.block(s['else_clause'],fr)
        elif k == 'BreakStatNode': raise Break()
        elif k == 'ContinueStatNode': raise Continue()
        elif k == 'TryFinallyStatNode':
            try: self.block(s['body'],fr)
            except (Raise,Return,Break,Continue): self.block(s['finally_clause'],fr); raise
            self.block(s['finally_clause'],fr)
        elif k == 'TryExceptStatNode':
            try: self.block(s['body'],fr)
            except Raise as e:
                for c in s['except_clauses']:
                    pat = c.get('pattern')
                    names = [p.get('name') for p in pat] if pat else []
                    if not pat or 'Exception' in names or 'BaseException' in names or self.choose(('catches',self.fresh('x')),[True,False]):
                        if c.get('target'): self.assign(c['target'],e.v,fr)
                        env['%exc'] = e
                        self.block(c['body'],fr)
                        env.pop('%exc',None)
                        return
                raise
            if s.get('else_clause'): self.block(s['else_clause'],fr)
        elif k == 'DelStatNode':
            for a in s['args']:
                v = self.ev(a,fr)
                if v[0] == 'cpp': self.event('delete',v)
        elif k in ('AssertStatNode','GlobalNode','NonlocalNode'): pass
        elif k == 'StatListNode': self.block(s,fr)
        elif k == 'WithStatNode' or k == 'GILStatNode': raise Unsupported(k)
        else: raise Unsupported(k)
    def assign(self,l,v,fr):
        env,types,f = fr
        k = l['k']
        if k == 'NameNode': env[l['name']] = self.coerce(v,types.get(l['name']),l['name'])
        elif k == 'AttributeNode':
            o = self.ev(l['obj'],fr)
            if o[0] == 'obj':
                t = self.m.classes.get(o[1],{'attrs':{}})['attrs'].get(l['attribute'])
                v = self.coerce(v,t,l['attribute'])
                key = self.prop(o,l['attribute'],'.setter')
                if key is not None: self.call(key,[v],{},this=o); return
            self.heap[(o,l['attribute'])] = v
            self.event('setattr',o,l['attribute'],v)
        elif k in ('TupleNode','ListNode'):
            if v[0] != 'tuple' or len(v[1]) != len(l['args']): raise Unsupported('unpacking')
            for a,x in zip(l['args'],v[1]): self.assign(a,x,fr)
        elif k == 'IndexNode':
            o = self.ev(l['base'],fr); i = self.ev(l['index'],fr)
            if o[0] in ('sub','ref') and i == C(0): self.store(o,v)
            else: self.event('setitem',o,i,v)
        elif k == 'TypecastNode': self.assign(l['operand'],v,fr)
        else: raise Unsupported('assignment to '+k)
    def store(self,o,v):
        if o[0] == 'ref': o[1][0][o[1][1]] = v
        else: self.heap[o] = v; self.event('store',o,v)
    def iterate(self,seq):
        if seq[0] in ('tuple','list'):
            for v in seq[1]: yield v
            return
        if seq[0] == 'iter':
            # the argument of a caller: an iterable that can be walked once, and that can fail before any element
            src,n = seq[1],seq[2]
            i = self.iters.get(src,0)
            while True:
                if self.choose(('iter fails',src,i),[False,True]): raise Raise(('exc','from the iterable'),'the iterable fails before element %d' % i)
                if i >= n: return
                self.iters[src] = i+1
                yield ('item',src,i)
                i = self.iters[src]
        elif seq[0] == 'enumerate':
            for i,v in enumerate(self.iterate(seq[1])): yield ('tuple',(C(i),v))
        elif seq[0] == 'c': raise Raise(('exc','TypeError'),'not iterable')
        elif seq[0] == 'range':
            for i in range(*seq[1]): yield C(i)
        else: raise Unsupported('iteration over '+str(seq)[:80])
    # --- expressions
    def arith(self,op,a,b):
        if a[0] == 'c' and b[0] == 'c' and isinstance(a[1],(int,float)) and isinstance(b[1],(int,float)):
            try: return C({'+':lambda:a[1]+b[1],'-':lambda:a[1]-b[1],'*':lambda:a[1]*b[1],'//':lambda:a[1]//b[1],'%':lambda:a[1]%b[1],'&':lambda:a[1]&b[1],'|':lambda:a[1]|b[1],'^':lambda:a[1]^b[1],'<<':lambda:a[1]<<b[1],'>>':lambda:a[1]>>b[1],'/':lambda:a[1]/b[1],'**':lambda:a[1]**b[1]}[op]())
            except Exception: raise Unsupported('arithmetic')
        return ('op',op,a,b)
    def compare(self,op,a,b):
        if op in ('is','is_not','is not'):
            if b == NONE: r = self.is_none(a)
            elif a == NONE: r = self.is_none(b)
            elif a == b: r = True
            elif a[0] == 'c' and b[0] == 'c': r = a[1] is b[1] or (type(a[1]) is type(b[1]) and a[1] == b[1])
            else: r = self.choose(('same',a,b),[False,True])
            return C(r == (op == 'is'))
        if a[0] == 'c' and b[0] == 'c':
            try: return C({'==':lambda:a[1]==b[1],'!=':lambda:a[1]!=b[1],'<':lambda:a[1]<b[1],'<=':lambda:a[1]<=b[1],'>':lambda:a[1]>b[1],'>=':lambda:a[1]>=b[1],'in':lambda:a[1] in b[1],'not_in':lambda:a[1] not in b[1]}[op]())
            except Exception: raise Raise(('exc','TypeError'),'not comparable')
        if op in ('in','not_in') and b[0] in ('tuple','list'):
            r = any(self.compare('==',a,x) == C(True) for x in b[1])
            return C(r == (op == 'in'))
        if op in ('in','not_in') and b[0] == 'enumcls':
            r = any(self.compare('==',a,C(x)) == C(True) for x in b[2])
            return C(r == (op == 'in'))
        if NONE in (a,b) and op in ('==','!='):
            return C(self.is_none(a if b == NONE else b) == (op == '=='))
        return C(self.choose(('cmp',op,a,b),[True,False]))
    def const_name(self,n):
        for e,vals in self.enums.items():
            if n in vals: return C(vals[n])
    def prop(self,o,name,which):
        c = self.m.classes.get(o[1])
        return c['methods'].get(name+which) if c else None
    def ev(self,x,fr):
        env,types,f = fr
        self.steps += 1
        if self.steps > self.LIMIT: raise Unsupported('too many steps')
        k = x['k']
        if k == 'NameNode':
            n = x['name']
            if n in env: return env[n]
            return self.glob(n)
        if k == 'NoneNode' : return NONE
        if k == 'NullNode': return ('null',)
        if k == 'BoolNode': return C(bool(x['value']))
        if k == 'IntNode': return C(int(str(x['value']).rstrip('uUlL'),0))
        if k == 'FloatNode': return C(float(x['value']))
        if k in ('UnicodeNode','IdentifierStringNode','StringNode','BytesNode'): return C(x.get('value'))
        if k in ('TupleNode','ListNode'): return ('tuple',tuple(self.ev(a,fr) for a in x['args']))
        if k == 'NotNode': return C(not self.truth(self.ev(x['operand'],fr)))
        if k == 'BoolBinopNode':
            a = self.ev(x['operand1'],fr)
            t = self.truth(a)
            if (x['operator'] == 'and') != t: return a if a[0] == 'c' else C(t)
            return self.ev(x['operand2'],fr)
        if k == 'PrimaryCmpNode':
            a = self.ev(x['operand1'],fr); n = x
            b = self.ev(x['operand2'],fr)
            r = self.compare(x['operator'],a,b)
            n = x.get('cascade')
            while n is not None and self.truth(r):
                a,b = b,self.ev(n['operand2'],fr)
                r = self.compare(n['operator'],a,b)
                n = n.get('cascade')
            return r
        if k == 'CondExprNode': return self.ev(x['true_val'] if self.truth(self.ev(x['condition'] if x.get('condition') else x['test'],fr)) else x['false_val'],fr)
        if k == 'TypecastNode':
            n,suf,_,_ = declarator(x['declarator'])
            t = (base_name(x['base_type']) or '')+suf
            v = self.ev(x['operand'],fr)
            if self.is_cint(t) or t == 'bint':
                if v[0] == 'c' and isinstance(v[1],(int,bool)) :
                    lo,hi = INT_RANGE.get(t,(-2**31,2**32-1)); i = int(v[1])
                    if t == 'bint': return C(1 if i else 0)
                    return C((i-lo) % (hi-lo+1)+lo)
                return self.coerce(v,t)
            return self.coerce(v,t)
        if k == 'AmpersandNode':
            o = x['operand']
            if o['k'] == 'NameNode' and o['name'] in env and env[o['name']][0] not in ('cpp','sub'): return ('ref',(env,o['name']))
            return self.ev(o,fr)
        if k == 'AttributeNode': return self.attr(x,fr)
        if k == 'IndexNode':
            o = self.ev(x['base'],fr); i = self.ev(x['index'],fr)
            return self.index(o,i)
        if k in ('UnaryMinusNode',):
            v = self.ev(x['operand'],fr)
            return C(-v[1]) if v[0] == 'c' else ('op','neg',v)
        if k == 'UnaryPlusNode': return self.ev(x['operand'],fr)
        if 'operand1' in x and x.get('operand1') and 'operator' in x: return self.arith(x['operator'],self.ev(x['operand1'],fr),self.ev(x['operand2'],fr))
        if k == 'NewExprNode' : return ('newtype',base_name(x.get('cppclass')) if x.get('cppclass') else None)
        if k in ('SimpleCallNode','GeneralCallNode'): return self.callx(x,fr)
        if k in ('SliceIndexNode','SliceNode'): return ('call','slice',self.fresh('s'))
        if k == 'DictNode': return ('dict',tuple((self.ev(i['key'],fr),self.ev(i['value'],fr)) for i in x['key_value_pairs']))
        if k in ('JoinedStrNode','FormattedValueNode'): return ('str',)
        if k == 'AssignmentExpressionNode':
            v = self.ev(x['rhs'],fr); self.assign(x['lhs'],v,fr); return v
        raise Unsupported('expression '+k)
    def index(self,o,i):
        if o[0] in ('cpp','sub') and i == C(0): return self.heap.get(o,o) if o[0] == 'sub' else o
        if o[0] == 'ref' and i == C(0): return o[1][0][o[1][1]]
        if o[0] in ('tuple',) and i[0] == 'c':
            try: return o[1][i[1]]
            except Exception: raise Raise(('exc','IndexError'),'index')
        if o[0] == 'dict':
            for kk,v in o[1]:
                if kk == i: return v
            raise Raise(('exc','KeyError'),'key')
        r = self.host.index(self,o,i)
        if r is not None: return r
        raise Unsupported('index of '+str(o)[:60])
    def glob(self,n):
        m = self.m
        c = self.const_name(n)
        if c is not None: return c
        if n in m.funcs: return ('func',n)
        if n in m.externs: return ('func',n)
        if n in m.classes: return ('cls',n)
        if n in m.pyclasses: return ('enumcls',n,tuple(self.ev(v,({},{},None))[1] for v in m.pyclasses[n]['members'].values()))
        if n in m.enums: return ('cenum',n)
        if n in m.imports: return ('mod',n)
        if n in m.cpp: return ('cppcls',n)
        if n in m.assigns:
            k,t,r = m.assigns[n]
            if k == 'py' and r is not None:
                v = ('global',n)
                if r['k'] in ('SimpleCallNode','GeneralCallNode') and self.callee(r) in ('namedtuple','NamedTuple'): return ('ntcls',n)
                if r['k'] in ('IntNode','BoolNode','UnicodeNode','NoneNode','TupleNode','AttributeNode','NameNode'): return self.ev(r,({},{},None))
                return v
            return ('global',n)
        return ('builtin',n)
    def callee(self,x):
        g = x['function']
        return g.get('name') or g.get('attribute')
    def attr(self,x,fr):
        o = self.ev(x['obj'],fr); a = x['attribute']
        return self.getattr(o,a)
    def getattr(self,o,a):
        if o[0] == 'cenum': 
            c = self.const_name(a)
            if c is not None: return c
            raise Unsupported('enum member '+a)
        if o[0] == 'enumcls':
            mem = self.m.pyclasses[o[1]]['members']
            if a in mem: return self.ev(mem[a],({},{},None))
        if o[0] == 'mod':
            if o[1] == 'common' or self.m.imports.get(o[1]) == 'common':
                if a in self.m.funcs or a in self.m.externs or a in self.m.assigns: return self.glob(a)
            return ('ext',o[1],a)
        if (o,a) in self.heap: return self.heap[(o,a)]
        if o[0] == 'obj':
            p = self.prop(o,a,'.getter')
            if p is not None: return self.call(p,[],{},this=o)
            c = self.m.classes.get(o[1])
            if c and a in c['methods']: return ('bound',o,a)
            if c and a in c['attrs']: return NONE if c['attrs'][a] in OBJECT else ('uninit',a)
        if o[0] in ('cpp','sub'):
            t = o[1] if o[0] == 'cpp' else o[3]
            mem = self.m.cpp.get(t.rstrip('*&'),{}) if t else {}
            if a in mem:
                if mem[a][1]: return ('bound',o,a)
                return ('sub',o,a,mem[a][0])
            return ('bound',o,a)
        r = self.host.getattr(self,o,a)
        if r is not None: return r
        return ('attr',o,a)
    def callx(self,x,fr):
        fx = x['function']
        if fx['k'] == 'NewExprNode':
            cc = fx.get('cppclass'); t = base_name(cc) if cc else None
            if t is None: raise Unsupported('new')
            return ('cpp',t,self.fresh('new '+t))
        g = self.ev(fx,fr)
        if x['k'] == 'GeneralCallNode':
            pa = x.get('positional_args'); 
            if pa is None or pa['k'] != 'TupleNode': raise Unsupported('call with *args')
            args = [self.ev(a,fr) for a in pa['args']]
            kw = {}
            if x.get('keyword_args'):
                if x['keyword_args']['k'] != 'DictNode': raise Unsupported('call with **kw')
                for i in x['keyword_args']['key_value_pairs']: kw[i['key']['value']] = self.ev(i['value'],fr)
        else: args = [self.ev(a,fr) for a in x['args'] or []]; kw = {}
        self.line = x['l'] or self.line
        return self.apply(g,args,kw)
    def apply(self,g,args,kw):
        m = self.m
        if g[0] == 'func':
            f = m.funcs.get(g[1])
            if f is not None: return self.call(f,args,kw)
            return self.extern(m.externs[g[1]],args,kw)
        if g[0] == 'bound':
            o,n = g[1],g[2]
            if o[0] == 'obj':
                f = m.classes[o[1]]['methods'][n]
                return self.call(f,args,kw,this=o)
            return self.host.method(self,o,n,args)
        if g[0] == 'cls': return self.construct(g[1],args,kw)
        if g[0] == 'attr' and g[1][0] == 'cls' and g[2] == '__new__':
            if not args or args[0][0] != 'cls': raise Unsupported('__new__')
            return self.construct(args[0][1],args[1:],kw)
        if g[0] == 'ntcls': return ('nt',g[1],tuple(args),tuple(sorted(kw.items())))
        if g[0] == 'enumcls':
            if args and args[0][0] == 'c':
                if args[0][1] in g[2]: return args[0]
                raise Raise(('exc','ValueError'),'not a member of '+g[1])
        r = self.host.apply(self,g,args,kw)
        if r is not None: return r
        raise Unsupported('call of '+str(g)[:80])
    def construct(self,cls,args,kw):
        o = ('obj',cls,self.fresh(cls))
        c = self.m.classes[cls]
        for n in ('__cinit__','__init__'):
            f = c['methods'].get(n)
            if f is not None: self.call(f,args if len(f.params) > 1 else [],kw if len(f.params) > 1 else {},this=o)
        return o
    def extern(self,f,args,kw):
        vals = list(args)
        for p in f.params[len(vals):]:
            if p.name in kw: vals.append(kw[p.name])
        if len(vals) != len(f.params): raise Raise(('exc','TypeError'),'wrong number of arguments for '+f.name)
        vals = [self.coerce(v,p.ctype,p.name) for v,p in zip(vals,f.params)]
        return self.host.extern(self,f,vals)

def paths(m,enums,host,body,limit=4000):
    """all paths: body(run) is called for every combination of choices; yields (run, outcome)"""
    script = []; n = 0
    while True:
        r = Run(m,script,enums,host)
        out = None
        try: out = ('return',body(r))
        except Raise as e: out = ('raise',e.v,e.how)
        yield r,out
        n += 1
        if n > limit: raise Unsupported('more than %d paths' % limit)
        made = r.made
        while made and made[-1][0]+1 >= made[-1][1]: made.pop()
        if not made: return
        script = [x[0] for x in made[:-1]]+[made[-1][0]+1]
