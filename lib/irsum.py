"""Gated-SSA summaries of functions.

Takes the JSON printed by tools/irx (LLVM IR after everything that isn't a
"primitive" has been inlined) and turns each function into a summary:

  * every SSA value becomes a hash-consed expression over the function's
    arguments, loads from unknown memory, results of primitive calls and loop
    header values; phi nodes become "ite" (gated) expressions,
  * memory is a persistent chain of stores/copies/joins; a load is resolved to
    the expression that reaches it,
  * every call to a primitive, store to non-local memory, return, loop entry
    and loop back edge becomes an "effect" with a guard expression.

Nothing is executed: the summary is a decision DAG extracted from the program
text.  `Eval` gives the abstract meaning of a summary for one abstract
valuation (an assignment of its leaves, e.g. one ordering of the compared
quantities)."""
import json, sys, re, threading
sys.setrecursionlimit(1000000)
threading.stack_size(512*1024*1024)

class Undecided(Exception):
    """the rule can't decide this (never reported as a violation)"""

_table = {}
class E:
    __slots__ = ('op','a','n')
    def __repr__(self): return show(self)
_count = 0
def mk(op,*a):
    key = (op,)+tuple(x.n if isinstance(x,E) else ('~',x) if not isinstance(x,tuple) else ('t',tuple((y.n if isinstance(y,E) else ('~',y)) if not isinstance(y,tuple) else tuple(z.n if isinstance(z,E) else ('~',z) for z in y) for y in x)) for x in a)
    e = _table.get(key)
    if e is None:
        global _count
        e = E()
        e.op = op; e.a = a; e.n = _count
        _count += 1
        _table[key] = e
    return e

def const(v,w):
    if w == 1: v &= 1
    else:
        v &= (1<<w)-1
        if v >> (w-1): v -= 1<<w
    return mk('const',v,w)
TRUE = const(1,1)
FALSE = const(0,1)
UNDEF = mk('undef')
NULL = mk('null')

def Not(a):
    if a is TRUE: return FALSE
    if a is FALSE: return TRUE
    if a.op == 'not': return a.a[0]
    return mk('not',a)
def And(a,b):
    if a is FALSE or b is FALSE: return FALSE
    if a is TRUE: return b
    if b is TRUE: return a
    if a is b: return a
    if Not(a) is b: return FALSE
    return mk('and',a,b)
def Or(a,b):
    if a is TRUE or b is TRUE: return TRUE
    if a is FALSE: return b
    if b is FALSE: return a
    if a is b: return a
    if Not(a) is b: return TRUE
    # (x & c) | (x & !c) -> x
    if a.op == 'and' and b.op == 'and':
        for i in (0,1):
            for k in (0,1):
                if a.a[i] is b.a[k] and Not(a.a[1-i]) is b.a[1-k]: return a.a[i]
    return mk('or',a,b)
def Ite(c,a,b):
    if c is TRUE: return a
    if c is FALSE: return b
    if a is b: return a
    if a is UNDEF: return b
    if b is UNDEF: return a
    if a is TRUE and b is FALSE: return c
    if a is FALSE and b is TRUE: return Not(c)
    return mk('ite',c,a,b)

def ptr(base,off,vars=()):
    if base.op == 'ptr':
        off += base.a[1]
        vars = tuple(base.a[2])+tuple(vars)
        base = base.a[0]
    m = {}
    order = []
    for s,i in vars:
        if i.op == 'const' and isinstance(s,int):
            off += s*i.a[0]
            continue
        k = i.n
        if k in m: m[k] = (m[k][0]+s,i)
        else: m[k] = (s,i); order.append(k)
    vs = tuple(sorted((m[k] for k in order if m[k][0] != 0),key=lambda x: x[1].n))
    if not vs and off == 0: return base if base.op != 'ptr' else base
    return mk('ptr',base,off,vs)

def pparts(e):
    if e.op == 'ptr': return e.a[0],e.a[1],e.a[2]
    return e,0,()

def root(e):
    while True:
        if e.op == 'ptr': e = e.a[0]
        elif e.op in ('elemof','vsz'): e = e.a[0]
        else: return e

INTW = re.compile(r'^i(\d+)$')
def width(ty):
    m = INTW.match(ty)
    return int(m.group(1)) if m else (64 if ty == 'ptr' else None)

def show(e,depth=6):
    if not isinstance(e,E): return str(e)
    if depth == 0: return '…'
    s = lambda x: show(x,depth-1)
    if e.op == 'const': return str(e.a[0])
    if e.op == 'arg': return 'arg%d' % e.a[0]
    if e.op == 'alloca': return 'local%d' % e.a[0]
    if e.op == 'ptr': return '(%s+%d%s)' % (s(e.a[0]),e.a[1],''.join('+%s*%s' % (sc,s(i)) for sc,i in e.a[2]))
    if e.op == 'ld': return '*%s' % s(e.a[0]) + ('' if e.a[2] == 'init' else '@%s' % e.a[2])
    if e.op == 'ite': return '(%s ? %s : %s)' % tuple(map(s,e.a))
    if e.op == 'icmp': return '(%s %s %s)' % (s(e.a[2]),e.a[0],s(e.a[3]))
    if e.op == 'call': return '%s#%d(%s)' % (e.a[0].split('::')[-1],e.a[1],','.join(map(s,e.a[2])))
    return '%s(%s)' % (e.op,','.join(map(s,e.a)))

# ---------------------------------------------------------------- memory
class Mem:
    __slots__ = ('kind','prev','d','n','memo')
    cnt = 0
    def __init__(self,kind,prev=None,**d):
        self.kind = kind; self.prev = prev; self.d = d; self.memo = {}
        Mem.cnt += 1
        self.n = Mem.cnt

def eqexpr(a,b,w=64):
    if a is b: return TRUE
    if a.op == 'const' and b.op == 'const': return TRUE if a.a[0] == b.a[0] else FALSE
    if a.n > b.n: a,b = b,a
    # x+c1 == x+c2
    def sp(x):
        if x.op == 'add' and x.a[2].op == 'const': return x.a[1],x.a[2].a[0]
        return x,0
    (xa,ca),(xb,cb) = sp(a),sp(b)
    if xa is xb: return TRUE if ca == cb else FALSE
    return mk('icmp','eq',w,a,b)

def overlap(p,n,q,m):
    """relation of [p,p+n) to [q,q+m): 'no', ('in',delta) when p inside q,
    ('gate',cond,delta), 'partial' or 'may'"""
    pb,po,pv = pparts(p)
    qb,qo,qv = pparts(q)
    if pb is not qb: return 'no'
    if pv == qv or (len(pv) == len(qv) and all(x[0] == y[0] and x[1] is y[1] for x,y in zip(pv,qv))):
        d = po - qo
        if d >= m or d + n <= 0: return 'no'
        if d >= 0 and d + n <= m: return ('in',d)
        return ('partial',d)
    # one symbolic index each (or constant index): compare indices
    def single(vs,off,scale):
        if len(vs) == 1 and vs[0][0] == scale: return vs[0][1],off
        if not vs and isinstance(scale,int) and scale > 0:
            k = off // scale
            return const(k,64), off - k*scale
        return None
    scales = [v[0] for v in pv] + [v[0] for v in qv]
    if scales and all(s == scales[0] for s in scales):
        sc = scales[0]
        a = single(pv,po,sc); b = single(qv,qo,sc)
        if a and b:
            d = a[1]-b[1]
            if isinstance(sc,int):
                # normalise offsets that exceed the scale
                ia,oa = a; ib,ob = b
                if oa // sc: ia = addc(ia,oa//sc); oa %= sc
                if ob // sc: ib = addc(ib,ob//sc); ob %= sc
                d = oa-ob
                c = eqexpr(ia,ib)
            else: c = eqexpr(a[0],b[0])
            if isinstance(sc,int) and m > sc and (vs_ := (a,b)) and 0 <= d and d + n <= sc and m % sc == 0 and m//sc <= 64:
                # a store covering several elements
                gs = [(eqexpr(ia,addc(ib,k)),k*sc+d) for k in range(m//sc)]
                gs = [g for g in gs if g[0] is not FALSE]
                if not gs: return 'no'
                for c_,dl in gs:
                    if c_ is TRUE: return ('in',dl)
                return ('gates',gs)
            if d >= m or d + n <= 0: return 'no'
            if c is FALSE: return 'no'
            if d >= 0 and d + n <= m: return ('in',d) if c is TRUE else ('gate',c,d)
            return 'may'
    return 'may'

def addc(e,k):
    if k == 0: return e
    if e.op == 'const': return const(e.a[0]+k,e.a[1])
    return binop('add',64,e,const(k,64))

def extract(val,delta,n,vsize,ty):
    if delta == 0 and n == vsize: return val
    w = n*8
    if val.op == 'const': return const((val.a[0] & ((1<<(vsize*8))-1)) >> (8*delta),w)
    if val.op == 'undef': return UNDEF
    if val.op == 'concat':
        for o,s,v in val.a[0]:
            if o <= delta and delta+n <= o+s: return extract(v,delta-o,n,s,ty)
    if vsize == 8:
        r = narrow(val,delta,n)
        if r is not None: return r
    if val.op == 'ite':
        return Ite(val.a[0],extract(val.a[1],delta,n,vsize,ty),extract(val.a[2],delta,n,vsize,ty))
    return mk('bits',val,delta,n)

class Fn:
    def __init__(self,mod,j):
        self.mod = mod; self.j = j
        self.name = j['simple']; self.mangled = j['name']
        self.args = j['args']
        self.blocks = j['blocks']
    label = None
    @property
    def where(self): return self.label or '%s (%s:%s)' % (self.name,self.j.get('file','?'),self.j.get('line','?'))

class Module:
    def __init__(self,path_or_json):
        self.j = json.load(open(path_or_json)) if isinstance(path_or_json,str) else path_or_json
        self.fns = {}
        for f in self.j['functions']:
            self.fns.setdefault(f['simple'],[]).append(Fn(self,f))
        self.structs = {}
        for t in self.j['types']:
            if 'struct' in t: self.structs.setdefault(t['scope']+t['struct'],t)
        self.enums = {t['enum']:dict(t['values']) for t in self.j['types'] if 'enum' in t}
        self.globals = {g['name']:g for g in self.j['globals']}
    def fn(self,name):
        l = self.fns.get(name,[])
        if len(l) != 1: raise KeyError('%d functions named %s' % (len(l),name))
        return l[0]
    def sizeof(self,tname):
        tname = tname.strip()
        prim = {'unsigned long':8,'long':8,'int':4,'unsigned int':4,'char':1,'bool':1,'unsigned char':1,'short':2,'unsigned short':2,'double':8,'float':4,'long long':8,'unsigned long long':8}
        if tname in prim: return prim[tname]
        if tname.endswith('*'): return 8
        t = self.structs.get(tname)
        return t['size'] if t else None
    def const_global(self,name):
        g = self.globals[name]
        return int(g['init'][1])

def template_args(s):
    """first-level template arguments of the first <...> in s"""
    i = s.index('<')
    d = 0; cur = ''; out = []
    for c in s[i:]:
        if c == '<':
            d += 1
            if d == 1: continue
        elif c == '>':
            d -= 1
            if d == 0: out.append(cur.strip()); return out
        if c == ',' and d == 1: out.append(cur.strip()); cur = ''
        else: cur += c
    return out

def narrow(a,lo,n):
    """bytes [lo,lo+n) of the 8 byte value a, or None"""
    if a.op == 'ld' and a.a[1] == 8: return mk('ld',ptr(a.a[0],lo),n,a.a[2],'i%d' % (n*8))
    if a.op == 'concat':
        for o,s_,v in a.a[0]:
            if o <= lo and lo+n <= o+s_: return extract(v,lo-o,n,s_,None)
    if a.op == 'lshr' and a.a[2].op == 'const' and a.a[2].a[0] % 8 == 0 and a.a[2].a[0]//8+lo+n <= a.a[0]//8: return narrow(a.a[1],lo+a.a[2].a[0]//8,n)
    if a.op == 'zext' and lo+n <= a.a[0]//8 and lo == 0 and a.a[0] == n*8: return a.a[2]
    if a.op == 'zext' and a.a[0] % 8 == 0 and lo >= a.a[0]//8: return const(0,8*n)
    if a.op == 'zext' and a.a[0] > n*8 and a.a[0] == 64: return narrow(a.a[2],lo,n)
    if a.op == 'shl' and a.a[2].op == 'const' and a.a[2].a[0] % 8 == 0:
        k = a.a[2].a[0]//8
        if lo >= k: return narrow(a.a[1],lo-k,n)
        if lo+n <= k: return const(0,8*n)
    if a.op in ('or','and') and len(a.a) == 3 and a.a[0] == 64:
        x = narrow(a.a[1],lo,n); y = narrow(a.a[2],lo,n)
        for u_,v_ in ((x,y),(y,x)):
            if u_ is not None and u_.op == 'const':
                z = u_.a[0] & ((1<<(8*n))-1)
                if z == 0: return v_ if a.op == 'or' else const(0,8*n)
                if z == (1<<(8*n))-1: return v_ if a.op == 'and' else u_
    if a.op == 'ite':
        x = narrow(a.a[1],lo,n); y = narrow(a.a[2],lo,n)
        if x is not None and y is not None: return Ite(a.a[0],x,y)
    if a.op == 'const': return const((a.a[0] >> (8*lo)),8*n)
    if a is UNDEF: return UNDEF
    return None

def _pack(a,b):
    """(zext x << k) | zext y  ->  concat"""
    for x,y in ((a,b),(b,a)):
        if x.op == 'shl' and x.a[2].op == 'const' and x.a[1].op == 'zext' and x.a[1].a[0] == x.a[2].a[0] == 32 and y.op == 'zext' and y.a[0] == 32:
            return mk('concat',((0,4,y.a[2]),(4,4,x.a[1].a[2])))
    return None

def binop(op,w,a,b):
    if op == 'or' and w == 64:
        r = _pack(a,b)
        if r is not None: return r
    if a.op == 'const' and b.op == 'const':
        r = ev_bin(op,w,a.a[0],b.a[0])
        if r is not None: return const(r,w)
    if op in ('add','mul','and','or','xor'):
        if a.op == 'const': a,b = b,a
    if b.op == 'const':
        v = b.a[0]
        if op in ('add','sub','or','xor','shl','lshr','ashr') and v == 0: return a
        if op == 'mul' and v == 1: return a
        if op == 'and' and v == 0: return b
        if op == 'and' and (v == -1 or (w == 1 and v == 1)): return a
        if op == 'sub' and w != 1: return binop('add',w,a,const(-v,w))
        if op == 'add' and a.op == 'add' and a.a[0] == w and a.a[2].op == 'const':
            return binop('add',w,a.a[1],const(a.a[2].a[0]+v,w))
    if w == 1:
        if op == 'xor':
            if b is TRUE: return Not(a)
        if op == 'and': return And(a,b)
        if op == 'or': return Or(a,b)
    if op == 'sub' and a is b: return const(0,w)
    if op in ('add','mul','and','or','xor') and b.op != 'const' and a.n > b.n: a,b = b,a
    return mk(op,w,a,b)

def u(v,w): return v & ((1<<w)-1)
def s(v,w):
    v &= (1<<w)-1
    return v - (1<<w) if w > 1 and v >> (w-1) else v
def ev_bin(op,w,x,y):
    if op == 'add': return s(x+y,w)
    if op == 'sub': return s(x-y,w)
    if op == 'mul': return s(x*y,w)
    if op == 'and': return s(x&y,w)
    if op == 'or': return s(x|y,w)
    if op == 'xor': return s(x^y,w)
    if op == 'shl': return s(x<<u(y,w),w) if u(y,w) < w else 0
    if op == 'lshr': return s(u(x,w)>>u(y,w),w) if u(y,w) < w else 0
    if op == 'ashr': return s(x>>u(y,w),w) if u(y,w) < w else 0
    if op == 'sdiv':
        if y == 0: return None
        q = abs(x)//abs(y)
        return s(q if (x<0) == (y<0) else -q,w)
    if op == 'srem':
        if y == 0: return None
        r = abs(x)%abs(y)
        return s(-r if x<0 else r,w)
    if op == 'udiv': return None if u(y,w) == 0 else s(u(x,w)//u(y,w),w)
    if op == 'urem': return None if u(y,w) == 0 else s(u(x,w)%u(y,w),w)
    return None

PREDS = {
    'eq':lambda x,y,w: x==y, 'ne':lambda x,y,w: x!=y,
    'slt':lambda x,y,w: x<y, 'sle':lambda x,y,w: x<=y, 'sgt':lambda x,y,w: x>y, 'sge':lambda x,y,w: x>=y,
    'ult':lambda x,y,w: u(x,w)<u(y,w), 'ule':lambda x,y,w: u(x,w)<=u(y,w),
    'ugt':lambda x,y,w: u(x,w)>u(y,w), 'uge':lambda x,y,w: u(x,w)>=u(y,w)}
FPREDS = {'oeq':lambda x,y:x==y,'one':lambda x,y:x!=y,'olt':lambda x,y:x<y,'ole':lambda x,y:x<=y,'ogt':lambda x,y:x>y,'oge':lambda x,y:x>=y,
    'ueq':lambda x,y:x==y,'une':lambda x,y:x!=y,'ult':lambda x,y:x<y,'ule':lambda x,y:x<=y,'ugt':lambda x,y:x>y,'uge':lambda x,y:x>=y,
    'ord':lambda x,y:True,'uno':lambda x,y:False}

class Effect:
    def __init__(self,kind,guard,mem,ins,**d):
        self.kind = kind; self.guard = guard; self.mem = mem
        self.line = ins.get('line'); self.file = ins.get('file'); self.scope = ins.get('scope')
        self.__dict__.update(d)
    @property
    def where(self):
        return '%s:%s' % ((self.file or '?').split('/include/')[-1],self.line)
    def __repr__(self):
        if self.kind == 'call': return 'call %s(%s) [%s]' % (self.name,', '.join(map(show,self.args)),self.where)
        if self.kind == 'store': return 'store %s <- %s [%s]' % (show(self.ptr),show(self.val),self.where)
        return '%s %s [%s]' % (self.kind,{k:v for k,v in self.__dict__.items() if k in ('val','phis','header')},self.where)

# effects of primitives on memory; returns True when handled
VEC_CONST = {'size','begin','end','cbegin','cend','data','front','back','empty','operator[]','at','capacity'}

class Summary:
    def __init__(self,fn,noclobber=None,alias=None,readonly=(),models=None):
        """noclobber: regex of primitives that don't modify memory reachable
        from their arguments"""
        self.fn = fn
        self.noclobber = re.compile(noclobber) if noclobber else None
        # what primitives do to memory: regex -> f(summary,args,mem,result) -> [(ptr,size,value)] (value None: result only), or an expression for the result
        self.models = [(re.compile(k),v) for k,v in (models or {}).items()]
        self.vals = {}
        self.effects = []
        self.notes = set()
        self.calls = 0
        self.init = Mem('init')
        self.loops = {}
        t = {}
        def run():
            try: self._build()
            except BaseException as ex: t['ex'] = ex
        th = threading.Thread(target=run); th.start(); th.join()
        if 'ex' in t: raise t['ex']

    # ---- operands
    def opd(self,o):
        k = o[0]
        if k == 'v': return self.vals.get(o[1],UNDEF) if o[1] in self.vals else mk('later',o[1])
        if k == 'c': return const(int(o[1]),int(o[2]))
        if k == 'a': return mk('arg',o[1])
        if k == 'f': return mk('fconst',o[1])
        if k == 'null': return NULL
        if k == 'undef': return UNDEF
        if k == 'g': return mk('global',o[1])
        if k == 'fn': return mk('fn',o[2])
        if k == 'gep': return ptr(self.opd(o[1]),o[2])
        if k == 'cast': return self.opd(o[2])
        if k == 'zero': return mk('zero')
        if k == 'agg': return mk('agg',tuple((i,self.opd(x)) for i,x in enumerate(o[1:])))
        return mk('opaque',str(o))

    # ---- cfg
    def _succs(self,b):
        if not self.fn.blocks[b]: return []
        t = self.fn.blocks[b][-1]
        if t['op'] == 'br': return t['succ']
        if t['op'] == 'switch': return list(dict.fromkeys([t['default']]+[c[1] for c in t['cases']]))
        if t['op'] == 'invoke': return [t['normal'],t['unwind']]
        return []

    def _build(self):
        fn = self.fn
        n = len(fn.blocks)
        # RPO and back edges (DFS)
        state = [0]*n; post = []
        self.back = set()
        stack = [(0,iter(self._succs(0)))]
        state[0] = 1
        while stack:
            b,it = stack[-1]
            for sx in it:
                if state[sx] == 0:
                    state[sx] = 1
                    stack.append((sx,iter(self._succs(sx))))
                    break
                elif state[sx] == 1: self.back.add((b,sx))
            else:
                state[b] = 2; post.append(b); stack.pop()
        rpo = post[::-1]
        self.rpo = rpo
        idx = {b:i for i,b in enumerate(rpo)}
        preds = {b:[] for b in rpo}
        for b in rpo:
            for sx in self._succs(b): preds[sx].append(b)
        self.preds = preds
        headers = {h for _,h in self.back}
        # natural loop bodies
        for h in headers:
            body = {h}
            work = [b for b,x in self.back if x == h]
            while work:
                b = work.pop()
                if b in body: continue
                body.add(b); work += preds[b]
            self.loops[h] = {'body':body,'phis':{},'enter':[],'back':[]}
        self._loop_writes()
        self.bcond = {}; self.econd = {}; bmem = {}
        omem = {}
        for b in rpo:
            if b == 0:
                cond = TRUE; mem = self.init
            else:
                ins = [p for p in preds[b] if (p,b) not in self.back]
                cond = FALSE
                for p in dict.fromkeys(ins): cond = Or(cond,self.econd[(p,b)])
                ms = [(self.econd[(p,b)],omem[p]) for p in dict.fromkeys(ins)]
                mem = ms[0][1]
                if any(m is not mem for _,m in ms): mem = Mem('join',None,ms=ms)
                if b in headers:
                    mem = Mem('havoc',mem,h=b)
            self.bcond[b] = cond
            m = mem
            phis_done = False
            for i in fn.blocks[b]:
                m = self._instr(b,i,cond,m,b in headers)
            omem[b] = m
        # loop entry values / back edge values
        for h,L in self.loops.items():
            for i in fn.blocks[h]:
                if i['op'] != 'phi': break
                for o,pb in i['in']:
                    (L['back'] if (pb,h) in self.back else L['enter']).append((pb,i['id'],self.opd(o)))
        for b,h in self.back:
            vals = {pid:v for pb,pid,v in self.loops[h]['back'] if pb == b}
            e = Effect('backedge',self.econd[(b,h)],omem[b],fn.blocks[b][-1],header=h,phis=vals)
            e.order = (idx[b],1)
            self.effects.append(e)
        self.omem = omem
        for e in self.effects:
            if not hasattr(e,'order'): e.order = (idx[e.block],0)
        self.effects.sort(key=lambda e: e.order)

    def _loop_writes(self):
        defs = {}
        for b in self.fn.blocks:
            for i in b: defs[i['id']] = i
        def base(o,depth=0):
            while o[0] == 'v':
                i = defs.get(o[1])
                if i is None: return ('?',)
                if i['op'] == 'getelementptr' and 'base' in i: o = i['base']
                elif i['op'] == 'alloca': return ('alloca',i['id'])
                elif i['op'] in ('phi','select') and depth < 4:
                    srcs = [x[0] for x in i['in']] if i['op'] == 'phi' else i['ops'][1:]
                    bs = {base(x,depth+1) for x in srcs}
                    return bs.pop() if len(bs) == 1 else ('multi',tuple(sorted(bs,key=str)))
                else: return ('v',o[1])
            if o[0] == 'gep': return base(o[1])
            return tuple(o[:2])
        def flat(x):
            if x[0] == 'multi':
                for y in x[1]: yield from flat(y)
            else: yield x
        self.ibase = base
        esc = set()
        for b in self.fn.blocks:
            for i in b:
                if i['op'] == 'store':
                    for x in flat(base(i['ops'][0])): esc.add(x)
        self.escaped = esc
        for h,L in self.loops.items():
            w = set(); calls = False
            for b in L['body']:
                for i in self.fn.blocks[b]:
                    if i['op'] == 'store':
                        for x in flat(base(i['ops'][1])): w.add(x)
                    elif i['op'] in ('call','invoke'):
                        nm = i['callee'][2] if i['callee'][0] == 'fn' else 'virtual::?'
                        if i['callee'][0] == 'fn' and nm.startswith('llvm.mem'):
                            for x in flat(base(i['args'][0])): w.add(x)
                        elif not self._pure(nm,i):
                            calls = True
                            for a in i['args']:
                                for x in flat(base(a)): w.add(x)
            L['writes'] = w; L['calls'] = calls

    def _pure(self,nm,i):
        if i.get('rdonly') or i.get('rdnone'): return True
        if self.noclobber and self.noclobber.search(nm): return True
        if nm in ('vv_elems','vv_append','vv_shrink','vv_reserve','vv_init','vv_grow'): return True
        if nm.startswith('std::vector::') and nm[13:] in VEC_CONST: return True
        return False

    # ---- memory reads
    def load(self,mem,p,n,ty='i64'):
        pb_ = pparts(p)
        if pb_[0].op == 'ite' and pb_[0].a[1].op != 'null' and pb_[0].a[2].op != 'null':
            b_ = pb_[0]
            return Ite(b_.a[0],self.load(mem,ptr(b_.a[1],pb_[1],pb_[2]),n,ty),self.load(mem,ptr(b_.a[2],pb_[1],pb_[2]),n,ty))
        key = (p.n,n,ty)
        start = mem
        trail = []
        while True:
            if key in mem.memo:
                r = mem.memo[key]; break
            trail.append(mem)
            k = mem.kind
            if k == 'init':
                r = self._leaf(p,n,'init',ty); break
            if k == 'store':
                o = overlap(p,n,mem.d['ptr'],mem.d['size'])
                if o == 'no': mem = mem.prev; continue
                if o == 'may':
                    self.notes.add('assumed no alias between %s and %s' % (show(p,3),show(mem.d['ptr'],3)))
                    mem = mem.prev; continue
                if o[0] == 'in': r = extract(mem.d['val'],o[1],n,mem.d['size'],ty); break
                if o[0] in ('gate','gates'):
                    r = self.load(mem.prev,p,n,ty)
                    for c_,dl in ([o[1:]] if o[0] == 'gate' else o[1]): r = Ite(c_,extract(mem.d['val'],dl,n,mem.d['size'],ty),r)
                    break
                # partial: wide load over a narrower store
                r = self._wide(mem,p,n,ty); break
            if k == 'copy':
                o = overlap(p,n,mem.d['ptr'],mem.d['size'])
                if o == 'no' or o == 'may': mem = mem.prev; continue
                if o[0] == 'in': r = self.load(mem.d['srcmem'],ptr(mem.d['src'],o[1]),n,ty); break
                if o[0] in ('gate','gates'):
                    r = self.load(mem.prev,p,n,ty)
                    for c_,dl in ([o[1:]] if o[0] == 'gate' else o[1]): r = Ite(c_,self.load(mem.d['srcmem'],ptr(mem.d['src'],dl),n,ty),r)
                    break
                r = self._wide(mem,p,n,ty); break
            if k == 'set':
                o = overlap(p,n,mem.d['ptr'],mem.d['size'])
                if o == 'no' or o == 'may': mem = mem.prev; continue
                if o[0] in ('in','gate','gates'):
                    v = mem.d['val']
                    r = const(int.from_bytes(bytes([v.a[0]&255])*n,'little'),n*8) if v.op == 'const' else self._leaf(p,n,'set%d' % mem.n,ty)
                    if o[0] != 'in':
                        cs = [o[1]] if o[0] == 'gate' else [c_ for c_,_ in o[1]]
                        x = self.load(mem.prev,p,n,ty)
                        for c_ in cs: x = Ite(c_,r,x)
                        r = x
                    break
                r = self._wide(mem,p,n,ty); break
            if k == 'join':
                vs = [(c,self.load(m,p,n,ty)) for c,m in mem.d['ms']]
                r = vs[-1][1]
                for c,v in reversed(vs[:-1]): r = Ite(c,v,r)
                break
            if k == 'call':
                if self._clobbered(p,mem): r = self._leaf(p,n,'c%d' % mem.d['k'],ty); break
                mem = mem.prev; continue
            if k == 'havoc':
                L = self.loops[mem.d['h']]
                if self._loopmod(p,L): r = self._leaf(p,n,'L%d' % mem.d['h'],ty); break
                mem = mem.prev; continue
            raise AssertionError(k)
        for m in trail: m.memo[key] = r
        return r

    def _store(self,m,p,n,v,i):
        pb,o,vs = pparts(p)
        if pb.op == 'ite' and pb.a[1].op != 'null' and pb.a[2].op != 'null':
            c = pb.a[0]
            x,y = ptr(pb.a[1],o,vs),ptr(pb.a[2],o,vs)
            ty = 'i%d' % (n*8)
            m1 = self._store(m,x,n,Ite(c,v,self.load(m,x,n,ty)),i)
            return self._store(m1,y,n,Ite(c,self.load(m1,y,n,ty),v),i)
        return Mem('store',m,ptr=p,size=n,val=v)

    def _wide(self,mem,p,n,ty):
        """load covering several stores: assemble from 1..8 byte pieces"""
        pieces = []
        o = 0
        step = 4 if n % 4 == 0 and n > 4 else 1
        if n % 8 == 0 and n > 8: step = 8
        if n <= step: return self._leaf(p,n,'wide%d' % mem.n,ty)
        while o < n:
            pieces.append((o,step,self.load(mem,ptr(p,o),step,'i%d' % (step*8))))
            o += step
        return mk('concat',tuple(pieces))

    def _leaf(self,p,n,tag,ty):
        return mk('ld',p,n,tag,ty)

    def _clobbered(self,p,mem):
        r = root(p)
        pb = pparts(p)[0]
        if pb.op in ('elemof','vsz') : return mem.d['k'] in () or any(pb.a[0] is x for x in mem.d['vecs'])
        for a in mem.d['roots']:
            if a is r: 
                # a pointer to one member can't reach the enclosing object
                if mem.d['exact'].get(a.n) is not None and r.op != 'alloca':
                    los = mem.d['exact'][a.n]
                    return any(not pparts(p)[2] and lo <= pparts(p)[1] < lo+mem.d['span'] for lo in los) or pparts(p)[2] != ()
                return True
        if r.op == 'alloca': return r.n in mem.d['escaped']
        return False

    def _loopmod(self,p,L):
        r = root(p)
        pb = pparts(p)[0]
        if r.op == 'alloca' and pb.op not in ('elemof','vsz'): return ('alloca',r.a[0]) in L['writes'] or (L['calls'] and ('alloca',r.a[0]) in self.escaped)
        if pb.op in ('elemof','vsz'):
            return True if (L['calls'] or any(w[0] not in ('alloca',) for w in L['writes'])) else False
        return bool([w for w in L['writes'] if w[0] != 'alloca']) or L['calls']

    # ---- instructions
    def _instr(self,b,i,cond,m,is_header):
        op = i['op']; d = i['id']; V = self.vals
        if op == 'phi':
            if is_header:
                V[d] = mk('phi',self.fn.mangled,b,d,i['ty'])
                self.loops[b]['phis'][d] = V[d]
                return m
            vs = [(self.econd[(pb,b)],self.opd(o)) for o,pb in i['in'] if (pb,b) in self.econd]
            r = vs[-1][1]
            for c,v in reversed(vs[:-1]): r = Ite(c,v,r)
            V[d] = r
            return m
        if op == 'alloca':
            V[d] = mk('alloca',d); return m
        if op == 'getelementptr':
            if 'base' in i: V[d] = ptr(self.opd(i['base']),i['off'],tuple((sc,self._idx(self.opd(o))) for o,sc in i['vars']))
            else: V[d] = mk('gep?',*[self.opd(o) for o in i['ops']])
            return m
        if op == 'load':
            V[d] = self.load(m,self.opd(i['ops'][0]),i['size'],i['ty'])
            return m
        if op == 'store':
            p = self.opd(i['ops'][1]); v = self.opd(i['ops'][0])
            if v.op == 'agg' or v.op == 'zero':
                pass
            if root(p).op != 'alloca' or pparts(p)[0].op == 'elemof':
                e = Effect('store',cond,m,i,ptr=p,val=v,size=i['size'],block=b)
                self.effects.append(e)
            return self._store(m,p,i['size'],v,i)
        if op in ('call','invoke'):
            m = self._call(b,i,cond,m)
            if op == 'invoke':
                ex = mk('exc',d)
                self.econd[(b,i['normal'])] = And(cond,Not(ex))
                self.econd[(b,i['unwind'])] = And(cond,ex)
            return m
        if op == 'br':
            if 'cond' in i:
                c = self.opd(i['cond']); t,f = i['succ']
                if t == f: self.econd[(b,t)] = cond
                else:
                    self.econd[(b,t)] = And(cond,c); self.econd[(b,f)] = And(cond,Not(c))
            else: self.econd[(b,i['succ'][0])] = cond
            return m
        if op == 'switch':
            c = self.opd(i['cond'])
            dc = TRUE
            acc = {}
            for o,t in i['cases']:
                k = self.opd(o)
                q = self._icmp('eq',k.a[1],c,k)
                acc[t] = Or(acc.get(t,FALSE),q)
                dc = And(dc,Not(q))
            acc[i['default']] = Or(acc.get(i['default'],FALSE),dc)
            for t,q in acc.items(): self.econd[(b,t)] = And(cond,q)
            return m
        if op == 'ret':
            v = self.opd(i['ops'][0]) if i['ops'] else None
            self.effects.append(Effect('ret',cond,m,i,val=v,block=b))
            return m
        if op == 'unreachable':
            self.effects.append(Effect('unreachable',cond,m,i,block=b)); return m
        if op == 'resume':
            self.effects.append(Effect('resume',cond,m,i,block=b)); return m
        if op == 'landingpad':
            V[d] = mk('landingpad',d); return m
        if op == 'select':
            c,x,y = map(self.opd,i['ops'])
            V[d] = Ite(c,x,y) if width(i['ty']) != 1 else Or(And(c,x),And(Not(c),y))
            return m
        if op == 'icmp':
            w = width(i['oty'])
            V[d] = self._icmp(i['pred'],w or 64,*map(self.opd,i['ops'])); return m
        if op == 'fcmp':
            V[d] = mk('fcmp',i['pred'],*map(self.opd,i['ops'])); return m
        if op in ('add','sub','mul','and','or','xor','shl','lshr','ashr','sdiv','srem','udiv','urem'):
            w = width(i['ty'])
            V[d] = binop(op,w,*map(self.opd,i['ops'])) if w else mk('vecop',op,*map(self.opd,i['ops'])); return m
        if op in ('fadd','fsub','fmul','fdiv','fneg','frem'):
            V[d] = mk(op,*map(self.opd,i['ops'])); return m
        if op in ('sext','zext','trunc'):
            a = self.opd(i['ops'][0]); wf = width(i['oty']); wt = width(i['ty'])
            if a.op == 'const':
                V[d] = const(a.a[0] if op != 'zext' else u(a.a[0],wf),wt)
            elif op == 'trunc' and a.op in ('sext','zext') and a.a[0] == wt: V[d] = a.a[2]
            elif op == 'trunc' and wf == 64 and wt in (8,16,32) and narrow(a,0,wt//8) is not None: V[d] = narrow(a,0,wt//8)
            elif op == 'trunc' and a.op == 'concat': V[d] = extract(a,0,wt//8,wf//8,i['ty']) if wt >= 8 else mk(op,wf,wt,a)
            elif a is UNDEF: V[d] = UNDEF
            else: V[d] = mk(op,wf,wt,a)
            return m
        if op in ('sitofp','uitofp','fptosi','fptoui','fpext','fptrunc'):
            V[d] = mk(op,width(i['oty']) or 0,width(i['ty']) or 0,self.opd(i['ops'][0])); return m
        if op in ('ptrtoint','inttoptr','bitcast','freeze','addrspacecast'):
            V[d] = self.opd(i['ops'][0]); return m
        if op == 'extractvalue':
            a = self.opd(i['ops'][0])
            for k in i['idx']: a = self._extractv(a,k)
            V[d] = a; return m
        if op == 'insertvalue':
            a,x = map(self.opd,i['ops'])
            V[d] = self._insertv(a,i['idx'],x); return m
        V[d] = mk('op:'+op,d,*[self.opd(o) for o in i.get('ops',[])])
        return m

    def _idx(self,e):
        while e.op in ('sext','zext') : e = e.a[2]
        return e

    def _extractv(self,a,k):
        if a.op == 'agg':
            for i,x in a.a[0]:
                if i == k: return x
            return UNDEF
        if a.op == 'undef': return UNDEF
        if a.op == 'ite': return Ite(a.a[0],self._extractv(a.a[1],k),self._extractv(a.a[2],k))
        return mk('ext',a,k)
    def _insertv(self,a,idx,x):
        d = dict(a.a[0]) if a.op == 'agg' else {}
        if a.op not in ('agg','undef'): return mk('insv',a,tuple((i,const(i,64)) for i in idx),x)
        if len(idx) > 1: x = self._insertv(d.get(idx[0],UNDEF),idx[1:],x)
        d[idx[0]] = x
        return mk('agg',tuple(sorted(d.items())))

    def _icmp(self,pred,w,a,b):
        if a.op == 'const' and b.op == 'const': return TRUE if PREDS[pred](a.a[0],b.a[0],w) else FALSE
        if pred in ('eq','ne'):
            if a is b: return TRUE if pred == 'eq' else FALSE
            if w == 1 and b.op == 'const':
                r = a if b.a[0] else Not(a)
                return r if pred == 'eq' else Not(r)
            if a.n > b.n and b.op != 'const' or a.op == 'const': a,b = b,a
            # ite(c,k1,k2) == k
            if a.op == 'ite' and b.op == 'const' and a.a[1].op == 'const' and a.a[2].op == 'const':
                r = Ite(a.a[0],self._icmp('eq',w,a.a[1],b),self._icmp('eq',w,a.a[2],b))
                return r if pred == 'eq' else Not(r)
            if a.op == 'zext' and b.op == 'const' and a.a[0] == 1:
                v = b.a[0]
                r = a.a[2] if v == 1 else Not(a.a[2]) if v == 0 else FALSE
                return r if pred == 'eq' else Not(r)
            e = mk('icmp','eq',w,a,b)
            return e if pred == 'eq' else Not(e)
        return mk('icmp',pred,w,a,b)

    # ---- calls
    def _call(self,b,i,cond,m):
        d = i['id']; V = self.vals
        c = i['callee']
        args = [self.opd(a) for a in i['args']]
        if c[0] == 'fn':
            nm = c[2]
            if nm.startswith('llvm.memcpy') or nm.startswith('llvm.memmove'):
                n = args[2]
                if root(args[0]).op != 'alloca':
                    self.effects.append(Effect('copy',cond,m,i,ptr=args[0],src=args[1],size=n,block=b,k=-d))
                if n.op == 'const': return Mem('copy',m,ptr=args[0],src=args[1],size=n.a[0],srcmem=m)
                return Mem('call',m,k=-d,roots=[root(args[0])],exact={},span=0,vecs=[],escaped=set())
            if nm.startswith('llvm.memset'):
                n = args[2]
                if root(args[0]).op != 'alloca':
                    self.effects.append(Effect('set',cond,m,i,ptr=args[0],val=args[1],size=n,block=b))
                if n.op == 'const': return Mem('set',m,ptr=args[0],val=args[1],size=n.a[0])
                return m
            if nm.startswith('llvm.'):
                mn = nm.split('.')
                if mn[1] in ('smax','smin','umax','umin'):
                    w = int(mn[2][1:])
                    p = {'smax':'sgt','smin':'slt','umax':'ugt','umin':'ult'}[mn[1]]
                    V[d] = Ite(self._icmp(p,w,args[0],args[1]),args[0],args[1]); return m
                if mn[1] == 'abs':
                    w = int(mn[2][1:])
                    V[d] = Ite(self._icmp('slt',w,args[0],const(0,w)),binop('sub',w,const(0,w),args[0]),args[0]); return m
                if mn[1] in ('expect','launder','strip'): V[d] = args[0]; return m
                if mn[1] in ('trap','donothing','stacksave','stackrestore'): return m
                V[d] = mk('intr','.'.join(mn[1:]),tuple((k,a) for k,a in enumerate(args))); return m
        else:
            nm = None
        # the visible vector of witness/vv.hpp
        if nm and nm.startswith('vv_'):
            if nm == 'vv_elems': V[d] = mk('elemof',args[0]); return m
            V[d] = UNDEF
            e = Effect('call',cond,m,i,name=nm,args=args,k=d,res=UNDEF,block=b,dem=None)
            if nm == 'vv_append': e.elem = args[1]
            self.effects.append(e)
            if nm in ('vv_append','vv_shrink','vv_reserve','vv_init','vv_grow'): return m
            return Mem('call',m,k=d,roots=[],exact={},span=0,vecs=[mk('elemof',args[0]).a[0]],escaped=set())
        # std::vector model
        if nm and nm.startswith('std::vector::'):
            r = self._vector(nm[13:],i,args,cond,m,b)
            if r is not None: return r
        if nm is None:
            fp = self.opd(c)
            nm = self._virtual(fp)
        k = d
        V[d] = mk('call',nm,k,tuple((n,a) for n,a in enumerate(args)))
        e = Effect('call',cond,m,i,name=nm,args=args,k=k,res=V[d],block=b,dem=c[1] if c[0] == 'fn' else None)
        self.effects.append(e)
        for rx,fn in self.models:
            if rx.search(nm):
                r = fn(self,args,m,V[d])
                if isinstance(r,E): V[d] = e.res = r; return m
                for p_,n_,v_ in r: m = Mem('store',m,ptr=p_,size=n_,val=v_)
                return m
        if self._pure(nm,i): return m
        roots = []; vecs = []
        for a in args:
            if a.op in ('arg','alloca','ptr','elemof','ld','call','phi','global','ite'):
                roots.append(root(a)); vecs.append(a)
        esc = {mk('alloca',x[1]).n for x in self.escaped if x[0] == 'alloca'}
        return Mem('call',m,k=k,roots=roots,exact={},span=0,vecs=vecs,escaped=esc)

    def _virtual(self,fp):
        # load(load(obj)+8*slot)
        if fp.op == 'ld':
            b,o,v = pparts(fp.a[0])
            if b.op == 'ld' and not v: return 'virtual::%d' % (o//8)
        return 'indirect'

    def vsize(self,m,v):
        return self.load(m,mk('vsz',v),8,'i64')

    def _elem_size(self,i):
        import subprocess
        dem = demangle(i['callee'][1])
        try: t = template_args(dem[dem.index('std::vector<'):] )[0]
        except (ValueError,IndexError): return None
        return self.fn.mod.sizeof(t) or ('sizeof '+t)

    def _vector(self,meth,i,args,cond,m,b):
        V = self.vals; d = i['id']
        v = args[0]
        sz = lambda: self._elem_size(i) or 'T'
        el = mk('elemof',v)
        szp = mk('vsz',v)
        if meth == 'size': V[d] = self.vsize(m,v); return m
        if meth == 'empty': V[d] = self._icmp('eq',64,self.vsize(m,v),const(0,64)); return m
        if meth in ('data','begin','cbegin','front'): V[d] = el; return m
        if meth in ('operator[]','at'): V[d] = ptr(el,0,((sz(),self._idx(args[1])),)); return m
        if meth in ('end','cend'): V[d] = ptr(el,0,((sz(),self.vsize(m,v)),)); return m
        if meth == 'back': V[d] = ptr(el,0,((sz(),addc(self.vsize(m,v),-1)),)); return m
        if meth in ('emplace_back','push_back'):
            n = self.vsize(m,v)
            self.effects.append(Effect('call',cond,m,i,name='append',args=args,k=d,res=UNDEF,block=b,dem=i['callee'][1],meth=meth))
            V[d] = ptr(el,0,((sz(),n),))
            m2 = Mem('store',m,ptr=szp,size=8,val=addc(n,1))
            # the new element's contents are unknown unless the argument is a plain value
            p = ptr(el,0,((sz(),n),))
            m2 = self._append_model(m2,m,p,sz(),args,i)
            return m2
        if meth in ('pop_back','clear','resize'):
            self.effects.append(Effect('call',cond,m,i,name='std::vector::'+meth,args=args,k=d,res=UNDEF,block=b,dem=i['callee'][1]))
            if meth == 'pop_back': return Mem('store',m,ptr=szp,size=8,val=addc(self.vsize(m,v),-1))
            if meth == 'clear': return Mem('store',m,ptr=szp,size=8,val=const(0,64))
            if len(args) > 1: return Mem('store',m,ptr=szp,size=8,val=args[1])
        if meth == 'reserve':
            self.effects.append(Effect('call',cond,m,i,name='std::vector::reserve',args=args,k=d,res=UNDEF,block=b,dem=i['callee'][1]))
            return m
        return None

    append_hook = None
    def _append_model(self,m2,m,p,sz,args,i):
        h = type(self).append_hook
        if h:
            r = h(self,m2,m,p,sz,args,i)
            if r is not None: return r
        dem = demangle(i['callee'][1])
        if isinstance(sz,int) and len(args) == 2:
            t = template_args(dem[dem.index('std::vector<'):])[0]
            # push_back(const T&)/push_back(T&&)/emplace_back(T&): a copy
            par = dem[dem.rindex('('):]
            if ('push_back' in dem) or re.search(r'emplace_back<(const )?'+re.escape(t)+r'( const)?&{0,2}>',dem) :
                return Mem('copy',m2,ptr=p,src=args[1],size=sz,srcmem=m)
        return m2

    # ---- queries
    def rets(self): return [e for e in self.effects if e.kind == 'ret']
    def retexpr(self):
        r = None
        for e in self.rets():
            r = e.val if r is None else Ite(e.guard,e.val,r)
        return r
    def exit_mem(self):
        rs = self.rets()
        if len(rs) == 1: return rs[0].mem
        return Mem('join',None,ms=[(e.guard,e.mem) for e in rs])
    def calls_to(self,rx):
        r = re.compile(rx)
        return [e for e in self.effects if e.kind == 'call' and r.search(e.name)]

_dem = {}
def demangle(x):
    if x in _dem: return _dem[x]
    import subprocess
    _dem[x] = subprocess.run(['c++filt',x],capture_output=True,text=True).stdout.strip() or x
    return _dem[x]

# ---------------------------------------------------------------- evaluation
class Eval:
    """meaning of expressions for one abstract valuation; `leaf(e)` gives the
    values of args, loads, primitive results and loop phis"""
    def __init__(self,leaf): self.leaf = leaf; self.memo = {}
    def __call__(self,e):
        r = self.memo.get(e.n,self)
        if r is not self: return r
        r = self._ev(e)
        self.memo[e.n] = r
        return r
    def _ev(self,e):
        op = e.op; a = e.a
        if op == 'const': return a[0]
        if op == 'fconst': return float(a[0])
        if op == 'undef': raise Undecided('undefined value')
        if op == 'null': return 0
        if op == 'not': return 0 if self(a[0]) else 1
        if op == 'and': return 1 if self(a[0]) and self(a[1]) else 0
        if op == 'or': return 1 if self(a[0]) or self(a[1]) else 0
        if op == 'ite': return self(a[1]) if self(a[0]) else self(a[2])
        if op == 'icmp':
            x,y = self(a[2]),self(a[3])
            if isinstance(x,tuple) or isinstance(y,tuple):
                if a[0] == 'eq': return 1 if x == y else 0
                if isinstance(x,tuple) and isinstance(y,tuple) and x[:2] == y[:2]: x,y = x[2],y[2]
                else: raise Undecided('pointer order')
            return 1 if PREDS[a[0]](x,y,a[1]) else 0
        if op in ('add','sub','mul','and','or','xor','shl','lshr','ashr','sdiv','srem','udiv','urem'):
            x,y = self(a[1]),self(a[2])
            if isinstance(x,tuple) or isinstance(y,tuple):
                if op == 'sub' and isinstance(x,tuple) and isinstance(y,tuple) and x[:2] == y[:2]: return x[2]-y[2]
                if op == 'add' and isinstance(x,tuple) and not isinstance(y,tuple): return (x[0],x[1],x[2]+y)
                raise Undecided('pointer arithmetic')
            r = ev_bin(op,a[0],x,y)
            if r is None: raise Undecided('division by zero')
            return r
        if op == 'sext': return self(a[2]) if a[0] != 1 else -self(a[2])
        if op == 'zext': return u(self(a[2]),a[0])
        if op == 'trunc':
            v = self(a[2])
            return (v & 1) if a[1] == 1 else s(v,a[1])
        if op == 'sitofp': return float(self(a[2]))
        if op == 'uitofp': return float(u(self(a[2]),a[0]))
        if op in ('fptosi','fptoui'): return s(int(self(a[2])),a[1])
        if op in ('fpext','fptrunc'): return self(a[2])
        if op == 'fadd': return self(a[0])+self(a[1])
        if op == 'fsub': return self(a[0])-self(a[1])
        if op == 'fmul': return self(a[0])*self(a[1])
        if op == 'fneg': return -self(a[0])
        if op == 'fdiv':
            y = self(a[1])
            if y == 0: raise Undecided('division by zero')
            return self(a[0])/y
        if op == 'fcmp': return 1 if FPREDS[a[0]](self(a[1]),self(a[2])) else 0
        if op == 'ptr':
            b = self(a[0]); off = a[1]
            extra = []
            for sc,i in a[2]:
                x = self(i)
                if isinstance(sc,int): off += sc*x
                else: extra.append((sc,x))
            if isinstance(b,tuple) and b[0] == 'p' and not extra: return ('p',b[1],b[2]+off)
            if isinstance(b,int) and not extra: return b+off
            return ('p',(b,tuple(extra)) if extra else b,off)
        if op in ('arg','ld','call','phi','ext','elemof','alloca','global','intr','exc','vsz','bits','concat','fn','landingpad','later'):
            r = self.leaf(e,self)
            if r is not None: return r
            if op == 'concat':
                v = 0
                for o,sz,x in a[0]: v |= u(self(x),sz*8) << (8*o)
                tot = max(o+sz for o,sz,_ in a[0])
                return s(v,tot*8)
            if op == 'bits': return s(self(a[0]) >> (8*a[1]),8*a[2])
            if op == 'ext':
                x = self(a[0])
                if isinstance(x,(tuple,list)) and x and x[0] == 'agg': return x[1][a[1]]
                raise Undecided('field of %s' % show(a[0],3))
            if op in ('alloca','global','elemof','fn'): return ('p',e.n,0)
            raise Undecided('no value for %s' % show(e,4))
        if op == 'agg': return ('agg',{k:self(x) for k,x in a[0] if x is not UNDEF})
        raise Undecided('operation %s' % op)

def trace(summ,ev):
    """effects whose guards hold in this valuation, in program order"""
    out = []
    for e in summ.effects:
        if ev(e.guard): out.append(e)
    return out
