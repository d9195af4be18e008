"""Rules over everything the public API instantiates (call graph level)."""
import re
from harness import Check, Inconclusive
from callir import CallIR, in_lib, short
from irsum import mk, ptr, show, E
from world import World
from flow import walk, may
import engine
from checks import geom

SCAN = 'whole-program scan of the compiler IR of every public member (call sites, globals, instructions), with call-graph reachability'
ENGINE = r'(^|[ :])poly_ops::(clipper<int, unsigned long>|tclipper<int, unsigned long|add_offset|boolean_op|union_op|normalize_op|offset<|draw::rasterizer<int>|draw::scan_line_sweep_state<int>|winding_dir)'

def at(o): return '%s:%s' % (short(o.get('file')),o.get('line'))
def ir(c,names=('core','clip','offset','draw','util','large')):
    g = CallIR(list(names))
    if len(g.lib) < 200: raise Inconclusive('only %d library functions instantiated' % len(g.lib))
    c.saw('functions',*sorted({f.simple for f in g.lib}))
    return g
def roots(g,rx):
    r = [f.name for f in g.lib if re.search(rx,f.dem)]
    if not r: raise Inconclusive('no function matches %s' % rx)
    return r

def P13():
    c = Check('P13','Among all variables with static or thread storage that any instantiated function of the library defines or uses, every one declared in a library header is constant; no library function writes a variable with static storage.',SCAN)
    g = ir(c)
    for v in g.globals.values():
        if v['decl'] or not in_lib(v.get('file')): continue
        n = v['demangled']
        c.saw('variables',n)
        if v['const'] or v.get('consttype'): c.ok('variable',1,'%s is constant' % n)
        else: c.fail('variable','%s (%s:%s)' % (n,short(v['file']),v['line']),'mutable %s variable shared by all instances' % ('thread-local' if v['tls'] else 'static'))
    for f in g.lib:
        bad = False
        for o in f.globals:
            if 'g' in o and o['store'] and in_lib(o.get('file')):
                v = g.globals.get(o['g'],{})
                if v.get('consttype'): continue
                bad = True; c.fail('write',f.where,'writes the static variable %s at %s' % (v.get('demangled',o['g']),at(o)))
        if not bad: c.ok('write',1,'%s writes no variable with static storage' % f.simple)
    return c

DENY = [(r'^(rand|srand|rand_r|random|srandom|drand48|lrand48|mrand48|arc4random.*|getrandom|getentropy)$','a random number of the C library'),
    (r'^(time|clock|gettimeofday|clock_gettime|localtime.*|gmtime.*|times)$','the time'),
    (r'^(getenv|secure_getenv|setlocale|localeconv|uname|gethostname)$','the environment'),
    (r'^(getpid|getppid|gettid|pthread_self|sched_getcpu)$','the identity of the process or thread'),
    (r'^std::random_device','the random device'),(r'^std::chrono::.*::now$','the time'),(r'^std::this_thread::','the identity of the thread'),(r'^std::thread::','threads'),
    (r'^std::hash::operator\(\)$','a hash'),(r'^llvm\.(readcyclecounter|returnaddress|frameaddress)','ambient state')]
CMP = re.compile(r'(operator\(\)|cmp|less|compare|operator<=>|operator<|lambda|\$_\d+)')
def P14():
    c = Check('P14','No function reachable from the library calls a source of ambient state (random device, C random numbers, time, environment, process or thread identity, hash of a pointer); no library function turns an address into a number except to subtract two addresses, and no ordering used by the engine compares addresses.',SCAN)
    g = ir(c)
    rs = [f.name for f in g.lib]
    par = g.reach(rs)
    for n in par:
        f = g.fns.get(n)
        simple = f.simple if f else n
        for rx,what in DENY:
            hit = re.search(rx,simple) or (not f and re.search(rx,re.sub(r'^_ZNS?t?','',n)) )
            if hit and what == 'a hash' and not (f and re.search(r'std::hash<[^<>]*(<.*>)?\*>',f.dem)): hit = None
            if hit:
                p = g.path(par,n); site = next((x for x in p if x.startswith('poly_ops')),p[0])
                last = [x for x in p if x.startswith('poly_ops')]
                c.fail('source',last[-1] if last else site,'uses %s: %s' % (what,' -> '.join(p[-6:]))); break
        else: c.ok('source',1,'%s is no source of ambient state' % simple)
    eng = g.reach(roots(g,ENGINE))
    for n in eng:
        f = g.fns.get(n)
        if not f: continue
        if re.search(r'^std::(less|greater|less_equal|greater_equal)::operator',f.simple) and re.search(r'^(bool |constexpr bool )?std::\w+<[^,]*\*>::',f.dem):
            p = [x for x in g.path(eng,n) if x.startswith('poly_ops')]
            c.fail('addresses',p[-1] if p else f.simple,'orders things by their address with %s' % f.dem[:120]); continue
        if not f.lib: continue
        bad = False
        for o in f.ops:
            if not in_lib(o.get('file')): continue
            if o['op'] == 'ptrtoint': bad = True; c.fail('addresses',f.where,'an address is turned into a number at %s' % at(o))
            elif o['op'] == 'ptrcmp' and CMP.search(f.simple) and 'strided_itr' not in f.dem and 'iterator' not in f.dem: bad = True; c.fail('addresses',f.where,'an ordering compares addresses at %s' % at(o))
        if not bad: c.ok('addresses',1,'%s does not depend on addresses' % f.simple)
    return c

def P08():
    c = Check('P08','In the engine for 32 bit coordinates no two variable 32 bit numbers are multiplied; in the decisions of the geometric primitives no product is narrowed or compared as a floating point number.',SCAN+'; dataflow over the extracted decision expressions')
    g = ir(c,('core','clip','offset','draw'))
    rs = roots(g,ENGINE); par = g.reach(rs)
    for n in par:
        f = g.fns.get(n)
        if not f or not f.lib or 'large_ints' in f.file: continue
        bad = [o for o in f.ops if o['op'] == 'mul' and (o.get('w') or 64) <= 32 and not o['const'] and in_lib(o.get('file')) and 'large_ints' not in o['file']]
        for o in bad: c.fail('narrow product',f.where,'two %d bit numbers are multiplied at %s, reached by %s' % (o['w'],at(o),' -> '.join(x for x in g.path(par,n)[-5:])))
        if not bad: c.ok('narrow product',1,'%s multiplies no coordinates in a narrow type' % f.simple)
    # decisions
    import sys
    m = geom.module()
    from irsum import Summary
    for r in ('w_sweep_cmp','w_event_cmp','w_triangle_winding','w_winding_sink2','w_winding_sink3','w_winding_sink4','w_balance','w_intersects'):
        try: f = m.fn(r)
        except KeyError: raise Inconclusive('anchor vanished: '+r)
        s = Summary(f)
        es = [e.guard for e in s.effects]
        try: es.append(s.retexpr())
        except Exception: pass
        es = [e for e in es if isinstance(e,E)]
        prods = 0; bad = False
        for x in walk(es):
            if x.op == 'mul' and x.a[0] >= 64: prods += 1
            if x.op == 'mul' and x.a[0] <= 32 and x.a[1].op != 'const' and x.a[2].op != 'const': bad = True; c.fail('decision',f.where,'a decision depends on the product of two %d bit numbers: %s' % (x.a[0],show(x)))
            if x.op == 'trunc' and x.a[0] <= 32 and has_product(x): bad = True; c.fail('decision',f.where,'a product is narrowed to %d bits before it is used: %s' % (x.a[0],show(x)))
            if x.op == 'fcmp' and has_product(x) and not sign_test(x): bad = True; c.fail('decision',f.where,'products are compared as floating point numbers: %s' % show(x))
        if not bad: c.ok('decision',max(prods,1),'%s decides with %d double width products' % (r,prods))
    return c

def has_product(x): return any(y.op == 'mul' and y.a[1].op != 'const' and y.a[2].op != 'const' for y in walk([x]))
def sign_test(x):
    a,b = x.a[1],x.a[2]
    for p,q in ((a,b),(b,a)):
        if q.op in('const','fconst') and str(q.a[0]) in ('0','0.0') and p.op in ('sitofp',): return True
    return False

GDR = '_ZNSt3pmr20get_default_resourceEv'
CT = re.compile(r'(^|::)([\w~]+)::\2$|select_on')
FOREIGN = re.compile(r'new_delete_resource|null_memory_resource')
def P12():
    c = Check('P12','No function reachable from the clipper, tracker or offset functions reaches the global operator new or malloc other than through a memory resource; no library code constructs or copies a container in a way that takes its memory from the default resource; constructors ask for the default resource only when the resource they were given is null, and hand the given one to every container they own.',SCAN+'; effect summary of the constructors')
    g = ir(c,('core','clip','offset'))
    lib = [f for f in g.lib if not re.search(r'poly_ops::draw::',f.dem)]
    # constructors that lead to the default resource
    memo = {}
    def via(n):
        if n == GDR: return [n]
        if n in memo: return memo[n]
        memo[n] = None
        f = g.fns.get(n)
        if f and (CT.search(f.simple) and (not f.lib or f.j.get('artificial'))):
            for k in f.calls:
                if 'fn' in k:
                    r = via(k['fn'])
                    if r: memo[n] = [f.simple]+r; break
        return memo[n]
    for f in lib:
        if f.j.get('artificial'): continue
        bad = False
        for k in f.calls:
            if 'fn' not in k or not in_lib(k.get('file')): continue
            if k['fn'] == GDR:
                if re.search(r'::(\w+)::\1$',f.simple): continue # see 'constructor'
                bad = True; c.fail('default resource',f.where,'uses the default memory resource at %s' % at(k)); continue
            if FOREIGN.search(k['fn']): bad = True; c.fail('default resource',f.where,'uses another memory resource at %s' % at(k)); continue
            r = via(k['fn'])
            if r: bad = True; c.fail('default resource',f.where,'a container constructed at %s takes its memory from the default resource: %s' % (at(k),' -> '.join(r)))
        if not bad: c.ok('default resource',1,'%s constructs no container with the default resource' % f.simple)
    rs = [f.name for f in lib if not re.search(r'mini_flat_set|origin_point_tracker',f.dem)]
    par = g.reach(rs,stop=lambda f: re.search(r'std::pmr::(memory_resource|polymorphic_allocator<.*>)::allocate|mini_flat_set<.*>::insert',f.dem) is not None)
    for n in par:
        if re.match(r'^(_Zn[wa]m|malloc|calloc|realloc|aligned_alloc|posix_memalign)',n) and not re.match(r'^_Zn[wa]mPv',n):
            p = g.path(par,n); l = [x for x in p if x.startswith('poly_ops')]
            c.fail('heap',l[-1] if l else p[0],'allocates from the global heap: '+' -> '.join(p[-7:]))
        else: c.ok('heap',1)
    # constructors
    for root,cls in (('w_mem_clipper','poly_ops::clipper<int, unsigned long>'),('w_mem_tracker','poly_ops::origin_point_tracker<unsigned long>')):
        m,f,s = engine.load('mem',root,noclobber='unsynchronized_pool_resource|virtual::')
        c.saw('functions',f.where)
        w = World([(1,)],['m']); w.arg(1,4096)
        res = s.calls_to('get_default_resource')
        for e in res:
            if may(w,e.guard).any(): c.fail('constructor',f.where,'asks for the default resource although a resource was given: condition %s' % show(e.guard))
            else: c.ok('constructor',1,'%s asks for the default resource only if %s' % (cls,show(e.guard)))
        mem = s.exit_mem()
        offs = resources(m,cls)
        if not offs: raise Inconclusive('no containers found in '+cls)
        for name,off in offs:
            at_ = ptr(mk('arg',0),off)
            vs = [e.val for e in s.effects if e.kind == 'store' and e.ptr is at_] or [s.load(mem,at_,8,'ptr')]
            ts = [settle(w,v) for v in vs]; t = ts[-1]
            l = [x for t in ts for x in leaves(t)]
            if all(x.op in ('arg','ptr') for x in l) and all(given(x) for x in l): c.ok('constructor',1,'%s allocates from %s' % (name,show(t)))
            elif any(x.op in ('call','null') or 'default_resource' in show(x) for x in l): c.fail('constructor',f.where,'%s does not allocate from the resource given but from %s' % (name,show(t)))
            else: c.undecided('constructor','%s: %s' % (name,show(t)))
    return c
def settle(w,t):
    while t.op == 'ite':
        v,p = w.ev(t.a[0])
        if p.any(): break
        t = t.a[1] if v[0] else t.a[2]
    return t
def find(m,name,scope=''):
    for k in (scope+name,name): 
        if k in m.structs: return m.structs[k]
    l = [t for k,t in m.structs.items() if k.endswith('::'+name)]
    return l[0] if len(l) == 1 else None
def resources(m,cls,off=0,name='',depth=0):
    """where in cls the resources of its containers are kept"""
    t = find(m,cls); r = []
    if t is None or depth > 3: return r
    for n,o,sz,btn,kind in t['members']:
        if 'polymorphic_allocator' in btn and re.match(r'(vector|map|set|multimap|deque|list|basic_string|unordered_map)<',btn): r.append((name+n,off+o))
        elif btn: r += resources(m,btn,off+o,name+n+'.',depth+1)
    return r
def leaves(t):
    if t.op == 'ite': return leaves(t.a[1])+leaves(t.a[2])
    return [t]
def given(x):
    if x.op == 'arg': return x.a[0] == 1
    from irsum import pparts
    try: b,o,v = pparts(x)
    except Exception: return False
    return b.op == 'arg' and b.a[0] in (0,1)   # the resource itself or a pool inside the object
