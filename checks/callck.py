"""P09-P11: the ways to run an operation (witness/calls.cpp)."""
import itertools, re
import numpy as np
from harness import Check, Inconclusive
from irsum import mk, ptr, pparts, root, show, E
from world import World
from flow import dominates, Rounds, block_loops, walk
from checks.sweepck import tell, enum
from checks.meta import TABLE
import engine, build

CLP = 'poly_ops::clipper<int>'
TOP = 'opaque ^poly_ops::clipper::(add_loops|execute|clipper|~clipper)$'
ADL = 'clipper::_add_loop$|7clipper.*9_add_loopI'     # (constrained templates have names the demangler does not know)
def load(name,*opaque,noclobber='.'): return engine.load('calls',name,list(opaque),noclobber=noclobber)
def members(m,t,*need):
    k = [x for x in m.structs if x == t or x.startswith(t+'<') and x.endswith('>') and '>::' not in x]
    if len(k) != 1: k = [x for x in k if x == t]
    if len(k) != 1: raise Inconclusive('type %s vanished' % t)
    d = {x[0]:x[1] for x in m.structs[k[0]]['members']}
    if not set(need) <= set(d): raise Inconclusive('members of %s changed: %s' % (t,sorted(d)))
    return d,m.structs[k[0]]['size']
def differ(x,y,s,floats=(),dom={}):
    """x is another value than y for some arguments: True/False, None if that isn't known"""
    if x is y: return False
    if usable(x) and usable(y): return True
    vs = {a.a[0] for a in walk([x,y]) if a.op == 'arg'}
    if len(vs) > 3: return None
    vs = sorted(vs); w = World(itertools.product(*[dom.get(k,range(-2,7)) for k in vs]),['a%d' % k for k in vs]); w.summ = s
    for k in vs: w.arg(k,w['a%d' % k]*(1.25 if k in floats else 1))
    try: (a,pa),(b,pb) = w(x),w(y)
    except Exception: return None
    if (pa|pb).any(): return None
    return bool((a != b).any())
def always(e): return e.guard.op == 'const' and e.guard.a[0] == 1
def num(e): return e.a[0] if e.op == 'const' else None
def usable(e): return e.op in ('const','arg','null')

def P09():
    c = Check('P09','For every one-call function, with and without a tracker, as a list and as a tree: one clipper is built with the memory resource passed in, the ranges passed in are added to it in order to the set documented for them with the tracker\'s callbacks, the documented operation is run on that clipper with that tracker, and its result is what is returned; nothing else happens to the clipper. For every variant that adds: the call comes down to the documented one with every argument passed on; adding a range starts one loop in the given set with the given tracker and passes every point on in order, adding a range of ranges does so for each of them.','effect summary of the flattened functions over compiler IR (sequence of calls and their arguments)')
    m,_,_ = load('w_union_list',TOP)
    sets = enum(m,'bool_set','subject','clip'); ops = enum(m,'bool_op','union_','normalize')
    A = lambda k: mk('arg',k)
    one = []
    for n in ('list','tree','many'): one.append(('w_union_'+n,[(1,'subject')],'union_',('own',2),3))
    one.append(('w_union_ref',[(1,'subject')],'union_',('ref',2),3))
    for n in ('plain','plaintree'): one.append(('w_union_'+n,[(1,'subject')],'union_',None,2))
    for n in ('list','tree'): one.append(('w_norm_'+n,[(1,'subject')],'normalize',('own',2),3))
    for n in ('plain','plaintree'): one.append(('w_norm_'+n,[(1,'subject')],'normalize',None,2))
    for n in ('list','tree','mixed'): one.append(('w_bool_'+n,[(1,'subject'),(2,'clip')],3,('own',4),5))
    for n in ('plain','plaintree'): one.append(('w_bool_'+n,[(1,'subject'),(2,'clip')],3,None,4))
    for name,adds,op,tr,mr in one:
        m,f,s = load(name,TOP); W = f.where; c.saw('functions',W)
        ct = s.calls_to('clipper::clipper$'); ex = s.calls_to('clipper::execute$'); ad = s.calls_to('clipper::add_loops$')
        if len(ct) != 1: c.undecided('one call','%s: %d clippers' % (name,len(ct))); continue
        C = ct[0].args[0]; ok = True
        def no(what,detail=None):
            nonlocal ok
            ok = False; c.fail('one call',W,what,detail)
        def maybe(why):
            nonlocal ok
            ok = False; c.undecided('one call','%s: %s' % (name,why))
        if ct[0].args[1] is not A(mr):
            if usable(ct[0].args[1]): no('the clipper is not built with the memory resource passed in',show(ct[0].args[1]))
            else: maybe('memory resource '+show(ct[0].args[1]))
        if not all(always(e) for e in ct+ex+ad): maybe('not everything happens always'); continue
        place = {id(e):k for k,e in enumerate(s.effects)}
        # the tracker
        T = None
        cb = {e.res.n:e.args[0] for e in s.calls_to('^WT::callbacks$')}
        def tracker_of(x):
            if x.op == 'null': return 'none'
            return cb.get(x.n)
        def istracker(e,t):
            """location t holds the tracker passed in (None: can't tell)"""
            kind,k = tr
            if t is A(k): return True if kind == 'ref' else None
            v = s.load(e.mem,t,8,'i64')
            if kind == 'own': return True if v.op == 'ld' and v.a[0] is A(k) else None
            return None
        if len(ex) != 1: (no if not ex else maybe)('%d operations are run' % len(ex)); continue
        args = list(ex[0].args)
        if args[0] is A(0): args = args[1:]
        elif args[0] is not C: maybe('the result is returned otherwise'); continue
        if args[0] is not C:
            (no if root(args[0]).op == 'alloca' else maybe)('the operation is run on another clipper'); continue
        want = num(args[1])
        if isinstance(op,int):
            if args[1] is not A(op): {True:no,None:maybe,False:lambda x: 0}[differ(args[1],A(op),s,dom={op:sorted(ops.values())})]('the operation run is not the one asked for')
        elif want != ops[op]: (no if want is not None else maybe)('the operation run is not %s' % op)
        if tr:
            if len(args) < 3: maybe('no tracker is passed to the operation')
            elif istracker(ex[0],args[2]) is None: maybe('where the tracker is')
        used = [next((k for k in range(1,1+len(adds)+1) if a is A(k)),None) for a in (e.args[1] for e in ad)]
        got = [(u,num(e.args[2])) for u,e in zip(used,ad)]
        exp = [(k,sets[x]) for k,x in adds]
        if any(e.args[0] is not C for e in ad): maybe('polygons are added to something else'); continue
        if any(place[id(e)] > place[id(ex[0])] for e in ad): no('polygons are added after the operation was run')
        if got != exp:
            miss = [k for k,_ in exp if k not in used]
            seen = {a.a[0] for e in s.effects if e.kind == 'call' for a in e.args if a.op == 'arg'}
            if any(u is None for u in used) or any(v is None for _,v in got): maybe('what is added: %s' % got)
            elif any(k not in seen for k in miss): no('a range passed in is not added','argument %s' % miss)
            elif miss: maybe('what is added: %s' % got)
            elif sorted(got) == sorted(exp): no('the ranges are not added in the documented order')
            elif sorted(used) != sorted(k for k,_ in exp): no('a range is added more than once')
            else: no('a range is added to the wrong set',str(got))
        for e in ad:
            t = tracker_of(e.args[3])
            if tr is None:
                if t != 'none': maybe('tracker '+show(e.args[3]))
            elif t == 'none': no('the tracker does not hear of the points that are added')
            elif t is None: maybe('tracker '+show(e.args[3]))
            elif t is not (args[2] if len(args) > 2 else None): no('points are reported to another tracker than the one the operation is run with')
        lo = min((place[id(e)] for e in ad),default=0)
        for e in s.effects:
            if e.kind == 'call' and e.name.startswith('vv_shrink') and root(e.args[0]) is root(C) and lo < place[id(e)] < place[id(ex[0])]: no('the clipper is changed between adding and running',e.where); break
        if ok: c.ok('one call',1,'%s: clipper(arg %d); %s; execute' % (name,mr,', '.join('add_loops(arg %d, %s)' % a for a in adds)))
    # variants
    td,_ = members(load('w_tadd',TOP)[0],'poly_ops::tclipper<int, unsigned long, WT>','base','tracker'); tc = lambda: ptr(A(0),td['base'])
    m,_,_ = load('w_radd',TOP); rt = [k for k in m.structs if k.startswith('poly_ops::tclipper<') and 'WT &' in k]
    rd = {x[0]:x[1] for x in m.structs[rt[0]]['members']} if rt else None
    def variant(name,rx,opaque,want,what):
        """one call whose arguments are those wanted: an argument, a number, null, or ('cb',tracker)"""
        m,f,s = load(name,opaque); W = f.where; c.saw('functions',W)
        es = s.calls_to(rx)
        cb = {e.res.n:e.args[0] for e in s.calls_to('^WT::callbacks$')}
        if not es:
            seen = {a.a[0] for e in s.effects if e.kind == 'call' for a in e.args if a.op == 'arg'} | {root(e.ptr).a[0] for e in s.effects if e.kind == 'store' and root(e.ptr).op == 'arg'}
            if not seen: c.fail(what,W,'nothing is added')
            else: c.undecided(what,'%s: %s is not called' % (name,rx))
            return
        if len(es) != 1 or not always(es[0]): c.undecided(what,'%s: %d calls' % (name,len(es))); return
        a = es[0].args
        if len(a) != len(want): c.undecided(what,'%s: %d arguments' % (name,len(a))); return
        for k,(x,y) in enumerate(zip(a,want)):
            if isinstance(y,tuple):
                t = cb.get(x.n)
                if t is y[1]: c.ok(what)
                elif x.op == 'null': c.fail(what,W,'the tracker does not hear of what is added')
                else: c.undecided(what,'%s: tracker %s' % (name,show(x)))
            elif isinstance(y,int):
                v = num(x)
                if v == y: c.ok(what)
                elif v is None and not usable(x): c.undecided(what,'%s: argument %d %s' % (name,k,show(x)))
                else: c.fail(what,W,'argument %d of %s is not the documented one' % (k,rx.strip('^$')),'%s instead of %s' % (show(x),y))
            elif x is y: c.ok(what,1,'%s: %s' % (name,rx) if k == 0 else None)
            else:
                d = differ(x,y,s)
                if d: c.fail(what,W,'argument %d of %s is not the one passed in' % (k,rx.strip('^$')),'%s instead of %s' % (show(x),show(y)))
                elif d is False: c.ok(what)
                else: c.undecided(what,'%s: argument %d %s' % (name,k,show(x)))
    AL = 'opaque ^poly_ops::clipper::add_loops$'; R = 'clipper::add_loops$'; null = mk('null')
    S,K = sets['subject'],sets['clip']
    for name,want in (('w_add_subject',[A(0),A(1),S,A(2)]),('w_add_clip',[A(0),A(1),K,A(2)]),('w_add_subject0',[A(0),A(1),S,null]),('w_add_clip0',[A(0),A(1),K,null]),('w_add0',[A(0),A(1),A(2),null]),
        ('w_tadd',[tc(),A(1),A(2),('cb',ptr(A(0),td['tracker']))]),('w_tadd_subject',[tc(),A(1),S,('cb',ptr(A(0),td['tracker']))]),('w_tadd_clip',[tc(),A(1),K,('cb',ptr(A(0),td['tracker']))])): variant(name,R,AL,want,'adding')
    if rd and {'base','tracker'} <= set(rd):
        m,f,s = load('w_radd',AL)
        es = s.calls_to(R); t = [e.args[0] for e in s.calls_to('^WT::callbacks$')]
        if len(es) == 1 and len(t) == 1 and t[0].op == 'ld': variant('w_radd',R,AL,[ptr(A(0),rd['base']),A(1),A(2),('cb',t[0])],'adding')
        else: c.undecided('adding','w_radd')
    LO = 'opaque ^poly_ops::clipper::add_loop$'
    variant('w_tadd_loop','clipper::add_loop$',LO,[A(0),ptr(A(1),td['base']),A(2),('cb',ptr(A(1),td['tracker']))],'adding')
    variant('w_add_loop0','clipper::add_loop$',LO,[A(0),A(1),A(2),null],'adding')
    # offsets: which way the loop is closed decides
    for name,C,st,k,pt in (('w_off',A(0),A(2),3,A(6)),('w_off_subject',A(0),S,2,null),('w_off_clip',A(0),K,2,null),('w_toff',tc(),A(2),3,'cb'),('w_toff_subject',tc(),S,2,'cb'),('w_toff_clip',tc(),K,2,'cb'),('w_off_many',A(0),A(2),3,A(6)),
        ('w_offset_list',None,S,2,'cb'),('w_offset_tree',None,S,2,'cb'),('w_offset_plain',None,S,2,null)):
        m,f,s = load(name,'opaque detail::_add_offset_(open|closed)$',TOP); W = f.where; c.saw('functions',W)
        es = s.calls_to('_add_offset_(open|closed)$'); part = 'offsets'
        if not es: c.undecided(part,'%s: no outline is added' % name); continue
        oneoff = name.startswith('w_offset'); many = name == 'w_off_many'
        if oneoff:
            ct = s.calls_to('clipper::clipper$'); ex = s.calls_to('clipper::execute$')
            if len(ct) != 1 or len(ex) != 1: c.undecided(part,name); continue
            C = ct[0].args[0]; mr = 5 if name == 'w_offset_plain' else 6
            c.decide(part,W,'the clipper is not built with the memory resource passed in',True if ct[0].args[1] is A(mr) else False if usable(ct[0].args[1]) else None)
            a = list(ex[0].args); a = a[1:] if a[0] is A(0) else a
            c.decide(part,W,'the operation is not run on what was added',True if a[0] is C and always(ex[0]) else None)
            c.decide(part,W,'the operation run is not a union',None if num(a[1]) is None else num(a[1]) == ops['union_'])
            cl = 4 if name == 'w_offset_plain' else 5
        else: cl = k+2
        cb = {e.res.n:e.args[0] for e in s.calls_to('^WT::callbacks$')}
        w = World([(0,),(1,)],['closed']); w.summ = s; w.arg(cl,w['closed'])
        if many:
            w.call('Ins::begin',lambda e,ev: w.arr(1000)); w.call('Ins::end',lambda e,ev: w.arr(1003))
            hs = [h for h in block_loops(s,es[0].block)[-1:]]
            if not hs: c.undecided(part,name); continue
            rd_ = Rounds(s,w,hs[0],4); got = rd_.happens(es)
        else:
            got = []
            gs = [w(e.guard) for e in es]
            if any(p.any() for _,p in gs): c.undecided(part,name); continue
            for r in range(2): got.append([(e,w) for e,(g,p) in zip(es,gs) if g[r]])
        for r in range(2):
            if got[r] is None: c.undecided(part,name); continue
            n = [e.name.endswith('closed') for e,_ in got[r]]
            if len(n) != (3 if many else 1): c.fail(part,W,'a loop is not added exactly once','%d times for %d, closed=%d' % (len(n),3 if many else 1,r)); continue
            if any(x != bool(r) for x in n): c.fail(part,W,'a closed loop is taken for an open one or the reverse','closed=%d' % r); continue
            if many:
                el = []
                for e,ev in got[r]:
                    v,p = ev(e.args[1]); el.append(None if p[r] else int(v[r]))
                if None in el: c.undecided(part,name)
                elif el != [1000,1001,1002]: c.fail(part,W,'the loops that are added are not those passed in',str(el))
                else: c.ok(part)
            for e,_ in got[r]:
                want = [C,None if many else A(1),st,A(k),A(k+1),pt]
                for j,(x,y) in enumerate(zip(e.args,want)):
                    if y is None: continue
                    if isinstance(y,str):
                        t = cb.get(x.n)
                        c.decide(part,W,'the tracker does not hear of what is added',True if t is not None else False if x.op == 'null' else None)
                    elif isinstance(y,int): c.decide(part,W,'the outline is added to the wrong set',None if num(x) is None else num(x) == y)
                    else:
                        d = differ(x,y,s,(k,))
                        c.decide(part,W,'argument %d of what is added is not the one passed in' % j,None if d is None else not d)
    # adding comes down to points
    m,f,s = load('w_loops',LO,'opaque point_sink::(operator\\(\\)|~point_sink)$'); W = f.where; c.saw('functions',W); part = 'points'
    st = s.calls_to('clipper::add_loop$'); pt = s.calls_to('point_sink::operator\\(\\)$'); en = s.calls_to('point_sink::~point_sink$')
    if len(st) != 1 or not pt: c.undecided(part,'how loops are added')
    else:
        e = st[0]; sk = e.args[0]
        for x,y,what in ((e.args[1],A(0),'the loop is started in another clipper'),(e.args[2],A(2),'the loop is not started in the set passed in'),(e.args[3],A(3),'the tracker does not hear of the points')): c.decide(part,W,what,True if x is y else False if usable(x) else None)
        c.decide(part,W,'a loop is not finished',True if en and all(x.args[0] is sk for x in en) else None)
        w = World([(k,) for k in range(5)],['k']); w.summ = s; w.arg(0,1<<12); w.arg(1,1<<14); w.arg(2,0); w.arg(3,1<<13); n = 5
        D = 1<<20; w.put(1<<14,16,{0:D,8:w['k']},1)
        w.put(D,8,{0:np.tile(10+np.arange(8),(n,1)),4:np.tile(70+np.arange(8),(n,1))},8)
        hs = block_loops(s,pt[0].block)[-1:]
        if not hs: c.undecided(part,'points are not passed on in a loop')
        else:
            rd_ = Rounds(s,w,hs[0],6); got = rd_.happens(pt); bad = np.zeros(n,bool); un = 0
            for r in range(n):
                if got[r] is None: un += 1; continue
                seq = []
                for e,ev in got[r]:
                    x,px = ev(s.load(e.mem,e.args[1],4,'i32')); y,py = ev(s.load(e.mem,ptr(e.args[1],4),4,'i32'))
                    if px[r] or py[r] or e.args[0] is not sk: seq = None; break
                    seq.append((int(x[r]),int(y[r])))
                if seq is None: un += 1; continue
                bad[r] = seq != [(10+i,70+i) for i in range(r)]
            if un: c.undecided(part,'which points',un)
            if un < n: tell(c,part,W,bad,n,'the points of a loop are not passed on each once and in order',lambda r: '%d points' % r)
    m,f,s = load('w_loops_many','opaque '+ADL); W = f.where; c.saw('functions',W)
    es = s.calls_to(ADL)
    hs = block_loops(s,es[0].block)[-1:] if es else []
    if len(es) != 1 or not hs: c.undecided(part,'how several loops are added')
    else:
        w = World([(k,) for k in range(4)],['k']); w.summ = s; w.arg(0,1<<12); w.arg(1,1<<14); w.arg(2,0); w.arg(3,1<<13); w.put(1<<14,16,{0:1<<20,8:w['k']},1)
        got = Rounds(s,w,hs[0],5).happens(es); bad = np.zeros(4,bool); un = 0
        for r in range(4):
            seq = []
            for e,ev in got[r] or []:
                v,p = ev(e.args[1]); seq.append(None if p[r] else int(v[r])-(1<<20))
            if got[r] is None or None in seq: un += 1; continue
            bad[r] = seq != list(range(r))
        if un: c.undecided(part,'which loops',un)
        if un < 4: tell(c,part,W,bad,4,'the loops of a range are not added each once and in order',lambda r: '%d loops' % r)
        for x,y,what in zip(es[0].args[2:],(A(2),A(3)),('a loop is added to another set than the one passed in','the tracker does not hear of a loop')): c.decide(part,W,what,True if x is y else False if usable(x) else None)
    return c

STATE = ('lpoints','samples','sweep_nodes','rgen','_next_orig_i','ran')
class Clipper:
    """where the members of a clipper are, and what a new one holds"""
    def __init__(self,c):
        m,f,s = load('w_clipper'); c.saw('functions',f.where); self.s = s; self.m = m
        self.k,self.size = members(m,'poly_ops::clipper<int, unsigned long>','contig_mem','discrete_mem','lpoints','samples','events','sweep_nodes','breaks','rgen','_next_orig_i','ran','loops_out','top')
        self.ev,_ = members(m,'poly_ops::detail::events_t<unsigned long, int>'); self.br,_ = members(m,'poly_ops::detail::breaks_t<unsigned long, int>')
        # the fields whose contents matter: name -> (offset, size)
        F = {n:(self.k[n],8) for n in ('lpoints','samples','sweep_nodes','loops_out','top','_next_orig_i')}
        F['ran'] = (self.k['ran'],1)
        F['rgen'] = (self.k['rgen'],8)
        for n,o in self.ev.items():
            if n in ('events','new_events','current_i','last_size'): F['events.'+n] = (self.k['events']+o,8)
        self.lists = {n:self.k['breaks']+o for n,o in self.br.items() if n in ('broken_ends','orphans')}
        self.maps = {n:self.k['breaks']+o for n,o in self.br.items() if n in ('broken_starts','virtual_points')}
        for n,o in self.lists.items(): F['breaks.'+n] = (o,8)
        self.F = F; self.new = {}
        w = World([(1,)],['x']); w.summ = s; w.arg(0,1<<16); w.arg(1,1<<12)
        for n in F:
            v,p = w(self.load(s,s.exit_mem(),mk('arg',0),n))
            if p.any(): raise Inconclusive('what a new clipper holds: %s' % n)
            self.new[n] = int(v[0])
    def load(self,s,mem,base,n):
        o,z = self.F[n]; return s.load(mem,ptr(base,o),z,'i%d' % (8*z))
    def world(self,s,rows,names,at,over,lo=1<<16):
        """a clipper at expression address `at` (an argument): fields not in `over` are dirty"""
        w = World(rows,names); w.summ = s; w.vectors(1<<12)
        f = {o:w.arr(71+k) for k,(o,z) in enumerate(self.F.values())}
        f[self.F['ran'][0]] = w.arr(1)
        for n,v in over.items(): f[self.F[n][0]] = w.arr(w[v] if isinstance(v,str) else v)
        w.arg(at,lo); w.put(lo,self.size,f,1)
        return w
WORDS = {'lpoints':'polygons','samples':'contacts','sweep_nodes':'segments','rgen':'the state of the random generator','_next_orig_i':'the numbering of input points','ran':'the mark that a result was produced','loops_out':'loops','top':'outermost loops',
    'events.events':'events','events.new_events':'new events','events.current_i':'the place in the events','events.last_size':'the number of sorted events','breaks.broken_ends':'open ends','breaks.orphans':'orphans'}
def P10():
    c = Check('P10','For every state a clipper can be in: after a result was produced, adding a loop and executing (list or tree, from an lvalue or an rvalue, with and without tracker) put every field an operation reads into the state of a new clipper before anything else happens and reset the tracker exactly then; before that they leave everything as it is. reset() does so always. An operation marks the clipper, and starts with no events, open ends, orphans, loops or tree of the operation before; its sweeps start empty.','effect summary of the flattened functions over compiler IR; decision table over compiler IR: '+TABLE)
    K = Clipper(c); F = K.F
    rows = [(r,n,x) for r in (0,1) for n,x in ((0,0),(5,2),(9,40))]
    over = {'ran':'ran','lpoints':'n','_next_orig_i':'x'}
    desc = lambda w: (lambda k: ('after an operation' if w['ran'][k] else 'before any operation')+', %d points, next input point %d' % (w['n'][k],w['x'][k]) if 'ran' in w.cols else 'any state')
    def state(part,name,at,mem_of,opaque,cond=True,base=None,lo=1<<16,needs=True):
        m,f,s = load(name,*opaque); W = f.where; c.saw('functions',W)
        w = K.world(s,rows,['ran','n','x'],at,over,lo)
        for k in range(6):
            if k != at: w.arg(k,(1<<20)+(k<<16))
        es = mem_of(s)
        if es is None: c.undecided(part,name+': the operation is not where it was'); return m,f,s,w
        for n in STATE:
            before = np.full(w.n,71+list(F).index(n)) if n not in over else w[over[n]]
            want = np.where(w['ran'] == 1,K.new[n],before) if cond else np.full(w.n,K.new[n])
            for mem in es:
                v,p = w(K.load(s,mem,base if base is not None else mk('arg',at),n))
                if n == 'ran': v = v&1
                if p.any(): c.undecided(part,'%s: %s' % (name,n),int(p.sum())); continue
                left = (v != want)&((w['ran'] == 1) if cond else np.ones(w.n,bool)); lost = (v != want)&~left
                tell(c,part,W,left,w.n,'%s of the operation before are still there' % WORDS[n],desc(w)); 
                if cond: tell(c,part,W,lost,w.n,'%s are dropped or changed although nothing was run since they were added' % WORDS[n],desc(w))
        return m,f,s,w
    DO = ('opaque ^poly_ops::clipper::do_op$','opaque loop_hierarchy$')
    ran = lambda w: w['ran'] == 1
    for name in ('w_exec_list','w_exec_tree','w_rexec_list','w_rexec_tree','w_rexec_own','w_rexec_owntree','w_exec_plain','w_exec_plaintree','w_rexec_plain','w_rexec_plaintree'):
        m,f,s,w = state('execute',name,1,lambda s: [e.mem for e in s.calls_to('clipper::do_op$')] or None,DO); W = f.where
        if 'plain' in name: continue
        rs = s.calls_to('^WT::reset$'); do = s.calls_to('clipper::do_op$')
        hit(c,'tracker',W,w,rs,ran(w),desc(w),'the tracker')
        order = {id(e):k for k,e in enumerate(s.effects)}
        for e in rs:
            c.decide('tracker',W,'another tracker is reset',True if e.args[0] is mk('arg',3) else None)
            if do and order[id(e)] > order[id(do[0])]: c.fail('tracker',W,'the tracker is reset after the operation was run')
    for name,pt in (('w_add_loop',3),):
        m,f,s = engine.load('engine',name,noclobber='.'); W = f.where; c.saw('functions',W)
        r2 = [r+(p,) for r in rows for p in (0,1)]
        w = K.world(s,r2,['ran','n','x','pt'],1,over); w.arg(0,1<<24); w.arg(2,0); w.arg(3,np.where(w['pt'] == 1,1<<25,0))
        for n in STATE:
            before = np.full(w.n,71+list(F).index(n)) if n not in over else w[over[n]]
            want = np.where(ran(w),K.new[n],before)
            v,p = w(K.load(s,s.exit_mem(),mk('arg',1),n))
            if n == 'ran': v = v&1
            if p.any(): c.undecided('add','%s: %s' % (name,n)); continue
            tell(c,'add',W,(v != want)&ran(w),w.n,'%s of the operation before are still there' % WORDS[n],desc(w)); tell(c,'add',W,(v != want)&~ran(w),w.n,'%s are dropped or changed although nothing was run since they were added' % WORDS[n],desc(w))
        hit(c,'tracker',W,w,[e for e in s.effects if e.kind == 'call' and e.name == 'virtual::3'],ran(w)&(w['pt'] == 1),desc(w),'the tracker')
        sk = [k for k in m.structs if k.endswith('::point_sink') and 'clipper' in k]
        d = {x[0]:x[1] for x in m.structs[sk[0]]['members']} if sk else {}
        if 'first_i' in d:
            v,p = w(s.load(s.exit_mem(),ptr(mk('arg',0),d['first_i']),8,'i64')); want = np.where(ran(w),0,w['n'])
            if p.any(): c.undecided('add','where the loop starts')
            else: tell(c,'add',W,v != want,w.n,'a loop does not start after the points that are kept',desc(w))
        else: c.undecided('add','first_i')
    # reset, alone and with its tracker
    td,_ = members(load('w_treset')[0],'poly_ops::tclipper<int, unsigned long, WT>','base','tracker')
    m,f,s = load('w_treset','opaque ^std::(pmr::)?map::clear$'); W = f.where; c.saw('functions',W)
    w = K.world(s,rows,['ran','n','x'],0,over,1<<16); w.args[0] = w.args[0]-td['base']
    after = {}
    for n in STATE:
        v,p = w(K.load(s,s.exit_mem(),ptr(mk('arg',0),td['base']),n))
        if n == 'ran': v = v&1
        if p.any(): c.undecided('reset',n); continue
        tell(c,'reset',W,v != K.new[n],w.n,'%s are still there after a reset' % WORDS[n],desc(w))
    hit(c,'tracker',W,w,s.calls_to('^WT::reset$'),np.ones(w.n,bool),desc(w),'the tracker')
    # what else a reset leaves behind
    w = K.world(s,[(1,)],['one'],0,{},1<<16); w.args[0] = w.args[0]-td['base']
    for n in F:
        v,p = w(K.load(s,s.exit_mem(),ptr(mk('arg',0),td['base']),n)); after[n] = None if p.any() else int(v[0])
    cleared = {n for n,o in K.maps.items() if any(e.name.endswith('map::clear') and e.args and e.args[0] is ptr(mk('arg',0),td['base']+o) and always(e) for e in s.effects if e.kind == 'call')}
    # moving
    m,f,s = load('w_clipper_move'); W = f.where; c.saw('functions',W); A0,A1 = mk('arg',0),mk('arg',1)
    # (before an operation all but the input is as in a new clipper, and after one it is reset before it is used)
    names = ['ran','n','x']+[n for n in STATE if n not in over]
    w = K.world(s,[r+tuple(K.new[n] if not r[0] else 71+list(F).index(n) for n in names[3:]) for r in rows],names,1,dict({n:n for n in names[3:]},**over)); w.arg(0,1<<24); mem = s.exit_mem()
    mv = [(e.args[0],e.args[1]) for e in s.effects if e.kind == 'call' and e.name in ('vv_move','vv_copy') and always(e)]
    for n in STATE:
        v,p = w(K.load(s,mem,A0,n)); before = w[over.get(n,n)]
        if n == 'ran': v,before = v&1,before&1
        if p.any(): c.undecided('move',n)
        else: tell(c,'move',W,(v != before)&((w['ran'] == 0)|(n == 'ran')),w.n,'%s do not go along when a clipper is moved' % WORDS[n],desc(w))
        v,p = w(K.load(s,mem,A1,n))
        if n == 'ran': v = v&1
        if p.any(): c.undecided('move',n+' left behind')
        else: tell(c,'move',W,v != K.new[n],w.n,'%s stay in a clipper that was moved from' % WORDS[n],desc(w))
    c.decide('move',W,'polygons do not go along when a clipper is moved',True if (ptr(A0,K.k['lpoints']),ptr(A1,K.k['lpoints'])) in mv else False if not any(a is ptr(A0,K.k['lpoints']) for a,b in mv) else None)
    for n,o in K.maps.items():
        e = s.load(mem,ptr(A0,o),8,'ptr')
        c.decide('move',W,'%s of a moved clipper uses memory of the clipper it was moved from' % n,True if e is ptr(A0,K.k['discrete_mem']) else False if root(e) is A1 else None)
    # what an operation starts with, when the clipper was reset earlier
    begin = dict(after); marked = None
    for name in ('w_exec_list','w_exec_tree','w_rexec_list','w_rexec_tree','w_exec_plain','w_rexec_plain'):
        m,f,s = load(name,*DO)
        w = K.world(s,[(1,)],['one'],1,{n:v for n,v in after.items() if v is not None})
        for k in (0,2,3): w.arg(k,(1<<20)+(k<<16))
        do = s.calls_to('clipper::do_op$')
        for n in F:
            if not do: begin[n] = None; continue
            v,p = w(K.load(s,do[0].mem,mk('arg',1),n))
            x = None if p.any() else int(v[0])
            if name == 'w_exec_list': begin[n] = x
            elif begin[n] is not None and x != begin[n]: begin[n] = None if x is None or begin[n] == K.new[n] else begin[n]
        v,p = w(K.load(s,do[0].mem if do else s.exit_mem(),mk('arg',1),'ran'))
        marked = False if not p.any() and not v[0]&1 and marked is not None or marked is None and not p.any() and not v[0]&1 else marked if marked is False else None if p.any() else True
    # the operation itself
    m,f,s = engine.load('engine','w_do_op',['opaque ^poly_ops::clipper::(self_intersection|calc_line_bal|insert_anchor_point)$','opaque detail::(follow_balance|find_loops)$','opaque ^std::(pmr::)?map::clear$'],noclobber='.'); W = f.where; c.saw('functions',W)
    A0 = mk('arg',0)
    si,cb,fb,fl = (s.calls_to(r) for r in ('clipper::self_intersection$','clipper::calc_line_bal$','detail::follow_balance$','detail::find_loops$'))
    if not si or not cb or not fb or not fl: raise Inconclusive('the steps of do_op changed')
    w = K.world(s,[(k,) for k in range(6)],['op'],0,{n:begin[n] for n in begin if begin[n] is not None}); w.arg(1,w['op']); w.arg(2,0); w.arg(3,0)
    order = {id(e):k for k,e in enumerate(s.effects)}
    def clean(n,uses,want,what=None):
        """field n holds `want` at each use, or was put so on the way"""
        for e in uses:
            sts = [x for x in s.effects if x.kind == 'store' and x.ptr is ptr(A0,F[n][0]) and order[id(x)] < order[id(e)]]
            if any(num(x.val) == want and dominates(s,x.block,e.block) for x in sts): c.ok('operation',1,'%s at the start' % n); continue
            v,p = w(K.load(s,si[0].mem,A0,n))
            if p.any() or begin.get(n) is None: c.undecided('operation',n); continue
            if (v == want).all(): c.ok('operation',w.n,'%s at the start' % n); continue
            if sts and what is None: c.undecided('operation',n); continue
            tell(c,'operation',W,v != want,w.n,what or 'an operation starts with %s of the operation before' % WORDS[n],lambda k: 'reset() and the start of the operation leave %d' % v[k])
    for n in F:
        if n.startswith('events.') or n in STATE and n != 'ran': clean(n,si,K.new[n])
        elif n.startswith('breaks.'): clean(n,fb[:1],K.new[n])
        elif n == 'loops_out': clean(n,fl,K.new[n])
        elif n == 'top': clean(n,fl,K.new[n])
    if marked is True: c.ok('operation',1,'marked before')
    elif marked is None: c.undecided('operation','ran')
    else: clean('ran',fl,1,'a clipper is not marked when it produced a result')
    for n,o in K.maps.items():
        cl = [e for e in s.effects if e.kind == 'call' and e.name.endswith('::clear') and e.args and e.args[0] is ptr(A0,o)]
        if n in cleared or any(always(e) and order[id(e)] < order[id(fb[0])] for e in cl): c.ok('operation',1,'breaks.%s is cleared' % n)
        elif cl or after.get('ran') is None: c.undecided('operation','when breaks.%s is cleared' % n)
        elif any(root(a) is A0 and e.name.startswith('std::') and o <= pparts(a)[1] < o+48 and order[id(e)] < order[id(fb[0])] for e in s.effects if e.kind == 'call' for a in e.args): c.undecided('operation','breaks.%s' % n)
        else: c.fail('operation',W,'an operation starts with the points in %s of the operation before' % n,'neither reset() nor do_op() clears it')
    # sweeps start empty
    for name,at in (('w_self_intersection',0),('w_calc_line_bal',0)):
        m,f,s = engine.load('engine',name,[x.replace('|init_node|unique|clear','|init_node|unique') for x in engine.SW]+['opaque ^poly_ops::detail::events_t::(next|add_fb_events|find)$','opaque ^poly_ops::clipper::(check_intersection|split_segment|add_fb_events)$'],noclobber='.'); W = f.where; c.saw('functions',W)
        nx = s.calls_to('events_t::next$')
        sn = [k for k in m.structs if k.startswith('poly_ops::detail::set_node<') and k.endswith('>')]
        if not nx or not sn: c.undecided('sweep',name); continue
        d = {x[0]:(x[1],x[2]) for x in m.structs[sn[0]]['members']}
        links = {k:v for k,v in d.items() if k in ('parent','left','right')}
        if len(links) != 3: c.undecided('sweep','links of the nodes'); continue
        order = {id(e):k for k,e in enumerate(s.effects)}
        for n,(o,z) in links.items():
            sts = [x for x in s.effects if x.kind == 'store' and x.ptr is ptr(mk('elemof',ptr(A0,K.k['sweep_nodes'])),o)]
            if any(x.val.op == 'const' and dominates(s,x.block,nx[0].block) and order[id(x)] < order[id(nx[0])] for x in sts): c.ok('sweep',1,'%s: %s' % (name,n))
            elif sts or any(e.kind == 'call' and 'sweep_set' in e.name and 'clear' in e.name for e in s.effects): c.undecided('sweep','%s: %s' % (name,n))
            else: c.fail('sweep',W,'a sweep starts with segments of the sweep before (link %s of its root)' % n,'nothing sets it before the first event')
    return c
def hit(c,part,W,w,es,want,desc,who):
    """the calls happen exactly in the wanted rows"""
    got = np.zeros(w.n,bool)
    for e in es:
        g,p = w(e.guard)
        if p.any(): c.undecided(part,who); return
        got |= g != 0
    tell(c,part,W,want&~got,w.n,'%s is not reset together with the clipper' % who,desc); tell(c,part,W,got&~want,w.n,'%s is reset although the clipper is not' % who,desc)

def P11():
    c = Check('P11','For every way to execute a clipper (with or without tracker, by value or by reference, list or tree, from an rvalue or an lvalue): what an element of the returned range refers to - points, loop and tracker - lies, for an rvalue, in buffers that were moved from the clipper into the range after the operation was done (and for a tree the loops its pointers lead to are moved too), and for an lvalue in the clipper. A range that is moved takes everything along. The buffers use the memory resource passed to the clipper, not one that ends with it.','effect summary of the flattened functions over compiler IR (who holds each buffer at the end, what the result points to)')
    K = Clipper(c); k = K.k
    DO = ('opaque ^poly_ops::clipper::do_op$','opaque loop_hierarchy$')
    td,_ = members(load('r_town_list',*DO)[0],'poly_ops::tclipper<int, unsigned long, WT>','base','tracker')
    def base(e):
        """where a value leads: ('elems',slot), ('at',address), ('via',slot) for a pointer kept in a slot's elements"""
        ps = []
        def strip(e):
            while e.op == 'ptr': e = e.a[0]
            return e
        x = strip(e)
        if x.op == 'elemof': return 'elems',x.a[0]
        if x.op == 'ld':
            a = x.a[0]; y = strip(a)
            if y.op == 'elemof': return 'via',y.a[0]
            return 'load',a
        if x.op in ('arg','local'): return 'at',e
        return None,e
    for name in ['%s_%s_%s' % (a,b,d) for a in 'rl' for b in ('own','ref','plain','town','tref') for d in ('list','tree')]+['m_%s_%s' % (b,d) for b in ('own','ref') for d in ('list','tree')]:
        m,f,s = load(name,*DO); W = f.where; c.saw('functions',W)
        how,tr,out = name.split('_'); A0 = mk('arg',0)
        part = {'r':'owned','l':'borrowed','m':'moved'}[how]
        O,Q = (mk('arg',4),mk('arg',5)) if how != 'm' else (mk('arg',2),mk('arg',3))
        q = [x for x in m.structs if x.startswith('poly_ops::temp_polygon_proxy<') and x.endswith('>') and ('null_tracker' in x) == (tr == 'plain')]
        if len(q) != 1: raise Inconclusive('temp_polygon_proxy vanished')
        q = {x[0]:x[1] for x in m.structs[q[0]]['members']}
        CB = ptr(A0,td['base']) if tr in ('town','tref') else A0
        def at(n): return ptr(CB,k[n])
        done = [i for i,e in enumerate(s.effects) if e.kind == 'call' and (e.name.endswith('clipper::do_op') or e.name.endswith('loop_hierarchy'))]
        if how != 'm' and not done: c.undecided(part,name+': no operation'); continue
        def trace(slot):
            """(the slots that hold the buffer first in `slot`, the effects that moved it)"""
            h = [slot]; by = []
            for i,e in enumerate(s.effects):
                if e.kind != 'call' or e.name not in ('vv_move','vv_copy'): continue
                dst,src = e.args[:2]
                if dst in h and src not in h: h.remove(dst)
                if src in h:
                    if e.name == 'vv_move': h.remove(src); h.insert(0,dst); by.append(i)
                    else: h.append(dst)
            return h,by
        mem = s.exit_mem()
        val = lambda n: s.load(mem,ptr(Q,q[n]),8,'ptr')
        mine = lambda slot: root(slot) is O
        def lies(what,n,b):
            """where the part of the result lies"""
            kind,p = b
            r = root(p) if kind else None
            if how in 'rm':
                if kind is None: c.undecided(part,'%s: %s' % (name,what))
                elif r is O: return True
                elif r is A0 or r.op == 'local': c.fail(part,W,'%s of a result that should own them are %s' % (what,'left in the clipper' if how == 'r' and r is A0 else 'left in the range moved from' if r is A0 else 'in a variable that is gone when the function returns'),show(p))
                else: c.undecided(part,'%s: %s in %s' % (name,what,show(p)))
                return False
            if kind is None: c.undecided(part,'%s: %s' % (name,what)); return False
            if r is A0: return True
            if r.op == 'local': c.fail(part,W,'%s of the result are in a variable that is gone when the function returns' % what,show(p))
            elif r is O: c.fail(part,W,'%s of the result are not those of the clipper' % what,show(p))
            else: c.undecided(part,'%s: %s in %s' % (name,what,show(p)))
            return False
        # the points and loops
        for what,n,member in (('the points','lpoints','lpoints'),('the loops','data','loops_out' if out == 'list' else 'top')):
            v = val(n); b = base(v)
            if b[0] not in ('elems','via') or (b[0] == 'via') != (n == 'data' and out == 'tree'):
                if b[0] in ('at','load'): lies(what,n,b) and c.undecided(part,'%s: %s' % (name,what))
                else: c.undecided(part,'%s: %s' % (name,what))
                continue
            if not lies(what,n,b): continue
            if how == 'm': c.ok(part,1,'%s: %s' % (name,what)); continue
            h,by = trace(at(member))
            if b[1] in h:
                if how == 'r' and by and min(by) < max(done): c.fail(part,W,'%s are moved into the result before the operation is done' % what)
                else: c.ok(part,1,'%s: %s' % (name,what))
            else:
                other = [x for x in ('lpoints','samples','loops_out','top','sweep_nodes') if b[1] in trace(at(x))[0]]
                if other: c.fail(part,W,'%s of the result are taken from %s' % (what,', '.join(other)))
                else: c.undecided(part,'%s: %s from %s' % (name,what,show(b[1])))
        if out == 'tree' and how == 'r':
            h,by = trace(at('loops_out')); what = 'the loops a tree leads to'
            moved = [x for x in h if mine(x)]
            if any(e.kind == 'call' and e.name == 'vv_copy' and e.args[1] in [at('loops_out')]+h for e in s.effects): c.undecided(part,'%s: loops are copied' % name)
            elif moved: 
                if min(by) < max(done): c.fail(part,W,'%s are moved into the result before the operation is done' % what)
                else: c.ok(part,1,'%s: %s' % (name,what))
            else: c.fail(part,W,'%s are not kept by the result' % what,'their buffer ends in '+', '.join(show(x) for x in h))
        if out == 'tree' and how == 'm':
            # whatever vector the range holds goes along
            vs = {e.args[1] for e in s.effects if e.kind == 'call' and e.name == 'vv_move' and root(e.args[1]) is A0}
            if len(vs) == 3: c.ok(part,1,'%s: all vectors' % name)
            else: c.undecided(part,'%s: vectors of the range' % name)
        # the tracker
        if tr == 'plain': continue
        v = val('tracker'); b = base(v)
        if tr in ('ref','tref'):
            want = mk('arg',2) if tr == 'ref' else None
            if how == 'm':
                if v.op == 'ld' and root(v) is not None and b[0] == 'load' and root(b[1]) is A0: c.ok(part,1,'%s: the tracker' % name)
                else: c.decide(part,W,'a moved range refers to another tracker',None if b[0] is None or usable(v) is False else False)
            elif tr == 'ref': c.decide(part,W,'the result refers to another tracker than the one passed in',True if v is want else False if b[0] == 'at' else None)
            else: c.decide(part,W,'the result refers to another tracker than the one passed in',True if b == ('load',ptr(A0,td['tracker'])) else False if b[0] == 'at' else None)
            continue
        src = mk('arg',2) if tr == 'own' else ptr(A0,td['tracker'])
        if how == 'l' and tr == 'town':
            c.decide(part,W,'the result refers to another tracker than the one of the clipper',True if v is src else False if b[0] == 'at' else None); continue
        if how == 'm':
            if not lies('the tracker','tracker',b): continue
            sts = [e for e in s.effects if e.kind == 'store' and e.ptr is b[1]]
            c.decide(part,W,'the tracker of a moved range is not the one it had',True if len(sts) == 1 and sts[0].val.op == 'ld' and root(sts[0].val.a[0]) is A0 else None); continue
        if b[0] is None or b[0] != 'at': c.undecided(part,'%s: the tracker' % name); continue
        if root(b[1]) is not O:
            if root(b[1]) is A0 or root(b[1]).op == 'local' or b[1] is src: c.fail(part,W,'the result refers to a tracker that is not its own',show(b[1]))
            else: c.undecided(part,'%s: the tracker at %s' % (name,show(b[1])))
            continue
        sts = [i for i,e in enumerate(s.effects) if e.kind == 'store' and e.ptr is b[1]]
        if len(sts) != 1: c.undecided(part,'%s: the tracker' % name)
        else:
            x = s.effects[sts[0]].val
            if x.op == 'ld' and x.a[0] is src:
                if sts[0] < max(done): c.fail(part,W,'the tracker is moved into the result before the operation is done')
                else: c.ok(part,1,'%s: the tracker' % name)
            else: c.undecided(part,'%s: the tracker from %s' % (name,show(x)))
    # the memory the buffers use
    m,f,s = load('w_clipper'); W = f.where
    init = {e.args[0]:e.args[1] for e in s.calls_to('^vv_init$')}
    w = World([(1,)],['x']); w.summ = s; w.arg(0,1<<16); w.arg(1,1<<12)
    for n in ('lpoints','loops_out','top'):
        e = init.get(ptr(mk('arg',0),k[n]))
        if e is None: c.undecided('memory',n); continue
        v,p = w(e)
        if p.any(): c.undecided('memory',n)
        else: tell(c,'memory',W,v != 1<<12,1,'%s of a result are kept in other memory than the resource passed in' % WORDS[n],lambda i: 'the clipper\'s own resource' if (1<<16) <= v[i] < (1<<16)+K.size else str(v[i]))
    v,p = w(s.load(s.exit_mem(),ptr(mk('arg',0),k['contig_mem']),8,'ptr'))
    if p.any(): c.undecided('memory','contig_mem')
    else: tell(c,'memory',W,v != 1<<12,1,'the clipper keeps another memory resource than the one passed in',lambda i: str(v[i]))
    for name,call,at in (('w_rexec_tree','loop_hierarchy$',4),('w_exec_tree','loop_hierarchy$',4),('w_do_op','detail::find_loops$',2)):
        if name == 'w_do_op': m,f,s = engine.load('engine','w_do_op',['opaque ^poly_ops::clipper::(self_intersection|calc_line_bal|insert_anchor_point)$','opaque detail::(follow_balance|find_loops)$','opaque ^std::(pmr::)?map::clear$'],noclobber='.'); A0 = mk('arg',0)
        else: m,f,s = load(name,*DO); A0 = mk('arg',1)
        es = s.calls_to(call); W = f.where
        if len(es) != 1 or len(es[0].args) <= at: c.undecided('memory','%s: %s' % (name,call)); continue
        x = es[0].args[at]
        c.decide('memory',W,'the loops are kept in memory that ends with the clipper',True if x.op == 'ld' and x.a[0] is ptr(A0,k['contig_mem']) else False if root(x) is A0 and x.op != 'ld' or x.op == 'null' else None)
    return c
