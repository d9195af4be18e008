"""P40: references into growing vectors.

Every function is looked at with the library's small functions folded in.  The
facts that flow along its control flow graph are (value, vector, fresh|stale):
a value is made from the address of a vector's elements, and turns stale where
the vector may be reallocated.  What a function that isn't folded in does to the
vectors it can reach (which ones grow, which of its arguments are used after one
grew, whose elements its result points to) is a summary over its parameters."""
import re, heapq
from harness import Check, Inconclusive
from irsum import Summary, Module, mk, ptr, pparts, root, show, Undecided, E
from build import witness
import os
OPAQUE = ['opaque ^vv_','opaque ^poly_ops::detail::sweep_set::(erase|insert|_erase|_insert|begin|end|cbegin|cend|init_node|unique|clear)$',
    'opaque ^poly_ops::detail::tree_iterator::operator(\\+\\+|--)$',
    'opaque ^poly_ops::(((detail::)?(clipper|tclipper)::[a-z_]+)|.*(add_offset|point_sink::([a-z_~]+|operator\\(\\))|scan_line_sweep_state::operator\\(\\)|rasterizer::[a-z_]+)|detail::(follow_balance|find_loops|loop_hierarchy|unique_sorted_loop_points|replace_line_indices_with_loop_indices|arrange_loops|add_offset_point)|[a-z_]+)$']
GROW = ('vv_append','vv_grow','vv_insert','vv_reserve','vv_copy')
DERIVE = ('getelementptr','bitcast','freeze','select','phi','addrspacecast')

def has(e,f):
    st = [e]; seen = set()
    while st:
        x = st.pop()
        if x.n in seen: continue
        seen.add(x.n)
        if f(x): return True
        for a in x.a:
            if isinstance(a,E): st.append(a)
            elif isinstance(a,tuple):
                for y in a:
                    if isinstance(y,E): st.append(y)
                    elif isinstance(y,tuple): st += [z for z in y if isinstance(z,E)]
    return False
def portable(e):
    """a place described by the parameters and memory as the function finds it"""
    return not has(e,lambda x: x.op not in ('arg','ptr','ld','elemof','const') or x.op == 'ld' and x.a[2] != 'init')

class Fun:
    def __init__(self,f):
        self.f = f; self.name = f.mangled; self.s = Summary(f,noclobber='.')
        self.succ = {b:self.s._succs(b) for b in self.s.rpo}
        self.grows = {}     # place -> why
        self.late = {}      # (argument, place) -> (why grown, where used)
        self.rets = set()   # places whose elements are returned
        self.calls = {}
        for e in self.s.effects:
            if e.kind == 'call': self.calls[e.k] = e
        self.liveness()
    @staticmethod
    def operands(i):
        for k in ('ops','args'):
            for o in i.get(k,()): yield o
        if 'base' in i: yield i['base']
    def liveness(self):
        """values needed at the end of every block"""
        def leaf(o):
            while o[0] in ('gep','cast'): o = o[1] if o[0] == 'gep' else o[2]
            return ('v',o[1]) if o[0] == 'v' else ('a',o[1]) if o[0] == 'a' else None
        need,defs,edge = {},{},{}
        for b in self.s.rpo:
            n = set(); d = set()
            for i in self.f.blocks[b]:
                if i['op'] == 'phi':
                    for o,pb in i['in']:
                        k = leaf(o)
                        if k: edge.setdefault((pb,b),set()).add(k)
                else: n |= {k for k in map(leaf,self.operands(i)) if k and k not in d}
                d.add(('v',i['id']))
            need[b] = n; defs[b] = d
        self.livein = {b:set(need[b]) for b in self.s.rpo}; self.liveout = {}
        ch = True
        while ch:
            ch = False
            for b in reversed(self.s.rpo):
                o = set()
                for t in self.succ[b]: o |= self.livein[t]|edge.get((b,t),set())
                self.liveout[b] = o
                i = need[b]|(o-defs[b])
                if i != self.livein[b]: self.livein[b] = i; ch = True
        self.lastuse = {}
    def at(self,i): return '%s:%s' % (os.path.basename(i.get('file','?')),i.get('line','?'))
    def subst(self,e,args,mem,memo):
        r = memo.get(e.n)
        if r is not None: return r
        if e.op == 'arg': r = args[e.a[0]] if e.a[0] < len(args) else None
        elif e.op == 'const': r = e
        elif e.op == 'ptr':
            b = self.subst(e.a[0],args,mem,memo); vs = [(k,self.subst(v,args,mem,memo)) for k,v in e.a[2]]
            r = None if b is None or any(v is None for _,v in vs) else ptr(b,e.a[1],vs)
        elif e.op == 'elemof':
            b = self.subst(e.a[0],args,mem,memo); r = None if b is None else mk('elemof',b)
        elif e.op == 'ld':
            b = self.subst(e.a[0],args,mem,memo); r = None if b is None else self.s.load(mem,b,e.a[1],e.a[3])
        else: r = None
        memo[e.n] = r
        return r
    def grown(self,i,every):
        """places the call i may make grow: [(place, how)]"""
        if i['op'] not in ('call','invoke'): return []
        c = i['callee']
        if c[0] != 'fn': return []
        e = self.calls.get(i['id'])
        if c[1] in GROW: return [(self.s.opd(i['args'][0]),'%s at %s' % (c[1][3:],self.at(i)))]
        g = every.get(c[1])
        if g is None or not g.grows or e is None: return []
        args = [self.s.opd(a) for a in i['args']]; memo = {}
        r = []
        for p,why in g.grows.items():
            q = self.subst(p,args,e.mem,memo)
            if q is not None: r.append((q,'%s at %s: %s' % (g.f.name,self.at(i),why)))
        return r
    def run(self,every,report):
        """one pass over the control flow graph to a fixed point; True if the summary changed"""
        s = self.s; f = self.f
        before = (set(self.grows),set(self.late),set(self.rets))
        hdrs = {}
        for b,h in s.back: hdrs.setdefault((b,h),1)
        start = frozenset((('a',k),('arg',k),None) for k,a in enumerate(f.args) if a['ty'] == 'ptr')
        ins = {0:start}; work = [(0,0)]; queued = {0}
        self.touched = 0
        def key(o):
            return ('v',o[1]) if o[0] == 'v' else ('a',o[1]) if o[0] == 'a' else key(o[1]) if o[0] == 'gep' else None
        found = {}; whys = {}
        def cell(o):
            """a local variable (not an array's element)"""
            b,off,vs = pparts(s.opd(o))
            return ('m',b.n,off) if b.op == 'alloca' and not vs else None
        def of(facts,o):
            k = key(o)
            return [x for x in facts if x[0] == k] if k else []
        def use(facts,i,o,how):
            for v,place,st in of(facts,o):
                if place[0] == 'elem': self.touched += 1
                if st is None: continue
                if place[0] == 'arg':
                    if portable(st): self.late.setdefault((place[1],st),(whys.get(st),self.at(i)))
                else: found.setdefault((self.at(i),whys.get(st)),(place[1],how))
        n = 0
        order = {b:k for k,b in enumerate(s.rpo)}
        while work:
            b = heapq.heappop(work)[1]; queued.discard(b); n += 1
            if n > 40*len(s.rpo)+400: raise Undecided('too many rounds')
            facts = set(ins[b])
            for i in f.blocks[b]:
                op = i['op']; me = ('v',i['id'])
                if op == 'phi': continue      # done on the edges
                facts = {x for x in facts if x[0] != me}
                if op == 'load':
                    use(facts,i,i['ops'][0],'read')
                    k = cell(i['ops'][0])
                    if k and i['ty'] == 'ptr': facts |= {(me,place,st) for v,place,st in facts if v == k}
                elif op == 'store':
                    use(facts,i,i['ops'][1],'written')
                    k = cell(i['ops'][1])
                    if k:
                        facts = {x for x in facts if x[0] != k}
                        facts |= {(k,place,st) for v,place,st in of(facts,i['ops'][0])}
                if op in ('getelementptr','bitcast','freeze','select','addrspacecast'):
                    src = [i['base']] if op == 'getelementptr' and 'base' in i else i.get('ops',[])
                    new = set()
                    for o in (src[1:] if op == 'select' else src[:1]):
                        for v,place,st in of(facts,o): new.add((me,place,st))
                    facts |= new
                elif op in ('call','invoke'):
                    c = i['callee']; nm = c[1] if c[0] == 'fn' else None
                    g = every.get(nm) if nm else None
                    if nm == 'vv_elems': facts.add((me,('elem',s.opd(i['args'][0])),None))
                    else:
                        if not (nm and (nm.startswith('vv_') or nm.startswith('llvm.') and not re.match(r'llvm\.mem',nm))):
                            for o in i['args']: use(facts,i,o,'passed on')
                        grown = self.grown(i,every)
                        if g is not None and g.late:
                            # references given to a function that makes their vector grow and then uses them
                            args = [s.opd(a) for a in i['args']]; memo = {}; e = self.calls.get(i['id'])
                            for (k,p),(why,where) in g.late.items():
                                q = self.subst(p,args,e.mem,memo) if e is not None else None
                                if q is None or k >= len(i['args']): continue
                                for v,place,st in of(facts,i['args'][k]):
                                    if place[0] == 'elem' and place[1] is q: found.setdefault((where,why),(q,'a parameter, passed at %s,' % self.at(i)))
                                    elif place[0] == 'arg' and portable(q): self.late.setdefault((place[1],q),(why,where))
                        for p,why in grown:
                            whys.setdefault(p,why)
                            if portable(p): self.grows.setdefault(p,why)
                            new = set()
                            spare = g is None and any(x[1][0] == 'room' and x[1][1] is p for x in facts)
                            if nm == 'vv_reserve': facts.add((('room',),('room',p),None))
                            for v,place,st in facts:
                                if place[0] == 'elem' and place[1] is p and spare: continue     # may have had room
                                if place[0] == 'room': new.add((v,place,st)); continue
                                if st is not None: new.add((v,place,st))
                                elif place[0] == 'elem': new.add((v,place,p if place[1] is p else None))
                                else: new.add((v,place,None)); portable(p) and new.add((v,place,p))
                            facts = new
                        if g is not None and g.rets:
                            args = [s.opd(a) for a in i['args']]; memo = {}; e = self.calls.get(i['id'])
                            for p in g.rets:
                                q = self.subst(p,args,e.mem,memo) if e is not None else None
                                if q is not None: facts.add((me,('elem',q),None))
                elif op == 'ret' and i.get('ops'):
                    for v,place,st in of(facts,i['ops'][0]):
                        if place[0] == 'elem' and portable(place[1]): self.rets.add(place[1])
                        if place[0] == 'elem' and st is not None: use(facts,i,i['ops'][0],'returned')
            for t in self.succ[b]:
                out = set(facts)
                if (b,t) in hdrs:
                    body = s.loops[t]['body']
                    same = lambda e: not has(e,lambda x: x.op == 'phi' and x.a[0] in body or x.op in ('later','call') or x.op == 'ld' and x.a[2] == 'L%d' % t)
                    out = {x for x in out if (x[1][0] in ('arg','room') or same(x[1][1])) and (x[2] is None or same(x[2]))}
                new = set()
                for i in f.blocks[t]:
                    if i['op'] != 'phi': break
                    for o,pb in i['in']:
                        if pb == b:
                            for v,place,st in of(out,o): new.add((('v',i['id']),place,st))
                ids = {('v',i['id']) for i in f.blocks[t] if i['op'] == 'phi'}
                out = frozenset({x for x in out if x[0] not in ids and (x[0] in self.livein[t] or x[0][0] in ('room','m'))}|new)
                old = ins.get(t)
                if old is None or not out <= old:
                    ins[t] = out if old is None else old|out
                    if t not in queued: queued.add(t); heapq.heappush(work,(order[t],t))
        if report is not None:
            for (where,why),(p,how) in found.items(): report(self,where,why,p,how)
        return before != (set(self.grows),set(self.late),set(self.rets))

def analyse(j):
    m = Module(j); every = {}; skipped = []
    for fs in m.fns.values():
        for f in fs:
            if f.name.startswith('vv_'): continue
            try: every[f.mangled] = Fun(f)
            except (Undecided,RecursionError,AssertionError) as ex: skipped.append((f.name,str(ex)))
    ch = True; n = 0
    while ch and n < 12:
        ch = False; n += 1
        for g in every.values():
            try: ch |= g.run(every,None)
            except Undecided as ex: skipped.append((g.f.name,str(ex)))
    return every,skipped
def P40():
    c = Check('P40','In no function of the library is there a path on which the address of a vector\'s element (or a reference to it, passed on or returned) is used after the vector may have been reallocated by growing, with no new address taken in between; through calls too.','interprocedural dataflow on compiler IR: facts (value, vector, fresh or stale) along every control flow path, with summaries of what functions that call each other do to the vectors they can reach')
    j = witness('refs',OPAQUE+['root ^poly_ops::','root ^w_'],raw=True)
    every,skipped = analyse(j)
    for n,why in skipped: c.undecided('function','%s: %s' % (n,why))
    if not any(g.grows for g in every.values()): raise Inconclusive('anchor vanished: nothing grows')
    for g in every.values():
        bad = []
        try: g.run(every,lambda *a: bad.append(a))
        except Undecided: continue
        if g.touched or g.grows: c.saw('functions',g.f.where)
        for _,where,why,p,how in bad: c.fail('use',g.f.where,'an element is used after its vector may have been reallocated','%s at %s; grown by %s' % (how,where,why))
        c.ok('use',max(0,g.touched-len(bad)))
        for (k,p),w in list(g.late.items())[:2]: c.samples.append({'part':'use','obligation':'%s: argument %d must not point into %s' % (g.f.name,k,show(p,4))}) if len(c.samples) < 20 else None
    return c
