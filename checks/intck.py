"""P39, P68: integers of several words (witness/ints.cpp)."""
import itertools, re
import numpy as np
from harness import Check, Inconclusive
from irsum import Summary
from wide import WideWorld
from checks.sweepck import tell
from checks.meta import TABLE
from build import witness

M = (1<<64)-1; H = 1<<63
PA,PB = 4096,8192
VARIANTS = (('compiler builtins',()),('overflow builtins',('-DINTS_OVF','-Wno-builtin-macro-redefined')),('standard C++',('-DINTS_PLAIN',)))
WORDS = {2:([0,1,2,H-1,H,M-1,M],[0,1,H-1,H,H+1,M-1,M]),3:([0,1,M],[0,1,H,M],[0,1,H-1,H,M])}
INT = {'i':[0,1,-1,2,-2,(1<<63)-1,-(1<<63),-(1<<63)+1],'h':[0,1,-1,(1<<31)-1,-(1<<31)],'u':[0,1,2,H-1,H,H+1,M-1,M]}
def value(ws,signed):
    v = sum(w<<(64*i) for i,w in enumerate(ws))
    return v-(1<<(64*len(ws))) if signed and ws[-1] >= H else v
def sg(w): return w-(1<<64) if w >= H else w
def ordr(a,b): return (a > b)-(a < b)
# name -> (second operand: words/2/i/h/u/none, exact result, is a word)
OPS = {'add':('w',lambda a,b: a+b,1),'sub':('w',lambda a,b: a-b,1),'addto':('w',lambda a,b: a+b,1),'subto':('w',lambda a,b: a-b,1),
    'addi':('i',lambda a,b: a+b,1),'subi':('i',lambda a,b: a-b,1),'isub':('i',lambda a,b: b-a,1),'addh':('h',lambda a,b: a+b,1),'addu':('u',lambda a,b: a+b,1),'subu':('u',lambda a,b: a-b,1),
    'add1':('2',lambda a,b: a+b,1),'sub1':('2',lambda a,b: a-b,1),'aradd':('w',lambda a,b: a+b,1),'arsub':('w',lambda a,b: a-b,1),
    'asg':('',lambda a: a,1),'wide':('',lambda a: a,1),'neg':('',lambda a: -a,1),'abs':('',lambda a: abs(a),1),
    'cmp':('w',ordr,0),'cmpi':('i',ordr,0),'cmpu':('u',ordr,0),'cmp2':('2',ordr,0),'eq':('w',lambda a,b: a == b,0),'eqi':('i',lambda a,b: a == b,0),
    'less':('w',lambda a,b: a < b,0),'lessi':('i',lambda a,b: a < b,0),'iless':('i',lambda a,b: b < a,0),'negative':('',lambda a: a < 0,0),'bool':('',lambda a: a != 0,0)}
SAY = {'add':'sums','sub':'differences','addto':'+=','subto':'-=','addi':'sums with a 64-bit integer','subi':'differences with a 64-bit integer','isub':'differences of a 64-bit integer','addh':'sums with a 32-bit integer',
    'addu':'sums with an unsigned integer','subu':'differences with an unsigned integer','add1':'sums of different sizes','sub1':'differences of different sizes','aradd':'sums of arrays of words','arsub':'differences of arrays of words',
    'asg':'assignments to a wider type','wide':'conversions to a wider type','neg':'negation','abs':'absolute values','cmp':'order','cmpi':'order against a 64-bit integer','cmpu':'order against an unsigned integer','cmp2':'order of different sizes','eq':'equality','eqi':'equality with a 64-bit integer',
    'less':'<','lessi':'< against a 64-bit integer','iless':'< of a 64-bit integer','negative':'sign','bool':'truth'}
PART = lambda o: 'order and equality' if not OPS[o][2] else 'assignment' if o in ('asg','wide') else 'sums, differences and negation'
def rows_of(n): return list(itertools.product(*WORDS[n]))
def show(v): return ('-' if v < 0 else '')+hex(abs(v))
def one(c,m,f,op,signed,n,i,variant):
    kind,fn,isw = OPS[op]
    s = Summary(f)
    A = rows_of(n)
    B = [None] if not kind else rows_of(n) if kind == 'w' else rows_of(2) if kind == '2' else INT[kind]
    rows = list(itertools.product(A,B)); k = len(rows)
    w = WideWorld({'r':list(range(k))}); w.summ = s
    def put(at,ws):
        q = len(ws[0]); w.put(at,8*q,{8*j:np.array([sg(x[j]) for x in ws],object) for j in range(q)},1)
    w.arg(0,PA); put(PA,[a for a,_ in rows])
    if kind in ('w','2'): w.arg(1,PB); put(PB,[b for _,b in rows])
    elif kind: w.arg(1,np.array([sg(b) if kind == 'u' else b for _,b in rows],object))
    what = '%s of %s integers of %d words (%s)' % (SAY[op],'signed' if signed else 'unsigned',n,variant)
    if s.loops: c.undecided(PART(op),what+': a loop',k); return
    r,p = w(s.retexpr())
    va = [value(a,signed) for a in A]; vb = B if kind not in ('w','2') else [value(b,signed) for b in B]
    if kind: want = [fn(a,b) for a in va for b in vb]
    else: want = [fn(a) for a in va]
    if isw: want = [(x >> (64*i)) & M for x in want]; r = [int(x) & M for x in r]
    else: want = [int(x) for x in want]; r = [ (int(x)+(1<<31)) % (1<<32) - (1<<31) for x in r]
    bad = ~p & (np.array(r,object) != np.array(want,object))
    if p.any(): c.undecided(PART(op),what,int(p.sum()))
    def d(j):
        a,b = rows[j]; t = show(value(a,signed))
        if kind: t += ', '+show(b if kind not in ('w','2') else value(b,signed))
        return t+(': word %d is %#x, not %#x' % (i,r[j],want[j]) if isw else ': %d, not %d' % (r[j],want[j]))
    tell(c,PART(op),f.label,bad & ~p,k-int(p.sum()),what+' are wrong',d)
def names_of(m):
    for name in m.fns:
        if name.startswith('w_'): yield name
def P39():
    c = Check('P39','Sums, differences, negation, order and equality of multi-word integers agree with exact arithmetic for every combination of carries, signs and equal words, with and without compiler extensions.',TABLE)
    c.assume('words are compared, added and subtracted by machine instructions, so corner values of a word stand for all its values: below, at and above an overflow with and without a carry')
    for variant,flags in VARIANTS:
        m = witness('ints',['unroll','root ^w_'],flags)
        for name in names_of(m):
            g = re.match(r'w_([a-z]+[12]?)_([su])(\d)(?:_(\d))?$',name)
            if not g or g.group(1) not in OPS: continue
            f = m.fn(name); f.label = 'large_ints (%s): %s' % (variant,SAY[g.group(1)])
            c.saw('functions',name)
            one(c,m,f,g.group(1),g.group(2) == 's',int(g.group(3)),int(g.group(4) or 0),variant)
    return c

X = 0x123456789abcdef1; Y = 0xfedcba9876543210; L = (1<<32)-1
FACTORS = {1:[0,1,2,3,L,L+1,L+2,H-1,H,H+1,M-L,M-1,M,X,Y],2:list(itertools.product([0,1,L,H,M,X],[0,1,L+1,H-1,H,M,Y])),3:list(itertools.product([0,1,M,Y],[0,H,M,X],[0,1,H-1,H,M]))}
BITS = [(X,Y),(Y,X),(1,0),(0,1),(M,0),(0,M),(M,M),(0,H),(H,0),(0x5555555555555555,0xaaaaaaaaaaaaaaaa)]
BITS = {2:BITS,3:[(a,b,w) for a,b in BITS for w in (0,M,H,X)]}
def P68():
    c = Check('P68','Products and shifts of multi-word integers agree with exact arithmetic at every combination of corner values and every kind of shift (none, within a word, a whole word, across words), with and without compiler extensions.',TABLE)
    c.assume('the inline assembly that GCC (but not Clang) gets for shifts across words is not looked at')
    for variant,flags in VARIANTS:
        m = witness('ints',['unroll','root ^w_'],flags)
        for name in names_of(m):
            f = m.fn(name)
            g = re.match(r'w_(mul|muli|imul|mulh|mulu|umul)_([su])(\d)(\d)?_(\d)$',name)
            if g:
                op,sg_,na,nb,i = g.groups(); signed = sg_ == 's'; na = int(na); nb = int(nb or 0); i = int(i)
                A = [a if na > 1 else (a,) for a in FACTORS[na]]
                B = [b if nb > 1 else (b,) for b in FACTORS[nb]] if nb else FACTORS[1] if 'u' in op[:1]+op[3:] else INT['h' if op == 'mulh' else 'i']+([X,-X] if op != 'mulh' else [])
                va = [value(a,signed) for a in A]; vb = [value(b,signed) for b in B] if nb else B
                want = [(a*b >> 64*i) & M for a in va for b in vb]; part = 'products'
                what = 'products of %s integers of %d and %s words (%s)' % ('signed' if signed else 'unsigned',na,nb or 'one (built-in)',variant)
                rows = list(itertools.product(va,vb)); d = lambda j: '%s * %s: word %d is %#x, not %#x' % (show(rows[j][0]),show(rows[j][1]),i,r[j],want[j])
            else:
                g = re.match(r'w_(shl|shr|shlto|shrto)(\d+)_([su])(\d)_(\d)$',name)
                if not g: continue
                op,by,sg_,na,i = g.groups(); signed = sg_ == 's'; by = int(by); na = int(na); i = int(i); nb = None
                A = BITS[na]; B = [None]; va = [value(a,signed) for a in A]
                want = [((a << by if 'shl' in op else a >> by) >> 64*i) & M for a in va]; part = 'shifts'
                what = '%s shifts%s of %s integers of %d words by %d bits (%s)' % ('left' if 'shl' in op else 'right',' in place' if 'to' in op else '','signed' if signed else 'unsigned',na,by,variant)
                rows = va; d = lambda j: '%s: word %d is %#x, not %#x' % (show(rows[j]),i,r[j],want[j])
            c.saw('functions',name); f.label = 'large_ints (%s): %s' % (variant,op)
            s = Summary(f); k = len(want)
            if s.loops: c.undecided(part,what+': a loop',k); continue
            full = list(itertools.product(A,B))
            w = WideWorld({'r':list(range(k))}); w.summ = s
            def put(n,at,ws):
                if len(ws[0]) == 1 and part == 'products': w.arg(n,np.array([sg(x[0]) for x in ws],object)); return
                q = len(ws[0]); w.arg(n,at); w.put(at,8*q,{8*j:np.array([sg(x[j]) for x in ws],object) for j in range(q)},1)
            put(0,PA,[a for a,_ in full])
            if nb: put(1,PB,[b for _,b in full])
            elif nb == 0: w.arg(1,np.array([sg(b) for _,b in full],object))
            r,p = w(s.retexpr()); r = [int(x) & M for x in r]
            if p.any(): c.undecided(part,what,int(p.sum()))
            tell(c,part,f.label,~p&(np.array(r,object) != np.array(want,object)),k-int(p.sum()),what+' are wrong',d)
    return c

DIVA = {1:[(w,) for w in (0,1,2,5,7,H-1,H,H+1,X,M-6,M-1,M)],
    2:list(itertools.product([0,1,7,H,X,M-6,M],[0,1,2,H-1,H,Y,M-1,M])),
    3:list(itertools.product([0,1,7,M-6,M],[0,1,X,M],[0,1,H-1,H,M]))}
DIVB = {1:[(w,) for w in (1,2,3,10,H-1,H,H+1,X,Y,M-9,M-2,M-1,M)],
    2:[w for w in itertools.product([0,1,3,H,X,M-2,M],[0,1,H-1,H,M-1,M]) if any(w)],
    3:[w for w in itertools.product([0,1,3,M-2,M],[0,X,M],[0,1,H-1,H,M]) if any(w)]}
DIVI = {'i':[1,2,3,10,X,(1<<63)-1,-1,-2,-3,-10,-X,-(1<<63)+1],'h':[1,2,3,10,(1<<31)-1,-1,-2,-3,-10,-(1<<31)+1],'u':[1,2,3,10,H-1,H,H+1,X,Y,M-1,M]}
def divided(a,b,down):
    """quotient and remainder: rounded to zero, or down with the distance in place of the remainder"""
    q,r = divmod(abs(a),abs(b))
    if not down: return (q if (a < 0) == (b < 0) else -q),(r if a >= 0 else -r)
    q = a//b
    return q,abs(a-q*b)
def P69():
    c = Check('P69','Signs, rounding and remainders of multi-word division, and division by one word, agree with exact arithmetic at every combination of corner values and signs, with and without compiler extensions, given the long division of unsigned integers.',TABLE)
    c.assume('the long division of unsigned integers by more than one word (udivmod_shift_sub) gives their quotient and remainder, and the machine instruction for division of two words by one does')
    for variant,flags in (('compiler builtins',()),('standard C++',('-DDIV_PLAIN',))):
        m = witness('division',['unroll','root ^w_'],flags)
        for name in names_of(m):
            g = re.match(r'w_([TEo])([qr])_([su])(\d)([123ihu])(x?)_(\d)$',name)
            if not g: continue
            mode,what,sg_,na,nb,un,i = g.groups(); signed = sg_ == 's'; na = int(na); i = int(i)
            A = DIVA[na]; B = DIVB[int(nb)] if nb in '123' else DIVI[nb]
            va = [value(a,signed) for a in A]; vb = [value(b,signed) for b in B] if nb in '123' else B
            rows = []; full = []; want = []
            for a,x in zip(A,va):
                for b,y in zip(B,vb):
                    # the magnitude of the least divisor of a type is not of that type
                    q,r = divided(x,y,mode == 'E')
                    # what the type of the result cannot hold
                    n = 1 if un else max(na,int(nb) if nb in '123' else 2 if nb == 'u' and signed else 1)
                    if not (-(1<<(64*n-1)) <= q < 1<<(64*n-1) if signed else q < 1<<(64*n)): continue
                    full.append((a,b)); rows.append((x,y)); want.append(((q if what == 'q' else r) >> 64*i) & M)
            part = {'T':'rounding to zero','o':'rounding to zero','E':'rounding down'}[mode] if signed else 'unsigned division'
            say = '%s of %s integers of %d words by %s%s, %s (%s)' % ('quotients' if what == 'q' else 'remainders','signed' if signed else 'unsigned',na,
                {'i':'a 64-bit integer','h':'a 32-bit integer','u':'an unsigned 64-bit integer'}.get(nb,nb+' words'),', of one word' if un else '',{'T':'rounded to zero','o':'with /','E':'rounded down'}[mode],variant)
            f = m.fn(name); f.label = 'large_ints (%s): %s' % (variant,'unmul' if un else '/' if mode == 'o' else 'divmod')
            c.saw('functions',name)
            s = Summary(f); k = len(rows)
            if s.loops: c.undecided(part,say+': a loop',k); continue
            w = WideWorld({'r':list(range(k))}); w.summ = s
            def put(n,at,ws):
                q = len(ws[0]); w.arg(n,at); w.put(at,8*q,{8*j:np.array([sg(x[j]) for x in ws],object) for j in range(q)},1)
            put(0,PA,[a for a,_ in full])
            if nb in '123': put(1,PB,[b for _,b in full])
            else: w.arg(1,np.array([sg(b) for _,b in full],object))
            def long(e,ev):
                xs = [ev(x) for _,x in e.a[2]]; p = np.zeros(k,bool)
                for _,q in xs: p = p|q
                xs = [v for v,_ in xs]; r = np.zeros(k,object)
                for j in range(k):
                    n,*ws = [int(v[j]) & M for v in xs]; x,y = value(ws[:3],False),value(ws[3:],False)
                    if y == 0: p = p.copy(); p[j] = True; continue
                    r[j] = sg(((x//y if e.a[0].endswith('uq') else x%y) >> 64*n) & M)
                return r,p
            w.call('uq',long); w.call('ur',long)
            asm = {x['id']:x for b in f.blocks for x in b if x.get('asm')} if not isinstance(f.blocks,dict) else {x['id']:x for b in f.blocks.values() for x in b if x.get('asm')}
            def short(e,ev):
                # a division of two words by one
                if e.op != 'ext' or e.a[0].op != 'call' or e.a[0].a[1] not in asm: return None
                x = asm[e.a[0].a[1]]; t = re.match(r'\s*(i?)div(?:\$\(q\$\)|q)?\s+\$(\d)\s*$',x['asm']); cs = [z.lstrip('&') for z in x['constraints'].split(',') if z[:1] != '~']
                outs = [z for z in cs if z[:1] == '=']; ins = cs[len(outs):]; args = [y for _,y in e.a[0].a[2]]
                if not t or len(ins) != len(args): return None
                reg = lambda z: outs[int(z)].strip('=&') if z.isdigit() else z
                at = {reg(z):y for z,y in zip(ins,args)}; by = int(t.group(2))-len(outs)
                if '{ax}' not in at or '{dx}' not in at or not 0 <= by < len(args): return None
                (lo,p1),(hi,p2),(d,p3) = [ev(y) for y in (at['{ax}'],at['{dx}'],args[by])]
                r = np.zeros(k,object); p = p1|p2|p3
                for j in range(k):
                    x,y = value([int(lo[j])&M,int(hi[j])&M],bool(t.group(1))),value([int(d[j])&M],bool(t.group(1)))
                    if y == 0: p = p.copy(); p[j] = True; continue
                    q,rr = divided(x,y,False)
                    if not (-H <= q < H if t.group(1) else q <= M): q = rr = 0x5bad5bad5bad5bad   # a trap
                    r[j] = sg((q if outs[e.a[1]].strip('=&') == '{ax}' else rr) & M)
                return r,p
            w.extra.append(short)
            r,p = w(s.retexpr()); r = [int(x) & M for x in r]
            if p.any(): c.undecided(part,say,int(p.sum()))
            tell(c,part,f.label,~p&(np.array(r,object) != np.array(want,object)),k-int(p.sum()),say+' are wrong',lambda j: '%s by %s: word %d is %#x, not %#x' % (show(rows[j][0]),show(rows[j][1]),i,r[j],want[j]))
    return c
