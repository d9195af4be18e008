"""Canonical polynomials of integer expressions (mod nothing: widening casts are
transparent, narrowing ones are not)."""
from irsum import E, show
def padd(p,q,k=1):
    r = dict(p)
    for m,c in q.items():
        r[m] = r.get(m,0)+k*c
        if r[m] == 0: del r[m]
    return r
def pmul(p,q):
    r = {}
    for m,c in p.items():
        for n,d in q.items():
            k = tuple(sorted(m+n)); r[k] = r.get(k,0)+c*d
            if r[k] == 0: del r[k]
    return r
def pconst(c): return {():c} if c else {}
def pvar(x): return {(x,):1}
def poly(e,name,memo=None):
    """polynomial of e; `name(e)` gives the variable of a leaf or None"""
    if memo is None: memo = {}
    if e.n in memo: return memo[e.n]
    r = None
    n = name(e)
    if n is not None: r = pvar(n)
    elif e.op == 'const': r = pconst(e.a[0])
    elif e.op in ('add','sub','mul'):
        x,y = poly(e.a[1],name,memo),poly(e.a[2],name,memo)
        if x is not None and y is not None:
            r = pmul(x,y) if e.op == 'mul' else padd(x,y,1 if e.op == 'add' else -1)
    elif e.op == 'shl' and e.a[2].op == 'const':
        x = poly(e.a[1],name,memo)
        if x is not None: r = pmul(x,pconst(1<<e.a[2].a[0]))
    elif e.op in ('sext',) or (e.op == 'zext' and e.a[0] != 1): r = poly(e.a[2],name,memo)
    elif e.op == 'sitofp': r = poly(e.a[2],name,memo)
    elif e.op in ('fadd','fsub','fmul'):
        x,y = poly(e.a[0],name,memo),poly(e.a[1],name,memo)
        if x is not None and y is not None:
            r = pmul(x,y) if e.op == 'fmul' else padd(x,y,1 if e.op == 'fadd' else -1)
    elif e.op == 'fneg':
        x = poly(e.a[0],name,memo)
        if x is not None: r = pmul(x,pconst(-1))
    elif e.op == 'fconst':
        v = float(e.a[0])
        if v == int(v): r = pconst(int(v))
    memo[e.n] = r
    return r
def argname(e): return 'a%d' % e.a[0] if e.op == 'arg' else None
def pshow(p):
    if not p: return '0'
    return ' + '.join('%s%s' % ('' if c == 1 and m else '%d' % c if not m else '%d*' % c,'*'.join(map(str,m))) for m,c in sorted(p.items(),key=str))
def icmps(es):
    """all integer comparisons below the expressions"""
    seen = set(); out = []
    def f(e):
        st = [e]
        while st:
            x = st.pop()
            if x.n in seen: continue
            seen.add(x.n)
            if x.op == 'icmp': out.append(x)
            if x.op in ('ld','call'): continue
            for a in x.a:
                if isinstance(a,E): st.append(a)
                elif isinstance(a,tuple):
                    for y in a:
                        if isinstance(y,E): st.append(y)
                        elif isinstance(y,tuple): st += [z for z in y if isinstance(z,E)]
    for e in es: f(e)
    return out
