"""Failures while the library works reach the caller (P54)."""
import os, re
from harness import Check, Inconclusive
import build, callir
from gluepath import Throws
TECH = 'call graph and landing pads over compiler IR with exceptions: from each call that can throw to where its exception ends up (not run)'
# a vector that is given a size throws only if it's smaller, which is a question of values
SIZED = re.compile(r'^std::vector::resize$')
PRED = {'eq':lambda a,b: a == b,'ne':lambda a,b: a != b,'sgt':lambda a,b: a > b,'sge':lambda a,b: a >= b,'slt':lambda a,b: a < b,'sle':lambda a,b: a <= b,'ugt':lambda a,b: a > b,'uge':lambda a,b: a >= b,'ult':lambda a,b: a < b,'ule':lambda a,b: a <= b}

class Ends:
    """where exceptions can end the process"""
    def __init__(self,fns):
        j = {'functions':fns}
        self.t = Throws(j); self.t2 = Throws(j,SIZED); self.f = self.t.f
    def throws(self,c):
        if 'fn' not in c: return None
        t = self.t.get(c['fn'],c.get('simple',''))
        return None if t and self.t2.get(c['fn'],c.get('simple','')) is False else t
    def witness(self,c): return [short(x) for x in self.t.witness(c['fn'])][:12] if 'fn' in c else []
    def unwinding(self,c,seen=()):
        """can a function called because of an exception throw another one? (True / False / None, where)"""
        f = self.f.get(c.get('fn'))
        if f is None or f['name'] in seen: return None,None
        aware = any(x.get('fn') == '_ZSt19uncaught_exceptionsv' for x in f['calls'])
        r = False,None
        for x in f['calls']:
            if x.get('nounwind') or x.get('unwinding'): continue
            if 'lands' in x and 'resume' not in x['lands']: continue
            t = self.throws(x)
            if t is False: continue
            if t and not aware and x.get('fn') in self.f and not self.f[x['fn']]['simple'].startswith('std::'):
                # decided there, if it is aware of being called because of an exception
                t = self.unwinding(x,seen+(f['name'],))[0]
                if t is False: continue
            g = x.get('guards',[])
            if any(self.stops(y) is True for y in g): continue
            # a test that isn't understood may be one that keeps it from throwing
            if t and aware and not any(self.stops(y) is False for y in g): t = None
            if t and 'catch' in x.get('lands',''): t = None
            if t: return True,x
            r = None,x
        return r
    @staticmethod
    def stops(g):
        """is the code behind this test not run if there is one exception more than at the beginning?"""
        p = PRED.get(g['pred'])
        if p is None or g['with'] == '?': return None
        k = int(g['with']) if g['with'] != 'load' else 0
        v = {p(n+1,k) == g['side'] for n in (0,1,2)} if g['with'] != 'load' else {p(n,0) == g['side'] for n in (1,)}
        return True if v == {False} else False if v == {True} else None
    def site(self,ck,part,c,who,at):
        """one call whose exception would end the process"""
        if c.get('nounwind'): return
        t = self.throws(c); x = None
        if c.get('unwinding') and t is not False and 'fn' in c:
            t,x = self.unwinding(c)
        if t and 'catch' in c['lands']: t = None
        if t is None: ck.undecided(part,'%s: cannot say whether %s throws' % (who,c.get('simple') or 'what it calls')); return
        ck.decide(part,at,'%s: an exception of %s ends the process instead of reaching the caller' % (who,short(c.get('simple') or '?')),not t,{'throws through':self.witness(c),'while':'another exception is on its way' if c.get('unwinding') else 'working normally','at':'%s:%s' % (callir.short(x['file']),x['line']) if x and x.get('file') else ''},sample='%s: %s cannot throw' % (who,short(c.get('simple') or '?')))

def short(n): return n.replace('poly_ops::','')

def P54():
    ck = Check('P54','no call made by the library, directly or while it is left because of an exception, can throw where the exception would end the process (noexcept functions, destructors), over everything the public interface instantiates',TECH)
    ci = callir.CallIR(names=callir.API+['fail'],exceptions=True)
    if len(ci.lib) < 300: raise Inconclusive('only %d functions of the library found' % len(ci.lib))
    e = Ends([f.j for f in ci.fns.values()])
    scan(ck,'exceptions',ci,e)
    ck.saw('functions',str(len(ci.lib)))
    # the same with assertions that throw: only what that adds
    ca = callir.CallIR(exceptions=True,flags=['-include',os.path.join(build.VERIF,'witness/api/athrow.hpp')])
    ea = Ends([f.j for f in ca.fns.values()])
    if not any(c.get('simple') == 'verif_assert_failed' for f in ca.lib for c in f.calls): ck.undecided('assertions','assertions cannot be replaced by ones that throw')
    scan(ck,'assertions',ca,ea,lambda c: 'verif_assert_failed' in ' '.join(ea.witness(c)))
    return ck
def scan(ck,part,ci,e,which=lambda c: True):
    done = set()
    for f in ci.lib:
        n = 0
        for c in f.calls:
            if 'terminate' not in c.get('lands',''): continue
            n += 1
            k = (f.where,c.get('simple'),c.get('line'),c.get('unwinding',False),e.throws(c))
            if k in done: ck.ok(part,1); continue
            done.add(k)
            ck.saw('functions that must not throw',f.where)
            if part == 'assertions' and (e.throws(c) is not True or not which(c)): ck.ok(part,1); continue
            e.site(ck,part,c,short(f.where),'%s:%s' % (callir.short(c.get('file') or f.file),c.get('line')))
        if not n: ck.ok(part,1,'%s: lets exceptions through' % short(f.where))
