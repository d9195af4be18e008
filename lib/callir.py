"""Call graph level view of everything the public API instantiates: for every
function its call sites, global references and a few kinds of instructions."""
import os
from concurrent.futures import ThreadPoolExecutor
import build
API = ['core','clip','offset','draw','util','large']

class F:
    def __init__(self,j): self.j=j; self.name=j['name']; self.simple=j['simple']; self.dem=j['demangled']; self.file=j.get('file',''); self.line=j.get('line'); self.calls=j['calls']; self.ops=j['ops']; self.globals=j['globals']; self.linkage=j['linkage']
    @property
    def lib(self): return in_lib(self.file)
    @property
    def where(self): return '%s (%s:%s)' % (self.simple,short(self.file),self.line)

def in_lib(f): return f.startswith(os.path.join(build.REPO,'include/poly_ops')) if f else False
def short(f): return os.path.relpath(f,build.REPO) if in_lib(f) else (f or '?')

class CallIR:
    def __init__(self,names=API,flags=(),exceptions=False,ndebug=True):
        build.irx_bin()
        with ThreadPoolExecutor(8) as ex: js = list(ex.map(lambda n: build.witness(n if '/' in n else 'api/'+n,['calls'],flags=flags,exceptions=exceptions,ndebug=ndebug,raw=True),names))
        self.fns = {}; self.globals = {}
        for j in js:
            for f in j['functions']: self.fns.setdefault(f['name'],F(f))
            for g in j['globals']:
                o = self.globals.get(g['name'])
                if o is None or (o['decl'] and not g['decl']): self.globals[g['name']] = g
        self.lib = [f for f in self.fns.values() if f.lib]
    def reach(self,roots,stop=lambda f: False):
        """functions reachable from roots through direct calls and function references; yields {name: parent}"""
        par = {r:None for r in roots}; work = list(roots)
        while work:
            n = work.pop(); f = self.fns.get(n)
            if f is None or stop(f): continue
            for t in [c['fn'] for c in f.calls if 'fn' in c]+[g['fnref'] for g in f.globals if 'fnref' in g]:
                if t not in par: par[t] = n; work.append(t)
        return par
    def path(self,par,n):
        r = []
        while n is not None:
            f = self.fns.get(n); r.append(f.simple if f else n); n = par[n]
        return r[::-1]
