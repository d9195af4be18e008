"""Properties decided by the compiler's own checker: programs that must be
accepted, and what a translation unit defines."""
import os, re, subprocess, tempfile, glob, itertools
from concurrent.futures import ThreadPoolExecutor
from harness import Check, Inconclusive
import build, callir
GXX = '/usr/bin/g++'
ERR = re.compile(r'^(.*?):(\d+):(?:\d+:)? (?:fatal )?error: (.*)$')

def compile_(src,extra=(),cxx=GXX):
    r = subprocess.run([cxx,'-std=c++20','-fsyntax-only','-fmax-errors=30' if cxx == GXX else '-ferror-limit=30','-w','-I'+os.path.join(build.REPO,'include'),'-I'+os.path.join(build.VERIF,'witness/api')]+list(extra)+[src],capture_output=True,text=True)
    errs = []; need = None
    for l in r.stderr.splitlines():
        m = ERR.match(l)
        if m: errs.append([os.path.relpath(m.group(1),build.REPO) if m.group(1).startswith(build.REPO) else os.path.basename(m.group(1)),int(m.group(2)),m.group(3),need]); need = None
        else:
            m = re.match(r'^(.*?):(\d+):(?:\d+:)?\s+required from here',l)
            if m: need = '%s:%s' % (os.path.basename(m.group(1)),m.group(2))
    if r.returncode and not errs:
        if re.search(r'internal compiler error|Killed|out of memory|cannot execute',r.stderr) or r.returncode < 0: raise Inconclusive('the compiler failed: '+r.stderr[-300:])
        errs = [['?',0,(r.stderr.strip() or 'rejected')[-300:],None]]
    return errs

def accept(c,part,names,what):
    def one(n):
        p = os.path.join(build.VERIF,'witness/api',n+'.cpp')
        e = compile_(p)
        if e: return n,e,None
        return n,[],compile_(p,cxx=build.CLANG)
    with ThreadPoolExecutor(8) as ex: rs = list(ex.map(one,names))
    for n,errs,other in rs:
        c.saw('programs','witness/api/%s.cpp' % n)
        for f,l,t,need in errs[:10]:
            src = ''
            if f.endswith(n+'.cpp'):
                try: src = ' | '+build.read(os.path.join(build.VERIF,'witness/api',n+'.cpp')).decode().splitlines()[l-1].strip()[:200]
                except Exception: pass
            c.fail(part,'%s:%s' % (f,l),'%s: %s%s' % (what,t,(' (needed by witness %s)' % need if need else '')+src))
        if not errs:
            c.ok(part,1,'g++ accepts witness/api/%s.cpp' % n)
            if other: c.undecided(part,'clang rejects witness/api/%s.cpp: %s' % (n,other[0][2]))
    return not any(e for _,e,_ in rs)

def P20():
    c = Check('P20','Programs that use every public class, member, function and overload, for coordinates of 16, 32 and 64 bits, signed and unsigned indices, with and without tracker, for flat and tree output and several kinds of input range, are accepted by the compiler.','type-level witnesses: programs that must compile')
    if accept(c,'use',['core','clip','offset','draw','util','large'],'a documented use is rejected'):
        g = callir.CallIR()
        c.saw('functions',*sorted({f.simple for f in g.lib if '::detail::' not in f.dem.split('(')[0]}))
        c.ok('instantiated',len(g.lib),'%d functions of the library were instantiated and type checked' % len(g.lib))
    return c

def P22():
    c = Check('P22','For 6 combinations of coordinate and index type, with and without tracker, the result types, the polygon type, its children and its iterator satisfy the range and iterator concepts and yield the types they are documented to.','type-level witnesses: static assertions on concepts')
    if accept(c,'concept',['ranges'],'a documented concept is not modelled'):
        n = len(re.findall(r'static_assert',build.read(os.path.join(build.VERIF,'witness/api/ranges.cpp')).decode()))
        c.ok('assertions',12*(n-1)+1,'%d static assertions in 12 instantiations' % n)
    return c

STRONG = {0:'external',10:'common',6:'appending'}
def P21():
    c = Check('P21','In a translation unit that only includes headers of the library, every function and variable defined in one of them has internal or merged (inline, template) linkage; every header compiles alone and after every other header.','linkage of every definition in the compiler IR; acceptance of all header pairs by the compiler')
    hs = [os.path.basename(h) for h in build.headers()]
    if len(hs) < 5: raise Inconclusive('headers vanished')
    def defs(h):
        try: return h,build.witness_text('hdr_'+h.split('.')[0],'#include <poly_ops/%s>\n' % h,['calls'],raw=True)
        except build.BuildError as ex: return h,str(ex)
    build.irx_bin()
    with ThreadPoolExecutor(8) as ex: rs = list(ex.map(defs,hs))
    # explicit specialisations and anything else that is only emitted when used
    api = callir.CallIR(['core','clip','offset','draw','util','large','ranges'])
    seen = set()
    def check(kind,name,link,file,line,unit):
        if (name,) in seen: return
        seen.add((name,))
        c.saw('definitions',name)
        if link in STRONG: c.fail('linkage','%s (%s:%s)' % (name,callir.short(file),line),'%s defined in a header is emitted with %s linkage by every translation unit that includes it' % (kind,STRONG[link]))
        else: c.ok('linkage',1,'%s may be defined by several translation units' % name)
    for h,j in rs:
        if isinstance(j,str): continue
        for f in j['functions']:
            if callir.in_lib(f.get('file')): check('the function',f['demangled'],f['linkage'],f['file'],f.get('line'),h)
        for g in j['globals']:
            if not g['decl'] and callir.in_lib(g.get('file')): check('the variable',g['demangled'],g['linkage'],g['file'],g.get('line'),h)
    for f in api.lib: check('the function',f.dem,f.linkage,f.file,f.line,'api')
    for g in api.globals.values():
        if not g['decl'] and callir.in_lib(g.get('file')): check('the variable',g['demangled'],g['linkage'],g['file'],g.get('line'),'api')
    c.ok('linkage',1)
    with tempfile.TemporaryDirectory() as td:
        def pair(p):
            f = os.path.join(td,'_'.join(x.split('.')[0] for x in p)+'.cpp')
            with open(f,'w') as o: o.write(''.join('#include <poly_ops/%s>\n' % x for x in p))
            return p,compile_(f)
        jobs = [(h,) for h in hs]+list(itertools.permutations(hs,2))
        with ThreadPoolExecutor(8) as ex: rs = list(ex.map(pair,jobs))
    for p,e in rs:
        if e: c.fail('order',' then '.join(p),'rejected: %s:%s: %s' % tuple(e[0][:3]))
        else: c.ok('order',1,'%s compiles' % ' then '.join(p))
    return c
