"""Compile witness translation units against /repo's current headers and turn
them into IR summaries.  Nothing here is ever executed: clang only translates
(-emit-llvm), irx only reads the result."""
import os, sys, subprocess, hashlib, tempfile, shutil, json, glob

REPO = os.environ.get('VERIF_REPO','/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLANG = '/usr/bin/clang++-18'
LLVMCFG = '/usr/bin/llvm-config-18'

class BuildError(Exception): pass

def cache_dir():
    d = os.path.join(VERIF,'.cache')
    try:
        os.makedirs(d,exist_ok=True)
        with tempfile.TemporaryFile(dir=d): pass
        return d
    except OSError:
        global _tmp
        if _tmp is None:
            _tmp = tempfile.TemporaryDirectory(prefix='verif-')
        return _tmp.name
_tmp = None

def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p,bytes) else p.encode()); h.update(b'\0')
    return h.hexdigest()[:24]

def read(p):
    with open(p,'rb') as f: return f.read()

def headers():
    return sorted(glob.glob(os.path.join(REPO,'include/poly_ops/*.hpp')))

_hh = None
def headers_hash():
    global _hh
    if _hh is None: _hh = sha(*[x for p in headers() for x in (os.path.basename(p),read(p))])
    return _hh

def run(cmd,**kw):
    return subprocess.run(cmd,capture_output=True,text=True,**kw)

def irx_bin():
    src = os.path.join(VERIF,'tools/irx.cpp')
    out = os.path.join(cache_dir(),'irx-'+sha(read(src)))
    if not os.path.exists(out):
        fl = run([LLVMCFG,'--cxxflags']).stdout.split()
        ld = run([LLVMCFG,'--ldflags']).stdout.split()
        t = out+'.%d' % os.getpid()
        r = run([CLANG]+fl+['-O1',src,'-o',t]+ld+['-lLLVM-18'])
        if r.returncode: raise BuildError('building irx: '+r.stderr[-2000:])
        os.rename(t,out)
    return out

CXXFLAGS = ['-std=c++20','-O1','-funroll-loops','-fno-access-control','-fstandalone-debug','-Xclang','-disable-llvm-passes','-g','-DNDEBUG']

def compile_bc(src,out,flags=(),exceptions=False,ndebug=True,inc=True):
    fl = [f for f in CXXFLAGS if ndebug or f != '-DNDEBUG']
    cmd = [CLANG]+fl+(['-fexceptions','-fcxx-exceptions','-fignore-exceptions'] if not exceptions else [])+(['-I'+os.path.join(REPO,'include')] if inc else [])+['-I'+os.path.join(VERIF,'witness')]+list(flags)+['-emit-llvm','-c',src,'-o',out]
    r = run(cmd,cwd=os.path.dirname(out))
    if r.returncode: raise BuildError('the witness %s does not compile against the current headers:\n%s' % (os.path.basename(src),'\n'.join(r.stderr.splitlines()[:40])))

def tidy(cd,pat,n):
    """keep the newest n files"""
    def when(p):
        try: return os.path.getmtime(p)
        except OSError: return 0
    for p in sorted(glob.glob(os.path.join(cd,pat)),key=when)[:-n]:
        try: os.unlink(p)
        except OSError: pass
def witness(name,cfg,flags=(),exceptions=False,ndebug=True,raw=False):
    """IR summary module (irsum.Module) of witness/NAME.cpp"""
    from irsum import Module
    src = os.path.join(VERIF,'witness',name+'.cpp')
    inc = b''.join(read(p) for p in sorted(glob.glob(os.path.join(VERIF,'witness/*.hpp'))+glob.glob(os.path.join(VERIF,'witness/*/*.hpp'))+glob.glob(os.path.join(VERIF,'witness/shim/*'))))
    cfgt = '\n'.join(cfg)+'\n'
    key = sha(REPO,headers_hash(),' '.join(CXXFLAGS),read(src),inc,cfgt,' '.join(flags),str(exceptions),str(ndebug),read(os.path.join(VERIF,'tools/irx.cpp')))
    cd = cache_dir()
    out = os.path.join(cd,'ir-%s-%s.json' % (name.replace('/','_'),key))
    if not os.path.exists(out):
        x = irx_bin()
        with tempfile.TemporaryDirectory(dir=cd) as td:
            bck = os.path.join(cd,'bc-%s-%s.bc' % (name.replace('/','_'),sha(REPO,headers_hash(),' '.join(CXXFLAGS),read(src),inc,' '.join(flags),str(exceptions),str(ndebug))))
            bc = os.path.join(td,'w.bc')
            try: shutil.copyfile(bck,bc)
            except OSError:
                compile_bc(src,bc,flags,exceptions,ndebug)
                shutil.copyfile(bc,os.path.join(td,'keep.bc')); os.rename(os.path.join(td,'keep.bc'),bck)
            c = os.path.join(td,'cfg')
            with open(c,'w') as f: f.write(cfgt)
            o = os.path.join(td,'o.json')
            r = run([x,bc,c,o])
            if r.returncode: raise BuildError('irx: '+r.stderr[-2000:])
            os.rename(o,out)
        tidy(cd,'ir-*.json',300); tidy(cd,'bc-*.bc',60)
    return json.load(open(out)) if raw else Module(out)

def witness_text(label,text,cfg,flags=(),exceptions=False,ndebug=True,raw=False):
    """like witness, for a generated source text"""
    from irsum import Module
    cfgt = '\n'.join(cfg)+'\n'
    key = sha(REPO,headers_hash(),' '.join(CXXFLAGS),text,cfgt,' '.join(flags),str(exceptions),str(ndebug),read(os.path.join(VERIF,'tools/irx.cpp')))
    cd = cache_dir()
    out = os.path.join(cd,'ir-%s-%s.json' % (label,key))
    if not os.path.exists(out):
        x = irx_bin()
        with tempfile.TemporaryDirectory(dir=cd) as td:
            src = os.path.join(td,label+'.cpp')
            with open(src,'w') as f: f.write(text)
            bc = os.path.join(td,'w.bc')
            compile_bc(src,bc,flags,exceptions,ndebug)
            c = os.path.join(td,'cfg')
            with open(c,'w') as f: f.write(cfgt)
            o = os.path.join(td,'o.json')
            r = run([x,bc,c,o])
            if r.returncode: raise BuildError('irx: '+r.stderr[-2000:])
            os.rename(o,out)
    return json.load(open(out)) if raw else Module(out)
