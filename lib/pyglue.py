"""The native half of the Python module as a translation unit of its own.

The C++ text inside the Cython sources is taken verbatim. The Python and NumPy calls it makes are
turned into calls of named functions (NumPy's go through a table of pointers, and reference counting
is inlined by Python's headers), so that the compiler IR shows each of them."""
import os, re, subprocess, sys
import build
from lib import cypath

def includes():
    """(python include dir, numpy include dir)"""
    for py in (cypath.CYPY,sys.executable,'python3'):
        try: r = subprocess.run([py,'-c','import sysconfig,numpy;print(sysconfig.get_paths()["include"]);print(numpy.get_include())'],capture_output=True,text=True,timeout=100)
        except OSError: continue
        if r.returncode == 0: return r.stdout.split('\n')[:2]
    raise build.BuildError('no NumPy headers found')

def redirect(np):
    """declarations of the functions of NumPy's table, and macros that call them"""
    t = open(os.path.join(np,'numpy','__multiarray_api.h')).read()
    i = t.find('PyArray_API[')
    out = []; seen = set()
    for m in re.finditer(r'#define (\w+) \\\s*\(\*\(([^\n]*?) \(\*\)\(([^\n]*)\)\) \\\s*PyArray_API\[\d+\]\)',t[t.find('#define PyArray_Type (*(PyTypeObject'):] if '#define PyArray_Type (*(PyTypeObject' in t else t):
        n,ret,args = m.groups()
        if n in seen: continue
        seen.add(n)
        out.append('#ifdef %s\n#undef %s\nextern "C" %s vnp_%s(%s);\n#define %s vnp_%s\n#endif' % (n,n,ret,n,args,n,n))
    return '\n'.join(out)

PRE = '''#define PY_SSIZE_T_CLEAN
#include <Python.h>
#define NPY_NO_DEPRECATED_API NPY_1_7_API_VERSION
#include <numpy/arrayobject.h>
%s
extern "C" void vpy_incref(PyObject*) noexcept;
extern "C" void vpy_decref(PyObject*) noexcept;
extern "C" void vpy_xincref(PyObject*) noexcept;
extern "C" void vpy_xdecref(PyObject*) noexcept;
extern "C" PyObject *vpy_newref(PyObject*) noexcept;
extern "C" PyObject *vpy_xnewref(PyObject*) noexcept;
extern "C" PyObject *vpy_none() noexcept;
extern "C" void vpy_settuple(PyObject*,Py_ssize_t,PyObject*) noexcept;
#undef Py_INCREF
#undef Py_DECREF
#undef Py_XINCREF
#undef Py_XDECREF
#undef Py_NewRef
#undef Py_XNewRef
#undef Py_RETURN_NONE
#undef Py_CLEAR
#undef PyTuple_SET_ITEM
#undef Py_SETREF
#define Py_INCREF(x) vpy_incref(reinterpret_cast<PyObject*>(x))
#define Py_DECREF(x) vpy_decref(reinterpret_cast<PyObject*>(x))
#define Py_XINCREF(x) vpy_xincref(reinterpret_cast<PyObject*>(x))
#define Py_XDECREF(x) vpy_xdecref(reinterpret_cast<PyObject*>(x))
#define Py_NewRef(x) vpy_newref(reinterpret_cast<PyObject*>(x))
#define Py_XNewRef(x) vpy_xnewref(reinterpret_cast<PyObject*>(x))
#define Py_RETURN_NONE return vpy_none()
#define Py_CLEAR(x) do { auto *vpy_t_ = x; x = nullptr; vpy_xdecref(reinterpret_cast<PyObject*>(vpy_t_)); } while(0)
#define PyTuple_SET_ITEM(t,i,v) vpy_settuple(t,i,v)
'''
def text(m):
    """(source text, flags, names of the entry functions)"""
    py,np = includes()
    body = '\n'.join('#line %d "py/%s"\n%s' % (l+1,{'common':'common.pxd'}.get(mod,mod+'.pyx'),x) for mod in ('common','_polyops') for l,x in m.verbatim.get(mod,[]))
    names = [n for n,f in m.externs.items() if re.search(r'\b%s\s*\(' % re.escape(n),body)]
    t = PRE % redirect(np)+body+'\n'
    defs = []
    for n in names:
        if re.search(r'^\s*(?:\[\[[^\]]*\]\]\s*)?(?:inline\s+)?[\w:<>\*& ]+[\s\*&]%s\s*\([^;{}]*\)\s*(?:noexcept\s*)?\{' % re.escape(n),body,re.M): defs.append(n)
    t += '#line 1 "entries"\nextern "C" { void *verif_entries[] = {%s}; }\n' % ','.join('(void*)&'+n for n in defs)
    for k in ('clipper','ot_clipper'):
        for meth in sorted(n for n,(ty,fn) in m.cpp.get(k,{}).items() if fn):
            t += 'extern "C" void ventry_%s_%s(%s &x) { x.%s(); }\n' % (k,meth,k,meth)
    for e,names_ in m.enums.items():
        for n in names_: t += 'extern "C" int vconst_%s() { return (int)%s; }\n' % (n,n)
    for cls,vals in (('bool_op',('union_','intersection','xor_','difference','normalize')),('bool_set',('subject','clip'))):
        for v in vals: t += 'extern "C" int vlib_%s_%s() { return (int)poly_ops::%s::%s; }\n' % (cls,v,cls,v)
    return t,['-isystem',py,'-isystem',np],defs
