"""Access to the witness of the sweep and the assembly of loops (witness/engine.cpp)."""
from harness import Inconclusive
from build import witness
from irsum import Summary, mk, ptr, pparts, show, Undecided, E
VV = ['opaque ^vv_']
SW = ['opaque ^poly_ops::detail::sweep_set::(erase|insert|_erase|_insert|begin|end|cbegin|cend|init_node|unique|clear)$',
    'opaque ^poly_ops::detail::tree_iterator::operator(\\+\\+|--)$']
def module(root,opaque=(),name='engine',**kw):
    return witness(name,VV+list(opaque)+['root ^%s$' % root],**kw)
def witnessed(name,root):
    """the library function a witness stands for"""
    import os, re, build
    t = build.read(os.path.join(build.VERIF,'witness',name+'.cpp')).decode()
    k = re.search(r'\b%s\([^{;]*\{(.*)\}' % root,t)
    k = k and re.search(r'(~?[\w:]+)\s*(<[\w,]*>)?\((?!void)',re.sub(r'PUT\(\(|std::(move|forward)|::new\([^)]*\)|\b(if|for|while|return)\b\s*\(?','',k.group(1)))
    return k.group(1) if k else root
def load(name,root,opaque=(),noclobber=None,models=None,**kw):
    m = module(root,opaque,name,**kw)
    try: f = m.fn(root)
    except KeyError as ex: raise Inconclusive('anchor vanished: %s' % ex)
    s = Summary(f,noclobber=noclobber,models=models)
    f.label = '%s (witness/%s.cpp: %s)' % (witnessed(name,root),name,root)
    return m,f,s

def member(m,struct,*path):
    """offset of a (nested) member; struct is a debug info type name"""
    off = 0
    for p in path:
        t = m.structs.get(struct)
        if t is None: raise Inconclusive('type %s vanished' % struct)
        for n,o,sz,btn,kind in t['members']:
            if n == p: break
        else: raise Inconclusive('member %s of %s vanished' % (p,struct))
        off += o
        struct = btn if btn in m.structs else next((k for k in m.structs if k.endswith('::'+btn)),btn)
    return off
