"""dumps the syntax tree of Cython sources as JSON (run with the Python that has Cython)"""
import json, sys
from Cython.Compiler import Main, Options, Errors, Parsing, Nodes, ExprNodes, ModuleNode
from Cython.Compiler.Scanning import FileSourceDescriptor
def parse(path,name,pxd):
    o = Options.CompilationOptions(Options.default_options,language_level=3,cplus=True)
    ctx = Main.Context.from_options(o)
    Errors.init_thread(); Errors.open_listing_file(None)
    scope = ctx.find_module(name,need_pxd=False)
    return ctx.parse(FileSourceDescriptor(path),scope,pxd=pxd,full_module_name=name)
SKIP = {'pos','type','entry','coercion_type','doc'}
EXTRA = ('declarator','declarators','base_type','default','exception_value','args','decorators','body','attributes','arg','operand','items','positions','cppclass')
def dump(x):
    if isinstance(x,(Nodes.Node,ExprNodes.ExprNode)):
        d = {'k':type(x).__name__,'l':x.pos[1] if x.pos else 0}
        kids = set(getattr(x,'child_attrs',None) or [])|set(EXTRA); keys = kids|set(getattr(x,'__dict__',{}))
        for k in sorted(keys-SKIP):
            v = getattr(x,k,None)
            if v is None or isinstance(v,(str,int,float,bool)): d[k] = v
            elif isinstance(v,bytes): d[k] = v.decode('utf8','replace')
            elif k not in kids: continue
            elif isinstance(v,(list,tuple)) and len(v) < 4000: d[k] = [dump(i) for i in v]
            elif isinstance(v,(Nodes.Node,ExprNodes.ExprNode)): d[k] = dump(v)
        return d
    if isinstance(x,(list,tuple)): return [dump(i) for i in x]
    if x is None or isinstance(x,(str,int,float,bool)): return str(x) if isinstance(x,str) else x
    if isinstance(x,bytes): return x.decode('utf8','replace')
    return str(type(x).__name__)
if __name__ == '__main__': json.dump([dump(parse(sys.argv[2*i+1],sys.argv[2*i+2],sys.argv[2*i+1].endswith('.pxd'))) for i in range((len(sys.argv)-1)//2)],sys.stdout)
