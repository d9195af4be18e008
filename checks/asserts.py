"""Assertions must not influence results."""
import re, os, difflib
from concurrent.futures import ThreadPoolExecutor
from harness import Check, Inconclusive
import build, callir
UNITS = ['core','clip','offset','draw','large']
# functions of the C library that write nothing but errno
MATH = re.compile(r'^(ldexp|frexp|scalbn|sqrt|pow|exp|log|floor|ceil|round|trunc|fabs|hypot|atan2?|a?sin|a?cos|tan|fmod|abs|labs|llabs|isnan|isinf|lround|llround|rint|nearbyint|modf)[fl]?$')
MUT = re.compile(r'_Rb_tree_(insert_and_rebalance|rebalance_for_erase)|_List_node_base::_M_(un)?hook')
SHIM = ['-I'+os.path.join(build.VERIF,'witness/shim')]
# values that only mark an element as being in no tree, and that are looked at only by assertions
MARK = re.compile(r'set_node(\.\d+)?["\d.]* 0 0 @')
ACC = re.compile(r'^call (poly_ops::detail::offset_ptr\w*::operator(->|\*|\[\])|std::numeric_limits::(max|min|lowest)) ')

def at(w): return '%s:%s' % (callir.short(w.get('file')),w.get('line'))
def P15():
    c = Check('P15','Each condition of an assertion (ordinary and slow ones), as a function of its own with everything it calls folded in, writes no memory but its own local variables; and with all assertions gone, the code compiled with and without NDEBUG is the same, but for marks put on elements that are in no tree.','purity of each assertion condition in optimised compiler IR (write effects traced to the object written); comparison of the instruction sequences of the two build modes')
    build.irx_bin()
    def a(n): return build.witness('api/'+n,['asserts'],flags=SHIM+['-DPOLY_OPS_ASSERT_SLOW=assert'],ndebug=False,raw=True)
    def s(x): return build.witness('api/'+x[0],['shape'],flags=SHIM+['-DVERIF_ASSERT_OFF'],ndebug=x[1],raw=True)
    with ThreadPoolExecutor(8) as ex:
        ra = ex.map(a,UNITS); rs = list(ex.map(s,[(n,nd) for n in UNITS for nd in (True,False)]))
        ra = list(ra)
    n = 0
    for j in ra:
        for l in j:
            if not callir.in_lib(l.get('file')): continue
            n += 1
            w = '%s:%s' % (callir.short(l['file']),l['line'])
            c.saw('assertions',w)
            bad = unk = None
            for x in l['writes']:
                k = x['kind']
                if k in ('captured','global','unknown'): bad = bad or 'the condition of the assertion writes %s (at %s)' % ('state it was not given a copy of' if k != 'global' else 'a global variable',at(x))
                elif k == 'call':
                    nm = x.get('simple') or x.get('fn') or 'something unknown'
                    if MATH.match(nm): continue
                    if MUT.search(x.get('fn') or ''): bad = bad or 'the condition of the assertion changes a container (%s at %s)' % (nm,at(x))
                    else: unk = unk or 'the condition at %s calls %s' % (w,nm)
                elif k == 'result': unk = unk or 'the condition at %s writes memory returned by %s' % (w,x.get('simple'))
            if bad: c.fail('condition',w,bad)
            elif unk: c.undecided('condition',unk)
            else: c.ok('condition',1,'the assertion at %s only reads' % w)
    if n < 50: raise Inconclusive('only %d assertions found' % n)
    for i in range(0,len(rs),2):
        A = {f['name']:f for f in rs[i]['functions']}; B = {f['name']:f for f in rs[i+1]['functions']}
        for k,f in A.items():
            if k not in B: continue
            w = '%s (%s:%s)' % (f['simple'],callir.short(f['file']),f['line'])
            if f['shape'] == B[k]['shape']: c.ok('debug code',1); continue
            compare(c,w,f['shape'],B[k]['shape'])
        for k in B:
            if k in A: continue
            f = B[k]; w = '%s (%s:%s)' % (f['simple'],callir.short(f['file']),f['line'])
            # a function that exists only in one of the modes matters where it's called
            c.ok('debug code',1)
    return c

def compare(c,w,a,b):
    sm = difflib.SequenceMatcher(a=a,b=b,autojunk=False)
    bad = unk = None
    for tag,i1,i2,j1,j2 in sm.get_opcodes():
        if tag == 'equal': continue
        rel,dbg = a[i1:i2],b[j1:j2]
        for x in rel:
            if re.match(r'(store|call|invoke|ret|br|switch)\b',x) and not ACC.match(x): bad = bad or 'only with NDEBUG: "%s"' % x
        mark = False
        for x in dbg:
            if x.startswith('getelementptr'): mark = MARK.search(x) is not None
            if x.startswith('store') and not mark: bad = bad or 'only without NDEBUG: "%s"' % x
            elif x.startswith('ret'): bad = bad or 'only without NDEBUG: "%s"' % x
            elif re.match(r'(call|invoke)\b',x) and not ACC.match(x): unk = unk or 'only without NDEBUG: %s' % x
            elif re.match(r'(br|switch)\b',x): unk = unk or 'only without NDEBUG: %s' % x
    if bad: c.fail('debug code',w,'the two build modes differ: '+bad)
    elif unk: c.undecided('debug code',w+': '+unk)
    else: c.ok('debug code',1,w+' differs only in marks of unlinked elements')
