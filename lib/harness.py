"""What every check has in common: obligations, verdict, evidence file."""
import os, sys, json, time, traceback
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

class Inconclusive(Exception):
    """the check can't give an answer (exit 2)"""

class Check:
    def __init__(self,pid,rule,technique):
        self.pid = pid; self.rule = rule; self.technique = technique
        self.t0 = time.time()
        self.oblig = {}      # rule part -> [discharged, violated, undecided]
        self.fails = []
        self.undec = []
        self.analysed = {}   # what was looked at
        self.samples = []
        self.assumptions = []
    def part(self,name): return self.oblig.setdefault(name,[0,0,0])
    def ok(self,part,n=1,sample=None):
        self.part(part)[0] += n
        if sample and len([s for s in self.samples if s['part'] == part]) < 3: self.samples.append({'part':part,'obligation':sample})
    def fail(self,part,where,what,detail=None):
        self.part(part)[1] += 1
        if not any(f['part'] == part and f['where'] == where and f['what'] == what for f in self.fails):
            self.fails.append({'part':part,'where':where,'what':what,'detail':detail})
    def undecided(self,part,why,n=1):
        self.part(part)[2] += n
        if len(self.undec) < 50: self.undec.append({'part':part,'why':str(why)[:500]})
    def saw(self,kind,*names):
        s = self.analysed.setdefault(kind,[])
        for n in names:
            if n not in s: s.append(n)
    def assume(self,t):
        if t not in self.assumptions: self.assumptions.append(t)
    def decide(self,part,where,what,verdict,detail=None,sample=None):
        """verdict True/False/None"""
        if verdict is None: self.undecided(part,what)
        elif verdict: self.ok(part,1,sample)
        else: self.fail(part,where,what,detail)

    def finish(self):
        ev = os.path.join(VERIF,'evidence')
        os.makedirs(ev,exist_ok=True)
        tier = os.environ.get('VERIF_TIER','quick')
        if tier not in ('quick','thorough'): tier = 'quick'
        known = known_findings(self.pid)
        new = [f for f in self.fails if key(f) not in known]
        old = [f for f in self.fails if key(f) in known]
        tot = [sum(o[i] for o in self.oblig.values()) for i in range(3)]
        j = {'property':self.pid,'tier':tier,'seed':int(os.environ.get('VERIF_SEED','1') or 1),'level':'other',
            'coverage':{
                'explanation':'Static analysis of the current source of /repo (translated, never run). Rule: '+self.rule+' Deciding method: '+self.technique+'. Counts are of obligations of this run; an undecided obligation raises no alarm and is not counted as discharged.',
                'rule':self.rule,
                'obligations':sum(tot),'discharged':tot[0],'violated':tot[1],'undecided':tot[2],
                'by_part':{k:{'discharged':v[0],'violated':v[1],'undecided':v[2]} for k,v in self.oblig.items()},
                'analysed':{k:{'count':len(v),'names':v[:60]} for k,v in self.analysed.items()},
                'samples':self.samples[:30],
                'undecided_reasons':self.undec[:20]},
            'assumptions':self.assumptions,
            'wall_s':round(time.time()-self.t0,2),
            'violations':len(new)}
        with open(os.path.join(ev,self.pid+'.json'),'w') as f: json.dump(j,f,indent=1)
        for f in old: print('KNOWN-FINDING: property=%s %s: %s' % (self.pid,f['where'],f['what']))
        vp = os.path.join(ev,self.pid+'.violations.json')
        if new:
            with open(vp,'w') as f: json.dump(new,f,indent=1,default=str)
            for f in new[:20]:
                print('  [%s] %s: %s' % (f['part'],f['where'],f['what']))
                if f['detail'] is not None: print('      '+str(f['detail'])[:600])
            print('VIOLATION property=%s replay=evidence/%s.violations.json' % (self.pid,self.pid))
            return 1
        if os.path.exists(vp): os.unlink(vp)
        dead = [k for k,v in self.oblig.items() if v[0] == 0]
        if tot[0] == 0 or dead:
            print('%s: no answer: nothing could be decided%s' % (self.pid,' for: '+', '.join(dead) if dead else ''))
            for u in self.undec[:10]: print('   undecided [%s] %s' % (u['part'],u['why']))
            return 2
        print('%s: held: %d obligations discharged, %d undecided' % (self.pid,tot[0],tot[2]))
        return 0

def key(f): return f['part']+' | '+f['where']+' | '+f['what']
def known_findings(pid):
    s = set()
    p = os.path.join(VERIF,'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            if l.startswith('KNOWN property=%s ' % pid): s.add(l.split(' ',2)[2].strip())
    return s
