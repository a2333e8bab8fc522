"""Build/run/aggregate machinery shared by every check. Everything is rebuilt from /repo's working tree."""
import os,sys,subprocess,json,tempfile,shutil,time,signal,re
from concurrent.futures import ThreadPoolExecutor
HERE=os.path.dirname(os.path.abspath(__file__)); ROOT=os.path.dirname(HERE)
REPO=os.environ.get('VERIF_REPO','/repo')
import genconfigs
NCPU=int(os.environ.get('VERIF_JOBS',os.cpu_count() or 4))
BASEFLAGS=['-std=gnu++14','-O1','-march=native','-w','-ffp-contract=off']

class HarnessError(Exception): err=''
class RepoBuildError(Exception):
    """the compiler's error lies inside the sources under test"""
    err=''
    def __init__(self,key,msg): super().__init__(msg); self.key=key

def sh(cmd,timeout=600,env=None,cwd=None):
    e=dict(os.environ); e.update(env or {})
    try:
        p=subprocess.run(cmd,stdout=subprocess.PIPE,stderr=subprocess.PIPE,timeout=timeout,env=e,cwd=cwd,start_new_session=True)
        return p.returncode,p.stdout.decode('utf8','replace'),p.stderr.decode('utf8','replace')
    except subprocess.TimeoutExpired as x:
        return 'timeout',(x.stdout or b'').decode('utf8','replace'),(x.stderr or b'').decode('utf8','replace')

class Check:
    def __init__(self,prop,tier,seed):
        self.prop=prop; self.tier=tier; self.seed=seed; self.t0=time.time()
        self.dir=tempfile.mkdtemp(prefix='verif_%s_'%prop)
        self.viol=[]        # (group,key,msg)
        self.hung=0; self.stats=dict(events=0,nontrivial=0,distinct=0); self.classes={}; self.samples=[]; self.extra={}
        self.assumptions=[]
        self.env={'VERIF_SEED':str(seed),'VERIF_TIER':tier}
        self._objs={}
    def close(self): shutil.rmtree(self.dir,ignore_errors=True)
    def path(self,n): return os.path.join(self.dir,n)
    # ---- building
    def compile(self,cmd):
        if cmd[0].startswith('clang'): cmd=[cmd[0],'-Wno-invalid-constexpr']+list(cmd[1:])
        rc,o,e=sh(cmd,timeout=800)
        m=re.search(r'^(\S+?):(\d+):\d+: (?:fatal )?error: ([^\n]*)',e,re.M)
        if rc!=0 and m and m.group(1).startswith((REPO+'/include/',REPO+'/src/')):
            x=RepoBuildError('does-not-build|%s:%s'%(os.path.relpath(m.group(1),REPO),m.group(2)),'%s (%s)'%(m.group(3)[:300],' '.join(x for x in cmd if x.startswith(('-std','-O','-m','-D')) or x in ('g++','clang++'))))
            x.err=e; raise x
        if rc!=0:
            x=HarnessError('build failed (%s): %s\n%s'%(rc,' '.join(cmd),e[-3000:])); x.err=e; raise x
    def par(self,fns):
        with ThreadPoolExecutor(NCPU) as ex: return [f.result() for f in [ex.submit(fn) for fn in fns]]
    def support(self,cxx='g++',flags=(),tag=''):
        """ref.o and mon.o for a given set of flags"""
        k=(cxx,tuple(flags),tag)
        if k in self._objs: return self._objs[k]
        n=len(self._objs); outs=[]
        def mk(s):
            o=self.path('%s_%d.o'%(s,n)); self.compile([cxx,'-std=gnu++14','-O2','-w']+list(flags)+['-c',os.path.join(HERE,s+'.cpp'),'-o',o]); return o
        outs=self.par([lambda s=s:mk(s) for s in ('ref','mon')])
        self._objs[k]=outs; return outs
    def shard(self,src,nshards,cs,cxx='g++',flags=None,sup=None,extra=(),tag='',define=()):
        """build src once per shard of configurations; returns list of executables"""
        flags=list(BASEFLAGS if flags is None else flags)
        fns=[]; exes=[]
        # interleave so that the load is even
        parts=[cs[i::nshards] for i in range(nshards)]; parts=[p for p in parts if p]
        for i,p in enumerate(parts):
            h=self.path('cfg_%s%s_%d.h'%(src,tag,i)); open(h,'w').write(genconfigs.header(p))
            exe=self.path('%s%s_%d'%(src,tag,i)); exes.append(exe)
            fns.append(lambda h=h,exe=exe:self.compile([cxx]+flags+['-I'+REPO+'/include','-I'+HERE,'-include',h]+list(define)+[os.path.join(HERE,src+'.cpp')]+list(sup)+list(extra)+['-o',exe]))
        self.par(fns); return exes
    def single(self,src,cxx='g++',flags=None,sup=None,extra=(),tag='',define=()):
        flags=list(BASEFLAGS if flags is None else flags)
        exe=self.path(src+tag)
        self.compile([cxx]+flags+['-I'+REPO+'/include','-I'+HERE]+list(define)+[os.path.join(HERE,src+'.cpp')]+list(sup)+list(extra)+['-o',exe])
        return exe
    # ---- running
    def run(self,exes,args=(),env=None,timeout=3000,on_stderr=None,count=True,ignore_v=False,prefix=''):
        e=dict(self.env); e.update(env or {})
        def one(x):
            left=timeout
            if self.tier!='thorough': # a check has 900 s: what hangs is reported before they are over, and once is enough
                left=min(timeout,400,780-(time.time()-self.t0),240 if self.hung else timeout)
                if left<20 or self.hung>2*NCPU: return x,('skipped','','')
            r=sh([x]+list(args) if isinstance(x,str) else list(x)+list(args),timeout=left,env=e,cwd=self.dir)
            if r[0]=='timeout': self.hung+=1
            return x,r
        out=self.par([lambda x=x:one(x) for x in exes])
        for x,(rc,o,er) in out:
            got=False; nv=0
            for l in o.splitlines():
                if l.startswith('V\t'):
                    p=l.split('\t',3)
                    if not ignore_v or p[1].startswith(('crash','hang')):
                        self.viol.append((prefix+p[1],prefix+p[2],p[3] if len(p)>3 else '')); nv+=1
                elif l.startswith('S\t'):
                    got=True; j=json.loads(l[2:])
                    if count:
                        for k in ('events','nontrivial','distinct'): self.stats[k]+=j[k]
                        for k,v in j['classes'].items(): self.classes[k]=self.classes.get(k,0)+v
                        self.samples+=j['samples'][:2]
            name=os.path.basename(x) if isinstance(x,str) else ' '.join(os.path.basename(y) for y in x if not y.startswith('-') and y!='valgrind')
            if rc=='skipped':
                if not self.hung: raise HarnessError('%s was not run: out of time'%name)
                continue
            if rc=='timeout':
                self.viol.append((prefix+'hang|'+name,prefix+'hang|'+name.replace(' ','_'),'workload did not finish')); continue
            if not got and not nv:
                if isinstance(rc,int) and rc<0 or rc in (132,134,136,139) or 'DEADLYSIGNAL' in er:
                    self.viol.append((prefix+'crash|'+name,prefix+'crash|'+name.replace(' ','_'),'killed by signal %s: %s'%(rc,er[-300:]))); nv+=1
                elif on_stderr is None or not on_stderr(name,rc,o,er):
                    raise HarnessError('%s ended with %s and no statistics: %s'%(name,rc,er[-2000:]))
            elif on_stderr: on_stderr(name,rc,o,er)
            if not ignore_v and not nv and isinstance(rc,int) and got and (rc<0 or rc in (132,134,136,139)): # died after its statistics, or without reporting what it was at
                self.viol.append((prefix+'crash|'+name,prefix+'crash|'+name.replace(' ','_'),'killed by signal %s: %s'%(rc,er[-300:]))); nv+=1
            if not ignore_v and rc not in (0,1,3) and not nv:
                raise HarnessError('%s ended with %s: %s'%(name,rc,er[-2000:]))
        return out

def known(prop):
    r=[]
    p=os.path.join(ROOT,'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m=re.match(r'known: property=(\S+) key=(\S+) (.*)',l)
            if m and m.group(1)==prop: r.append((m.group(2),m.group(3).strip()))
    return r

def conclude(c,level,rule,assumptions):
    """match known findings, write evidence and replay, print, return exit code"""
    kf=known(c.prop); hit={}; rest=[]
    for g,k,m in c.viol:
        for kk,txt in kf:
            if k==kk or (kk.endswith('*') and k.startswith(kk[:-1])): hit[kk]=txt; break
        else: rest.append((g,k,m))
    ev=os.environ.get('VERIF_EVIDENCE') or os.path.join(ROOT,'evidence'); os.makedirs(ev,exist_ok=True)
    j={'property':c.prop,'tier':c.tier,'seed':c.seed,'level':level,
       'coverage':{'evaluations':c.stats['events'],'distinct_nontrivial':c.stats['distinct'],'rule':rule,
                   'samples':c.samples[:12],'nontrivial_events':c.stats['nontrivial'],'classes_observed':len(c.classes),
                   'classes':dict(sorted(c.classes.items(),key=lambda x:-x[1])[:400])},
       'wall_s':round(time.time()-c.t0,2),'violations':len(rest),'assumptions':assumptions}
    j['coverage'].update(c.extra)
    if hit: j['coverage']['known_findings_seen']=sorted(hit)
    with open(os.path.join(ev,c.prop+'.json'),'w') as f: json.dump(j,f,indent=1)
    for k,t in hit.items(): print('KNOWN-FINDING: property=%s %s'%(c.prop,t))
    if rest:
        rp=os.path.join(ev,'replay_%s.txt'%c.prop)
        with open(rp,'w') as f:
            f.write('# property %s tier=%s seed=%d ; rerun: VERIF_SEED=%d %s/check %s %s\n'%(c.prop,c.tier,c.seed,c.seed,ROOT,c.prop,c.tier))
            for g,k,m in rest: f.write('%s\t%s\t%s\n'%(g,k,m))
        for g,k,m in rest[:6]: print('  %s :: %s'%(k,m))
        print('VIOLATION property=%s replay=%s'%(c.prop,rp))
        return 1
    print('OK property=%s tier=%s events=%d distinct=%d wall=%.1fs'%(c.prop,c.tier,c.stats['events'],c.stats['distinct'],time.time()-c.t0))
    return 0

TABFLAGS=['-std=gnu++11','-O2','-march=native','-w']
def tables(c,which,cxx='g++',flags=None,tag='',on_stderr=None):
    """build and run the table generators of the working tree, compile tables and classes; returns object files"""
    flags=list(TABFLAGS if flags is None else flags); objs=[]
    def one(n):
        gen=c.path('gen_%s%s'%(n,tag)); tbl=c.path('%s%s_tbl.cpp'%(n,tag))
        c.compile([cxx]+flags+['-I'+REPO+'/include',REPO+'/src/%s_gen.cpp'%n,'-o',gen])
        rc,o,e=sh([gen,tbl],timeout=120,cwd=c.dir)
        if rc!=0 or not os.path.exists(tbl):
            c.viol.append(('generator|'+n,'generator|'+n,'the table generator ended with %s: %s'%(rc,e[-300:]))); return []
        if on_stderr: on_stderr('generator '+n,rc,o,e)
        r=[]
        for s in (tbl,REPO+'/src/%s.cpp'%n):
            o=c.path(os.path.basename(s)[:-4]+tag+'.o'); c.compile([cxx]+flags+['-I'+REPO+'/include','-c',s,'-o',o]); r.append(o)
        return r
    for l in c.par([lambda n=n:one(n) for n in which]): objs+=l
    return objs
