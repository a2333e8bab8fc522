import sys,os,time,traceback
import lib,genconfigs
from lib import Check,HarnessError,REPO,HERE
P={}
def prop(id,level,rule,assumptions=()):
    def d(fn): P[id]=(fn,level,rule,list(assumptions)); return fn
    return d
RULE='one evaluation = one operation executed by the real code and judged online by the oracle; distinct_nontrivial = distinct (configuration, operation, operands) whose operands are not all special, counted with a 2^26 bitmap per shard (a lower bound)'
REFA='the independent reference model in harness/ref.cpp (bit-by-bit posit/float decoding, 128-bit significands with sticky bit) is right'

def sharded(src,quick=300,thorough=720,shards=None,flags=None,define=()):
    def run(c):
        cs=genconfigs.configs(c.tier,c.seed,quick,thorough)
        n=shards or (24 if c.tier=='thorough' else 16)
        sup=c.support()
        if c.tier=='thorough': n=max(n,len(cs)//18)
        ex=c.shard(src,n,cs,sup=sup,flags=flags,define=define); c.run(ex)
        c.extra['configurations']=len(cs)
    return run
for id,src in [('C01','c01'),('C02','c02'),('C03','c03'),('C04','c04'),('C05','c05'),('C06','c06'),('C07','c07'),('C08','c08'),('C09','c09'),('C10','c10')]:
    prop(id,'exploration',RULE,[REFA])(sharded(src))

@prop('C11','exploration',RULE+'; all patterns of the 8, 10 and 12 bit types, all pairs',[REFA])
def c11(c):
    sup=c.support(); objs=lib.tables(c,['posit8','posit10','posit12'])
    if c.viol: return
    # the tables kept under version control, for those who compile them without running the generators
    kept=[n for n in ('posit8','posit12') if os.path.exists(REPO+'/src/%s_tbl.cpp'%n)]; own=[]
    for x in objs:
        n=os.path.basename(x)[:-6]
        if x.endswith('_tbl.o') and n in kept: o=c.path('kept_%s.o'%n); c.compile(['g++']+lib.TABFLAGS+['-I'+REPO+'/include','-c',REPO+'/src/%s_tbl.cpp'%n,'-o',o]); own.append(o)
        else: own.append(x)
    def bin(d,t,ob):
        try: return c.single('c11',sup=sup,extra=ob,flags=['-std=gnu++14','-O2','-march=native','-w','-ffp-contract=off'],define=d,tag=t)
        except lib.RepoBuildError:
            if t!='_kept': raise
            return None # tables of another shape than the sources of today: they cannot be linked, nothing to judge
    exe,lazy,kexe=c.par([lambda d=d,t=t,ob=ob:bin(d,t,ob) for d,t,ob in (([],'',objs),(['-DPOSITMUL'],'_lazy',objs),([],'_kept',own))])
    c.run([[exe,'8'],[exe,'10'],[lazy,'8'],[lazy,'10']]+[[exe,'12',str(i)] for i in range(6)])
    if c.viol or not kexe: return
    c.extra['tables_under_version_control_checked_too']=kept
    c.run([[kexe,n[5:]]+a for n in kept for a in ([['%d'%i] for i in range(6)] if n=='posit12' else [[]])],count=False)
    c.extra['exhaustive_patterns_and_pairs']=True

O2=['-std=gnu++14','-O2','-march=native','-w','-ffp-contract=off']
def parts(src,n,flags=O2,rule=''):
    def run(c):
        sup=c.support(); exe=c.single(src,sup=sup,flags=flags); c.run([[exe,str(i)] for i in range(n)])
    return run
prop('C12','exploration',RULE+'; all bit patterns of the 8 and 16 bit formats',[REFA])(parts('c12',8))
prop('C13','exploration',RULE+'; all 8 and 16 bit integers',[REFA])(parts('c13',8))
prop('C14','exploration',RULE,[REFA])(parts('c14',8))

@prop('C15','exploration',RULE+'; all pairs of the 8 bit formats',[REFA])
def c15(c):
    sup=c.support(); objs=lib.tables(c,['binary8'])
    if c.viol: return
    exe=c.single('c15',sup=sup,extra=objs,flags=O2); c.run([[exe,str(i)] for i in range(8)])

def has(flag): return flag in open('/proc/cpuinfo').read()
@prop('C16','exploration',RULE+'; all 65536 patterns, both conversion paths',[REFA])
def c16(c):
    sup=c.support(); runs=[]
    soft=c.single('c16',sup=sup,flags=O2+['-mno-f16c'],tag='_soft'); runs+=[[soft,str(i)] for i in range(4)]
    if has('f16c'):
        hard=c.single('c16',sup=sup,flags=O2+['-mavx','-mf16c'],tag='_hard'); runs+=[[hard,str(i)] for i in range(4)]
    c.extra['hardware_path']=has('f16c'); c.run(runs)

WIDE=[(8,8,0,16),(8,8,1,16),(8,8,2,16),(8,8,3,32),(8,5,0,16),(8,5,2,16),(8,6,1,16),(8,4,1,8),(8,4,0,8),(8,3,0,8),(8,7,2,32),(16,16,0,32),(16,16,1,32),(16,16,2,32),(16,16,3,64),(16,12,2,32),(16,12,0,32),(16,10,2,32),(16,14,1,32),(16,13,3,32),(16,8,0,16),(16,7,1,16),(32,32,2,64),(32,32,0,64),(32,32,3,64),(32,24,1,64),(32,28,2,64),(32,31,1,64),(32,20,2,64),(32,16,1,32),(32,16,2,32),(32,8,0,16),(64,32,2,64),(64,30,4,64),(64,16,1,64),(64,20,5,64)]
@prop('C17','exploration',RULE,[REFA,'a 10240 bit exact accumulator in the harness holds the exact sums'])
def c17(c):
    cs=[w+(s,) for i,w in enumerate(WIDE) for s in (['WithNan','WithInf','WithNanInf'] if c.tier=='thorough' else [['WithNan','WithInf','WithNanInf'][(i+j)%3] for j in (0,1)])]
    cs+=[x for x in genconfigs.configs(c.tier,c.seed,120,300) if x not in cs]
    sup=c.support(); n=16 if c.tier!='thorough' else 32
    ex=c.shard('c17',n,cs,sup=sup); ex+=c.shard('c17',n,cs,sup=sup,tag='_lazy',define=['-DPOSITMUL']); c.run(ex)
    c.extra['configurations']=len(cs)

def es0(c,n):
    r=[x for x in genconfigs.configs(c.tier,c.seed) if x[2]==0]
    for h in (8,16,32,64):
        for b in (sorted(set([3,4,5,6,7,8,h-1,h,h*3//4,(h+8)//2])) if c.tier!='thorough' else range(3,min(h,63)+1)):
            for i,sp in enumerate(('WithNan','WithInf','WithNanInf')):
                x=(h,b,0,[f for f in (8,16,32,64) if f>=b][0] if (b+i)%2 else 64,sp)
                if genconfigs.valid(x) and x not in r: r.append(x)
    return r[:n]
@prop('C19','exploration',RULE+'; all patterns up to 16 bits',[REFA])
def c19(c):
    cs=es0(c,2000)+[x for x in genconfigs.configs(c.tier,c.seed,80,200) if x[2]>0]
    sup=c.support(); c.run(c.shard('c19',16 if c.tier!='thorough' else 48,cs,sup=sup)); c.extra['configurations']=len(cs)

@prop('C20','exploration',RULE,[REFA,'the processor computes single and double precision as IEEE 754'])
def c20(c):
    cs=genconfigs.configs(c.tier,c.seed,130,400)
    sup=c.support(); c.run(c.shard('c20',16 if c.tier!='thorough' else 40,cs,sup=sup)); c.extra['configurations']=len(cs)

prop('C26','exploration',RULE,[REFA])(sharded('c26',quick=160))

@prop('C21','exploration',RULE+'; every field offset and size of 8, 16 and 32 bit integers',['128 bit arithmetic of the compiler is right'])
def c21(c):
    sup=c.support(); jobs=[]
    B=['-std=gnu++14','-O1','-w']
    for tag,cxx,fl in (('_bmi','g++',B+['-march=native']),('_nobmi','g++',B+['-march=x86-64']),('_clang','clang++',B+['-march=native'])):
        for i in (1,2,0,3,4,5): jobs.append(lambda tag=tag,cxx=cxx,fl=fl,i=i:c.single('c21',sup=sup,cxx=cxx,flags=fl,tag='%s%d'%(tag,i),define=['-DPART=%d'%i]))
    c.run(c.par(jobs))

@prop('C25','exploration',RULE+'; every pattern in every lane, every pair of patterns',['the scalar posit8 is checked by C11'])
def c25(c):
    if not has('avx2'):
        c.extra['skipped']='this processor has no AVX2'; return
    sup=c.support(); objs=lib.tables(c,['posit8'])
    if c.viol: return
    fl=O2+['-mavx2']; o=[]
    for s in (REPO+'/src/simdposit8.cpp',HERE+'/c25s.cpp'):
        x=c.path(os.path.basename(s)+'.o'); c.compile(['g++']+fl+['-I'+REPO+'/include','-c',s,'-o',x]); o.append(x)
    c.run([c.single("c25",sup=sup,extra=objs+o,flags=fl)])

@prop('C24','exploration',RULE+'; one evaluation = one value written on a prepared stream, its text and the stream state judged',[REFA,'the standard library formats native floats and integers correctly'])
def c24(c):
    cs=genconfigs.configs(c.tier,c.seed,150,400); sup=c.support(); objs=lib.tables(c,['posit8','posit10','posit12'])
    if c.viol: return
    so=[]
    if has('avx2'): so=[c.path('simdposit8.o')]; c.compile(['g++']+O2+['-mavx2','-I'+REPO+'/include','-c',REPO+'/src/simdposit8.cpp','-o',so[0]])
    ex=c.shard('c24',16 if c.tier!='thorough' else 32,cs,sup=sup,extra=objs); ex+=c.shard('c24',1,cs[:1],sup=sup,extra=objs,tag='_others',define=['-DOTHERS']); ex.append(c.single('c24b',sup=sup))
    if so: ex.append(c.single('c24v',sup=sup,extra=objs+so,flags=O2+['-mavx2']))
    c.run(ex); c.extra['configurations']=len(cs)

import re
SAN=['-fsanitize=address,undefined,float-cast-overflow','-fsanitize-recover=undefined,float-cast-overflow','-fno-omit-frame-pointer','-g1']
def scan(c):
    """turn sanitizer and memcheck reports into violations keyed by place and kind"""
    def f(src,rc,o,er):
        hit=False
        for m in re.finditer(r'^(\S+?):(\d+):\d+: runtime error: (.*)$',er,re.M):
            w=os.path.relpath(m.group(1),REPO) if m.group(1).startswith(REPO) else os.path.basename(m.group(1))
            if m.group(1).startswith(HERE): c.extra['_own']='the workload itself: '+m.group(0); continue
            k='ubsan|%s:%s|%s'%(w,m.group(2),re.sub(r'\s+','_',re.sub(r"-?\d[\d.e+]*|'[^']*'",'N',m.group(3)))[:80])
            c.viol.append((k,k,'%s in workload %s: %s'%(w+':'+m.group(2),src,m.group(3)))); hit=True
        m=re.search(r'ERROR: (AddressSanitizer|LeakSanitizer): (\S+)',er)
        if m:
            fr=re.search(r'#\d+ 0x\S+ in (.*?) (%s/\S+?):(\d+)'%re.escape(REPO),er); w='%s:%s'%(os.path.relpath(fr.group(2),REPO),fr.group(3)) if fr else '?'
            k='asan|%s|%s'%(w,m.group(2)); c.viol.append((k,k,'workload %s: %s'%(src,er[m.start():m.start()+600].replace('\n',' / ')))); hit=True
        for m in re.finditer(r'^==\d+== (Conditional jump|Use of uninit|Invalid (?:read|write)|Syscall param)[^\n]*\n((?:==\d+==    .*\n)*)',er,re.M):
            fr=re.findall(r'\((\w+\.(?:h|hpp|cpp)):(\d+)\)',m.group(2)); w=':'.join(fr[0]) if fr else '?'
            for x in fr:
                if os.path.exists(REPO+'/include/'+x[0]) or os.path.exists(REPO+'/src/'+x[0]): w=':'.join(x); break
            k='memcheck|%s|%s'%(w,m.group(1).replace(' ','_')); c.viol.append((k,k,'workload %s: %s'%(src,m.group(2)[:500].replace('\n',' / ')))); hit=True
        return hit
    return f
SHARDED=[('c01',()),('c02',()),('c03',()),('c04',()),('c05',()),('c06',()),('c07',()),('c08',()),('c09',()),('c10',()),('c17',()),('c17',('-DPOSITMUL',)),('c19',()),('c20',()),('c24',()),('c26',())]
def suite(c,cxx,flags,cs,tag,div,san,nsh,wrap=(),only=None,sup=None,tabflags=None,env=None):
    """every workload built with the given flags; the reports of the instrumentation are what counts"""
    t0=time.time(); objs=lib.tables(c,['posit8','posit10','posit12','binary8'],cxx=cxx,flags=tabflags or flags,tag=tag,on_stderr=scan(c))
    bobj=[x for x in objs if 'binary8' in x]; objs=[x for x in objs if 'binary8' not in x]; c.extra.setdefault('timing',{})[tag+' tables']=round(time.time()-t0,1)
    if c.viol: return
    jobs=[]; sh=[]
    def add(src,n,cl,define=(),extra=(),args=((),)):
        if only and src not in only: return
        parts=[cl[i::n] for i in range(n)] if cl else [None]
        for i,p in enumerate(parts):
            t='%s_%s%d'%(tag,len(jobs),i)
            def mk(src=src,p=p,t=t):
                d=list(define)
                if p is not None:
                    h=c.path('cfg%s%s.h'%(src,t)); open(h,'w').write(genconfigs.header(p)); d+=['-include',h]
                return [(src,list(wrap)+[c.single(src,cxx=cxx,flags=flags,sup=sup,extra=list(extra),tag=t,define=d)]+list(a)) for a in args]
            jobs.append(mk)
    for src,d in SHARDED: add(src,nsh,cs,define=d,extra=objs if src=='c24' else ())
    add('c11',1,None,extra=objs,args=[['8'],['10']]+[['12',str(i)] for i in range(6)])
    for s in ('c12','c13','c14'): add(s,1,None,args=[[str(i)] for i in range(8)])
    add('c15',1,None,extra=bobj,args=[[str(i)] for i in range(8)])
    if has('avx2') and not (only and 'c25' not in only):
        so=[]
        for x in (REPO+'/src/simdposit8.cpp',HERE+'/c25s.cpp'):
            o=c.path(os.path.basename(x)+tag+'.o'); c.compile([cxx]+list(flags)+['-mavx2','-I'+REPO+'/include','-c',x,'-o',o]); so.append(o)
        add('c25',1,None,define=['-mavx2'],extra=objs+so)
    add('c16',1,None,args=[[str(i)] for i in range(4)])
    for i in range(6): add('c21',1,None,define=['-DPART=%d'%i])
    bysrc={}
    t0=time.time(); built=c.par(jobs); T=c.extra.setdefault('timing',{}); T[tag+' build']=round(time.time()-t0,1)
    for l in built:
        for src,cmd in l: bysrc.setdefault(src,[]).append(cmd)
    e={'MON_DIV':str(div),'MON_NOSIG':'1'}; e.update(env or {})
    t0=time.time(); c.run([x for src,l in sorted(bysrc.items()) for x in l],env=e,ignore_v=True,on_stderr=scan(c)); own=c.extra.pop('_own',None)
    if own and not c.viol: raise HarnessError(own) # a report in the workload's own code says nothing about the repository
    T[tag+' run']=round(time.time()-t0,1)
    c.extra.setdefault('workloads_watched',[]).extend('%s %s (%d runs)'%(s,san,len(l)) for s,l in sorted(bysrc.items()))

@prop('C18','exploration','one evaluation = one operation of a workload of the other properties executed under ASan+UBSan (or memcheck); distinct_nontrivial counted as there',['the sanitizers of clang 18 and memcheck report what they document'])
def c18(c):
    th=c.tier=='thorough'; cs=genconfigs.configs('thorough',c.seed,48,200) if th else genconfigs.base()[:40]
    env={'ASAN_OPTIONS':'detect_leaks=1:halt_on_error=1:detect_stack_use_after_return=1:check_initialization_order=1','UBSAN_OPTIONS':'print_stacktrace=0'}
    F=['-std=gnu++14','-march=native','-w','-ffp-contract=off']
    GSAN=['-fsanitize-recover=all' if x.startswith('-fsanitize-recover') else x for x in SAN]
    try: suite(c,'clang++',F+['-O0']+SAN,cs,'san',2 if th else 4,'asan+ubsan -O0',2 if not th else 10,sup=c.support(cxx='clang++',flags=['-fsanitize=address']),env=env)
    except lib.RepoBuildError as e: # sources that only gcc accepts are watched by gcc's sanitizers
        c.extra['clang_rejects']=str(e)[:300]; suite(c,'g++',F+['-O0']+GSAN,cs,'sang',2 if th else 4,'gcc asan+ubsan -O0',2 if not th else 10,sup=c.support(cxx='g++',flags=['-fsanitize=address']),env=env)
    if th and not c.viol: suite(c,'g++',F+['-O2']+GSAN,cs[:100],'gsan',4,'gcc asan+ubsan -O2',8,sup=c.support(cxx='g++',flags=['-fsanitize=address']),env=env)
    if c.viol: return
    vs=cs[:10] if not th else cs[:40]
    suite(c,'g++',['-std=gnu++14','-O0','-g1','-march=x86-64-v3','-w','-ffp-contract=off'],vs,'vg',2000 if not th else 300,'memcheck',1 if not th else 4,wrap=['valgrind','-q','--error-exitcode=0','--num-callers=8'],sup=c.support(cxx='g++',flags=['-march=x86-64-v3']))

UNDEF=r"overflow in constant expression|right operand of shift expression .*?(?:is negative|greater than|>=)[^\n]*|array subscript value [^\n]*outside the bounds|shift count -?\d+ >= width[^\n]*|negative shift count[^\n]*|outside the range of representable values[^\n]*|division by zero[^\n]*|dereferenced one-past-the-end[^\n]*"
BUILDS=[('gcc -O2 c++14 native','g++',['-std=gnu++14','-O2','-march=native']),
 ('gcc -O0 c++11','g++',['-std=gnu++11','-O0']),('gcc -O3 c++17 native','g++',['-std=gnu++17','-O3','-march=native']),('gcc -O2 no BMI','g++',['-std=gnu++14','-O2','-march=x86-64']),
 ('clang -O2 c++14 native','clang++',['-std=gnu++14','-O2','-march=native']),('clang -O0 c++11','clang++',['-std=gnu++11','-O0']),('clang -O3 c++17 no BMI','clang++',['-std=gnu++17','-O3','-march=x86-64']),
 ('gcc -Os c++20 POSITMUL','g++',['-std=gnu++20','-Os','-DPOSITMUL','-march=native']),
 ('gcc -O2 auto variables filled','g++',['-std=gnu++14','-O2','-ftrivial-auto-var-init=pattern']),('clang -O1 auto variables zero','clang++',['-std=gnu++14','-O1','-ftrivial-auto-var-init=zero']),
 ('gcc -O2 strict c++14 NDEBUG','g++',['-std=c++14','-O2','-DNDEBUG','-D_GLIBCXX_ASSERTIONS','-march=haswell']),('clang -O2 strict c++20','clang++',['-std=c++20','-O2','-march=native']),
 ('gcc -O2 wrapv unsigned char','g++',['-std=gnu++14','-O2','-fwrapv','-funsigned-char','-fno-strict-aliasing','-march=native'])]
CORE=[('gcc core','g++',['-std=gnu++14','-O1','-DCORE']),('gcc FPGAHLS','g++',['-std=gnu++14','-O1','-DCORE','-DFPGAHLS']),('clang FPGAHLS','clang++',['-std=gnu++17','-O2','-DCORE','-DFPGAHLS','-march=native'])]
@prop('C22','exploration','one evaluation = one operation result recorded by one build of the workload and compared with the record of the reference build; distinct_nontrivial counted per record of the reference build',['floating point contraction is switched off in every build (PositF and the emulated floats compute in native floats)'])
def c22(c):
    th=c.tier=='thorough'; cs=genconfigs.configs('thorough',c.seed,100,300) if th else genconfigs.base()[:64]
    ns=16 if th else 4; sup=c.support(); com=['-w','-ffp-contract=off']; jobs=[]; parts=[cs[i::ns] for i in range(ns)]
    for i,p in enumerate(parts): open(c.path('log%d.h'%i),'w').write(genconfigs.header(p))
    def builds(L,core):
        for bi,(nm,cxx,fl) in enumerate(L):
            for i in range(ns+(0 if core else 1)):
                d=['-include',c.path('log%d.h'%i)] if i<ns else ['-DOTHERS','-include',c.path('log0.h')]
                yield (core,bi,i,nm,lambda cxx=cxx,fl=fl,i=i,d=d,t='%s%d_%d'%('k' if core else '',bi,i),must=bi==0:tolerant(must,lambda:c.single('c22',cxx=cxx,flags=fl+com+(['-mno-f16c']),sup=sup,tag=t,define=d)))
    skipped={}
    def tolerant(must,fn):
        try: return fn()
        except lib.RepoBuildError as e: # what one build rejects has no results to compare; the reference build must exist
            if must: raise
            skipped[e.key]=str(e)[:300]; return None
    B=list(builds(BUILDS,False))+list(builds(CORE,True))
    exe=dict(zip([b[:3] for b in B],c.par([b[4] for b in B])))
    B=[b for b in B if exe[b[:3]]]; exe={k:v for k,v in exe.items() if v}
    if skipped: c.extra['builds_rejected_by_their_compiler']=skipped
    log={k:c.path('log_%s_%d_%d.bin'%k) for k in exe}
    for k in exe: pass
    base=[[exe[k],log[k]] for k in exe if k[1]==0]; rest=[[exe[k],log[k]] for k in exe if k[1]]
    c.run(base); c.run(rest,count=False)
    ncmp=0
    for core,bi,i,nm,_ in B:
        if bi==0 or c.viol: continue
        k=(core,bi,i); k0=(core,0,i); a=open(log[k0],'rb').read(); b=open(log[k],'rb').read(); ncmp+=len(b)//8
        if a==b: continue
        import array
        x=array.array('Q'); x.frombytes(a[:len(a)//8*8]); y=array.array('Q'); y.frombytes(b[:len(b)//8*8])
        bad=[j for j in range(min(len(x),len(y))) if x[j]!=y[j]]
        if not bad: c.viol.append(('builds|length|'+nm,'builds|length|'+nm.replace(' ','_'),'%d records in the reference build, %d in %s'%(len(x),len(y),nm)))
        seen=set()
        for j in bad[:2000]:
            if len(seen)>=4: break
            d=[[l for l in lib.sh([exe[q],log[q]+'.x',str(j)],env=c.env)[1].splitlines() if l.startswith('V')] for q in (k0,k)]
            if not d[0] or not d[1]: raise HarnessError('record %d of %s cannot be described'%(j,nm))
            p0=d[0][0].split('\t'); p1=d[1][0].split('\t')
            if p0[1] in seen: continue
            seen.add(p0[1]); c.viol.append(('builds|'+p0[1],('builds|%s|%s'%(nm,p0[2])).replace(' ','_'),'%s: %s in %s, %s in %s'%(p0[2],p0[3],(CORE if core else BUILDS)[0][0],p1[3],nm)))
    c.extra['records_compared']=ncmp; c.extra['builds']=[b[0] for b in BUILDS+CORE]
    # table generators
    tb={}
    for nm,cxx,fl in [BUILDS[i] for i in ((0,1,4,6,7,10,11) if not th else range(len(BUILDS)))]:
        def one(g,nm=nm,cxx=cxx,fl=fl):
            t='%s_%d'%(g,len(nm)); e=c.path('g'+t+cxx); o=c.path('g'+t+cxx+'.tbl'); k=tolerant(nm==BUILDS[0][0],lambda:c.compile([cxx]+fl+com+['-I'+REPO+'/include',REPO+'/src/%s_gen.cpp'%g,'-o',e]) or 1)
            if not k: return None
            rc,_,er=lib.sh([e,o],timeout=300,cwd=c.dir)
            return g,nm,(open(o,'rb').read() if rc==0 and os.path.exists(o) else None)
        for g,n,txt in [x for x in c.par([lambda g=g:one(g) for g in ('posit8','posit10','posit12','binary8')]) if x]:
            if txt is None: c.viol.append(('builds|generator|'+g,('builds|generator|%s|%s'%(g,n)).replace(' ','_'),'the generator fails in this build')); continue
            if g in tb and tb[g][1]!=txt:
                w=[j for j,(p,q) in enumerate(zip(tb[g][1].split(),txt.split())) if p!=q]; c.viol.append(('builds|table|'+g,('builds|table|%s|%s'%(g,n)).replace(' ','_'),'tables of %s and %s differ at entry %s'%(tb[g][0],n,w[:3])))
            tb.setdefault(g,(n,txt))
    c.extra['table_bytes_compared']={g:len(t[1]) for g,t in tb.items()}
    # constant expressions
    jobs=[]; kcs=cs[:48] if not th else cs; kn=8 if not th else 24; kp=[kcs[i::kn] for i in range(kn)]
    for i,p in enumerate(kp):
        open(c.path('k%d.h'%i),'w').write(genconfigs.header(p))
        for cxx,std in (('g++','14'),('clang++','17')):
            def mk(i=i,cxx=cxx,std=std):
                try: return c.single('c22k',cxx=cxx,flags=['-std=gnu++'+std,'-O1','-w','-march=native']+(['-fconstexpr-steps=100000000'] if cxx=='clang++' else []),sup=sup,tag='k%s%d'%(std,i),define=['-DKSEED=%d'%c.seed,'-include',c.path('k%d.h'%i)])
                except (HarnessError,lib.RepoBuildError) as e: return e
            jobs.append(mk)
    ks=c.par(jobs); ok=[k for k in ks if isinstance(k,str)]; c.extra['constant_expression_programs']={'built':len(ok),'not a constant expression':len(ks)-len(ok)}
    for k in ks: # evaluation at compile time hit an undefined operation that the run time result hides
        m=None if isinstance(k,str) else re.search(UNDEF,k.err)
        if m: c.viol.append(('builds|constant-expression','builds|constant-expression|'+re.sub(r'[^A-Za-z]+','_',m.group(0))[:60],'a constant expression is rejected: '+m.group(0)))
    c.run(ok)

@prop('C23','exploration','one evaluation = one recorded result compared with the result of the same event in the first sequential run; distinct_nontrivial = distinct (event, kind of schedule)',['ThreadSanitizer sees every access of the instrumented headers and tables'])
def c23(c):
    th=c.tier=='thorough'; cs=genconfigs.configs('thorough',c.seed,100,160) if th else genconfigs.base()[:36]; ns=12 if th else 6
    def build(tag,cxx,fl):
        sup=c.support(cxx=cxx,flags=[f for f in fl if 'sanitize' in f]+['-pthread']); objs=lib.tables(c,['posit8','posit10','posit12','binary8'],cxx=cxx,flags=['-std=gnu++11']+fl,tag=tag)
        if c.viol: return []
        o=c.path('c23b%s.o'%tag); c.compile([cxx,'-std=gnu++14']+fl+['-I'+REPO+'/include','-c',HERE+'/c23b.cpp','-o',o])
        B=[cxx,'-std=gnu++14']+fl+['-I'+REPO+'/include','-c']; own=[o]
        for nm,src,x in [('h',HERE+'/c23s.cpp',['-DSOFTHALF','-mno-f16c']),('s',HERE+'/c23s.cpp',['-mavx2'] if has('avx2') else [])]+([('v',REPO+'/src/simdposit8.cpp',['-mavx2'])] if has('avx2') else []):
            o=c.path('c23%s%s.o'%(nm,tag)); c.compile(B+x+[src,'-o',o]); own.append(o)
        return c.shard('c23',ns,cs,cxx=cxx,flags=['-std=gnu++14']+fl+['-pthread'],sup=sup,extra=objs+own,tag=tag)
    races=[]
    def onerr(name,rc,o,er):
        hit=False
        for m in re.finditer(r'WARNING: ThreadSanitizer: ([^\n(]*)(.*?)^=====',er,re.S|re.M):
            fr=re.search(r'(%s/\S+?):(\d+)'%re.escape(REPO),m.group(2)); w='%s:%s'%(os.path.relpath(fr.group(1),REPO),fr.group(2)) if fr else 'unknown place'
            k='tsan|%s|%s'%(w,m.group(1).strip().replace(' ','_')); c.viol.append((k,k,m.group(2)[:700].replace('\n',' / '))); hit=True
        return hit
    T=['-O1','-g1','-w','-march=native','-ffp-contract=off','-fsanitize=thread']
    try: ts=build('tsan','clang++',T)
    except lib.RepoBuildError as e: c.extra['clang_rejects']=str(e)[:300]; ts=build('tsang','g++',T)
    if c.viol: return
    probe=lib.sh([ts[0],'1','1','w','1'],env=c.env,timeout=30); pre=['setarch','-R'] if 'unexpected memory mapping' in probe[2] else []
    env={'TSAN_OPTIONS':'halt_on_error=0:exitcode=0:history_size=4','MON_NOSIG':'1'}
    reps=4 if th else 1
    c.run([pre+[x,'8','2',m,str(60 if th else 12)] for x in ts for m in ('cold','warm') for _ in range(reps)],env=env,on_stderr=onerr)
    fast=build('fast','g++',['-O2','-w','-march=native','-ffp-contract=off'])
    c.run([[x,str(t),str(6 if th else 3),m,str(400 if th else 60)] for x in fast for t,m in ((8,'cold'),(16,'warm'))])
    c.extra['race_detector']='ThreadSanitizer, 8 threads, cold and warm start'; c.extra['schedules']='orders: shuffled, reversed, locally shuffled, operation by operation; each thread its own'

LIST=[(8,8,2,8,'WithNanInf'),(16,4,1,16,'WithNan'),(8,8,0,8,'WithNan'),(8,8,0,16,'WithInf'),(8,8,1,16,'WithNan'),(8,8,3,16,'WithInf'),(16,12,3,16,'WithNan'),(16,12,2,16,'WithNan'),(16,10,2,16,'WithInf'),
 (16,16,1,16,'WithNan'),(16,16,0,32,'WithNanInf'),(32,6,1,32,'WithNan'),(16,6,0,8,'WithNan'),(8,3,0,8,'WithInf'),(8,5,2,8,'WithNanInf'),(32,14,4,64,'WithInf')]
LISTMORE=[(8,n,es,fb,sp) for n in (3,4,5,6,7,8) for es in range(0,min(4,n-2)) for fb in (8,32) for sp in ('WithNan','WithInf','WithNanInf')]+[(h,n,es,fb,sp) for n in (9,10,11,12,13,15,16) for es in (0,1,2,5) for h,fb in ((16,16),(32,32),(16,64)) for sp in ('WithNan','WithInf','WithNanInf')]
FORMATS=['','Uiobkervup','iobkervup','NUvI2Ai','N2Aiuk','UBiokeruv','BI2Aiv','H','NI2Apob']
@prop('C27','exploration','one evaluation = one printed field (or binary number, or overview entry) of the real listing tool parsed and judged; distinct_nontrivial = distinct (configuration, format, pattern, field) of finite patterns',[REFA,'decimal text of the expected double is formatted by the C++ standard library'])
def c27(c):
    import random
    cs=list(LIST)
    if c.tier=='thorough': r=random.Random(c.seed); cs+=r.sample([x for x in LISTMORE if x not in cs],72)
    sup=c.support(); mon_=c.single('c27',sup=sup,flags=O2); lib.tables(c,['posit8','posit10','posit12'])
    if c.viol: return
    flags=['-std=gnu++14','-O1','-march=native','-w','-ffp-contract=off','-I'+REPO+'/include','-I'+REPO+'/extern','-I'+REPO+'/src']
    # beside the generated tables, which are found before those of src/; errors are still reported at their place in the tree
    src=c.path('listposits.cpp'); open(src,'w').write('#line 1 "%s/src/listposits.cpp"\n'%REPO+open(REPO+'/src/listposits.cpp').read()); entry=c.path('entry.cpp'); open(entry,'w').write('#undef main\nint main() { listposits(); return 0; }\n')
    jobs=[('int%d_t,%d,%d,uint%d_t,%s'%x,x,['-DPOSIT_TYPE=int%d_t,%d,%d,uint%d_t,PositSpec::%s'%x]) for x in cs]
    jobs+=[(n,x,['-DPOSIT_TYPEID='+n]) for n,x in (('posit8',(8,8,0,8,'WithNan')),('posit10',(16,10,2,16,'WithNan')),('posit12',(16,12,2,16,'WithNan')))]
    SAN=['-fsanitize=address,undefined','-fno-sanitize-recover=all']
    jobs.append(('default type',(8,8,2,8,'WithNanInf'),SAN)); jobs.append(('int16_t,13,5,uint32_t,WithNan',(16,13,5,32,'WithNan'),SAN+['-DPOSIT_TYPE=int16_t,13,5,uint32_t,PositSpec::WithNan'])); jobs.append(('interpreter entry',(8,8,1,16,'WithNan'),['-DPOSIT_TYPE=int8_t,8,1,uint16_t,PositSpec::WithNan','-DLISTFORMAT=NUiIbv','-Dmain=tool_main','-include',c.path('listposits.cpp'),entry]))
    runs=[]
    def one(j,k):
        n,x,d=j; exe=c.path('list%d'%k); c.compile(['g++']+flags+d+([] if entry in d else [src])+['-o',exe]); out=[]
        fs=FORMATS if n!='interpreter entry' else ['']
        for m,fo in enumerate(fs):
            w=c.path('w%d_%d'%(k,m)); os.mkdir(w); rc,o,e=lib.sh([exe]+([fo] if fo else []),timeout=200,cwd=w,env=c.env); open(w+'/out','w').write(o)
            if rc=='timeout': c.viol.append(('hang|'+n,'hang|%s|%s'%(n,fo),'the listing did not end in 200 s')); continue
            out.append([mon_,n,str(x[1]),str(x[2]),str(['WithNan','WithInf','WithNanInf'].index(x[4])),str(x[0]),str(x[3]),'0' if n.startswith('posit') else '1',fo or ('NUiIbv' if n=='interpreter entry' else 'iv'),w+'/out',w+'/tmp',str(rc)])
        return out
    for l in c.par([lambda j=j,k=k:one(j,k) for k,j in enumerate(jobs)]): runs+=l
    c.run(runs); c.extra['listings_parsed']=len(runs); c.extra['configurations']=len(jobs)

TU28=[('g++ O1 c++14',0,'g++',['-std=gnu++14','-O1']),('g++ O0 c++11',0,'g++',['-std=gnu++11','-O0']),('g++ O3 c++20',1,'g++',['-std=gnu++20','-O3']),('clang O2 c++17',1,'clang++',['-std=gnu++17','-O2']),('g++ O2 c++17 without inlining',0,'g++',['-std=gnu++17','-O2','-fno-inline']),
 ('g++ O0 c++14, 8 bit float',2,'g++',['-std=gnu++14','-O0']),('clang O1 c++20, 8 bit float',2,'clang++',['-std=gnu++20','-O1']),('g++ O2 c++14, vectors',3,'g++',['-std=gnu++14','-O2']),('clang O0 c++17, vectors',3,'clang++',['-std=gnu++17','-O0'])]
@prop('C28','exploration','one evaluation = one observation of an object of the real types (its bytes, a copy, an element of a container, a neighbour, what another translation unit received) judged against its pattern; distinct_nontrivial = distinct (type, observation, patterns) with a non-zero pattern',['the C++ standard library containers and algorithms are right'])
def c28(c):
    th=c.tier=='thorough'; sup=c.support(); objs=lib.tables(c,['posit8','posit10','posit12','binary8'])
    if c.viol: return
    # values as objects
    cs=genconfigs.configs('thorough',c.seed,100,240) if th else genconfigs.base()[:48]; ns=24 if th else 8; ex=[]
    for tag,d,fl in (('',[],O2),('_lazy',['-DPOSITMUL'],['-std=gnu++17','-O1','-march=native','-w','-ffp-contract=off']),('_san',[],['-std=gnu++14','-O1','-w','-march=native','-fsanitize=address,undefined','-fno-sanitize-recover=all'])):
        ex+=[[x,'1' if i==0 else '0'] for i,x in enumerate(c.shard('c28v',ns,cs if not tag else cs[:len(cs)//3],sup=sup,extra=objs,tag=tag,define=d,flags=fl))]
    c.run(ex); c.extra['configurations']=len(cs)
    # one program of many translation units
    h=c.path('tu.h'); open(h,'w').write(genconfigs.header(genconfigs.base()[:40 if th else 16])); lst=[t for t in TU28 if t[1]!=3 or has('avx2')]; ok=[]; bad=[]
    def unit(i):
        n,k,cxx,fl=lst[i]; o=c.path('tu%d.o'%i)
        try: c.compile([cxx]+fl+['-w','-march=native','-ffp-contract=off','-I'+REPO+'/include','-I'+HERE,'-include',h,'-DKIND=%d'%k,'-DTUN=%d'%i,'-DHOW="%s"'%n,'-c',HERE+'/c28t.cpp','-o',o]); ok.append((i,o))
        except lib.RepoBuildError as e: bad.append((n,e))
    c.par([lambda i=i:unit(i) for i in range(len(lst))]); ok.sort()
    if bad: c.extra['translation_units_rejected']={n:str(e)[:200] for n,e in bad}
    if len(ok)<2: raise bad[0][1]
    sv=c.path('simdposit8.o'); own=[]
    if has('avx2'): c.compile(['g++']+lib.TABFLAGS+['-mavx2','-I'+REPO+'/include','-c',REPO+'/src/simdposit8.cpp','-o',sv]); own=[sv]
    c.compile(['g++','-std=gnu++14','-O1','-w','-I'+HERE,'-DTUS(X)='+' '.join('X(%d)'%i for i,_ in ok),'-c',HERE+'/c28.cpp','-o',c.path('c28main.o')])
    exe=c.path('c28'); rc,o,e=lib.sh(['g++',c.path('c28main.o')]+[x for _,x in ok]+list(objs)+own+list(sup)+['-o',exe])
    c.extra['translation_units']=[lst[i][0] for i,_ in ok]
    if rc!=0:
        sym=sorted(set(re.findall(r"(?:multiple definition of|undefined reference to) [`']([^\n]*)'",e)))
        if not sym: raise HarnessError('link failed: '+e[-2000:])
        for s in sym[:8]: c.viol.append(('link|'+s,'link|'+re.sub(r'[^A-Za-z0-9_:<>,]+','_',s)[:120],'two translation units that include the headers do not make one program: '+s))
        return
    c.run([exe])

EIGEN='/usr/include/eigen3'
@prop('C29','exploration','one evaluation = one element, reduction, trait or printed token of a real Eigen matrix of posits compared with the scalar posit; distinct_nontrivial = distinct (configuration, operation, element) whose expected value is not zero',['the installed Eigen is right','the scalar posit is right (C01-C10 and C26 judge it)'])
def c29(c):
    th=c.tier=='thorough'; cs=genconfigs.configs('thorough',c.seed,60,100)[:96] if th else genconfigs.base()[:16]; sup=c.support(); fl=['-std=gnu++14','-O1','-w','-march=native','-ffp-contract=off','-I'+EIGEN]
    if not os.path.exists(EIGEN+'/Eigen/Core'): raise HarnessError('Eigen is not installed')
    A,B=c.par([lambda:c.shard('c29',24 if th else 8,cs,sup=sup,flags=fl),lambda:c.shard('c29',2,cs[5:7],sup=sup,flags=fl+['-fsanitize=address,undefined','-fno-sanitize-recover=all'],tag='_san')])
    c.run(A); c.run(B,env={'MON_DIV':'4'}); c.extra['configurations']=len(cs)

def main(a):
    if not a or a[0] not in P: print('unknown property',a); return 2
    tier=a[1] if len(a)>1 else os.environ.get('VERIF_TIER','quick')
    seed=int(os.environ.get('VERIF_SEED','1') or 1)
    fn,level,rule,ass=P[a[0]]
    c=Check(a[0],tier,seed)
    try:
        try: fn(c)
        except lib.RepoBuildError as e: c.viol.append(('does-not-build',e.key,'the sources under test do not compile: %s'%e))
        return lib.conclude(c,level,rule,ass)
    except HarnessError as e:
        print('HARNESS-ERROR property=%s %s'%(a[0],e)); return 2
    except Exception:
        traceback.print_exc(); print('HARNESS-ERROR property=%s'%a[0]); return 2
    finally: c.close()
