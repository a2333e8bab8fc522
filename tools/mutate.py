#!/usr/bin/env python3
"""Mutation testing of the checks (run by hand, never by a check).
usage: mutate.py N SEED WORKERS OUT [file-regex]
Each mutant is applied to a scratch copy of /repo; those that build and pass the stable tests are run against the checks
(VERIF_REPO points them at the copy) until one reports a violation. OUT gets one json line per mutant."""
import sys,os,re,json,random,subprocess,shutil,threading,queue,time
ROOT=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F={'include/posit.h':'P','include/positeigen.h':'C29','include/unpacked.h':'U','include/floattraits.hpp':'F','include/bithippop.hpp':'B','include/typehelpers.hpp':'B','include/positf.h':'C20','include/anyfloat.hpp':'C15','include/float16native32.hpp':'C16','include/fixedtraits.hpp':'C13','include/floatconst2bits.hpp':'C21',
 'include/posit8.hpp':'T','include/posit10.hpp':'T','include/posit12.hpp':'T','include/binary8.hpp':'C15','include/simdposit8.hpp':'C25 C18','src/posit8.cpp':'T','src/posit10.cpp':'T','src/posit12.cpp':'T','src/binary8.cpp':'C15','src/simdposit8.cpp':'C25','src/posit8_gen.cpp':'T','src/posit10_gen.cpp':'T','src/posit12_gen.cpp':'T','src/binary8_gen.cpp':'C15','src/listposits.cpp':'C27'}
PC='C02 C01 C10 C08 C09 C07 C04 C05 C06 C03 C19 C26 C17 C13 C24 C20 C14'.split()
ORD={'P':PC,'U':'C14 C12 C13 C01 C02 C08 C16 C15 C04 C05 C06 C07 C03 C17 C24 C20'.split(),'F':'C12 C13 C14 C15 C16 C02 C01'.split(),'B':'C21 C02 C01 C14 C12 C04 C05 C06'.split(),'C20':['C20'],'C15':['C15'],'C16':['C16'],'C13':['C13','C12','C14'],'C21':['C21','C12'],'T':['C11','C24','C25'],'C25':['C25'],'C27':['C27']}
TAIL=['C22','C23','C18','C28']
def mutants(path,txt):
    out=[]; incom=False; dead=0
    for i,l in enumerate(txt.split('\n')):
        s=l.strip()
        if dead:
            if re.match(r'#\s*if',s): dead+=1
            elif re.match(r'#\s*endif',s): dead-=1
            elif re.match(r'#\s*else',s) and dead==1: dead=0
            continue
        if re.match(r'#\s*if 0\b|#ifdef _MSC_VER|#ifdef _MSVC_VER|#ifdef FLT128_MAX',s): dead=1; continue
        if len(re.findall(r'\d+',s))>12: continue
        if '/*' in l and '*/' not in l: incom=True
        if '*/' in l: incom=False; continue
        if incom or not s or s.startswith(('//','#','*','template','using','typedef','static_assert')): continue
        c=l.split('//')[0]
        def put(a,b,new,kind): out.append((i,l[:a]+new+l[b:],kind))
        for m in re.finditer(r'(?<![<>=!])(<=|>=|==|!=)(?![=<>])',c):
            for n in {'<=':['<'],'>=':['>'],'==':['!='],'!=':['==']}[m.group()]: put(m.start(),m.end(),n,m.group()+' to '+n)
        for m in re.finditer(r'(?<=\s)(<|>)(?=\s)',c): put(m.start(),m.end(),m.group()+'=',m.group()+' to '+m.group()+'=')
        for m in re.finditer(r'(?<=[\w\) ])(&&|\|\|)(?=[\w\(! ])',c): n='||' if m.group()=='&&' else '&&'; put(m.start(),m.end(),n,m.group()+' to '+n)
        for m in re.finditer(r'(?<=[\w\)]) ?([+-]) ?(?=[\w\(])',c):
            n='-' if m.group(1)=='+' else '+'; put(m.start(1),m.end(1),n,m.group(1)+' to '+n)
        for m in re.finditer(r'(?<![<>])(<<|>>)(?![<>=])(?=\s*[\w\(])',c):
            if 'ons' in c or 'ostream' in c or 'std::' in c: continue
            n='>>' if m.group()=='<<' else '<<'; put(m.start(),m.end(),n,m.group()+' to '+n)
        for m in re.finditer(r'(?<![\w.])(\d+)(?![\w.])',c):
            v=int(m.group()); put(m.start(),m.end(),str(v+1),'%d to %d'%(v,v+1))
            if v>0: put(m.start(),m.end(),str(v-1),'%d to %d'%(v,v-1))
        for m in re.finditer(r'!(?=[\w\(])',c): put(m.start(),m.end(),'','drop !')
        for m in re.finditer(r'(?<=[\(=?:,] )-(?=[\w\(])|(?<=return )-(?=[\w\(])|(?<=\()-(?=[\w\(])',c): put(m.start(),m.end(),'','drop -')
        for m in re.finditer(r'\b(true|false)\b',c): put(m.start(),m.end(),'false' if m.group()=='true' else 'true','flip '+m.group())
        if re.match(r'^\s*[\w.\->\[\]]+\s*([-+|&^]|<<|>>)?=[^=].*;\s*$',c): put(len(l)-len(l.lstrip()),len(l),';','delete statement')
        m=re.match(r'^(\s*)(else )?if ?\(((?:[^()]|\([^()]*\))*)\)',c)
        if m: put(m.start(3),m.end(3),'false && ('+m.group(3)+')','condition never'); put(m.start(3),m.end(3),'true || ('+m.group(3)+')','condition always')
        for m in re.finditer(r'\? ?([^?:]+?) : ([^?:;]+);',c): put(m.start(1),m.end(2),m.group(2)+' : '+m.group(1),'swap branches')
    return [(path,)+x for x in out]
class W:
    def __init__(s,k):
        s.d='/tmp/mut/w%d'%k; shutil.rmtree(s.d,ignore_errors=True); os.makedirs(s.d); s.repo=s.d+'/repo'; s.vp=s.d+'/vp'
        subprocess.check_call(['cp','-a','/repo',s.repo]); subprocess.check_call(['cp','-a','/opt/vp',s.vp])
        subprocess.call(['rm','-rf',s.repo+'/_build'])
        for f in ('build.sh','test.sh','runtests.py','results.py'):
            p=s.vp+'/'+f; t=open(p).read().replace('/repo',s.repo).replace('/opt/vp',s.vp).replace('-j8','-j3'); open(p,'w').write(t)
    def tests(s):
        o=s.d+'/out.json'
        try: subprocess.call(['bash',s.vp+'/test.sh',o],stdout=subprocess.DEVNULL,stderr=subprocess.DEVNULL,timeout=600)
        except subprocess.TimeoutExpired: return ['timeout']
        try: r=set(json.load(open(o))['passed'])
        except Exception: return ['none']
        return sorted(STABLE-r)
    def run(s,m):
        path,line,new,kind=m; p=s.repo+'/'+path; orig=open(p).read(); L=orig.split('\n'); old=L[line]; L[line]=new; r=dict(file=path,line=line+1,kind=kind,old=old.strip(),new=new.strip())
        try:
            open(p,'w').write('\n'.join(L))
            t=s.tests()
            if t: r['result']='tests'; return r
            order=ORD[F[path]]; order=order+[c for c in TAIL if os.environ.get('TAIL')]
            env=dict(os.environ,VERIF_REPO=s.repo,VERIF_JOBS='3',VERIF_EVIDENCE=s.d+'/ev'); r['ran']=[]
            two=[(c,'40') for c in order if len(order)>3]+[(c,'') for c in order if len(order)<=3 or os.environ.get('FULL')]
            for c,mini in two:
                env['VERIF_MINI']=mini; t0=time.time(); q=subprocess.run([ROOT+'/check',c,'quick'],env=env,stdout=subprocess.PIPE,stderr=subprocess.STDOUT)
                r['ran'].append([c+('' if not mini else ' mini'),q.returncode,round(time.time()-t0)])
                if q.returncode==1: r['result']=c; return r
                if q.returncode!=0: r['result']='harness '+c; r['msg']=q.stdout.decode('utf8','replace')[:600]; return r
            r['result']='SURVIVED'; return r
        finally: open(p,'w').write(orig)
STABLE=json.load(open('/opt/vp/BASELINE.json')); STABLE=set(STABLE.get('stable') or STABLE.get('passed'))
if __name__=='__main__':
    n,seed,nw,out=int(sys.argv[1]),int(sys.argv[2]),int(sys.argv[3]),sys.argv[4]; fre=sys.argv[5] if len(sys.argv)>5 else '.'
    per={f:mutants(f,open('/repo/'+f).read()) for f in F if re.search(fre,f)}
    print({f:len(v) for f,v in per.items()},sum(map(len,per.values())))
    rng=random.Random(seed); allm=[m for v in per.values() for m in v]; rng.shuffle(allm); q=queue.Queue()
    done=set()
    if os.path.exists(out):
        for l in open(out): j=json.loads(l); done.add((j['file'],j['line'],j['new']))
    for m in [m for m in allm if (m[0],m[1]+1,m[2].strip()) not in done][:n]: q.put(m)
    lock=threading.Lock(); cnt={}
    def work(k):
        w=W(k)
        b=w.tests(); assert not b,b
        while not os.path.exists('/tmp/mut/stop'):
            try: m=q.get_nowait()
            except queue.Empty: return
            r=w.run(m)
            with lock:
                cnt[r['result']]=cnt.get(r['result'],0)+1; open(out,'a').write(json.dumps(r)+'\n')
    T=[threading.Thread(target=work,args=(k,)) for k in range(nw)]; [t.start() for t in T]; [t.join() for t in T]
    shutil.rmtree('/tmp/mut',ignore_errors=True); print(cnt)
