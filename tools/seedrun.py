#!/usr/bin/env python3
"""Confirms planted bugs in scratch copies of /repo: patch touches only lines of the original tree, stable tests pass, demo is clean/patched,
and what the property's check says. usage: seedrun.py [-j N] [-c C01,C02] [-n] id...      (-n: no check, -c: these checks instead)"""
import os,sys,re,json,subprocess,tempfile,shutil,threading,queue,time
ROOT=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0,ROOT+'/tools')
import mutate
BASE='04e2d28'
def own_lines(patch):
    """lines of /repo removed by the patch that are not lines of the original tree"""
    out=[]; f=None; n=0
    for l in open(patch):
        if l.startswith('--- a/'): f=l[6:].strip()
        elif l.startswith('@@'): n=int(re.match(r'@@ -(\d+)',l).group(1))
        elif f and l.startswith('-') and not l.startswith('---'):
            b=subprocess.check_output(['git','-C','/repo','blame','-s','-L%d,%d'%(n,n),BASE+'..HEAD','--',f]).decode()
            if not b.startswith('^'): out.append(b.strip())
            n+=1
        elif l.startswith(' '): n+=1
    return out
class R(mutate.W):
    def seed(s,i):
        d=ROOT+'/seeded/'+i; prop=json.load(open(d+'/meta.json'))['property']; o=own_lines(d+'/patch.diff'); txt=open(d+'/patch.diff').read()
        only_mine=o and len(o)==len(re.findall(r'^-(?!--)',txt,re.M))
        t=tempfile.mkdtemp()
        for f in os.listdir(d):
            if f.startswith('demo') or not f.endswith(('.diff','.json')): shutil.copy(d+'/'+f,t)
        demo=lambda: subprocess.run(['bash',t+'/demo.sh'],cwd=s.repo,stdout=subprocess.PIPE,stderr=subprocess.STDOUT)
        l='%s %s'%(i,prop)
        if o: l+=' %s'%('ONLY-MY-LINES' if only_mine else 'some-my-lines')
        a=demo(); l+=' clean=%d'%a.returncode
        if subprocess.call(['git','-C',s.repo,'apply',d+'/patch.diff']): return l+' DOES NOT APPLY'
        try:
            te=s.tests(); l+=' tests='+('pass' if not te else 'FAIL:'+';'.join(te)[:120])
            b=demo(); l+=' patched=%d'%b.returncode
            msg=''
            if not NOCHECK:
                for c in CHECKS or [prop]:
                    env=dict(os.environ,VERIF_REPO=s.repo,VERIF_JOBS='3',VERIF_EVIDENCE=s.d+'/ev'); t0=time.time()
                    q=subprocess.run([ROOT+'/check',c,'quick'],env=env,stdout=subprocess.PIPE,stderr=subprocess.STDOUT); out=q.stdout.decode('utf8','replace')
                    l+=' %s=%d(%ds)'%(c,q.returncode,time.time()-t0)
                    m=[x for x in out.split('\n') if '::' in x]; msg+='\n      '+(m[0][:170] if m else '')
                    if q.returncode not in (0,1): msg+='\n'+out[-600:]
            if a.returncode: msg+='\n  clean demo: '+a.stdout.decode()[-400:]
            return l+msg
        finally:
            subprocess.call(['git','-C',s.repo,'checkout','-q','--','.']); shutil.rmtree(t)
if __name__=='__main__':
    a=sys.argv[1:]; nw=4; CHECKS=None; NOCHECK=False
    while a and a[0].startswith('-'):
        if a[0]=='-j': nw=int(a[1]); a=a[2:]
        elif a[0]=='-c': CHECKS=a[1].split(','); a=a[2:]
        elif a[0]=='-n': NOCHECK=True; a=a[1:]
    ids=[]
    for x in a: ids+=[i for i in sorted(os.listdir(ROOT+'/seeded')) if i==x or i.startswith(x+'_')]
    q=queue.Queue(); [q.put(i) for i in ids]; lock=threading.Lock()
    def work(k):
        w=None
        while True:
            try: i=q.get_nowait()
            except queue.Empty: break
            w=w or R(os.getpid()*10+k)
            r=w.seed(i)
            with lock: print(r,flush=True)
        if w: shutil.rmtree(w.d)
    T=[threading.Thread(target=work,args=(k,)) for k in range(min(nw,len(ids)))]; [t.start() for t in T]; [t.join() for t in T]
