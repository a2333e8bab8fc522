#!/usr/bin/env python3
"""Which lines of the sources under test the workloads of some checks execute (development aid, not a check).
usage: cov.py OUT.json C01 C02 ...   merges into OUT.json; then  cov.py OUT.json  lists the lines never executed"""
import sys,os,json,subprocess,glob
sys.dont_write_bytecode=True
ROOT=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0,ROOT+'/harness'); os.environ.setdefault('VERIF_EVIDENCE','/tmp/ev'); os.environ.setdefault('VERIF_MINI','60')
import lib,props
out=sys.argv[1]; cov=json.load(open(out)) if os.path.exists(out) else {}
def collect(c):
    for g in glob.glob(c.dir+'/*.gcda'):
        r=subprocess.run(['gcov','-t','--json-format',g],cwd=c.dir,stdout=subprocess.PIPE,stderr=subprocess.DEVNULL)
        for l in r.stdout.splitlines():
            for f in json.loads(l)['files']:
                if not f['file'].startswith(lib.REPO+'/'): continue
                d=cov.setdefault(os.path.relpath(f['file'],lib.REPO),{})
                for x in f['lines']: d[str(x['line_number'])]=d.get(str(x['line_number']),0)+x['count']
oldc=lib.Check.compile
def compile(self,cmd):
    if cmd[0]!='g++' or any('sanitize' in x for x in cmd) or any(x.endswith(('ref.cpp','mon.cpp')) for x in cmd): return oldc(self,cmd)
    return oldc(self,[cmd[0],'--coverage','-fprofile-update=atomic']+[x for x in cmd[1:] if x not in ('-O1','-O2','-O3','-Os')]+['-O0'])
lib.Check.compile=compile
oldclose=lib.Check.close
lib.Check.close=lambda self:(collect(self),oldclose(self))[1]
if len(sys.argv)>2:
    os.environ['MON_DIV']=os.environ.get('MON_DIV','20')
    for p in sys.argv[2:]: props.main([p,'quick'])
    json.dump(cov,open(out,'w'))
else:
    for f in sorted(cov):
        src=open(lib.REPO+'/'+f).read().split('\n'); z=[int(n) for n,k in cov[f].items() if k==0]; print('==',f,'%d of %d lines never executed'%(len(z),len(cov[f])))
        for n in sorted(z): print('   %d: %s'%(n,src[n-1].strip()[:130]))
