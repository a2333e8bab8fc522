#!/usr/bin/env python3
"""Writes seeded/<id>/ from the table in seeds.py (run by hand). usage: mkseed.py [id...]"""
import os,sys,subprocess,json,tempfile,shutil
ROOT=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
import seeds
DEMO='''#!/bin/bash
# exit 0 when the behaviour is right, 1 when it is not
set -u
here=$(cd "$(dirname "$0")" && pwd); repo=$(pwd)
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
%s
'''
def build(b):
    fl=b.get('flags','-std=gnu++14 -O1 -march=native'); l=[]
    if 'script' in b: return DEMO%b['script']
    objs=''
    for t in b.get('tables',()):
        l.append('g++ -std=gnu++11 -O1 -march=native -w -I"$repo/include" "$repo/src/%s_gen.cpp" -o "$d/gen_%s" && "$d/gen_%s" "$d/%s_tbl.cpp" >/dev/null || exit 2'%(t,t,t,t))
        objs+=' "$d/%s_tbl.cpp" "$repo/src/%s.cpp"'%(t,t)
    for s in b.get('srcs',()): objs+=' "$repo/src/%s"'%s
    l.append('%s %s -w -I"$repo/include" "$here/demo.cpp"%s -o "$d/demo" || exit 2'%(b.get('cxx','g++'),fl,objs))
    l.append('timeout 120 "$d/demo" > "$d/out" 2>&1; rc=$?; tail -5 "$d/out"; [ $rc = 0 ] && exit 0; exit 1')
    return DEMO%'\n'.join(l)
for b in seeds.S:
    if len(sys.argv)>1 and b['id'] not in sys.argv[1:]: continue
    t=tempfile.mkdtemp(prefix='mkseed'); 
    try:
        subprocess.check_call('git -C /repo archive HEAD | tar -x -C %s && cd %s && git init -q && git add -A -f && git -c user.name=a -c user.email=a@b commit -qm x'%(t,t),shell=True)
        for f,o,n in b['edits']:
            p=os.path.join(t,f); s=open(p).read()
            assert s.count(o)==1,(b['id'],f,s.count(o),o)
            open(p,'w').write(s.replace(o,n))
        d=os.path.join(ROOT,'seeded',b['id']); os.makedirs(d,exist_ok=True)
        open(d+'/patch.diff','w').write(subprocess.check_output(['git','-C',t,'diff']).decode())
        open(d+'/demo.sh','w').write(build(b)); os.chmod(d+'/demo.sh',0o755)
        if 'demo' in b: open(d+'/demo.cpp','w').write(b['demo'].lstrip())
        json.dump(dict(property=b['prop'],needs=b['needs'],what_it_breaks=b['what']),open(d+'/meta.json','w'),indent=1)
        print('wrote',b['id'])
    finally: shutil.rmtree(t)
