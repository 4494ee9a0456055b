#!/usr/bin/env python3
"""Builds /verif/seeded/<id>/ from the definitions in bugs*.py and verifies each
one: it applies to HEAD, builds, passes the existing tests, its demonstration
passes without it and fails with it; then runs the property's check on it.
usage: mkbugs.py [-n(ocheck)] [-s(kip existing)] [-j N] id-prefix...
"""
import os, sys, json, subprocess, shutil, tempfile, glob, importlib.util, re
from concurrent.futures import ThreadPoolExecutor
HERE=os.path.dirname(os.path.abspath(__file__))
VERIF=os.path.dirname(os.path.dirname(HERE))
ENV=dict(os.environ, GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod -buildvcs=false', GOWORK='off')
BASE=json.load(open('/opt/vp/BASELINE.json'))

DEMO_SH='''#!/bin/bash
# Runs demo_test.go against the working tree in the current directory.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 99
trap 'rm -rf "$T"' EXIT
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS="-mod=mod -buildvcs=false" GOWORK=off
printf '{"Replace":{"%%s":"%%s","%%s":"%%s"}}' "$PWD/zz_demo_test.go" "$D/demo_test.go" "$PWD/zz_util_test.go" "$D/util_test.go" >"$T/o.json"
%s -vet=off -count=1 -timeout 120s -overlay "$T/o.json" -run '^TestDemo$' .
'''
def sh(cmd,cwd,env=ENV,timeout=900):
    try:
        p=subprocess.run(cmd,cwd=cwd,env=env,shell=isinstance(cmd,str),stdout=subprocess.PIPE,stderr=subprocess.STDOUT,timeout=timeout)
        return p.returncode,p.stdout.decode('utf8','replace')
    except subprocess.TimeoutExpired as e:
        return 124,(e.stdout or b'').decode('utf8','replace')+'TIMEOUT'

def build(b,nocheck):
    d=tempfile.mkdtemp(prefix='seed.',dir='/tmp')
    try:
        r=os.path.join(d,'repo'); 
        sh(['git','clone','-q','/repo',r],d)
        for f,old,new in b['edits']:
            p=os.path.join(r,f); s=open(p).read()
            if s.count(old)!=1: return 'EDIT: %d matches in %s: %r'%(s.count(old),f,old)
            open(p,'w').write(s.replace(old,new))
        rc,diff=sh(['git','diff'],r)
        tgt=os.path.join(d,'seed'); os.mkdir(tgt)
        open(tgt+'/patch.diff','w').write(diff)
        if 'sh' in b:
            open(tgt+'/demo.sh','w').write(b['sh'])
        else:
            open(tgt+'/demo.sh','w').write(DEMO_SH%(b.get('arch','')+'go test'+(' -race' if b.get('race') else '')))
            body=b['demo']
            imps=set(re.findall(r'\b(bytes|bufio|io|testing|sync|time|errors|strings|fmt|os|runtime|encoding/binary|fs|atomic|json|zlib|gzip|stdflate|adler32|crc32|syscall|binary|zerolog)\.',body))
            m={'binary':'encoding/binary','fs':'io/fs','atomic':'sync/atomic','json':'encoding/json','zlib':'compress/zlib','gzip':'compress/gzip','stdflate':'compress/flate','adler32':'hash/adler32','crc32':'hash/crc32','zerolog':'github.com/rs/zerolog'}
            lines=[]
            for i in sorted(imps|{'testing'}):
                if i=='stdflate': lines.append('\tstdflate "compress/flate"')
                else: lines.append('\t"%s"'%m.get(i,i))
            src='package flate_test\n\nimport (\n'+'\n'.join(lines)+'\n\n\t"github.com/chronos-tachyon/flate"\n)\n\n'+body+'\n'
            open(tgt+'/demo_test.go','w').write(src)
            shutil.copy(HERE+'/util_test.go.txt',tgt+'/util_test.go')
            sh('gofmt -w demo_test.go',tgt)
        for f,c in b.get('files',{}).items(): open(tgt+'/'+f,'w').write(c)
        os.chmod(tgt+'/demo.sh',0o755)
        json.dump({'property':b['prop'],'needs':b['needs'],'what_it_breaks':b['breaks']},open(tgt+'/meta.json','w'),indent=1)
        rc,o=sh('go build ./... && go vet . 2>&1 | tail -3',r)
        rc,o=sh('go build ./...',r)
        if rc: return 'BUILD '+o[-800:]
        # demo location
        dd=os.path.join(d,'elsewhere'); shutil.copytree(tgt,dd)
        for f in ('patch.diff','meta.json'): os.remove(dd+'/'+f)
        rc,o=sh('go test -json -vet=off -count=1 -timeout 5m ./...',r)
        passed=set()
        for l in o.splitlines():
            try: e=json.loads(l)
            except Exception: continue
            if e.get('Action')=='pass' and e.get('Test'): passed.add(e['Test'])
            if e.get('Action')=='fail' : return 'EXISTING TEST FAILS '+str(e.get('Test'))+str(e.get('Package'))
        rc,o=sh(['bash',dd+'/demo.sh'],r,timeout=300)
        if rc==0: return 'DEMO PASSES WITH PATCH '+o[-600:]
        tail=o[-700:]
        rc,_=sh('git checkout -q -- .',r)
        rc,o=sh(['bash',dd+'/demo.sh'],r,timeout=300)
        if rc!=0: return 'DEMO FAILS WITHOUT PATCH '+o[-1500:]
        if '[build failed]' in tail: return 'demo build fails with patch '+tail
        out=os.path.join(VERIF,'seeded',b['id'])
        if os.path.exists(out): shutil.rmtree(out)
        shutil.copytree(tgt,out)
        if nocheck: return 'kept (unchecked)'
        rc,o=sh('git apply '+out+'/patch.diff',r)
        if rc: return 'APPLY '+o
        res=[]
        for p in b.get('check',[b['prop']]):
            rc,o=sh(['/verif/check.sh',p,'quick'],'/verif',env=dict(ENV,VERIF_REPO=r,VERIF_EVIDENCE_DIR=d+'/ev'),timeout=900)
            v=[l for l in o.splitlines() if l.startswith('VIOLATION')]
            res.append('%s: rc=%d %s'%(p,rc,('CAUGHT' if rc==1 and v else 'MISSED'+o[-300:])))
        return ' ; '.join(res)
    finally:
        shutil.rmtree(d,ignore_errors=True)

def main():
    args=sys.argv[1:]; nocheck=False; skip=False; j=2
    while args and args[0].startswith('-'):
        a=args.pop(0)
        if a=='-n': nocheck=True
        if a=='-s': skip=True
        if a=='-j': j=int(args.pop(0))
    if not args: sys.exit(__doc__)
    bugs=[]
    for f in sorted(glob.glob(HERE+'/bugs*.py')):
        s=importlib.util.spec_from_file_location('m',f); m=importlib.util.module_from_spec(s); s.loader.exec_module(m); bugs+=m.BUGS
    ids=[b['id'] for b in bugs]; assert len(ids)==len(set(ids)),'duplicate ids'
    if args: bugs=[b for b in bugs if any(b['id'].startswith(a) for a in args)]
    if skip: bugs=[b for b in bugs if not os.path.exists(VERIF+'/seeded/'+b['id'])]
    def run(b):
        try: r=build(b,nocheck)
        except Exception as e: r='EXC %r'%e
        print(b['id'],'=>',r,flush=True)
    with ThreadPoolExecutor(j) as ex: list(ex.map(run,bugs))
main()
