#!/usr/bin/env python3
# filter.py LIST OUT: which of the mutants compile and pass the repository's tests.
import sys,json,subprocess,tempfile,shutil,os,threading,queue,signal,random
muts=[json.loads(l) for l in open(sys.argv[1])]
random.Random(1).shuffle(muts)
JOBS=int(sys.argv[3]) if len(sys.argv)>3 else 4
env=dict(os.environ,GOTOOLCHAIN='local',GOPROXY='off',GOFLAGS='-mod=mod -buildvcs=false',GOWORK='off')
q=queue.Queue(); 
for m in muts: q.put(m)
out=open(sys.argv[2],'w'); lock=threading.Lock(); cnt={}
def work():
    d=tempfile.mkdtemp(prefix='mutf.',dir='/tmp')
    subprocess.run(['git','clone','-q','/repo',d+'/r'],check=True)
    while True:
        try: m=q.get_nowait()
        except queue.Empty: break
        p=d+'/r/'+m['File']; b=open(p,'rb').read()
        open(p,'wb').write(b[:m['Off']]+m['New'].encode()+b[m['End']:])
        try:
            r=subprocess.run(['go','build','./...'],cwd=d+'/r',env=env,capture_output=True,timeout=120)
            st='build'
            if r.returncode==0:
                pr=subprocess.Popen('ulimit -v 12000000; exec go test -vet=off -count=1 -timeout 30s ./...',shell=True,cwd=d+'/r',env=env,stdout=subprocess.DEVNULL,stderr=subprocess.DEVNULL,start_new_session=True)
                try: st='killed' if pr.wait(60) else 'alive'
                except subprocess.TimeoutExpired: st='killed'
                try: os.killpg(pr.pid,signal.SIGKILL)
                except ProcessLookupError: pass
                pr.wait()
        finally: open(p,'wb').write(b)
        with lock:
            cnt[st]=cnt.get(st,0)+1
            if st=='alive': out.write(json.dumps(m)+'\n'); out.flush()
            if sum(cnt.values())%100==0: print(cnt,flush=True)
    shutil.rmtree(d)
ts=[threading.Thread(target=work) for _ in range(JOBS)]
[t.start() for t in ts]; [t.join() for t in ts]; print(cnt)
