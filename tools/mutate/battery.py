#!/usr/bin/env python3
# battery.py ALIVE OUT [jobs]: run the quick checks on every mutant in ALIVE until one reports it.
import sys,json,subprocess,tempfile,shutil,os,threading,queue
V=os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
muts=[json.loads(l) for l in open(sys.argv[1])]
done=set()
if os.path.exists(sys.argv[2]):
    for l in open(sys.argv[2]): m=json.loads(l); done.add((m['File'],m['Off'],m['New']))
muts=[m for m in muts if (m['File'],m['Off'],m['New']) not in done]
J=int(sys.argv[3]) if len(sys.argv)>3 else 2
env=dict(os.environ,GOTOOLCHAIN='local',GOPROXY='off',GOFLAGS='-mod=mod -buildvcs=false',GOWORK='off')
R='P03 P20 P12 P04 P11 P06 P14 P05 P27 P15 P13'.split()
W='P20 P02 P10 P08 P14 P19 P30 P12 P15 P09'.split()
M='P02 P03 P20 P06 P30 P19'.split()
E='P21 P20 P14 P12 P02 P15 P19 P22 P03'.split()
S='P17 P18 P24'.split()
def order(f):
    if f.startswith('cmd/'): return ['P22']
    if f.startswith('internal/'): return ['P16','P03','P02','P28']
    if f=='reader.go': return R
    if f=='writer.go': return W
    if f.startswith('enum') or f in('options.go','header.go','trace.go','checksum32.go','errors.go'): return E
    return M
q=queue.Queue(); [q.put(m) for m in muts]
out=open(sys.argv[2],'a'); lock=threading.Lock()
def work():
    d=tempfile.mkdtemp(prefix='mutb.',dir='/tmp')
    subprocess.run(['git','clone','-q','/repo',d+'/r'],check=True)
    while True:
        try: m=q.get_nowait()
        except queue.Empty: break
        p=d+'/r/'+m['File']; b=open(p,'rb').read()
        open(p,'wb').write(b[:m['Off']]+m['New'].encode()+b[m['End']:])
        m['by']=None; m['ran']=[]
        try:
            for pr in order(m['File']):
                r=subprocess.run([V+'/check.sh',pr,'quick','20'],env=dict(env,VERIF_REPO=d+'/r'),capture_output=True,text=True)
                m['ran'].append(pr)
                if r.returncode==1 and 'VIOLATION' in r.stdout: m['by']=pr; break
                if r.returncode not in (0,1): m['by']='rc%d'%r.returncode; m['out']=(r.stdout+r.stderr)[-500:]; break
        finally: open(p,'wb').write(b)
        with lock: out.write(json.dumps(m)+'\n'); out.flush(); print(m['by'],m['File'],m['Line'],m['Func'],m['Kind'],repr(m['New'][:60]),flush=True)
    shutil.rmtree(d)
ts=[threading.Thread(target=work) for _ in range(J)]
[t.start() for t in ts]; [t.join() for t in ts]
