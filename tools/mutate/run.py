import json,os,random,subprocess,sys,threading,shutil,re,queue
MAP={
'cmd/burl_backend/args.go':'C15 C28 C29 C17 C24 C25',
'cmd/burl_backend/burl_backend.go':'C24 C04 C05 C29 C12 C13 C27 C06 C08 C10 C11 C25 C28 C15 C16 C17 C02 C03 C14 C26 C21',
'cmd/burl_backend/install.go':'C17 C15 C18 C16 C29 C28 C19',
'cmd/burl_tool/burl_tool.go':'C22 C29 C08',
'examples/webextensions_backend/webextensions_example_backend.go':'C02 C03 C23 C29',
'examples/webextensions_client/webextensions_example_client.go':'C23 C02 C29',
'pkg/burl_emacs/emacs.go':'C12 C13 C24 C03 C14 C27 C05',
'pkg/burl_fileutil/escape_printf.go':'C16 C15 C28',
'pkg/burl_fileutil/fileutil.go':'C18 C19 C17 C15 C29 C16',
'pkg/burl_fuzzy/approsearch.go':'C20 C21 C22',
'pkg/burl_fuzzy/rank.go':'C21 C22 C20',
'pkg/burl_links/extract_org.go':'C06 C25 C10 C11 C05 C22 C08',
'pkg/burl_links/extract_txt.go':'C07 C10 C11 C05 C25 C22 C06',
'pkg/burl_links/flag.go':'C24 C25 C29 C15 C06 C10',
'pkg/burl_links/link_source.go':'C11 C06 C10 C24 C26 C07 C05 C14 C22',
'pkg/burl_links/link_tree.go':'C08 C06 C07 C22 C23 C26',
'pkg/burl_links/node_count.go':'C08 C06 C07 C05',
'pkg/burl_links/urlmatch_txt.go':'C09 C07 C06 C10',
'pkg/burl_rpc/burl_rpc.go':'C24 C08 C13 C10 C12 C06 C05 C11 C23',
'pkg/burl_url/url.go':'C09 C06 C07 C10',
'pkg/burl_util/multistring_flag.go':'C12 C15 C29',
'pkg/version/version.go':'C24 C17 C29',
'pkg/webextensions/client.go':'C02 C23 C04 C03',
'pkg/webextensions/frame.go':'C01 C02 C05 C03',
'pkg/webextensions/manifest.go':'C17 C28 C15',
'pkg/webextensions/native_amd64.go':'C01',
'pkg/webextensions/server.go':'C02 C03 C04 C05 C01',
'tools/burl_client/burl_client.go':'C23 C29',
}
env=dict(os.environ)
out=subprocess.run(["bash","-c",". /opt/vp/env.sh >/dev/null 2>&1; env -0"],stdout=subprocess.PIPE).stdout
for i in out.split(b"\0"):
    if b"=" in i:
        k,v=i.decode().split("=",1); env[k]=v
env.update(GOFLAGS="-mod=readonly -buildvcs=false",GOPROXY="off",VERIF_SCALE=os.environ.get("SCALE","5"))
muts=[json.loads(l) for l in open('/tmp/mut/all.jsonl')]
def skip(m):
    d=m['Desc']
    if d.startswith(('delete: log.','delete: fmt.Fprint(os.Stderr','delete: fmt.Fprintln(os.Stderr')): return True
    if d.startswith(('empty string','cut ')) and re.search(r'[a-z] [a-z]|%',d[12:]): return True
    if 'log.' in d[:20] or d.startswith('delete: fmt.Fprintf(out'): return True
    if m['File'].endswith('rank.go') and 74<=m['Line']<=84: return True
    if d.startswith('raw without') and not m['File'].endswith(('extract_org.go','extract_txt.go','urlmatch_txt.go','url.go')): return True
    return False
muts=[m for m in muts if not skip(m)]
random.Random(int(os.environ.get("RSEED","1"))).shuffle(muts)
done=set()
RES='/tmp/mut/results.jsonl'
if os.path.exists(RES):
    for l in open(RES):
        r=json.loads(l); done.add((r['File'],r['Start'],r['End'],r['Text']))
only=os.environ.get('ONLY')
muts=[m for m in muts if (m['File'],m['Start'],m['End'],m['Text']) not in done and (not only or only in m['File'])]
# round robin over files, so that each file is sampled
byf={}
for m in muts: byf.setdefault(m['File'],[]).append(m)
order=[]
import math
for f,l in byf.items():
    for i,m in enumerate(l): order.append(((i+0.5)/ (len(l)**0.6),m))
order.sort(key=lambda x:x[0])
q=queue.Queue()
for _,m in order[:int(os.environ.get("N","400"))]: q.put(m)
print(len(muts),'candidates',q.qsize(),flush=True)
lock=threading.Lock()
def work(w):
    W='/tmp/mut/w%d'%w
    shutil.rmtree(W,ignore_errors=True)
    shutil.copytree('/repo',W,symlinks=True)
    while True:
        try: m=q.get_nowait()
        except queue.Empty: return
        p=os.path.join(W,m['File'])
        orig=open(p,'rb').read()
        open(p,'wb').write(orig[:m['Start']]+m['Text'].encode()+orig[m['End']:])
        res='?'
        try:
            r=subprocess.run(['go','build','-o','/dev/null','./cmd/burl_backend'],cwd=W,env=env,stdout=subprocess.PIPE,stderr=subprocess.STDOUT)
            r2=subprocess.run(['go','vet','./'+os.path.dirname(m['File'])],cwd=W,env=env,stdout=subprocess.PIPE,stderr=subprocess.STDOUT)
            r3=subprocess.run(['go','build','./...'],cwd=W,env=env,stdout=subprocess.PIPE,stderr=subprocess.STDOUT)
            if r.returncode or r3.returncode: res='nobuild'
            else:
                try:
                    t=subprocess.run(['go','test','-timeout','60s','./...'],cwd=W,env=env,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,timeout=100).returncode
                except subprocess.TimeoutExpired: t=1
                if t: res='tests'
                else:
                    res='SURVIVED'
                    errs=[]
                    for c in MAP[m['File']].split():
                        e=dict(env,VERIF_REPO=W)
                        x=subprocess.run(['/tmp/mv/check',c,'quick'],env=e,stdout=subprocess.PIPE,stderr=subprocess.STDOUT)
                        if x.returncode==1: res='caught '+c; break
                        if x.returncode!=0: errs.append((c,x.stdout.decode(errors='replace')[-600:]))
                    if errs and res=='SURVIVED': res='ERROR'; m['errs']=errs
        finally:
            open(p,'wb').write(orig)
        m['res']=res
        with lock:
            open(RES,'a').write(json.dumps(m)+'\n')
            if res in('SURVIVED','ERROR'): print(res,m['File'],m['Line'],m['Desc'][:150].replace('\n',' '),'=>',m['Text'][:60].replace('\n',' '),flush=True)
ts=[threading.Thread(target=work,args=(i,)) for i in range(int(os.environ.get("J","3")))]
[t.start() for t in ts];[t.join() for t in ts]
print('END',flush=True)
