import json,sys,os,subprocess,shutil
f,l,d=sys.argv[1],int(sys.argv[2]),sys.argv[3]
for x in open('/tmp/mut/all.jsonl'):
    m=json.loads(x)
    if m['File'].endswith(f) and m['Line']==l and d in m['Desc']:
        W='/tmp/mut/one'; shutil.rmtree(W,ignore_errors=True); shutil.copytree('/repo',W,symlinks=True)
        p=os.path.join(W,m['File']); o=open(p,'rb').read()
        open(p,'wb').write(o[:m['Start']]+m['Text'].encode()+o[m['End']:])
        print(subprocess.run(['git','diff'],cwd=W,stdout=subprocess.PIPE).stdout.decode())
        for c in sys.argv[4:]:
            r=subprocess.run(['/tmp/mv/check',c,'quick'],env=dict(os.environ,VERIF_REPO=W),stdout=subprocess.PIPE,stderr=subprocess.STDOUT)
            print(c,r.returncode,r.stdout.decode(errors='replace')[-300:])
