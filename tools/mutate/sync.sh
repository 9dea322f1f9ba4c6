rm -rf /tmp/mv; cp -a /verif /tmp/mv; cd /tmp/mv && python3 - <<'P'
s=open('check').read()
s=s.replace('for k in range(5):','again = True\n                for k in range(0):')
s=s.replace('if not again:\n                    r = Shard(200','if False:\n                    r = Shard(200')
s=s.replace('checks = conf[tier] // nshards or 1','checks = max(conf[tier] // nshards // int(os.environ.get("VERIF_SCALE","1")), 10)')
open('check','w').write(s)
h=open('harness/hx/hx.go').read()
h=h.replace('const shrinkTime = "20s"','const shrinkTime = "10ms"')
open('harness/hx/hx.go','w').write(h)
P
