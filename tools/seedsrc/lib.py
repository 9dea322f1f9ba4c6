# Helpers of demonstrations: build executables of the repository in the
# current directory, talk to the backend.
import atexit, json, os, select, shutil, signal, struct, subprocess, sys, tempfile, time

T = tempfile.mkdtemp(prefix='demo-')
atexit.register(shutil.rmtree, T, True)
ENV = dict(os.environ, GOFLAGS='-mod=mod -buildvcs=false', GOTOOLCHAIN='local', GOPROXY='off', GOWORK='off')
signal.signal(signal.SIGALRM, lambda *a: fail('timeout'))
signal.alarm(200)


def fail(what):
    print('FAIL:', what)
    sys.exit(1)


def expect(cond, what):
    if not cond:
        fail(what)


def build(pkg, name=None, source=None, race=False):
    """source: text of the main package that is not in the repository"""
    out = os.path.join(T, name or os.path.basename(pkg))
    cmd = ['go', 'build', '-o', out]
    if race:
        cmd.append('-race')
    if source is not None:
        src = os.path.join(T, 'main_src.go')
        open(src, 'w').write(source)
        ov = os.path.join(T, 'overlay.json')
        json.dump({'Replace': {os.path.abspath(os.path.join(pkg, 'main.go')): src}}, open(ov, 'w'))
        cmd += ['-overlay', ov]
    r = subprocess.run(cmd + ['./' + pkg], env=ENV, capture_output=True, text=True)
    if r.returncode:
        print(r.stderr)
        sys.exit(3)
    return out


def write(name, text, mode=None):
    p = os.path.join(T, name)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, 'wb') as f:
        f.write(text if isinstance(text, bytes) else text.encode())
    if mode is not None:
        os.chmod(p, mode)
    return p


def frame(o):
    b = o if isinstance(o, bytes) else json.dumps(o).encode()
    return struct.pack('<I', len(b)) + b


def req(i, method, param):
    return frame({'id': i, 'method': method, 'params': [param]})


def parse(out):
    r = []
    while out:
        expect(len(out) >= 4, 'incomplete header %r' % out[:80])
        n, = struct.unpack('<I', out[:4])
        expect(len(out) >= 4 + n, 'incomplete frame %r' % out[:80])
        r.append(json.loads(out[4:4 + n]))
        out = out[4 + n:]
    return r


def ask(cmd, requests, env=None, code=0):
    """all requests at once; replies by id"""
    r = subprocess.run(cmd, input=b''.join(requests), capture_output=True, env=env)
    expect(code is None or r.returncode == code, 'exit status %s: %s' % (r.returncode, r.stderr[-500:]))
    return {x['id']: x for x in parse(r.stdout)}


class Session:
    def __init__(self, cmd, env=None):
        self.p = subprocess.Popen(cmd, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env)
        atexit.register(self.p.kill)

    def send(self, b):
        self.p.stdin.write(b)
        self.p.stdin.flush()

    def _read(self, n, t):
        b = b''
        while len(b) < n:
            if not select.select([self.p.stdout], [], [], t)[0]:
                return None
            c = os.read(self.p.stdout.fileno(), n - len(b))
            if not c:
                return None
            b += c
        return b

    def recv(self, t=20):
        h = self._read(4, t)
        return h and json.loads(self._read(struct.unpack('<I', h)[0], t))

    def call(self, i, method, param, t=20):
        self.send(req(i, method, param))
        return self.recv(t)


def links(node):
    """all links of a reply in order"""
    r = [l['url'] for l in node.get('links') or []]
    for c in node.get('children') or []:
        r += links(c)
    return r


HELLO = {'version': '0.2', 'formats': [{'format': 'org-protocol', 'version': '0.2'}]}


def mentions(exe, args, variants, limit=None):
    p = {'variants': variants}
    if limit is not None:
        p['options'] = {'countLimit': limit}
    r = ask([exe] + args, [req(1, 'linkremark.urlMentions', p)])[1]
    expect(not r.get('error'), r.get('error'))
    return r['result']


# Client of Emacs that logs its arguments.
EMACS = '''#!/bin/sh
for a; do printf '%s\\0' "$a"; done >> "$LOG"
printf '\\n' >> "$LOG"
case "$*" in *features*) [ -e "$LOG.noorg" ] && echo nil || echo org-protocol;; esac
exit 0
'''


def emacs():
    log = os.path.join(T, 'emacs.log')
    return write('emacs', EMACS, 0o755), dict(os.environ, LOG=log), log
