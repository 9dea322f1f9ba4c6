# Time, surroundings of commands, resources.
seed('C12-timeout', 'C12', 'emacsclient takes more than 20 seconds', 'the command is killed and failure is reported though the file would be opened',
 [(EM, '''	out, err := cmd.CombinedOutput()
	if err != nil {
''', '''	// Emacs may be stuck in a minibuffer prompt.
	var buf bytes.Buffer
	cmd.Stdout, cmd.Stderr = &buf, &buf
	err := cmd.Start()
	if err == nil {
		timer := time.AfterFunc(20*time.Second, func() { cmd.Process.Kill() })
		err = cmd.Wait()
		timer.Stop()
	}
	out := buf.Bytes()
	if err != nil {
'''), (EM, '''		if cmd.ProcessState.ExitCode() == 9 {
''', '''		if cmd.ProcessState != nil && cmd.ProcessState.ExitCode() == 9 {
'''), (EM, '''	"strings"
)
''', '''	"strings"
	"time"
)
''')], '''
exe = build('cmd/burl_backend')
emacs = write('emacs', '#!/bin/sh\\ncase "$*" in *--no-wait*) sleep 24;; esac\\n', 0o755)
note = write('a.org', '* a\\nhttps://example.org/a\\n')
s = Session([exe, '-log', '', '-emacsclient', emacs, note])
s.send(req(1, 'linkremark.visit', {'file': note, 'lineNo': 1}))
r = s.recv(60)
expect(r and not r.get('error') and r['result'] is True, r)
''')

seed('C13-retry', 'C13', 'emacsclient fails with exit status 1 without any message', 'commands are run again, so the URI is passed to Emacs twice',
 [(EM, '''	out, err := cmd.CombinedOutput()
	if err != nil {
''', '''	out, err := cmd.CombinedOutput()
	if err != nil && cmd.ProcessState.ExitCode() == 1 && len(out) == 0 {
		// Server was busy.
		cmd = exec.Command(cmd.Path, allArgs...)
		out, err = cmd.CombinedOutput()
	}
	if err != nil {
''')], '''
exe = build('cmd/burl_backend')
emacs = write('emacs', '#!/bin/sh\\nfor last; do :; done\\necho "$last" | tr -d "\\\\n" >> "$LOG"; echo >> "$LOG"\\ncase "$last" in org-protocol:*) exit 1;; esac\\necho org-protocol\\n', 0o755)
log = os.path.join(T, 'log')
note = write('a.org', '* a\\nhttps://example.org/a\\n')
s = Session([exe, '-log', '', '-emacsclient', emacs, note], env=dict(os.environ, LOG=log))
s.send(req(1, 'linkremark.capture', {'format': 'org-protocol', 'version': '0.2', 'data': {'url': 'org-protocol:/capture?x=1'}}))
r = s.recv(20)
expect(r and r.get('error'), r)
expect(open(log).read().count('org-protocol:/capture') == 1, open(log).read())
''')

seed('C12-cwd', 'C12', 'a note file given by a relative name', 'emacsclient gets the relative name in another directory, so another file is opened',
 [(EM, '''	out, err := cmd.CombinedOutput()
''', '''	// Do not prevent unmounting of file systems.
	cmd.Dir = "/"
	out, err := cmd.CombinedOutput()
''')], '''
exe = build('cmd/burl_backend')
emacs = write('emacs', '#!/bin/sh\\nfor last; do :; done\\ncase "$*" in *--no-wait*) cat "$last" > "$LOG";; esac\\n', 0o755)
log = os.path.join(T, 'log')
write('notes.org', '* a\\nhttps://example.org/a\\n')
s = Session(['sh', '-c', 'cd "$0"; exec "$@"', T, exe, '-log', '', '-emacsclient', emacs, 'notes.org'], env=dict(os.environ, LOG=log))
s.send(req(1, 'linkremark.visit', {'file': 'notes.org', 'lineNo': 1}))
r = s.recv(20)
expect(r and not r.get('error') and os.path.exists(log) and 'example.org/a' in open(log).read(), r)
''')

seed('C13-env', 'C13', 'socket of Emacs is in XDG_RUNTIME_DIR (default)', 'emacsclient does not find the server since the variable is dropped',
 [(EM, '''	out, err := cmd.CombinedOutput()
''', '''	// Variables of the browser confinement (snap, flatpak).
	for _, v := range os.Environ() {
		if !strings.HasPrefix(v, "XDG_") {
			cmd.Env = append(cmd.Env, v)
		}
	}
	out, err := cmd.CombinedOutput()
'''), (EM, '''	"log"
	"os/exec"
''', '''	"log"
	"os"
	"os/exec"
''')], '''
exe = build('cmd/burl_backend')
emacs = write('emacs', '#!/bin/sh\\n[ -d "$XDG_RUNTIME_DIR" ] || exit 9\\necho org-protocol\\n', 0o755)
note = write('a.org', '* a\\nhttps://example.org/a\\n')
s = Session([exe, '-log', '', '-emacsclient', emacs, note], env=dict(os.environ, XDG_RUNTIME_DIR=T))
s.send(req(1, 'linkremark.capture', {'format': 'org-protocol', 'version': '0.2', 'data': {'url': 'org-protocol:/capture?x=1'}}))
r = s.recv(20)
expect(r and not r.get('error'), r)
''')

seed('C13-stdin', 'C13', 'emacsclient (or alternate script) reads its input', 'commands consume requests of the browser',
 [(EM, '''	out, err := cmd.CombinedOutput()
''', '''	cmd.Stdin = os.Stdin // for passphrase prompts of ssh
	out, err := cmd.CombinedOutput()
'''), (EM, '''	"log"
	"os/exec"
''', '''	"log"
	"os"
	"os/exec"
''')], '''
exe = build('cmd/burl_backend')
emacs = write('emacs', '#!/bin/sh\\nhead -c 20 > "$LOG"\\necho org-protocol\\n', 0o755)
log = os.path.join(T, 'log')
note = write('a.org', '* a\\nhttps://example.org/a\\n')
s = Session([exe, '-log', '', '-emacsclient', emacs, note], env=dict(os.environ, LOG=log))
s.send(req(1, 'linkremark.capture', {'format': 'org-protocol', 'version': '0.2', 'data': {'url': 'org-protocol:/capture?x=1'}}))
r = s.recv(5)
expect(r and r['id'] == 1 and not r.get('error'), r)
expect(open(log).read() == '', open(log).read())
''')

seed('C30-grace', 'C30', 'the input ends while emacsclient needs more than 8 seconds', 'the backend exits before the reply is written',
 [(BB, '''	rpc.ServeCodec(webextensions.NewServerCodecSplit(
		os.Stdin, os.Stdout,
''', '''	rpc.ServeCodec(webextensions.NewServerCodecSplit(
		lastInput{os.Stdin}, os.Stdout,
'''), (BB, '''func main() {
	err := mainWithGracefulShutdown()
''', '''// lastInput does not allow stuck commands to keep the process forever.
type lastInput struct {
	*os.File
}

func (f lastInput) Read(b []byte) (int, error) {
	n, err := f.File.Read(b)
	if err == io.EOF {
		time.AfterFunc(8*time.Second, func() { os.Exit(0) })
	}
	return n, err
}

func main() {
	err := mainWithGracefulShutdown()
'''), (BB, '''	"fmt"
	"io/ioutil"
''', '''	"fmt"
	"io"
	"io/ioutil"
'''), (BB, '''	"sync"
''', '''	"sync"
	"time"
''')], '''
exe = build('cmd/burl_backend')
emacs = write('emacs', '#!/bin/sh\\ncase "$*" in *--no-wait*) sleep 12;; esac\\n', 0o755)
note = write('a.org', '* a\\nhttps://example.org/a\\n')
s = Session([exe, '-log', '', '-emacsclient', emacs, note])
s.send(req(1, 'linkremark.visit', {'file': note, 'lineNo': 1}))
s.p.stdin.close()
r = s.recv(60)
expect(r and not r.get('error') and r['result'] is True, r)
''')

seed('C23-timeout', 'C23', 'the backend replies after more than 15 seconds', 'the client reports a failure instead of the reply',
 [(BC, '''	if err = rpcClient.Call(method, data, &reply); err == nil {
''', '''	call := rpcClient.Go(method, data, &reply, make(chan *rpc.Call, 1))
	select {
	case <-call.Done:
		err = call.Error
	case <-time.After(15 * time.Second):
		err = errors.New("backend does not respond")
	}
	if err == nil {
'''), (BC, '''	"os/exec"
''', '''	"os/exec"
	"time"
''')], '''
exe = build('tools/burl_client')
backend = build('cmd/burl_backend')
emacs = write('emacs', '#!/bin/sh\\ncase "$*" in *--no-wait*) sleep 18;; esac\\n', 0o755)
note = write('a.org', '* a\\nhttps://example.org/a\\n')
p = subprocess.run([exe, backend, '-emacsclient', emacs, note, '--', 'visit', '-file', note], stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL, timeout=100)
expect(p.returncode == 0 and p.stdout.strip() == b'true', p)
''')

seed('C23-linger', 'C23', 'the backend needs more than 5 seconds to exit after the end of its input', 'the client kills it and reports failure',
 [(CL, '''	errClose := c.Client.Close()
	errWait := c.Command.Wait()
''', '''	errClose := c.Client.Close()
	timer := time.AfterFunc(5*time.Second, func() { c.Command.Process.Kill() })
	errWait := c.Command.Wait()
	timer.Stop()
'''), (CL, '''	"os/exec"
''', '''	"os/exec"
	"time"
''')], '''
exe = build('tools/demo', 'demo', source="""package main

import (
	"fmt"

	"github.com/maxnikulin/burl/pkg/webextensions"
)

func main() {
	c, err := webextensions.NewClientCommand([]string{"sh", "-c", "cat; sleep 8"})
	if err != nil {
		panic(err)
	}
	fmt.Println(c.Close())
}
""")
out = subprocess.run([exe], stdin=subprocess.DEVNULL, capture_output=True, text=True).stdout
expect(out.strip() == '<nil>', out)
''')

seed('C10-samesize', 'C10', 'a note file is replaced by contents of the same size within the same time stamp (or with preserved time)', 'linkSet reports links of the former contents',
 [(BB, '''	urls, err := burl_links.ExtractLinkSetFromFileGroup(srcFiles, prefixes)
	if err != nil {
		return err
	}
''', '''	key := fmt.Sprintf("%q", prefixes)
	for _, src := range srcFiles {
		stat, err := os.Stat(src.Name())
		if err != nil {
			return err
		}
		key += fmt.Sprint("|", src.Name(), stat.Size(), stat.ModTime().UnixNano())
	}
	linkSetCache.Lock()
	defer linkSetCache.Unlock()
	urls := linkSetCache.urls
	if key != linkSetCache.key {
		var err error
		urls, err = burl_links.ExtractLinkSetFromFileGroup(srcFiles, prefixes)
		if err != nil {
			return err
		}
		linkSetCache.key, linkSetCache.urls = key, urls
	}
'''), (BB, '''func LinkSetReal(''', '''// Browsers repeat the same request.
var linkSetCache struct {
	sync.Mutex
	key  string
	urls map[string]bool
}

func LinkSetReal(''')], '''
exe = build('cmd/burl_backend')
note = write('a.org', '* a\\nhttps://example.org/a\\n')
os.utime(note, (1600000000, 1600000000))
s = Session([exe, '-log', '', note])
s.send(req(1, 'linkremark.linkSet', {'prefix': ['https']}))
expect(s.recv(20)['result']['urls'] == ['https://example.org/a'], '1')
write('a.org', '* a\\nhttps://example.org/b\\n')
os.utime(note, (1600000000, 1600000000))
s.send(req(2, 'linkremark.linkSet', {'prefix': ['https']}))
r = s.recv(20)
expect(r['result']['urls'] == ['https://example.org/b'], r)
''')

seed('C10-handle', 'C10', 'a note file is replaced (renamed over, as editors save) between requests', 'linkSet reports links of the former file',
 [(LS, '''			var file io.ReadCloser
			file, err = os.Open(name)
			if err != nil {
				break
			}
			reader = file
			defer file.Close()
''', '''			var file *os.File
			file, err = openAgain(name)
			if err != nil {
				break
			}
			reader = file
			defer openedFiles.Unlock()
'''), (LS, '''func ExtractLinkSetFromFileGroup(''', '''var openedFiles struct {
	sync.Mutex
	m map[string]*os.File
}

// openAgain rewinds the file read earlier. Caller unlocks openedFiles.
func openAgain(name string) (*os.File, error) {
	openedFiles.Lock()
	if file, ok := openedFiles.m[name]; ok {
		if _, err := file.Seek(0, io.SeekStart); err == nil {
			return file, nil
		}
	}
	file, err := os.Open(name)
	if err != nil {
		openedFiles.Unlock()
		return nil, err
	}
	if openedFiles.m == nil {
		openedFiles.m = make(map[string]*os.File)
	}
	openedFiles.m[name] = file
	return file, nil
}

func ExtractLinkSetFromFileGroup('''), (LS, '''	"os"
)
''', '''	"os"
	"sync"
)
''')], '''
exe = build('cmd/burl_backend')
note = write('a.org', '* a\\nhttps://example.org/a\\n')
s = Session([exe, '-log', '', note])
s.send(req(1, 'linkremark.linkSet', {'prefix': ['https']}))
expect(s.recv(20)['result']['urls'] == ['https://example.org/a'], '1')
os.rename(write('b', '* a\\nhttps://example.org/b\\n'), note)
s.send(req(2, 'linkremark.linkSet', {'prefix': ['https']}))
r = s.recv(20)
expect(r and r.get('result') and r['result']['urls'] == ['https://example.org/b'], r)
''')

seed('C26-descriptors', 'C26', 'more linkSet requests than the limit of open files (e.g. 256) in one session', 'linkSet fails since files are not closed',
 [(LS, '''			defer file.Close()
		}
		err = src.ExtractSet(''', '''			// Let the kernel keep its pages.
			recentFiles.Lock()
			recentFiles.list = append(recentFiles.list, file)
			recentFiles.Unlock()
		}
		err = src.ExtractSet('''), (LS, '''func ExtractLinkSetFromFileGroup(''', '''var recentFiles struct {
	sync.Mutex
	list []io.Closer
}

func ExtractLinkSetFromFileGroup('''), (LS, '''	"os"
)
''', '''	"os"
	"sync"
)
''')], '''
exe = build('cmd/burl_backend')
note = write('a.org', '* a\\nhttps://example.org/a\\n')
s = Session(['sh', '-c', 'ulimit -n 100; exec "$@"', 'sh', exe, '-log', '', note])
for i in range(200):
    s.send(req(i, 'linkremark.linkSet', {'prefix': ['https']}))
    r = s.recv(20)
    expect(r and not r.get('error'), (i, r))
''')

seed('C30-stall', 'C30', 'the reader does not read a large reply for more than 10 seconds', 'the backend gives up and exits',
 [(BB, '''		os.Stdin, os.Stdout,
		webext''', '''		os.Stdin, impatient{os.Stdout},
		webext'''), (BB, '''func main() {
	err := mainWithGracefulShutdown()
''', '''// impatient notices that the browser is stuck.
type impatient struct {
	*os.File
}

func (f impatient) Write(b []byte) (int, error) {
	t := time.AfterFunc(10*time.Second, func() {
		log.Println("browser does not read")
		os.Exit(1)
	})
	defer t.Stop()
	return f.File.Write(b)
}

func main() {
	err := mainWithGracefulShutdown()
'''), (BB, '''	"sync"
''', '''	"sync"
	"time"
''')], '''
exe = build('cmd/burl_backend')
note = write('a.org', ''.join('* a\\nhttps://example.org/%0200d\\n' % i for i in range(2000)))
p = subprocess.Popen([exe, '-log', '', note], stdin=subprocess.PIPE, stdout=subprocess.PIPE)
p.stdin.write(req(1, 'linkremark.linkSet', {'prefix': ['https']}))
p.stdin.flush()
time.sleep(14)
n = struct.unpack('=I', p.stdout.read(4))[0]
b = p.stdout.read(n)
expect(len(b) == n and len(json.loads(b)['result']['urls']) == 2000, (n, len(b)))
p.stdin.close()
expect(p.wait() == 0, p.returncode)
''')
