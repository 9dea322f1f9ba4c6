seed('C30-term', 'C30', 'SIGTERM while the input is still open', 'the backend is never ended by the browser that terminates it without closing of pipes',
 [(BB, '''	"os"
	"strings"
	"sync"
''', '''	"os"
	"os/signal"
	"strings"
	"sync"
	"syscall"
'''), (BB, '''	backend := NewBurlBackendPtr(backendFlags)
	err := rpc''', '''	// The end of input is the reason to exit, pending replies must be completed.
	terminate := make(chan os.Signal, 1)
	signal.Notify(terminate, syscall.SIGTERM)
	go func() {
		log.Println("terminate request:", <-terminate)
	}()

	backend := NewBurlBackendPtr(backendFlags)
	err := rpc''')], '''
exe = build('cmd/burl_backend')
s = Session([exe, '-log', '-'])
expect(s.call(1, 'hello', HELLO), 'no reply')
s.p.terminate()
try:
    s.p.wait(20)
except subprocess.TimeoutExpired:
    fail('alive after SIGTERM')
''')

seed('C30-pipe', 'C30', 'the receiving end is closed, the sending one is not, and a request arrives', 'the backend goes on when nobody receives its replies',
 [(BB, '''	"os"
	"strings"
	"sync"
''', '''	"os"
	"os/signal"
	"strings"
	"sync"
	"syscall"
'''), (BB, '''	backend := NewBurlBackendPtr(backendFlags)
	err := rpc''', '''	// Failure to write to the pipe of emacsclient or of log must not kill the backend.
	signal.Ignore(syscall.SIGPIPE)

	backend := NewBurlBackendPtr(backendFlags)
	err := rpc''')], '''
exe = build('cmd/burl_backend')
s = Session([exe])
expect(s.call(1, 'hello', HELLO), 'no reply')
s.p.stdout.close()
for i in range(20):
    try:
        s.send(req(i, 'hello', HELLO))
    except BrokenPipeError:
        break
    time.sleep(0.3)
try:
    s.p.wait(20)
except subprocess.TimeoutExpired:
    fail('alive, nobody receives its replies')
''')

seed('C30-exit', 'C30', 'end of input while a request is being processed', 'the reply is lost',
 [(SV, '''func (c *serverCodec) ReadRequestHeader(r *rpc.Request) error {
	if err := c.Framer.ReadHeader(); err != nil {
''', '''func (c *serverCodec) ReadRequestHeader(r *rpc.Request) error {
	if err := c.Framer.ReadHeader(); err != nil {
		if err == io.EOF {
			// No more requests, so nobody expects an answer.
			c.ServerCodec.Close()
		}
''')], '''
exe = build('cmd/burl_backend')
em, env, log = emacs()
slow = write('slow', '#!/bin/sh\\nsleep 1\\nexec "%s" "$@"\\n' % em, 0o755)
r = ask([exe, '-emacsclient', slow], [req(1, 'linkremark.capture', {'format': 'org-protocol', 'version': '0.2', 'data': {'url': 'org-protocol:/capture?a=b'}})], env=env)
expect(1 in r and not r[1].get('error'), r)
''')

seed('C30-idle', 'C30', 'no requests for 25 seconds', 'the backend considers the browser lost',
 [(BB, '''	"sync"

	"github.com/maxnikulin/burl/pkg/burl_emacs"
''', '''	"sync"
	"time"

	"github.com/maxnikulin/burl/pkg/burl_emacs"
'''), (BB, '''	rpc.ServeCodec(webextensions.NewServerCodecSplit(
		os.Stdin, os.Stdout,
''', '''	input, inputWriter := io.Pipe()
	activity := make(chan struct{}, 1)
	go func() {
		buf := make([]byte, 4096)
		for {
			n, err := os.Stdin.Read(buf)
			if n > 0 {
				activity <- struct{}{}
				if _, err := inputWriter.Write(buf[:n]); err != nil {
					return
				}
			}
			if err != nil {
				inputWriter.Close()
				return
			}
		}
	}()
	go func() {
		// Some browsers leave backends running after a crash.
		for {
			select {
			case <-activity:
			case <-time.After(25 * time.Second):
				inputWriter.Close()
				for range activity {
				}
			}
		}
	}()
	rpc.ServeCodec(webextensions.NewServerCodecSplit(
		input, os.Stdout,
'''), (BB, '''	"fmt"
	"io/ioutil"
''', '''	"fmt"
	"io"
	"io/ioutil"
''')], '''
exe = build('cmd/burl_backend')
s = Session([exe])
expect(s.call(1, 'hello', HELLO), 'no reply')
time.sleep(32)
try:
    r = s.call(2, 'hello', HELLO)
except BrokenPipeError:
    r = None
expect(r, 'no reply after a pause')
''')

seed('C31-return', 'C31', 'a line having a carriage return that is not at its end', 'numbers of the following lines are wrong',
 [(EO, '''	scanner := bufio.NewScanner(file)
	scanner.Split(bufio.ScanLines)
	lineNo := 0
''', '''	scanner := bufio.NewScanner(file)
	scanner.Split(scanAnyLines)
	lineNo := 0
'''), (EO, '''func (_ OrgLinkSource) Extract(file''', '''// Files having different line endings
func scanAnyLines(data []byte, atEOF bool) (int, []byte, error) {
	if i := strings.IndexAny(string(data), "\\r\\n"); i >= 0 && (data[i] == '\\n' || i+1 < len(data)) {
		if data[i] == '\\r' && data[i+1] == '\\n' {
			return i + 2, data[:i], nil
		}
		return i + 1, data[:i], nil
	}
	return bufio.ScanLines(data, atEOF)
}

func (_ OrgLinkSource) Extract(file''')], '''
exe = build('cmd/burl_backend')
note = write('n.org', 'progress 1%\\rprogress 2%\\r\\n* Heading\\r\\nhttps://example.org/a\\r\\n')
r = mentions(exe, ['-org', note], ['https://example.org/a'])
expect('"lineNo": 4' not in json.dumps(r), r)
''')

seed('C31-angle', 'C31', 'a link in angle brackets without the closing one', 'a link that is not in the reply of urlMentions is in the set',
 [(EO, '''	reAngle := "<(" + base + reAngleSuffixStr + ")>"
''', '''	reAngle := "<(" + base + reAngleSuffixStr + ")(?:>|$)"
''')], '''
exe = build('cmd/burl_backend')
note = write('n.org', 'see <https://example.org/a b\\n')
r = ask([exe, '-org', note], [req(1, 'linkremark.linkSet', {'prefix': ['https']})])[1]['result']
expect(r['urls'] == ['https://example.org/a'], r)
''')

seed('C31-indent', 'C31', 'a heading having tabs or several spaces between words', 'text of the heading is not that of the line',
 [(EO, '''			h := &Heading{lineNo, matchHeading[2]}
''', '''			h := &Heading{lineNo, strings.Join(strings.Fields(matchHeading[2]), " ")}
''')], '''
exe = build('cmd/burl_backend')
note = write('n.org', '* A  wide\\ttitle\\nhttps://example.org/a\\n')
r = mentions(exe, ['-org', note], ['https://example.org/a'])
expect('A  wide\\\\ttitle' in json.dumps(r), r)
''')

seed('C12-quotes', 'C12', 'there is no Emacs server', 'the reply does not tell that the server is absent',
 [(EM, '''	`--alternate-editor=sh -c "exit 9"`,
''', '''	"--alternate-editor=sh -c 'exit 9'",
''')], '''
exe = build('cmd/burl_backend')
# As emacsclient splits the alternate editor: double quotes only.
client = write('client', """#!/usr/bin/env python3
import os, sys
for a in sys.argv[1:]:
    if a.startswith('--alternate-editor='):
        s = a.split('=', 1)[1]
        argv = []
        while s:
            t = s.lstrip(' "')
            k = len(s) - len(t)
            sep = '"' if k and s[k - 1] == '"' else ' '
            w, _, s = t.partition(sep)
            argv.append(w)
        os.execvp(argv[0], argv)
sys.exit(1)
""", 0o755)
note = write('n.org', 'text\\n')
r = ask([exe, '-emacsclient', client, '-org', note], [req(1, 'linkremark.visit', {'file': note, 'lineNo': 1})])[1]
expect('not running' in (r.get('error') or ''), r)
''')

seed('C13-editor', 'C13', 'there is no Emacs server, the user has an alternate editor', 'the alternate editor is started',
 [(EM, '''	if out, err := execEmacs(uri); err != nil {
''', '''	args := append(append([]string{}, UserArgs...), "--quiet", uri)
	if out, err := exec.Command(Command, args...).CombinedOutput(); err != nil {
''')], '''
exe = build('cmd/burl_backend')
em, env, log = emacs()
r = ask([exe, '-emacsclient', em], [req(1, 'linkremark.capture', {'format': 'org-protocol', 'version': '0.2', 'data': {'url': 'org-protocol:/capture?a=b'}})], env=env)
expect(1 in r and not r[1].get('error'), r)
last = open(log).read().strip().split('\\n')[-1]
expect('alternate-editor' in last, last)
''')
