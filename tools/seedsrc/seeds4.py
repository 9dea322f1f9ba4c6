# Limits, caches, counters: nothing is visible at ordinary sizes.
seed('C03-slots', 'C03', 'more than 64 requests are waiting (for emacsclient) at the same time', 'other requests are not answered until one of them is completed',
 [(SV, '''type serverCodec struct {
	rpc.ServerCodec
	Framer FrameReadWriteCloser
}
''', '''type serverCodec struct {
	rpc.ServerCodec
	Framer FrameReadWriteCloser
	// Bounds amount of memory for pending requests.
	slots chan struct{}
}

const maxPendingRequests = 64
'''), (SV, '''	return c.ServerCodec.ReadRequestHeader(r)
}

func (c *serverCodec) WriteResponse(r *rpc.Response, x interface{}) error {
''', '''	c.slots <- struct{}{}
	return c.ServerCodec.ReadRequestHeader(r)
}

func (c *serverCodec) WriteResponse(r *rpc.Response, x interface{}) error {
	defer func() { <-c.slots }()
'''), (SV, '''	return &serverCodec{codec, framer}
''', '''	return &serverCodec{codec, framer, make(chan struct{}, maxPendingRequests)}
''')], '''
exe = build('cmd/burl_backend')
emacs = write('emacs', '#!/bin/sh\\n[ -e "$GATE" ] || sleep 0.1\\nread x < "$GATE"\\n', 0o755)
gate = os.path.join(T, 'gate')
os.mkfifo(gate)
note = write('a.org', '* a\\nhttps://example.org/a\\n')
s = Session([exe, '-log', '', '-emacsclient', emacs, note], env=dict(os.environ, GATE=gate))
for i in range(80):
    s.send(req(i, 'linkremark.visit', {'file': note}))
s.send(req(1000, 'hello', HELLO))
r = s.recv(20)
# Release everything.
g = os.open(gate, os.O_RDWR)
os.write(g, b'x\\n' * 2000)
expect(r and r['id'] == 1000 and not r.get('error'), 'hello is not answered while visits are waiting: %r' % (r,))
''')

seed('C06-line-wrap', 'C06', 'a note file of more than 65535 lines', 'line numbers of links are wrong',
 [(LT, '''	LineNo      int    `json:"lineNo"`
''', '''	LineNo      uint16 `json:"lineNo"`
'''), (EO, '''					link.LineNo = lineNo
''', '''					link.LineNo = uint16(lineNo)
'''), (ET, '''link := &Link{match[0], "", lineNo}''', '''link := &Link{match[0], "", uint16(lineNo)}''')], '''
exe = build('cmd/burl_backend')
note = write('a.org', '\\n' * 70000 + '* a\\nhttps://example.org/a\\n')
r = mentions(exe, [note], ['https://example.org/a'])
n = r
while n.get('children'):
    n = n['children'][0]
expect(n['links'][0]['lineNo'] == 70002, n)
''')

seed('C06-perline', 'C06', 'more than 64 links on one line', 'the last links of the line are not found',
 [(EO, '''reLink.FindAllStringSubmatch(line, -1)''', '''reLink.FindAllStringSubmatch(line, 64)''')], '''
exe = build('cmd/burl_backend')
for n in (60, 80, 500):
    note = write('a.org', '* a\\n' + ' '.join('[[https://example.org/%d][d]]' % i for i in range(n)) + '\\n')
    r = mentions(exe, [note], ['https://example.org/%d' % (n - 1)])
    expect(r['total'] == 1, r)
''')

seed('C07-longword', 'C07', 'a word longer than 4096 bytes that contains a URL', 'the URL is not reported by urlMentions',
 [(ET, '''			if matchArray := re.FindAllStringSubmatch(string(token), -1); matchArray != nil {
				for _, match := range matchArray {
					if MatchIsUrl(match) {
						link''', '''			if len(token) > 4096 {
				// data: URLs and other encoded content
				token = token[:0]
			}
			if matchArray := re.FindAllStringSubmatch(string(token), -1); matchArray != nil {
				for _, match := range matchArray {
					if MatchIsUrl(match) {
						link''')], '''
exe = build('cmd/burl_backend')
for n in (100, 5000, 30000):
    u = 'https://example.org/' + 'a' * n
    r = mentions(exe, [write('a.txt', 'see ' + u + '\\nhttps://example.org/b\\n')], [u, 'https://example.org/b'])
    expect(r['total'] == 2, (n, r['total']))
''')

seed('C08-overflow', 'C08', 'about 50000 matches in several sections and a large limit', 'shares of sections overflow, counts of links in the reply are wrong',
 [(NC, '''	Count       int `json:"total"`
	TargetCount int `json:"filtered"`
''', '''	Count       int32 `json:"total"`
	TargetCount int32 `json:"filtered"`
'''), (NC, '''&LimitCountAttrs{newNode.OwnLinksCount(), 0}''', '''&LimitCountAttrs{int32(newNode.OwnLinksCount()), 0}'''),
 (NC, '''			node.Attrs.TargetCount = node.OwnLinksCount()
''', '''			node.Attrs.TargetCount = int32(node.OwnLinksCount())
'''), (NC, '''LimitChildrenCount(node.Attrs.TargetCount)''', '''LimitChildrenCount(int(node.Attrs.TargetCount))'''),
 (NC, '''func FilterChildrenCount(tree *LimitCountNode, target int) *LimitCountNode {
''', '''func FilterChildrenCount(tree *LimitCountNode, limit int) *LimitCountNode {
	target := int32(limit)
	if limit > math.MaxInt32 {
		target = math.MaxInt32
	}
'''), (NC, '''	"encoding/json"
	"reflect"
''', '''	"encoding/json"
	"math"
	"reflect"
'''), (LT, '''	sum := 0
	i := 0
''', '''	var sum int32
	i := 0
'''), (LT, '''		itemCount := count * target / sum
''', '''		itemCount := count * int32(target) / sum
'''), (LT, '''		target -= itemCount
''', '''		target -= int(itemCount)
''')], '''
exe = build('cmd/burl_backend')
for n in (1000, 25000):
    note = write('a.org', ''.join('* s%d\\n' % k + 'https://example.org/x\\n' * n for k in range(2)))
    r = mentions(exe, [note], ['https://example.org/x'], 2 * n)
    expect(r['total'] == 2 * n and len(r['children']) == 2 and r['filtered'] == 2, (n, r['total'], r['filtered'], len(r['children'])))
''')

seed('C09-many-slashes', 'C09', 'a query with more than 16 redundant characters at its end', 'the link without the tail is not found',
 [(UR, '''	for i > 0 && slice[i-1] == '/' {
''', '''	for i > 0 && n-i < 16 && slice[i-1] == '/' {
''')], '''
exe = build('cmd/burl_backend')
note = write('a.org', '* a\\n[[https://example.org/a]]\\n')
for n in (1, 15, 20, 40):
    r = mentions(exe, [note], ['https://example.org/a' + '/' * n])
    expect(r['total'] == 1, (n, r))
''')

seed('C10-megabyte', 'C10', 'links of note files are together more than 1 MiB', 'linkSet returns a part of links',
 [(BB, '''	reply.Urls = make([]string, len(urls))
	i := 0
	for key := range urls {
		reply.Urls[i] = key
		i++
	}
''', '''	// Browsers drop connection if a message is larger than 1 MiB.
	left := 1024 * 1024
	reply.Urls = make([]string, 0, len(urls))
	for key := range urls {
		if left -= len(key) + 3; left < 0 {
			break
		}
		reply.Urls = append(reply.Urls, key)
	}
''')], '''
exe = build('cmd/burl_backend')
n = 40000
note = write('a.org', ''.join('https://example.org/%s/%d\\n' % ('p' * 30, i) for i in range(n)))
r = ask([exe, note], [req(1, 'linkremark.linkSet', {'prefix': ['https']})])[1]
expect(not r['error'] and len(r['result']['urls']) == n, len(r['result']['urls']))
''')

seed('C11-partial', 'C11', 'reading of a note file fails after some lines', 'urlMentions returns links of the first part as if they were all',
 [(EO, '''			}
		}
	}
	return &tree, scanner.Err()
}

func MakeLinkSetBase''', '''			}
		}
	}
	err := scanner.Err()
	if err != nil && err != bufio.ErrTooLong && !tree.Empty() {
		// E.g. a network file system, better than nothing.
		log.Printf("burl_links.OrgLinkSource.Extract: line %d: %v", lineNo, err)
		err = nil
	}
	return &tree, err
}

func MakeLinkSetBase''')], '''
src = """package main

import (
	"errors"
	"fmt"
	"io"
	"os"
	"strings"

	"github.com/maxnikulin/burl/pkg/burl_links"
)

type bad struct{}

func (bad) Read([]byte) (int, error) { return 0, errors.New("input/output error") }

func main() {
	r := io.MultiReader(strings.NewReader("* a\\\\nhttps://example.org/a\\\\n"), bad{})
	_, err := burl_links.OrgLinkSource("a.org").Extract(r, nil)
	fmt.Println(err)
	if err == nil {
		os.Exit(1)
	}
}
"""
import pathlib
d = pathlib.Path(T, 'src')
d.mkdir()
(d / 'main.go').write_text(src)
ov = pathlib.Path(T, 'ov.json')
target = os.path.abspath('cmd/burl_tool/burl_tool.go')
ov.write_text(json.dumps({'Replace': {target: str(d / 'main.go')}}))
out = os.path.join(T, 'reader')
p = subprocess.run(['go', 'build', '-overlay', str(ov), '-o', out, './cmd/burl_tool'], env=ENV, capture_output=True, text=True)
if p.returncode:
    print(p.stderr)
    sys.exit(3)
expect(subprocess.run([out]).returncode == 0, 'no error though the file has not been read')
''')

seed('C12-noisy', 'C12', 'emacsclient prints more than 512 bytes', 'a visit that succeeded is reported as failed',
 [(EM, '''	out, err := cmd.CombinedOutput()
''', '''	out, err := shortOutput(cmd)
'''), (EM, '''func execEmacs(''', '''// Only the beginning is necessary for checks and for messages.
func shortOutput(cmd *exec.Cmd) ([]byte, error) {
	pipe, err := cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	cmd.Stderr = cmd.Stdout
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	out := make([]byte, 512)
	n, _ := io.ReadFull(pipe, out)
	return out[:n], cmd.Wait()
}

func execEmacs('''), (EM, '''	if err != nil {
		if cmd.ProcessState.ExitCode() == 9 {
''', '''	if err != nil {
		if cmd.ProcessState != nil && cmd.ProcessState.ExitCode() == 9 {
'''), (EM, '''	"fmt"
	"log"
''', '''	"fmt"
	"io"
	"log"
''')], '''
exe = build('cmd/burl_backend')
note = write('a.org', '* a\\n')
for n in (1, 30, 100000):
    emacs = write('emacs', '#!/usr/bin/env python3\\nimport sys, signal\\nsignal.signal(signal.SIGPIPE, signal.SIG_DFL)\\nfor i in range(%d):\\n    sys.stdout.write("x" * 100)\\n    sys.stdout.flush()\\n' % (n // 100 + 1), 0o755)
    s = Session([exe, '-log', '', '-emacsclient', emacs, note])
    r = s.call(1, 'linkremark.visit', {'file': note, 'lineNo': 1})
    expect(r and r['error'] is None and r['result'] is True, (n, r))
''')

seed('C13-long', 'C13', 'a capture URI longer than 32 KiB', 'Emacs gets a truncated capture, success is reported',
 [(EM, '''	if out, err := execEmacs(uri); err != nil {
''', '''	const maxArg = 32 * 1024
	if len(uri) > maxArg {
		// Length of an argument is limited.
		uri = uri[:maxArg]
	}
	if out, err := execEmacs(uri); err != nil {
''')], '''
exe = build('cmd/burl_backend')
cmd, env, log = emacs()
for n in (100, 40000, 100000):
    if os.path.exists(log):
        os.unlink(log)
    uri = 'org-protocol:///capture?body=' + 'b' * n
    r = ask([exe, '-log', '', '-emacsclient', cmd], [req(1, 'linkremark.capture', {'format': 'org-protocol', 'version': '0.2', 'data': {'url': uri}})], env=env)[1]
    expect(r['error'] is None, r)
    expect(uri.encode() in open(log, 'rb').read(), 'capture of %d bytes is not passed as is' % n)
''')

seed('C15-fold', 'C15', 'options of the wrapper are longer than 8000 bytes', 'an option is split in the wrapper, the backend gets another value',
 [(IN, '''			content := fmt.Sprintf(template, exe, strings.Join(escaped_args, " "))
''', '''			line := strings.Join(escaped_args, " ")
			folded := ""
			for len(line) > 8000 {
				// Some editors can not open files with too long lines.
				cut := strings.LastIndex(line[:8000], " ")
				if cut < 0 {
					break
				}
				folded += line[:cut] + " \\\\\\n\\t"
				line = line[cut+1:]
			}
			content := fmt.Sprintf(template, exe, folded+line)
''')], '''
exe = build('cmd/burl_backend')
rec = os.path.join(T, 'args')
files = [write('n %03d/a b c d e f g h i j k l m n o p q r s t u v w x y z.org' % i, '* x\\nhttps://example.org/%d\\n' % i) for i in range(600)]
w = os.path.join(T, 'w.sh')
p = subprocess.run([exe, '-wrapper', w, '-log', ''] + files, capture_output=True, text=True)
expect(p.returncode == 0, p.stderr)
r = ask([w], [req(1, 'linkremark.urlMentions', {'variants': ['https://example.org/%d' % i for i in range(600)]})])[1]
expect(not r['error'] and r['result']['total'] == 600, r['error'])
''')

seed('C19-inplace', 'C19', 'replacing of a large file fails or is interrupted', 'the wrapper is left truncated or partial',
 [(FU, '''	f, err := ioutil.TempFile(filepath.Dir(path), filepath.Base(path))
''', '''	if stat != nil && len(content) > 4096 && stat.Mode().Perm()&0200 != 0 {
		// Do not require free space for two copies.
		out, err := os.OpenFile(path, os.O_WRONLY|os.O_TRUNC, mode)
		if err != nil {
			return err
		}
		if _, err = out.Write(content); err == nil {
			err = out.Chmod(mode)
		}
		if errClose := out.Close(); err == nil {
			err = errClose
		}
		return err
	}
	f, err := ioutil.TempFile(filepath.Dir(path), filepath.Base(path))
''')], '''
import resource
exe = build('cmd/burl_backend')
w = os.path.join(T, 'w.sh')
files = [write('d%03d/notes.org' % i, '') for i in range(120)]
p = subprocess.run([exe, '-wrapper', w] + files[:2], capture_output=True, text=True)
expect(p.returncode == 0, p.stderr)
old = open(w).read()
# A limit of sizes of files makes writes short and failing.
def limit():
    signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
    resource.setrlimit(resource.RLIMIT_FSIZE, (2000, 2000))
p = subprocess.run([exe, '-force', '-wrapper', w] + files, capture_output=True, text=True, preexec_fn=limit)
expect(p.returncode != 0, 'success')
expect(open(w).read() == old, 'the wrapper is damaged by a failed run')
''')

seed('C21-thousand', 'C21', 'more than 1000 distinct links', 'a better match in later files is not returned',
 [(RK, '''	cb := func(word string) bool {
''', '''	count := 0
	cb := func(word string) bool {
		// Response must be fast enough.
		if count++; count > 1000 && h.Len() >= limit {
			return true
		}
''')], '''
src = """package main

import (
	"fmt"
	"os"

	"github.com/maxnikulin/burl/pkg/burl_fuzzy"
)

func main() {
	limit := 2
	h := burl_fuzzy.ProcessUrlSource([]string{"target"}, func(cb func(string) bool) {
		for i := 0; i < 3000; i++ {
			cb(fmt.Sprintf("https://targ.example.org/tarbet/%d", i))
		}
		cb("https://target.org/")
	}, &limit, nil)
	for _, w := range h {
		fmt.Println(w.Weight, w.Word)
		if w.Word == "https://target.org/" {
			os.Exit(0)
		}
	}
	os.Exit(1)
}
"""
d = os.path.join(T, 'src')
os.mkdir(d)
open(d + '/main.go', 'w').write(src)
json.dump({'Replace': {os.path.abspath('cmd/burl_tool/burl_tool.go'): d + '/main.go'}}, open(T + '/ov.json', 'w'))
p = subprocess.run(['go', 'build', '-overlay', T + '/ov.json', '-o', T + '/rank', './cmd/burl_tool'], env=ENV, capture_output=True, text=True)
if p.returncode:
    print(p.stderr)
    sys.exit(3)
expect(subprocess.run([T + '/rank']).returncode == 0, 'the best match is lost')
''')

seed('C22-many-set', 'C22', 'burl_tool -set on files with more than 1000 links, output by chunks', 'the last links are not printed',
 [(BT, '''		for key, _ := range result {
			if _, err := fmt.Println(key); err != nil {
				return err
			}
		}
		return nil
''', '''		out := make([]byte, 0, 65536)
		for key, _ := range result {
			if len(out)+len(key) >= cap(out) {
				if _, err := os.Stdout.Write(out); err != nil {
					return err
				}
				out = out[:0]
				continue
			}
			out = append(append(out, key...), '\\n')
		}
		_, err = os.Stdout.Write(out)
		return err
''')], '''
exe = build('cmd/burl_tool')
for n in (10, 5000):
    note = write('a.org', ''.join('https://example.org/%s/%d\\n' % ('p' * 30, i) for i in range(n)))
    p = subprocess.run([exe, '-set', 'https', '-org', note], capture_output=True, text=True)
    expect(len(p.stdout.split()) == n, len(p.stdout.split()))
''')

seed('C24-many-formats', 'C24', 'the extension offers more than 8 formats, org-protocol is not among first ones', 'a compatible extension is rejected',
 [(BB, '''	for _, descr := range query.Formats {
		if''', '''	for i, descr := range query.Formats {
		if i >= 8 {
			break
		}
		if''')], '''
exe = build('cmd/burl_backend')
f = [{'format': 'f%d' % i, 'version': '1'} for i in range(20)]
for at in (0, 5, 12, 20):
    q = {'version': '0.2', 'formats': f[:at] + [{'format': 'org-protocol', 'version': '0.2'}] + f[at:]}
    r = ask([exe, '-log', ''], [req(1, 'hello', q)])[1]
    expect(r['error'] is None and r['result']['format'] == 'org-protocol', (at, r))
''')

seed('C25-many', 'C25', 'more than 32 schemes are configured', 'links having the last ones are not found',
 [(EO, '''			unique = append(unique, scheme)
		}
	}
''', '''			unique = append(unique, scheme)
		}
		if len(unique) >= 32 {
			// Keep the regexp reasonable.
			break
		}
	}
''')], '''
exe = build('cmd/burl_backend')
for n in (3, 60):
    args = []
    for i in range(n):
        args += ['-scheme', 'sch%dz' % i]
    note = write('a.org', '* a\\n[[sch%dz:abc]]\\n' % (n - 1))
    r = mentions(exe, args + [note], ['sch%dz:abc' % (n - 1)])
    expect(r['total'] == 1, (n, r))
''')

seed('C26-ring', 'C26', 'more than 100 distinct queries, then one of the first ones again', 'a reply for another query is returned',
 [(BB, '''	linkSetImpl func([]burl_links.TextLinkSource, []string, *burl_rpc.LinkSetResponse) error
}
''', '''	linkSetImpl func([]burl_links.TextLinkSource, []string, *burl_rpc.LinkSetResponse) error
	recent      recentReplies
}

// Extensions repeat queries when user switches between tabs.
type recentReplies struct {
	mutex sync.Mutex
	index map[string]int
	ring  [100]burl_links.LimitCountNode
	next  int
}

func (r *recentReplies) find(key string, reply *burl_links.LimitCountNode) bool {
	r.mutex.Lock()
	defer r.mutex.Unlock()
	i, ok := r.index[key]
	if ok {
		*reply = r.ring[i]
	}
	return ok
}

func (r *recentReplies) add(key string, reply *burl_links.LimitCountNode) {
	r.mutex.Lock()
	defer r.mutex.Unlock()
	if r.index == nil {
		r.index = make(map[string]int, len(r.ring))
	}
	r.ring[r.next] = *reply
	r.index[key] = r.next
	r.next = (r.next + 1) % len(r.ring)
}
'''), (BB, '''	backend := BurlBackend{args.LinkSources, nil, nil, sync.Once{}, nil, nil}
''', '''	backend := BurlBackend{srcFiles: args.LinkSources}
'''), (BB, '''	attrTree := burl_links.CountDescendants(b.fileGroup, filter)
''', '''	key := fmt.Sprintf("%d %q", countLimit, variants)
	if b.recent.find(key, reply) {
		return nil
	}
	attrTree := burl_links.CountDescendants(b.fileGroup, filter)
'''), (BB, '''	*reply = *attrTree
	return nil
''', '''	*reply = *attrTree
	b.recent.add(key, attrTree)
	return nil
'''), (UR, '''	for k, v := range replacements {
		if strings.HasPrefix(url, k) {
''', '''	for _, k := range []string{"http:", "https:"} {
		v := replacements[k]
		if strings.HasPrefix(url, k) {
''')], '''
exe = build('cmd/burl_backend')
n = 150
note = write('a.org', '* a\\n' + ''.join('https://example.org/%d\\n' % i for i in range(n)))
s = Session([exe, '-log', '', note])
for i in list(range(n)) + [0, 1, 120]:
    r = s.call(i, 'linkremark.urlMentions', {'variants': ['https://example.org/%d' % i]})
    expect(r and links(r['result']) == ['https://example.org/%d' % i], r)
''')

seed('C27-rotate', 'C27', 'the log of earlier sessions is larger than 10 MiB', 'records of earlier sessions are discarded',
 [(BB, '''		logFile, err := os.OpenFile(backendFlags.LogFile, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0600)
''', '''		logMode := os.O_APPEND | os.O_CREATE | os.O_WRONLY
		if stat, err := os.Stat(backendFlags.LogFile); err == nil && stat.Size() > 10*1024*1024 {
			logMode |= os.O_TRUNC
		}
		logFile, err := os.OpenFile(backendFlags.LogFile, logMode, 0600)
''')], '''
exe = build('cmd/burl_backend')
for n in (1000, 12 << 20):
    log = write('log', b'x' * (n - 1) + b'\\n')
    ask([exe, '-log', log], [req(1, 'hello', HELLO)])
    expect(os.stat(log).st_size >= n, os.stat(log).st_size)
''')

seed('C15-hundred', 'C15', 'more than 100 note files, one of the last ones is a symbolic link', 'the link is not resolved in the wrapper',
 [(AR, '''	for i, s := range a.LinkSources {
		if path''', '''	for i, s := range a.LinkSources {
		if i >= 100 && filepath.IsAbs(s.Name()) {
			// Just a list, e.g. expanded by shell.
			continue
		}
		if path'''), (AR, '''	"fmt"
	"os"
''', '''	"fmt"
	"os"
	"path/filepath"
''')], '''
exe = build('cmd/burl_backend')
for at in (3, 140):
    files = [write('n/%03d.org' % i, '* a\\nhttps://example.org/%d\\n' % i) for i in range(150)]
    link = os.path.join(T, 'link%d.org' % at)
    os.symlink(files[at], link)
    w = os.path.join(T, 'w%d.sh' % at)
    p = subprocess.run([exe, '-log', '', '-wrapper', w] + files[:at] + [link] + files[at + 1:], capture_output=True, text=True)
    expect(p.returncode == 0, p.stderr)
    os.unlink(link)
    r = ask([w], [req(1, 'linkremark.urlMentions', {'variants': ['https://example.org/%d' % at]})])[1]
    expect(not r['error'] and r['result']['total'] == 1, (at, r['error']))
''')
