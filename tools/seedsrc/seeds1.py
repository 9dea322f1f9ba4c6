FR = 'pkg/webextensions/frame.go'
SV = 'pkg/webextensions/server.go'
CL = 'pkg/webextensions/client.go'
BB = 'cmd/burl_backend/burl_backend.go'
AR = 'cmd/burl_backend/args.go'
IN = 'cmd/burl_backend/install.go'
EO = 'pkg/burl_links/extract_org.go'
ET = 'pkg/burl_links/extract_txt.go'
UT = 'pkg/burl_links/urlmatch_txt.go'
LT = 'pkg/burl_links/link_tree.go'
NC = 'pkg/burl_links/node_count.go'
LS = 'pkg/burl_links/link_source.go'
FL = 'pkg/burl_links/flag.go'
UR = 'pkg/burl_url/url.go'
EM = 'pkg/burl_emacs/emacs.go'
FU = 'pkg/burl_fileutil/fileutil.go'
AP = 'pkg/burl_fuzzy/approsearch.go'
RK = 'pkg/burl_fuzzy/rank.go'
BT = 'cmd/burl_tool/burl_tool.go'
BC = 'tools/burl_client/burl_client.go'
MS = 'pkg/burl_util/multistring_flag.go'
MF = 'pkg/webextensions/manifest.go'

GOFRAME = '''
exe = build('cmd/zz_demo', source=r"""
package main

import (
	"bytes"
	"fmt"
	"io"
	"io/ioutil"

	"github.com/maxnikulin/burl/pkg/webextensions"
)

func main() {
	%s
}

var _ = fmt.Println
var _ = io.EOF
var _ = bytes.Equal
var _ = ioutil.ReadAll
""")
r = subprocess.run([exe], capture_output=True, text=True)
expect(r.returncode == 0, r.stdout + r.stderr[-500:])
'''

seed('C01-header-cut', 'C01', 'the stream ends after 1, 2 or 3 bytes of a header', 'a stream cut inside of the header is reported as a clean end',
 [(FR, '''	var size uint32
	if err := binary.Read(r, NativeEndian, &size); err != nil {
		return err
	}
''', '''	var buf [4]byte
	for n := 0; n < len(buf); {
		count, err := r.Read(buf[n:])
		n += count
		if err != nil && n < len(buf) {
			return err
		}
	}
	size := NativeEndian.Uint32(buf[:])
'''),(FR,'''	"bytes"
	"encoding/binary"
''','''	"bytes"
	"encoding/binary"
''')], GOFRAME % '''r := webextensions.NewFrameLimitedReader(ioutil.NopCloser(bytes.NewReader([]byte{5, 0})))
	if err := r.ReadHeader(); err == nil || err == io.EOF {
		panic(fmt.Sprint("cut header: ", err))
	}
	r = webextensions.NewFrameLimitedReader(ioutil.NopCloser(bytes.NewReader(nil)))
	if err := r.ReadHeader(); err != io.EOF {
		panic(fmt.Sprint("end of stream: ", err))
	}''')

seed('C01-signed', 'C01', 'a header announcing 2 GiB or more', 'the size is taken for a negative number and the frame for an empty one',
 [(FR, 'if size > MaxInSize {', 'if int32(size) > int32(MaxInSize) {'),
  (FR, 'r.LimitedReader.N = int64(size)', 'r.LimitedReader.N = int64(int32(size))')], GOFRAME % '''r := webextensions.NewFrameLimitedReader(ioutil.NopCloser(bytes.NewReader([]byte{1, 0, 0, 0x90, 'a', 'b'})))
	if err := r.ReadHeader(); err == nil {
		panic("header of 2.4 GB is accepted")
	}''')

seed('C02-eof', 'C02', 'the input is closed while a slow request is processed', 'the answer to the pending request is lost',
 [(SV, '''	if err := c.Framer.ReadHeader(); err != nil {
		return err
	}
''', '''	if err := c.Framer.ReadHeader(); err != nil {
		// Nobody is going to send anything more, release descriptors.
		c.Framer.Close()
		return err
	}
''')], '''
exe = build('cmd/burl_backend')
e = write('slow', '#!/bin/sh\\nsleep 0.5\\n', 0o755)
note = write('n.org', 'https://example.org/a\\n')
r = ask([exe, '-emacsclient', e, '-org', note], [req(1, 'linkremark.visit', {'file': note, 'lineNo': 1})], code=None)
expect(1 in r and r[1]['result'] is True, r)
''')

seed('C02-megabyte', 'C02', 'a reply longer than 1 MiB', 'no response is sent at all',
 [(FR, '''	size := uint32(w.Buffer.Len())
''', '''	size := uint32(w.Buffer.Len())
	if size > 1024*1024 {
		// Browsers disconnect from the application in such case.
		return TooLargeError
	}
''')], '''
exe = build('cmd/burl_backend')
note = write('n.org', ''.join('[[https://example.org/%d/%s]]\\n' % (i, 'x' * 2000) for i in range(700)))
r = ask([exe, '-org', note], [req(1, 'linkremark.linkSet', {'prefix': ['https']}), req(2, 'linkremark.hello', HELLO)], code=None)
expect(set(r) == {1, 2} and len(r[1]['result']['urls']) == 700, r.keys())
''')

seed('C03-emacs-lock', 'C03', 'a visit that takes long and one more visit', 'the second visit waits till the end of the first one',
 [(EM, '''func VisitFile(path string, lineNo int) error {
''', '''// Frames should not be created simultaneously.
var visitMutex sync.Mutex

func VisitFile(path string, lineNo int) error {
	visitMutex.Lock()
	defer visitMutex.Unlock()
'''), (EM, '''	"strings"
)''', '''	"strings"
	"sync"
)''')], '''
exe = build('cmd/burl_backend')
e = write('slow', '#!/bin/sh\\nfor a; do case "$a" in *wait.org) while [ ! -e "$GO" ]; do sleep 0.05; done;; esac; done\\n', 0o755)
a, b = write('wait.org', 'https://example.org/a\\n'), write('b.org', 'https://example.org/a\\n')
go = os.path.join(T, 'go')
s = Session([exe, '-emacsclient', e, '-org', a, '-org', b], dict(os.environ, GO=go))
s.send(req(1, 'linkremark.visit', {'file': a}))
time.sleep(0.3)
s.send(req(2, 'linkremark.visit', {'file': b}))
r = s.recv(5)
open(go, 'w').close()
expect(r and r['id'] == 2, 'visit 2 is not answered while visit 1 is processed')
expect(s.recv()['id'] == 1, 'visit 1')
''')

seed('C03-hello-init', 'C03', 'hello while notes are being read', 'hello waits till notes are read',
 [(BB, '''	if len(b.srcFiles) > 0 {
		reply.Capabilities''', '''	if len(b.srcFiles) > 0 {
		// Get ready for queries that follow.
		b.once.Do(b.initializer)
		reply.Capabilities''')], '''
exe = build('cmd/burl_backend')
fifo = os.path.join(T, 'n.org')
os.mkfifo(fifo)
s = Session([exe, '-org', fifo])
s.send(req(1, 'linkremark.urlMentions', {'variants': ['https://example.org/']}))
time.sleep(0.2)
s.send(req(2, 'linkremark.hello', HELLO))
r = s.recv(5)
expect(r and r['id'] == 2, 'hello is not answered while notes are read')
''')

seed('C04-dotted', 'C04', 'a request having the internal name of a handler', 'internal handlers are reachable',
 [(SV, '''		name = "unknown." + r.ServiceMethod
''', '''		name = r.ServiceMethod
		if strings.LastIndexByte(name, '.') < 0 {
			// "service.Method" is required for a clear error.
			name = "unknown." + name
		}
'''), (SV, '''	"net/rpc"
)''', '''	"net/rpc"
	"strings"
)''')], '''
exe = build('cmd/burl_backend')
note = write('n.org', 'https://example.org/a\\n')
r = ask([exe, '-org', note], [req(1, 'Burl.Search', {'q': 'example'}), req(2, 'Burl.Hello', HELLO), req(3, 'hello', HELLO)])
expect(r[1].get('error') and r[2].get('error') and not r[3].get('error'), r)
''')

seed('C04-trim', 'C04', 'a name with white space around', 'unpublished names run handlers',
 [(SV, 'name, ok := c.m[r.ServiceMethod]', 'name, ok := c.m[strings.TrimSpace(r.ServiceMethod)]'), (SV, '''	"net/rpc"
)''', '''	"net/rpc"
	"strings"
)''')], '''
exe = build('cmd/burl_backend')
r = ask([exe], [req(1, 'linkremark.hello ', HELLO), req(2, '\\nhello', HELLO), req(3, 'hello', HELLO)])
expect(r[1].get('error') and r[2].get('error') and not r[3].get('error'), r)
''')

seed('C05-tail', 'C05', 'a query consisting of redundant tail characters only', 'the backend crashes',
 [(UR, '''	if i > 0 && slice[i-1] == '?' {
''', '''	if slice[i-1] == '?' {
''')], '''
exe = build('cmd/burl_backend')
note = write('n.org', 'https://example.org/a\\n')
r = ask([exe, '-org', note], [req(1, 'linkremark.urlMentions', {'variants': ['&']}), req(2, 'hello', HELLO)])
expect(1 in r and not r[2].get('error'), r)
''')

seed('C05-deep', 'C05', 'a heading deeper than 40 levels', 'the backend crashes',
 [(EO, '''			for i := len(headings); i < level-1; i++ {
				headings = append(headings, nil)
			}
			h := &Heading{lineNo, matchHeading[2]}
			headings = append(headings, h)
''', '''			var path [40]*Heading
			copy(path[:], headings)
			path[level-1] = &Heading{lineNo, matchHeading[2]}
			headings = append(headings[:0], path[:level]...)
''')], '''
exe = build('cmd/burl_backend')
note = write('n.org', '*' * 41 + ' Heading\\nhttps://example.org/a\\n')
r = mentions(exe, ['-org', note], ['https://example.org/a'])
expect(links(r) == ['https://example.org/a'], r)
''')

seed('C06-dup', 'C06', 'three links in one section, the first is the same as the third', 'the repeated link is listed twice',
 [(LT, '''	links := make([]*Link, 0, target)
	seen := make(map[string]bool)
	for _, l := range t.Links {
		if _, has := seen[l.URL]; has {
			continue
		}
		seen[l.URL] = true
''', '''	links := make([]*Link, 0, target)
	for _, l := range t.Links {
		if n := len(links); n > 0 && links[n-1].URL == l.URL {
			continue
		}
''')], '''
exe = build('cmd/burl_backend')
a, b = 'https://example.org/a', 'http://example.org/a'
note = write('n.org', '\\n'.join([a, a, b, a, '']))
r = mentions(exe, ['-org', note], [a])
expect(links(r) == [a, b] and r['total'] == 4, r)
''')

seed('C06-descr', 'C06', 'a description having a square bracket', 'the link is lost',
 [(EO, '''(?:\\\\[((?:.|\\n)+?)\\\\])?\\\\]"''', '''(?:\\\\[([^\\\\]]+)\\\\])?\\\\]"''')], '''
exe = build('cmd/burl_backend')
a = 'https://example.org/a'
note = write('n.org', '[[%s][a [1] b]] [[%s][x]]\\n* H\\n[[%s][a]b]]\\n' % (a, a, a))
r = mentions(exe, ['-org', note], [a])
expect(r['total'] == 3 and r['children'][0]['links'][0]['descr'] == 'a [1] b', r)
''')

seed('C07-label', 'C07', 'a component of the host name longer than 33 characters', 'the link is reported partially',
 [(UT, '{0,62})?', '{0,31})?')], '''
exe = build('cmd/burl_backend')
a = 'https://' + 'a' * 40 + '.example.org/a'
note = write('n.txt', 'text ' + a + ' text\\n')
r = mentions(exe, ['-txt', note], [a])
expect(links(r) == [a], r)
''')

seed('C07-final', 'C07', 'a URL delimited by white space that is the last word of a line having trailing white space, then other lines', 'line numbers are wrong after blank lines',
 [(ET, '''		line := scanner.Bytes()
		lineNo++
		for len(line) != 0 {
			advance''', '''		line := bytes.TrimSpace(scanner.Bytes())
		if len(line) == 0 && lineNo > 0 {
			continue
		}
		lineNo++
		for len(line) != 0 {
			advance'''), (ET, '''	"bufio"
''', '''	"bufio"
	"bytes"
''')], '''
exe = build('cmd/burl_backend')
a = 'https://example.org/a'
note = write('n.txt', 'text\\n \\n' + a + '\\n')
r = mentions(exe, ['-txt', note], [a])
expect(r['children'][0]['links'][0]['lineNo'] == 3, r)
''')

seed('C08-order', 'C08', 'more sections with matches than the limit, and the later ones have more matches', 'sections with more matches are dropped',
 [(LT, '''	sort.SliceStable(sorted, treeNodeGreater)
	sum := 0
	i := 0
	if target < len(sorted) {
		sorted = sorted[:target]
	}
''', '''	sum := 0
	i := 0
	if target < len(sorted) {
		sorted = sorted[:target]
	}
	sort.SliceStable(sorted, treeNodeGreater)
''')], '''
exe = build('cmd/burl_backend')
us = ['https://example.org/%d' % i for i in range(20)]
note = write('n.org', '* A\\n%s\\n* B\\n%s\\n* C\\n%s\\n' % (us[0], us[1], '\\n'.join(us[2:])))
r = mentions(exe, ['-org', note], us, 2)
expect([c['rawText'] for c in r['children']] == ['A', 'C'], r)
''')

seed('C08-share', 'C08', 'one large section, several small ones, a limit close to the number of sections', 'more links than the limit are shown',
 [(LT, '''	for i > 0 {
		i--
		attr := sorted[i].Attrs
''', '''	for i := range sorted {
		attr := sorted[i].Attrs
''')], '''
exe = build('cmd/burl_backend')
us = ['https://example.org/%d' % i for i in range(12)]
note = write('n.org', '* A\\n%s\\n* B\\n%s\\n* C\\n%s\\n' % ('\\n'.join(us[2:]), us[0], us[1]))
r = mentions(exe, ['-org', note], us, 3)
expect(len(links(r)) == 3 and r['filtered'] == 3, r)
''')

seed('C09-hash', 'C09', 'a query with several number signs at the end', 'URLs that differ in more than the redundant tail are equated',
 [(UR, '''	if i > 0 && slice[i-1] == '#' {
''', '''	for i > 0 && slice[i-1] == '#' {
''')], '''
exe = build('cmd/burl_backend')
note = write('n.org', '[[https://example.org/a]]\\n')
r = mentions(exe, ['-org', note], ['https://example.org/a##'])
expect(links(r) == [], r)
''')

seed('C09-empty-variant', 'C09', 'an empty variant before other ones', 'variants after the empty one are ignored',
 [(BB, '''		if u != "" {
			hasUrl = true
			variants = append(variants, burl_url.UrlVariants(u)...)
		}
''', '''		if u == "" {
			break
		}
		hasUrl = true
		variants = append(variants, burl_url.UrlVariants(u)...)
''')], '''
exe = build('cmd/burl_backend')
note = write('n.org', '[[https://example.org/a]]\\n')
r = mentions(exe, ['-org', note], ['https://example.org/b', '', 'https://example.org/a'])
expect(links(r) == ['https://example.org/a'], r)
''')

seed('C10-cache', 'C10', 'a file is rewritten with the same number of bytes between two requests of one session within a second', 'links of the previous content are returned',
 [(LS, '''			var file io.ReadCloser
			file, err = os.Open(name)
			if err != nil {
				break
			}
			reader = file
			defer file.Close()
''', '''			var content []byte
			content, err = readCached(name)
			if err != nil {
				break
			}
			reader = bytes.NewReader(content)
'''), (LS, '''func ExtractLinkSetFromFileGroup(''', '''type cachedFile struct {
	modified int64
	content  []byte
}

var fileCache = map[string]cachedFile{}
var fileCacheMutex sync.Mutex

// Avoid reading of files that have not changed.
func readCached(name string) ([]byte, error) {
	stat, err := os.Stat(name)
	if err != nil {
		return nil, err
	}
	fileCacheMutex.Lock()
	defer fileCacheMutex.Unlock()
	modified := stat.ModTime().Unix()
	if c, ok := fileCache[name]; ok && c.modified == modified && int64(len(c.content)) == stat.Size() {
		return c.content, nil
	}
	content, err := os.ReadFile(name)
	if err == nil {
		fileCache[name] = cachedFile{modified, content}
	}
	return content, err
}

func ExtractLinkSetFromFileGroup('''), (LS, '''	"io"
	"os"
''', '''	"bytes"
	"io"
	"os"
	"sync"
''')], '''
exe = build('cmd/burl_backend')
note = write('n.org', '[[https://example.org/a]]\\n')
s = Session([exe, '-org', note])
for k in range(20):
    u = 'https://example.org/' + 'ab'[k % 2]
    write('n.org', '[[%s]]\\n' % u)
    r = s.call(k, 'linkremark.linkSet', {'prefix': ['https']})
    expect(r['result']['urls'] == [u], (u, r))
''')

seed('C10-sixteen', 'C10', 'exactly 16 prefixes', 'a valid request is refused',
 [(BB, 'if len(query.Prefix) > burl_rpc.LinkSetPrefixCountLimit {', 'if len(query.Prefix) >= burl_rpc.LinkSetPrefixCountLimit {')], '''
exe = build('cmd/burl_backend')
note = write('n.org', '[[https://example.org/a]]\\n')
r = ask([exe, '-org', note], [req(n, 'linkremark.linkSet', {'prefix': ['https:'] * n}) for n in (1, 16, 17)])
expect(r[1].get('result') and r[16].get('result') and r[17].get('error'), r)
''')

seed('C11-once', 'C11', 'a file can not be read and the request is repeated', 'the error is reported only once, then the answer is incomplete',
 [(BB, '''	b.once.Do(b.initializer)
	if b.err != nil {
		return b.err
	}
	filter := ''', '''	b.once.Do(b.initializer)
	if err := b.err; err != nil && b.fileGroup == nil {
		return err
	} else if err != nil {
		b.err = nil
		return err
	}
	filter := ''')], '''
exe = build('cmd/burl_backend')
note = write('n.org', 'https://example.org/a\\n')
s = Session([exe, '-org', note, '-org', os.path.join(T, 'absent.org')])
for k in range(3):
    r = s.call(k, 'linkremark.urlMentions', {'variants': ['https://example.org/a']})
    expect(r.get('error'), r)
''')

seed('C11-toolong', 'C11', 'a line longer than 64 KiB after links in a text file', 'the rest of the file is silently ignored',
 [(ET, '''			if err == bufio.ErrFinalToken {
				break
			}
			line = line[advance:]
		}
	}
	return &tree, scanner.Err()
''', '''			if err == bufio.ErrFinalToken {
				break
			}
			line = line[advance:]
		}
	}
	err := scanner.Err()
	if err == bufio.ErrTooLong && !tree.Empty() {
		// Binary file or so, forget its tail.
		log.Println("burl_links.TxtLinkSource:", err)
		err = nil
	}
	return &tree, err
''')], '''
exe = build('cmd/burl_backend')
note = write('n.txt', 'https://example.org/a\\n' + 'x ' * 50000 + '\\nhttps://example.org/b\\n')
r = ask([exe, '-txt', note], [req(1, 'linkremark.urlMentions', {'variants': ['https://example.org/b']})])
expect(r[1].get('error') or links(r[1]['result']) == ['https://example.org/b'], r)
''')

seed('C12-clean', 'C12', 'a path that is another spelling of a configured one', 'a path that is not literally configured is opened',
 [(BB, 'if query.FilePath == src.Name() {', 'if filepath.Clean(query.FilePath) == src.Name() {'), (BB, '''	"os"
''', '''	"os"
	"path/filepath"
''')], '''
exe = build('cmd/burl_backend')
e, env, log = emacs()
note = write('n.org', 'https://example.org/a\\n')
r = ask([exe, '-org', note, '-emacsclient', e], [req(1, 'linkremark.visit', {'file': os.path.join(T, 'absent', '..', 'n.org')})], env=env)
expect(r[1].get('error') and not os.path.exists(log), r)
''')

seed('C12-first-line', 'C12', 'line number 1', 'no line is passed to Emacs',
 [(EM, 'if lineNo > 0 {', 'if lineNo > 1 {')], '''
exe = build('cmd/burl_backend')
e, env, log = emacs()
note = write('n.org', 'https://example.org/a\\n')
r = ask([exe, '-org', note, '-emacsclient', e], [req(1, 'linkremark.visit', {'file': note, 'lineNo': 1})], env=env)
expect(b'+1' in open(log, 'rb').read().split(b'\\0'), open(log, 'rb').read())
''')

seed('C13-confirmed', 'C13', 'two captures, org-protocol becomes unavailable in between (Emacs is restarted)', 'the URI is passed without confirmation that org-protocol is loaded',
 [(EM, '''func CheckOrgProtocol() error {
''', '''var orgProtocolLoaded int32

func CheckOrgProtocol() error {
	if atomic.LoadInt32(&orgProtocolLoaded) != 0 {
		return nil
	}
'''), (EM, '''		return errors.New("org-protocol is not loaded")
	}
''', '''		return errors.New("org-protocol is not loaded")
	}
	atomic.StoreInt32(&orgProtocolLoaded, 1)
'''), (EM, '''	"strings"
)''', '''	"strings"
	"sync/atomic"
)''')], '''
exe = build('cmd/burl_backend')
e, env, log = emacs()
s = Session([exe, '-emacsclient', e], env)
c = {'format': 'org-protocol', 'version': '0.2', 'data': {'url': 'org-protocol:/capture?url=x'}}
expect(s.call(1, 'linkremark.capture', c)['result']['status'] == 'success', 1)
open(log + '.noorg', 'w').close()
r = s.call(2, 'linkremark.capture', c)
expect(r.get('error'), r)
''')

seed('C13-trim', 'C13', 'a URI with white space at its end', 'the URI is changed',
 [(EM, '''	if !strings.HasPrefix(uri, "org-protocol:") {
''', '''	uri = strings.TrimSpace(uri)
	if !strings.HasPrefix(uri, "org-protocol:") {
''')], '''
exe = build('cmd/burl_backend')
e, env, log = emacs()
u = 'org-protocol:/capture?url=x \\n'
c = {'format': 'org-protocol', 'version': '0.2', 'data': {'url': u}}
r = ask([exe, '-emacsclient', e], [req(1, 'linkremark.capture', c)], env=env)
expect(u.encode() in open(log, 'rb').read().split(b'\\0'), open(log, 'rb').read())
''')

seed('C14-buffer', 'C14', 'two mentions queries processed at the same time', 'one query uses URLs of the other one, data race',
 [(BB, '''	hasUrl := false
	var variants []string
''', '''	hasUrl := false
	variants := b.variants[:0]
'''), (BB, '''	if !hasUrl {
''', '''	b.variants = variants
	if !hasUrl {
'''), (BB, '''	initializer func()
''', '''	initializer func()
	variants    []string // buffer
'''), (BB, 'args.LinkSources, nil, nil, sync.Once{}, nil, nil}', 'args.LinkSources, nil, nil, sync.Once{}, nil, nil, nil}')], '''
exe = build('cmd/burl_backend', race=True)
us = ['https://example.org/%d' % i for i in range(40)]
note = write('n.org', '\\n'.join(us) + '\\n' + 'http://example.com/x\\n' * 3000)
rs = ask([exe, '-org', note], [req(i, 'linkremark.urlMentions', {'variants': [u]}) for i, u in enumerate(us)] * 1, code=None)
for i, u in enumerate(us):
    expect(i in rs and links(rs[i]['result']) == [u], (u, rs.get(i)))
r = subprocess.run([exe, '-org', note], input=b''.join(req(i, 'linkremark.urlMentions', {'variants': [u]}) for i, u in enumerate(us)), capture_output=True)
expect(b'DATA RACE' not in r.stderr and r.returncode == 0, 'data race')
''')

seed('C15-log', 'C15', 'an empty log option', 'the script starts the backend with the default log',
 [(AR, '''	if logfile, err := burl_fileutil.EscapeShellArg(a.LogFile); err == nil {
		retval = append(retval, "--log", logfile)
	} else {
		return retval, err
	}
''', '''	if a.LogFile != "" {
		logfile, err := burl_fileutil.EscapeShellArg(a.LogFile)
		if err != nil {
			return retval, err
		}
		retval = append(retval, "--log", logfile)
	}
''')], '''
exe = build('cmd/burl_backend')
w = os.path.join(T, 'wrapper')
note = write('n.org', 'https://example.org/a\\n' + 'x' * 70000)
subprocess.run([exe, '-log=', '-org', note, '-wrapper', w], check=True)
q = req(1, 'linkremark.urlMentions', {'variants': ['https://example.org/a']})
r = subprocess.run([exe, '-log=', '-org', note], input=q, capture_output=True)
expect(r.stderr == b'', r.stderr)
r = subprocess.run([w], input=q, capture_output=True)
expect(r.stderr == b'', r.stderr)
''')

seed('C15-reset', 'C15', 'an empty scheme (or emacsarg) option followed by others', 'the script adds schemes to default ones instead of replacing them',
 [(MS, '''		retval := make([]string, len(*f.slice)+1)
		retval[0] = ""
		copy(retval[1:], *f.slice)
		return retval
''', '''		if len(*f.slice) == 0 {
			return []string{""}
		}
		return f.Values()
''')], '''
exe = build('cmd/burl_backend')
w = os.path.join(T, 'wrapper')
note = write('n.org', '[[urn:a]]\\nhttps://example.org/a\\n')
subprocess.run([exe, '-scheme=', '-scheme=urn', '-org', note, '-wrapper', w], check=True)
expect(links(mentions(w, [], ['https://example.org/a', 'urn:a'])) == ['urn:a'], 'scheme')
''')

seed('C16-notexec', 'C16', 'the executable of the backend exists but it is not executable', 'the script dies without an answer',
 [(IN, '[ -x "$BURL_BACKEND" ]', '[ -f "$BURL_BACKEND" ]')], '''
exe = build('cmd/burl_backend')
w = os.path.join(T, 'wrapper')
subprocess.run([exe, '-wrapper', w], check=True)
os.chmod(exe, 0o644)
r = subprocess.run([w], capture_output=True)
f = parse(r.stdout)
expect(len(f) == 1 and 'burl_backend' in f[0]['error'], r)
''')

seed('C17-name', 'C17', 'a file name that has the -backend name as its beginning', 'a manifest is written with a name that is not the requested one',
 [(FU, 'if options.Name != "" && base != options.Name+options.Ext {', 'if !strings.HasPrefix(base, options.Name) {')], '''
exe = build('cmd/burl_backend')
m = os.path.join(T, 'burl.test.json')
r = subprocess.run([exe, '-backend', 'burl', '-manifest-firefox', m], capture_output=True)
expect(r.returncode != 0 and not os.path.exists(m), r)
''')

seed('C17-origin', 'C17', 'a bare Chrome id that looks like a URL of another kind', 'ids are not converted to the required form',
 [(IN, 'if strings.HasPrefix(id, "chrome-extension://") {', 'if strings.HasPrefix(id, "chrome-extension") {')], '''
exe = build('cmd/burl_backend')
m = os.path.join(T, 'burl.json')
subprocess.run([exe, '-chrome-extension=', '-chrome-extension=chrome-extension-id', '-manifest-chrome', m], check=True)
expect(json.load(open(m))['allowed_origins'] == ['chrome-extension://chrome-extension-id/'], open(m).read())
''')

seed('C18-prefix', 'C18', 'the existing file is the generated one with something added to its end', 'a file with different content is reported as success',
 [(FU, 'if bytes.Equal(data[:count], content) {', 'if bytes.HasPrefix(data[:count], content) {')], '''
exe = build('cmd/burl_backend')
w = os.path.join(T, 'wrapper')
subprocess.run([exe, '-wrapper', w], check=True)
open(w, 'a').write('# local changes\\n')
r = subprocess.run([exe, '-wrapper', w], capture_output=True)
expect(r.returncode != 0, 'different content is not reported')
''')

seed('C18-umask', 'C18', 'umask that takes away permissions', 'permissions of new files depend on umask',
 [(FU, '''	f, err := ioutil.TempFile(filepath.Dir(path), filepath.Base(path))
	defer f.Close()
	if err != nil {
		return err
	}
	if err := f.Chmod(mode); err != nil {
		os.Remove(f.Name()) // unlinkat(2) ?
		return err
	}
''', '''	f, err := os.OpenFile(fmt.Sprintf("%s.%d", path, os.Getpid()), os.O_CREATE|os.O_EXCL|os.O_WRONLY, mode)
	if err != nil {
		return err
	}
	defer f.Close()
'''), (FU, '''	"io/ioutil"
''', '')], '''
exe = build('cmd/burl_backend')
w = os.path.join(T, 'wrapper')
subprocess.run(['sh', '-c', 'umask 077; exec "$0" -wrapper "$1"', exe, w], check=True)
expect(os.stat(w).st_mode & 0o777 == 0o755, oct(os.stat(w).st_mode))
''')

seed('C19-remove', 'C19', 'a crash between two system calls', 'the target file is missing',
 [(FU, '''	// renameat(2) ?
	if err''', '''	if stat != nil {
		// Some file systems refuse to replace existing files.
		os.Remove(path)
	}
	// renameat(2) ?
	if err''')], '''
exe = build('cmd/burl_backend')
w = write('wrapper', '#!/bin/sh\\nold\\n', 0o755)
r = subprocess.run(['strace', '-f', '-o', os.path.join(T, 'log'), '-e', 'trace=renameat,rename,renameat2', '-e', 'inject=renameat,rename,renameat2:error=EIO', exe, '-force', '-wrapper', w], capture_output=True)
if b'ptrace' in r.stderr and b'perm' in r.stderr.lower():
    print('no strace')
    sys.exit(4)
expect(os.path.exists(w) and open(w).read() == '#!/bin/sh\\nold\\n', 'the file is lost: %s' % r.stderr)
expect(r.returncode != 0, r)
''')

seed('C19-chmod', 'C19', 'the change of permissions fails', 'success is reported for a file that is not executable',
 [(FU, '''	if err := f.Chmod(mode); err != nil {
		os.Remove(f.Name()) // unlinkat(2) ?
		return err
	}
''', '''	if err := f.Chmod(mode); err != nil && !errors.Is(err, os.ErrPermission) {
		// Not supported by some file systems.
		os.Remove(f.Name()) // unlinkat(2) ?
		return err
	}
''')], '''
exe = build('cmd/burl_backend')
w = os.path.join(T, 'wrapper')
r = subprocess.run(['strace', '-f', '-o', os.path.join(T, 'log'), '-e', 'trace=fchmod', '-e', 'inject=fchmod:error=EPERM', exe, '-wrapper', w], capture_output=True)
expect(r.returncode != 0 or os.stat(w).st_mode & 0o777 == 0o755, 'success, but mode is %o' % os.stat(w).st_mode if os.path.exists(w) else 'no file')
''')

FUZZ = '''
exe = build('cmd/zz_demo', source=r"""
package main

import (
	"fmt"

	"github.com/maxnikulin/burl/pkg/burl_fuzzy"
)

func main() {
	%s
}

var _ = fmt.Sprint
""")
r = subprocess.run([exe], capture_output=True, text=True)
expect(r.returncode == 0, r.stdout + r.stderr[-500:])
'''

seed('C20-swap-start', 'C20', 'adjacent characters are swapped at the start of the text after deletions', 'the distance is too small or large',
 [(AP, 'prevDistance[1] = DeletionDistance * EditorDistance(iPattern-1)', 'prevDistance[1] = 0')], FUZZ % '''if d := burl_fuzzy.SearchDistanceDL("xab", "ba"); d != 2 {
		panic(fmt.Sprint(d))
	}''')

seed('C20-bytes', 'C20', 'non-ASCII characters', 'bytes are counted instead of characters',
 [(AP, '''	patternRunes := []rune(strings.ToLower(pattern))
	wordRunes := []rune(strings.ToLower(word))
	return''', '''	pattern, word = strings.ToLower(pattern), strings.ToLower(word)
	patternRunes, wordRunes := make([]rune, len(pattern)), make([]rune, len(word))
	for i := range patternRunes {
		patternRunes[i] = rune(pattern[i])
	}
	for i := range wordRunes {
		wordRunes[i] = rune(word[i])
	}
	return''')], FUZZ % '''if d := burl_fuzzy.SearchDistanceDL("aыb", "xa日bx"); d != 1 {
		panic(fmt.Sprint(d))
	}''')

seed('C21-ties', 'C21', 'more URLs of the same distance than the limit', 'the result depends on the order of URLs',
 [(RK, '} else if item.Less((*h)[0]) {', '} else if item.Weight < (*h)[0].Weight {')], FUZZ % '''limit, tol := 2, burl_fuzzy.EditorDistance(0)
	source := func(cb func(string) bool) {
		for _, u := range []string{"https://example.org/abc", "https://example.org/bbb", "https://example.org/aaa", "https://example.org/"} {
			cb(u)
		}
	}
	h := burl_fuzzy.ProcessUrlSource([]string{"example"}, source, &limit, &tol)
	if h.Len() != 2 || h[1].Word != "https://example.org/" || h[0].Word != "https://example.org/aaa" {
		panic(fmt.Sprint(h[0].Word, h[1].Word))
	}''')

seed('C21-sum', 'C21', 'several words, each of them is within tolerance', 'URLs beyond of the tolerance are returned',
 [(RK, '''		if distance > limit {
			return false, distance
		}
''', '''		if distance > limit*EditorDistance(len(query)) {
			return false, distance
		}
'''), (RK, 'q.query, word, limit-distance)', 'q.query, word, limit)')], FUZZ % '''limit, tol := 5, burl_fuzzy.EditorDistance(1)
	source := func(cb func(string) bool) {
		cb("https://exxample.org/xpage")
		cb("https://example.org/xpage")
	}
	h := burl_fuzzy.ProcessUrlSource([]string{"example", "/page"}, source, &limit, &tol)
	if h.Len() != 1 {
		panic(fmt.Sprint(h.Len()))
	}''')

seed('C22-kind', 'C22', 'a plain text file with .org inside of its name', 'a plain text file is treated as an Org one',
 [(FL, 'if strings.HasSuffix(arg, ".org") {', 'if strings.Contains(arg, ".org") {')], '''
exe = build('cmd/burl_tool')
note = write('example.org.txt', '* text\\n[[https://example.org/a][b]]\\n')
r = subprocess.run([exe, 'https://example.org/a', note], capture_output=True, check=True)
l = json.loads(r.stdout)['children'][0]
expect(l['_type'] == 'Body' and 'descr' not in l['links'][0], l)
''')

seed('C22-stdin', 'C22', 'a note file given by a typed option only', 'standard input is read in addition to files',
 [(BT, 'if flag.NArg() == nextArg && len(linkSources) == 0 {', 'if flag.NArg() == nextArg {')], '''
exe = build('cmd/burl_tool')
note = write('n.org', '[[https://example.org/a][b]]\\n')
r = subprocess.run([exe, '-org', note, '-set', 'https'], input=b'https://example.org/stdin\\n', capture_output=True, check=True)
expect(r.stdout == b'https://example.org/a\\n', r)
''')

seed('C23-status', 'C23', 'the command exits with a non-zero status after a successful session', 'Close does not report the exit status',
 [(CL, '''	if errClose != nil {
		return errClose
	}
	return errWait
''', '''	if errWait != nil {
		return errClose
	}
	return nil
''')], '''
exe = build('cmd/zz_demo', source=r"""
package main

import "github.com/maxnikulin/burl/pkg/webextensions"

func main() {
	c, err := webextensions.NewClientCommand([]string{"sh", "-c", "cat >/dev/null; exit 3"})
	if err != nil {
		panic(err)
	}
	if err := c.Close(); err == nil {
		panic("exit status 3 is not reported")
	}
}
""")
r = subprocess.run([exe], capture_output=True, text=True)
expect(r.returncode == 0, r.stderr[-500:])
''')

seed('C23-variants', 'C23', 'the mentions command with a URL that contains a space', 'the URL is split to several ones',
 [(BC, 'Variants: args[1:], Options: nil}', 'Variants: strings.Fields(strings.Join(args[1:], " ")), Options: nil}'), (BC, '''	"os/exec"
''', '''	"os/exec"
	"strings"
''')], '''
exe = build('tools/burl_client')
backend = build('cmd/burl_backend')
note = write('n.org', '[[https://example.org/a b][b]]\\n[[https://example.org/a]]\\n')
r = subprocess.run([exe, backend, '-org', note, '--', 'mentions', 'https://example.org/a b'], capture_output=True, check=True)
expect(links(json.loads(r.stdout)) == ['https://example.org/a b'], r)
''')

seed('C24-first', 'C24', 'the first org-protocol offer has no version, a later one does', 'hello succeeds with a later offer',
 [(BB, 'if descr.Format != format {', 'if descr.Format != format || descr.Version == "" {')], '''
exe = build('cmd/burl_backend')
r = ask([exe], [req(1, 'hello', {'formats': [{'format': 'org-protocol'}, {'format': 'org-protocol', 'version': '0.2'}]})])
expect(r[1].get('error'), r)
''')

seed('C25-bracket', 'C25', 'additional schemes and bracket links', 'bracket links having an added scheme are not found',
 [(EO, '''	reSchemeStr = schemeStr
	reScheme = reSchemeTmp
''', '''	if len(reSchemeTmp.String()) < len(reScheme.String()) {
		reScheme = reSchemeTmp
	}
	reSchemeStr = schemeStr
''')], '''
exe = build('cmd/burl_backend')
note = write('n.org', '[[https://example.org/a][b]]\\n[[urn:a]] <urn:b> urn:cc\\n')
r = mentions(exe, ['-org', note, '-scheme', 'urn'], ['urn:a', 'urn:b', 'urn:cc'])
expect(links(r) == ['urn:a', 'urn:b', 'urn:cc'], r)
''')

seed('C25-boundary', 'C25', 'a word ending with the name of a scheme', 'a part of a word is treated as a plain link',
 [(EO, '''rePlainStr := "\\\\b(" + schemeStr''', '''rePlainStr := "(" + schemeStr''')], '''
exe = build('cmd/burl_backend')
note = write('n.org', '[[https://example.org/a][b]]\\nxhttps://example.org/a\\n')
r = mentions(exe, ['-org', note], ['https://example.org/a'])
expect(r['total'] == 1, r)
''')

seed('C26-shared', 'C26', 'a query that matches all links of a section with a small limit, then another query', 'links are lost for the following queries',
 [(LT, '''	if len(children) == 0 {
		return nil
	}
	return &TreeLeafNode{children}
''', '''	if len(children) == 0 {
		return nil
	}
	if len(children) == len(t.Links) {
		// Let garbage collector release the copy.
		return t
	}
	return &TreeLeafNode{children}
''')], '''
exe = build('cmd/burl_backend')
us = ['https://example.org/%d' % i for i in range(5)]
note = write('n.org', '\\n'.join(us) + '\\n')
s = Session([exe, '-org', note])
q = lambda n: {'variants': us, 'options': {'countLimit': n}}
for k, n in enumerate([5, 2, 5]):
    r = s.call(k, 'linkremark.urlMentions', q(n))['result']
    expect(len(links(r)) == n and r['total'] == 5, (n, r))
''')
