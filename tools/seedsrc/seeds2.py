seed('C01-zero', 'C01', 'an empty message', 'nothing is written for it',
 [(FR, '''	size := uint32(w.Buffer.Len())
''', '''	size := uint32(w.Buffer.Len())
	if size == 0 {
		return nil
	}
''')], GOFRAME % '''var out bytes.Buffer
	w := webextensions.FrameBufferedWriter{W: &out}
	if err := w.WriteFrame(); err != nil {
		panic(err)
	}
	if out.Len() != 4 {
		panic(out.Bytes())
	}''')

seed('C01-failed', 'C01', 'a write fails, a later one does not', 'a message that was not written is a part of the next one',
 [(FR, '''	defer w.Buffer.Reset()
	size''', '''	size''')], (GOFRAME % '''var out bytes.Buffer
	f := &failing{W: &out, fail: true}
	w := webextensions.FrameBufferedWriter{W: f}
	w.Write([]byte("first"))
	if err := w.WriteFrame(); err == nil {
		panic("no error")
	}
	f.fail = false
	w.Write([]byte("second"))
	if err := w.WriteFrame(); err != nil {
		panic(err)
	}
	if out.String() != "\\x06\\x00\\x00\\x00second" {
		panic(out.String())
	}''').replace('var _ = fmt.Println', '''type failing struct {
	W io.Writer
	fail bool
}

func (f *failing) Write(p []byte) (int, error) {
	if f.fail {
		return 0, io.ErrClosedPipe
	}
	return f.W.Write(p)
}

var _ = fmt.Println'''))

seed('C04-case', 'C04', 'a method name that differs in case from a published one', 'the handler is run',
 [(SV, '''	name, ok := c.m[r.ServiceMethod]
''', '''	name, ok := c.m[r.ServiceMethod]
	for key, value := range c.m {
		if ok {
			break
		}
		if strings.EqualFold(key, r.ServiceMethod) {
			name, ok = value, true
		}
	}
'''), (SV, '''	"net/rpc"
)''', '''	"net/rpc"
	"strings"
)''')], '''
exe = build('cmd/burl_backend')
r = ask([exe], [req(1, 'Linkremark.hello', HELLO), req(2, 'linkremark.hello', HELLO)])
expect(r[1].get('error') and not r[2].get('error'), r)
''')

seed('C03-linkset', 'C03', 'a linkSet request that reads a slow file (e.g. a FIFO), another linkSet request', 'the latter is not answered till the former is',
 [(BB, '''	urls, err := burl_links.ExtractLinkSetFromFileGroup(srcFiles, prefixes)
''', '''	linkSetLock.Lock()
	defer linkSetLock.Unlock()
	urls, err := burl_links.ExtractLinkSetFromFileGroup(srcFiles, prefixes)
'''), (BB, '''func LinkSetReal(''', '''var linkSetLock sync.Mutex

func LinkSetReal(''')], '''
exe = build('cmd/burl_backend')
fifo = os.path.join(T, 'n.org')
os.mkfifo(fifo)
s = Session([exe, '-org', fifo])
s.send(req(1, 'linkremark.linkSet', {'prefix': ['https']}))
time.sleep(0.5)
w = os.open(fifo, os.O_WRONLY)
time.sleep(0.5)
r = s.call(2, 'linkremark.linkSet', {'prefix': []}, 5)
expect(r and r['id'] == 2 or False, r)
''')

seed('C05-stdout', 'C05', 'a linkSet request having too many prefixes', 'text that is not a frame on standard output',
 [(BB, '''		log.Printf("prefixes %v\\n", query.Prefix)
''', '''		fmt.Printf("prefixes %v\\n", query.Prefix)
''')], '''
exe = build('cmd/burl_backend')
note = write('n.org', 'https://example.org/a\\n')
r = ask([exe, '-org', note], [req(1, 'linkremark.linkSet', {'prefix': ['https'] * 17})])
expect(r[1].get('error'), r)
''')

seed('C06-tab', 'C06', 'a tabulation character between stars and text of a heading', 'the heading is not recognised',
 [(EO, '`^(\\*+)\\s+(', '`^(\\*+) +(')], '''
exe = build('cmd/burl_backend')
note = write('n.org', '* a\\n*\\tb\\nhttps://example.org/a\\n')
r = mentions(exe, ['-org', note], ['https://example.org/a'])
expect(r['children'][0]['rawText'] == 'b', r)
''')

seed('C06-nested', 'C06', 'nested parentheses in a plain link', 'the link is cut',
 [(EO, '''"(?:[^][ \\t\\n(\\\\)<>]|\\\\((?:[^][ \\t\\n(\\\\)<>]|\\\\([^][ \\t\\n(\\\\)<>]*\\\\))*\\\\))+''', '''"(?:[^][ \\t\\n(\\\\)<>]|\\\\([^][ \\t\\n(\\\\)<>]*\\\\))+''')], '''
exe = build('cmd/burl_backend')
u = 'https://example.org/a(b(c)d)e'
note = write('n.org', 'https://example.org/\\n' + u + '\\n')
r = mentions(exe, ['-org', note], [u])
expect(links(r) == [u], r)
''')

seed('C07-tld', 'C07', 'a top level domain longer than 12 characters', 'the URL is cut',
 [(UT, '`(?:\\p{L}){2,64}\\.?`', '`(?:\\p{L}){2,12}\\.?`')], '''
exe = build('cmd/burl_backend')
u = 'https://example.international/a'
note = write('n.txt', 'https://example.org/\\n' + u + '\\n')
r = mentions(exe, ['-txt', note], [u])
expect(links(r) == [u], r)
''')

seed('C07-percent', 'C07', 'percent encoding in lower case', 'the URL is cut',
 [(UT, '(?:%[0-9a-fA-F]{2})', '(?:%[0-9A-F]{2})')], '''
exe = build('cmd/burl_backend')
u = 'https://example.org/a%2fb'
note = write('n.txt', 'https://example.org/\\n' + u + '\\n')
r = mentions(exe, ['-txt', note], [u])
expect(links(r) == [u], r)
''')

seed('C09-amp', 'C09', 'a URL having several ampersands at its end', 'the same URL without them is not found',
 [(UR, "for i > 0 && slice[i-1] == '&' {", "if i > 0 && slice[i-1] == '&' {")], '''
exe = build('cmd/burl_backend')
note = write('n.org', 'https://example.org/a\\n')
r = mentions(exe, ['-org', note], ['https://example.org/a?&&'])
expect(r['total'] == 1, r)
''')

seed('C10-quote', 'C10', 'special characters of regular expressions in the prefix', 'links having other prefixes are returned',
 [(EO, 'withColon := regexp.QuoteMeta(prefix)', 'withColon := strings.Replace(prefix, "?", "\\\\?", -1)')], '''
exe = build('cmd/burl_backend')
note = write('n.org', '[[https://example.org/a]]\\n[[https://example-org/a]]\\n')
r = ask([exe, '-org', note], [req(1, 'linkremark.linkSet', {'prefix': ['https://example.']})])
expect(r[1]['result']['urls'] == ['https://example.org/a'], r)
''')

seed('C11-next', 'C11', 'a missing file that is not the last one', 'the error is lost',
 [(LS, '''		if tree != nil {
			group.AppendChild(tree)
		}
		if err != nil {
			break
		}
''', '''		if tree != nil {
			group.AppendChild(tree)
		}
''')], '''
exe = build('cmd/burl_backend')
note = write('n.org', '[[https://example.org/a]]\\n')
r = ask([exe, '-org', note + '.missing', '-org', note], [req(1, 'linkremark.urlMentions', {'variants': ['https://example.org/a']})])
expect(r[1].get('error'), r)
''')

seed('C12-line1', 'C12', 'the first line', 'the line is not passed to Emacs',
 [(EM, 'if lineNo > 0 {', 'if lineNo > 1 {')], '''
exe = build('cmd/burl_backend')
cl, env, log = emacs()
note = write('n.org', '[[https://example.org/a]]\\n')
ask([exe, '-emacsclient', cl, '-org', note], [req(1, 'linkremark.visit', {'file': note, 'lineNo': 1})], env)
expect(b'+1' in open(log, 'rb').read().split(b'\\0'), open(log, 'rb').read())
''')

seed('C13-error', 'C13', 'a capture request having both an error and a valid URL', 'the command is executed',
 [(BB, '	if query.Error != nil {', '	if query.Error != nil && query.Data.Url == "" {')], '''
exe = build('cmd/burl_backend')
cl, env, log = emacs()
r = ask([exe, '-emacsclient', cl], [req(1, 'linkremark.capture', {'format': 'org-protocol', 'version': '0.2', 'error': {'a': 1}, 'data': {'url': 'org-protocol://store-link?url=a'}})], env)
expect(r[1]['result']['status'] == 'preview' and not os.path.exists(log), r)
''')

seed('C13-contains', 'C13', 'Emacs prints something else that mentions org-protocol', 'capture goes on though org-protocol is not loaded',
 [(EM, 'bytes.HasPrefix(out, []byte("org-protocol"))', 'bytes.Contains(out, []byte("org-protocol"))')], '''
exe = build('cmd/burl_backend')
log = os.path.join(T, 'log')
cl = write('emacs', '#!/bin/sh\\necho "$*" >> ' + log + '\\necho "nil (no org-protocol)"\\n', 0o755)
r = ask([exe, '-emacsclient', cl], [req(1, 'linkremark.capture', {'format': 'org-protocol', 'version': '0.2', 'data': {'url': 'org-protocol://store-link?url=a'}})])
expect(r[1].get('error') and 'store-link' not in open(log).read(), r)
''')

seed('C14-sort', 'C14', 'concurrent linkSet and mentions requests over several files', 'sources are modified without synchronization',
 [(BB, '''	urls, err := burl_links.ExtractLinkSetFromFileGroup(srcFiles, prefixes)
''', '''	for i, src := range srcFiles {
		// Do not follow symbolic links each time.
		srcFiles[i] = src.Clone(src.Name())
	}
	urls, err := burl_links.ExtractLinkSetFromFileGroup(srcFiles, prefixes)
''')], '''
exe = build('cmd/burl_backend', race=True)
notes = []
for i in range(4):
    notes += ['-org', write('n%d.org' % i, 'https://example.org/%d\\n' % i)]
q = [req(i, 'linkremark.linkSet', {'prefix': ['https']}) if i % 2 else req(i, 'linkremark.visit', {'file': '/nonexistent'}) for i in range(100)]
for _ in range(5):
    r = subprocess.run([exe] + notes, input=b''.join(q), capture_output=True)
    expect(b'DATA RACE' not in r.stderr, r.stderr[:500])
''')

seed('C15-order', 'C15', 'a plain text file before an Org one', 'the order of sources is not kept',
 [(AR, '''	for _, s := range a.LinkSources {
		value''', '''	sources := append(burl_links.MixedSrcTypeSlice{}, a.LinkSources...)
	sort.SliceStable(sources, func(i, j int) bool { return sources[i].Flag() < sources[j].Flag() })
	for _, s := range sources {
		value'''), (AR, '''	"os"
''', '''	"os"
	"sort"
''')], '''
exe = build('cmd/burl_backend')
w = os.path.join(T, 'wrapper')
a, b = write('a.txt', 'https://example.org/a\\n'), write('b.org', 'https://example.org/a\\n')
subprocess.run([exe, '-txt', a, '-org', b, '-wrapper', w], check=True)
r = mentions(w, [], ['https://example.org/a'])
expect([c['path'] for c in r['children']] == [os.path.realpath(a), os.path.realpath(b)], r)
''')

seed('C15-clone', 'C15', 'a relative path of a plain text file that is not the first source', 'the type of the source is changed',
 [(AR, '''			a.LinkSources[i] = s.Clone(path)
''', '''			a.LinkSources[i] = a.LinkSources[0].Clone(path)
''')], '''
exe = build('cmd/burl_backend')
w = os.path.join(T, 'wrapper')
b, a = write('a.org', 'https://example.org/a\\n'), write('b.txt', '* h\\n[[https://example.org/a][d]]\\n')
subprocess.run([exe, '-org', b, '-txt', a, '-wrapper', w], check=True)
expect(mentions(w, [], ['https://example.org/a'])['children'][1]['children'][0]['_type'] == 'Body', open(w).read())
''')

seed('C16-backslash', 'C16', 'backslash in the path of the executable', 'the answer is not valid JSON',
 [(IN, """tr '\\\\"' "/'")""", """tr '"' "'")""")], '''
exe = build('cmd/burl_backend')
d = os.path.join(T, 'a\\\\d')
os.mkdir(d)
x = shutil.copy(exe, d)
w = os.path.join(T, 'wrapper')
subprocess.run([x, '-wrapper', w], check=True)
os.remove(x)
r = subprocess.run([w], capture_output=True)
f = parse(r.stdout)
expect(len(f) == 1 and 'a/d' in f[0]['error'], r)
''')

seed('C17-second', 'C17', 'both manifests with different file names and without the -backend option', 'the second manifest is not written or inconsistent',
 [(IN, '''			AllowedExtensions: installOptions.MozillaExtensionID,
		}
''', '''			AllowedExtensions: installOptions.MozillaExtensionID,
		}
		installOptions.Name = name
''')], '''
exe = build('cmd/burl_backend')
a, b = os.path.join(T, 'a.json'), os.path.join(T, 'b.json')
r = subprocess.run([exe, '-manifest-firefox', a, '-manifest-chrome', b], capture_output=True)
expect(r.returncode == 0 and json.load(open(b))['name'] == 'b', r)
''')

seed('C18-large', 'C18', 'the generated file is larger than 4096 bytes', 'repeated generation fails or a different file is treated as the same',
 [(FU, '''			bufLen += len(content)
''', '''			bufLen = len(content)
''')], '''
exe = build('cmd/burl_backend')
w = os.path.join(T, 'wrapper')
args = []
for i in range(100):
    args += ['-org', write('d%d/%s.org' % (i, 'n' * 50), '')]
for i in range(2):
    r = subprocess.run([exe, '-wrapper', w] + args, capture_output=True)
    expect(r.returncode == 0, r.stderr)
open(w, 'a').write('echo\\n')
r = subprocess.run([exe, '-wrapper', w] + args, capture_output=True)
expect(r.returncode != 0, 'different content')
''')

seed('C19-write', 'C19', 'no space for the file', 'an incomplete file replaces the existing one',
 [(FU, '''	if _, err := f.Write(content); err != nil {
''', '''	if n, err := f.Write(content); n == 0 && err != nil {
''')], '''
exe = build('cmd/burl_backend')
w = write('wrapper', '#!/bin/sh\\nold\\n', 0o755)
note = write('n' * 200 + '.org', '')
# the limit of size of files makes write incomplete
import resource
r = subprocess.run([exe, '-force', '-wrapper', w, '-org', note], capture_output=True, preexec_fn=lambda: (signal.signal(signal.SIGXFSZ, signal.SIG_IGN), resource.setrlimit(resource.RLIMIT_FSIZE, (100, 100))))
expect(open(w).read() == '#!/bin/sh\\nold\\n' and r.returncode != 0, r)
''')

seed('C20-long', 'C20', 'a query that has nothing in common with a long text', 'the distance is larger than the length of the query',
 [(AP, '''			InsertionDistance+DeletionDistance*EditorDistance(iPattern),
			costAlt[0]+DeletionDistance,
''', '''			InsertionDistance+DeletionDistance*EditorDistance(iPattern),
''')], FUZZ % '''if d := burl_fuzzy.SearchDistanceDL("ab", "a"); d != 1 {
		panic(fmt.Sprint(d))
	}''')

seed('C21-exact', 'C21', 'zero tolerance and a query in other case', 'a URL that contains the query is not found',
 [(RK, 'if strings.Contains(strings.ToLower(word), strings.ToLower(query)) {', 'if strings.Contains(strings.ToLower(word), query) {')], FUZZ % '''limit, tol := 5, burl_fuzzy.EditorDistance(0)
	h := burl_fuzzy.ProcessUrlSource([]string{"Example"}, func(cb func(string) bool) { cb("https://example.org/") }, &limit, &tol)
	if h.Len() != 1 {
		panic("not found")
	}''')

seed('C22-variants', 'C22', 'a URL of http scheme that is in the file as https', 'the link is not found',
 [(BT, 'variants = burl_url.UrlVariants(flag.Arg(0))', 'variants = burl_url.RedundantTailVariants(flag.Arg(0))')], '''
exe = build('cmd/burl_tool')
note = write('n.org', '[[https://example.org/a][b]]\\n')
r = subprocess.run([exe, 'http://example.org/a/', note], capture_output=True, check=True)
expect(r.stdout and links(json.loads(r.stdout)) == ['https://example.org/a'], r)
''')

seed('C23-path', 'C23', 'a file name having a space at its end', 'another path is sent',
 [(BC, 'FilePath: *path,', 'FilePath: strings.TrimSpace(*path),'), (BC, '''	"os/exec"
''', '''	"os/exec"
	"strings"
''')], '''
exe = build('tools/burl_client')
backend = build('cmd/burl_backend')
cl, env, log = emacs()
note = write('n.org ', '')
r = subprocess.run([exe, backend, '-emacsclient', cl, '-org', note, '--', 'visit', '-file', note], capture_output=True, env=env)
expect(r.returncode == 0, r)
''')

seed('C23-wait', 'C23', 'the backend exits with a non-zero status after its answer', 'the client ends successfully',
 [(CL, '''	errClose := c.Client.Close()
	errWait := c.Command.Wait()
	if errClose != nil {
		return errClose
	}
	return errWait
''', '''	if err := c.Client.Close(); err != nil {
		return err
	}
	if err := c.Command.Wait(); c.Command.ProcessState == nil {
		return err
	}
	return nil
''')], '''
exe = build('cmd/zz_demo', source=r"""
package main

import "github.com/maxnikulin/burl/pkg/webextensions"

func main() {
	c, err := webextensions.NewClientCommand([]string{"sh", "-c", "cat >/dev/null; exit 5"})
	if err != nil {
		panic(err)
	}
	if err := c.Close(); err == nil {
		panic("exit status 5 is not reported")
	}
}
""")
r = subprocess.run([exe], capture_output=True, text=True)
expect(r.returncode == 0, r.stderr[-500:])
''')

seed('C24-nosrc', 'C24', 'no note files', 'linkSet is advertised',
 [(BB, '''		if b.linkSetImpl != nil {
			reply.Capabilities = append(reply.Capabilities, "linkSet")
		}
	}
''', '''	}
	if b.linkSetImpl != nil {
		reply.Capabilities = append(reply.Capabilities, "linkSet")
	}
''')], '''
exe = build('cmd/burl_backend')
r = ask([exe], [req(1, 'hello', HELLO)])
expect(not r[1]['result'].get('capabilities'), r)
''')

seed('C25-colon', 'C25', 'a scheme option having colon at its end', 'links of the scheme are not found',
 [(EO, '''			scheme = scheme[:len(scheme)-1]
''', '''			scheme = regexp.QuoteMeta(scheme)
''')], '''
exe = build('cmd/burl_backend')
note = write('n.org', '[[urn:a]]\\nhttps://example.org/a\\n')
expect(links(mentions(exe, ['-scheme', 'urn:', '-org', note], ['urn:a'])) == ['urn:a'], 'scheme')
''')

seed('C26-order', 'C26', 'a linkSet request before the first mentions query, files that are not in alphabetical order', 'files are reported in another order',
 [(BB, '''	urls, err := burl_links.ExtractLinkSetFromFileGroup(srcFiles, prefixes)
''', '''	// Avoid random access to the disk.
	sort.Slice(srcFiles, func(i, j int) bool { return srcFiles[i].Name() < srcFiles[j].Name() })
	urls, err := burl_links.ExtractLinkSetFromFileGroup(srcFiles, prefixes)
'''), (BB, '''	"os"
''', '''	"os"
	"sort"
''')], '''
exe = build('cmd/burl_backend')
a, b = write('b.org', 'https://example.org/a\\n'), write('a.org', 'https://example.org/a\\n')
s = Session([exe, '-org', a, '-org', b])
s.call(1, 'linkremark.linkSet', {'prefix': ['https']})
r = s.call(2, 'linkremark.urlMentions', {'variants': ['https://example.org/a']})['result']
expect([c['path'] for c in r['children']] == [a, b], r)
''')

seed('C26-drop', 'C26', 'a query without matches, then a query having some', 'the index is released',
 [(BB, '''	attrTree := burl_links.CountDescendants(b.fileGroup, filter)
''', '''	attrTree := burl_links.CountDescendants(b.fileGroup, filter)
	if attrTree.Attrs.Count == 0 && countLimit == 0 {
		b.err = errors.New("No link in source files")
	}
''')], '''
exe = build('cmd/burl_backend')
note = write('n.org', 'https://example.org/a\\n')
s = Session([exe, '-org', note])
r = s.call(1, 'linkremark.urlMentions', {'variants': ['https://example.org/b'], 'options': {'countLimit': 0}})
expect(not r.get('error'), r)
r = s.call(2, 'linkremark.urlMentions', {'variants': ['https://example.org/a']})
expect(not r.get('error') and r['result']['total'] == 1, r)
''')

LOGDEMO = '''
exe = build('cmd/burl_backend')
note = write('n.org', 'https://example.org/a\\n' + 'x' * 70000)
q = req(1, 'linkremark.urlMentions', {'variants': ['https://example.org/a']})
log = os.path.join(T, 'log')
run = lambda *a: subprocess.run([exe] + list(a) + ['-org', note], input=q, capture_output=True)
'''

seed('C27-append', 'C27', 'an existing log', 'earlier messages are overwritten',
 [(BB, 'os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0600', 'os.O_CREATE|os.O_WRONLY, 0600')], LOGDEMO + '''
write('log', 'old\\n' * 100)
run('-log', log)
s = open(log).read()
expect(s.startswith('old\\n' * 100) and len(s) > 410, s)
''')

seed('C27-mode', 'C27', 'a log that does not exist', 'others can read the log',
 [(BB, 'os.O_WRONLY, 0600)', 'os.O_WRONLY, 0644)')], LOGDEMO + '''
os.umask(0o022)
run('-log', log)
expect(os.stat(log).st_mode & 0o777 == 0o600, oct(os.stat(log).st_mode))
''')

seed('C27-fallback', 'C27', 'a log that can not be opened', 'the backend serves requests without the log',
 [(BB, '''			return fmt.Errorf("open log: %w", err)
		}
''', '''			log.Println("open log:", err)
			break
		}
''')], LOGDEMO + '''
r = run('-log', log + '/missing/log')
expect(r.returncode != 0 and not r.stdout, r)
''')

seed('C27-cache', 'C27', 'a mentions query over a readable file', 'a file is created beside the notes',
 [(BB, '''		} else if backend.fileGroup == nil {
''', '''		} else if f, err := os.OpenFile(backend.srcFiles[0].Name()+"~", os.O_CREATE|os.O_EXCL, 0600); err == nil && backend.fileGroup != nil {
			// Ensure that it is not read by another process.
			f.Close()
		} else if backend.fileGroup == nil {
''')], '''
exe = build('cmd/burl_backend')
note = write('d/n.org', 'https://example.org/a\\n')
mentions(exe, ['-org', note], ['https://example.org/a'])
expect(os.listdir(os.path.dirname(note)) == ['n.org'], os.listdir(os.path.dirname(note)))
''')

seed('C28-log', 'C28', 'a log in the current directory without a slash in its name', 'the log is looked for in the current directory of the browser',
 [(AR, 'if a.LogFile != "" && a.LogFile != "-" {', 'if a.LogFile != "" && a.LogFile != "-" && a.LogFile != filepath.Base(a.LogFile) {'), (AR, '''	"os"
''', '''	"os"
	"path/filepath"
''')], '''
exe = build('cmd/burl_backend')
os.makedirs(T + '/d'); os.makedirs(T + '/e')
subprocess.run([exe, '-log', 'burl.log', '-wrapper', 'w', '-manifest-firefox', 'burl.json'], cwd=T + '/d', check=True)
subprocess.run([json.load(open(T + '/d/burl.json'))['path']], cwd=T + '/e', input=b'', check=True)
expect(os.listdir(T + '/e') == [], os.listdir(T + '/e'))
''')

seed('C28-force', 'C28', 'installation with -force over a configuration of the same size', 'the previous configuration stays in effect',
 [(FU, 'if bytes.Equal(data[:count], content) {', 'if bytes.Equal(data[:count], content) || force && stat.Size() == int64(len(content)) {')], '''
exe = build('cmd/burl_backend')
for i in 'ab':
    n = write(i + '.org', 'https://example.org/%s\\n' % i)
    subprocess.run([exe, '-force', '-org', n, '-wrapper', T + '/w', '-manifest-firefox', T + '/burl.json'], check=True)
w = json.load(open(T + '/burl.json'))['path']
expect(links(mentions(w, [], ['https://example.org/b'])) == ['https://example.org/b'], open(w).read())
''')

seed('C28-args', 'C28', 'arguments passed by a browser', 'arguments are treated as note files',
 [(IN, '''	exec "$BURL_BACKEND" %s
''', '''	exec "$BURL_BACKEND" %s "$@"
''')], '''
exe = build('cmd/burl_backend')
n = write('a.org', 'https://example.org/a\\n')
subprocess.run([exe, '-org', n, '-wrapper', T + '/w', '-manifest-chrome', T + '/burl.json'], check=True)
w = json.load(open(T + '/burl.json'))['path']
expect(links(mentions(w, ['chrome-extension://abc/'], ['https://example.org/a'])) == ['https://example.org/a'], 'browser')
''')

seed('C29-version', 'C29', 'a request for the version together with installation options', 'files are created',
 [(BB, '''	if info, err := processGeneralFlags(generalFlags); info || err != nil {
		return err
	}
	backendFlags.LinkSources''', '''	if generalFlags.Help {
		_, err := processGeneralFlags(generalFlags)
		return err
	}
	backendFlags.LinkSources'''), (BB, '''	switch backendFlags.LogFile {
''', '''	if info, err := processGeneralFlags(generalFlags); info || err != nil {
		return err
	}

	switch backendFlags.LogFile {
''')], '''
exe = build('cmd/burl_backend')
r = subprocess.run([exe, '-wrapper', T + '/w', '-version'], capture_output=True)
expect(r.returncode == 0 and b'burl_backend' in r.stdout and not os.path.exists(T + '/w'), r)
''')

seed('C29-late', 'C29', 'an empty value after additions to the list, preceded by a reset', 'earlier values are discarded silently',
 [(MS, '		if f.state == appended {', '		if f.state == appended && len(*f.slice) == f.defaultLen {')], '''
exe = build('cmd/burl_backend')
r = subprocess.run([exe, '-emacsarg', 'a', '-emacsarg='], input=req(1, 'hello', HELLO), capture_output=True)
expect(r.returncode != 0 and not r.stdout, r)
''')

seed('C29-help', 'C29', 'help is requested together with a log', 'the log is created',
 [(BB, '''	if info, err := processGeneralFlags(generalFlags); info || err != nil {
		return err
	}
	backendFlags.LinkSources''', '''	if name := backendFlags.LogFile; name != "" && name != "-" {
		if f, err := os.OpenFile(name, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0600); err == nil {
			defer f.Close()
			log.SetOutput(f)
		}
	}
	if info, err := processGeneralFlags(generalFlags); info || err != nil {
		return err
	}
	backendFlags.LinkSources''')], '''
exe = build('cmd/burl_backend')
r = subprocess.run([exe, '-log', T + '/log', '-help'], capture_output=True)
expect(r.returncode == 0 and b'Usage' in r.stdout and not os.path.exists(T + '/log'), r)
''')
