seed('C06-anglelt', 'C06', 'a link in angle brackets that has "<" inside', 'the link is not found, or only its tail is',
 [(EO, '''"[^>\\n]*(?:''', '''"[^<>\\n]*(?:''')], '''
exe = build('cmd/burl_backend')
n = write('a.org', '* a\\n<https://example.org/?q=a<b>\\n')
r = ask([exe, n], [req(1, 'linkremark.urlMentions', {'variants': ['https://example.org/?q=a<b']})])[1]
expect(not r.get('error') and links(r['result']) == ['https://example.org/?q=a<b'], r)
''')

seed('C10-anglelt', 'C10', 'a link in angle brackets that has "<" inside', 'the link is absent from the set or is cut',
 [(EO, '''"<(" + base + reAngleSuffixStr + ")>"''', '''"<(" + base + strings.Replace(reAngleSuffixStr, "[^>", "[^<>", -1) + ")>"''')], '''
exe = build('cmd/burl_backend')
n = write('a.org', '* a\\n<https://example.org/?q=a<b>\\n')
r = ask([exe, n], [req(1, 'linkremark.linkSet', {'prefix': ['https']})])[1]
expect(not r.get('error') and r['result']['urls'] == ['https://example.org/?q=a<b'], r)
''')

seed('C06-descrtrim', 'C06', 'a description that starts or ends with white space', 'the description is not the one of the note',
 [(EO, 'return &Link{match[1], match[2], 0}', 'return &Link{match[1], strings.TrimSpace(match[2]), 0}')], '''
exe = build('cmd/burl_backend')
n = write('a.org', '* a\\n[[https://example.org/][ text ]]\\n')
r = ask([exe, n], [req(1, 'linkremark.urlMentions', {'variants': ['https://example.org/']})])[1]
expect(r['result']['children'][0]['children'][0]['links'][0]['descr'] == ' text ' if 'children' in r['result']['children'][0] else ' text ' in str(r), r)
''')

seed('C07-schema', 'C07', 'a scheme longer than 10 letters', 'the head of the scheme is cut off, so the link is not found',
 [(UT, '[[:alpha:]]+:', '[[:alpha:]]{1,10}:')], '''
exe = build('cmd/burl_backend')
u = 'chromeextension://example.org/a'
n = write('a.txt', 'see ' + u + ' and https://example.org/b\\n')
r = ask([exe, '-txt', n], [req(1, 'linkremark.urlMentions', {'variants': [u]})])[1]
expect(not r.get('error') and links(r['result']) == [u], r)
''')

seed('C18-space', 'C18', 'an existing file that differs from the generated one by white space at its ends only, no -force', 'success is claimed, though the file is not the requested one',
 [(FU, 'if bytes.Equal(data[:count], content) {', 'if bytes.Equal(bytes.TrimSpace(data[:count]), bytes.TrimSpace(content)) {')], '''
exe = build('cmd/burl_backend')
w = os.path.join(T, 'wrapper')
r = subprocess.run([exe, '-wrapper', w], capture_output=True)
expect(r.returncode == 0, r)
b = open(w, 'rb').read()
open(w, 'wb').write(b + b'\\n\\n')
r = subprocess.run([exe, '-wrapper', w], capture_output=True)
expect(r.returncode != 0, 'other content is accepted')
expect(open(w, 'rb').read() == b + b'\\n\\n', 'the file is changed')
''')

seed('C19-chmod-late', 'C19', 'the process is killed (or chmod fails) just after the rename', 'the previous wrapper is replaced by a file that can not be executed',
 [(FU, '''	if err := f.Chmod(mode); err != nil {
		os.Remove(f.Name()) // unlinkat(2) ?
		return err
	}
''', ''), (FU, '''	if err := os.Rename(f.Name(), path); err != nil {
		os.Remove(f.Name()) // unlinkat(2) ?
		return err
	}
	return nil
''', '''	if err := os.Rename(f.Name(), path); err != nil {
		os.Remove(f.Name()) // unlinkat(2) ?
		return err
	}
	return os.Chmod(path, mode)
''')], '''
exe = build('cmd/burl_backend')
w = write('wrapper', '#!/bin/sh\\nold\\n', 0o755)
calls = 'chmod,fchmod,fchmodat,fchmodat2'
r = subprocess.run(['strace', '-f', '-o', os.path.join(T, 'log'), '-e', 'trace=?' + ',?'.join(calls.split(',')), '-e', 'inject=?' + ',?'.join(calls.split(',')) + ':error=EIO', exe, '-force', '-wrapper', w], capture_output=True)
if b'ptrace' in r.stderr and b'perm' in r.stderr.lower():
    print('no strace')
    sys.exit(4)
expect(os.stat(w).st_mode & 0o777 == 0o755, 'mode of the wrapper is %o: %s' % (os.stat(w).st_mode, r.stderr))
''')

seed('C29-log', 'C29', 'the log file can not be created', 'the request is served without the log instead of the refusal',
 [(BB, '''			return fmt.Errorf("open log: %w", err)
		}
''', '''			// Logging is optional.
			if logFile, err = os.OpenFile(os.DevNull, os.O_WRONLY, 0); err != nil {
				return fmt.Errorf("open log: %w", err)
			}
		}
''')], '''
exe = build('cmd/burl_backend')
r = subprocess.run([exe, '-log', os.path.join(T, 'absent', 'log')], input=req(1, 'hello', HELLO), capture_output=True)
expect(r.returncode != 0 and not r.stdout and r.stderr, r)
''')

seed('C24-many', 'C24', 'more than 8 note files and -disable-link-set', 'linkSet is advertised and works, though it is disabled',
 [(BB, '''	if !args.DisableLinkSet {
''', '''	if !args.DisableLinkSet || len(args.LinkSources) > 8 {
''')], '''
exe = build('cmd/burl_backend')
n = write('a.org', 'https://example.org/\\n')
r = ask([exe, '-disable-link-set'] + [n] * 9, [req(1, 'hello', HELLO), req(2, 'linkremark.linkSet', {'prefix': ['https']})])
expect('linkSet' not in r[1]['result']['capabilities'], r)
expect(r[2].get('error'), r)
''')

seed('C10-spaces', 'C10', 'a target in brackets ends with a space', 'the reported link is not the one of the note',
 [(EO, '''(*result)[bracket] = true''', '''(*result)[strings.TrimRight(bracket, " \\\\t")] = true''')], '''
exe = build('cmd/burl_backend')
n = write('a.org', '[[https://example.org/ ]]\\n')
r = ask([exe, n], [req(1, 'linkremark.linkSet', {'prefix': ['https']})])[1]
expect(not r.get('error') and r['result']['urls'] == ['https://example.org/ '], r)
''')

seed('C25-upper', 'C25', 'a scheme with a capital letter given by -scheme', 'links of the configured scheme are not found',
 [(EO, '''		if scheme != "" && !set[scheme] {
''', '''		scheme = strings.ToLower(scheme)
		if scheme != "" && !set[scheme] {
''')], '''
exe = build('cmd/burl_backend')
n = write('a.org', '[[zotXML:abc/1]] [[https://example.org/]]\\n')
r = ask([exe, '-scheme', 'zotXML', n], [req(1, 'linkremark.urlMentions', {'variants': ['zotXML:abc/1']})])[1]
expect(not r.get('error') and links(r['result']) == ['zotXML:abc/1'], r)
''')

seed('C17-upper', 'C17', 'a name of the backend with a capital letter, a manifest for Chrome', 'the name in the manifest is not the requested one',
 [(IN, '''			Name:        installOptions.Name,
			DefaultName: version.AppName,
			Ext:         ".json",
		}
		path, name, err := burl_fileutil.AsAbsFileName(installOptions.ChromeManifest''', '''			Name:        strings.ToLower(installOptions.Name),
			DefaultName: version.AppName,
			Ext:         ".json",
		}
		path, name, err := burl_fileutil.AsAbsFileName(installOptions.ChromeManifest''')], '''
exe = build('cmd/burl_backend')
d = os.path.join(T, 'hosts')
os.mkdir(d)
r = subprocess.run([exe, '-manifest-chrome', d, '-backend', 'My.App'], capture_output=True)
expect(r.returncode == 0 and os.listdir(d) == ['My.App.json'], (r, os.listdir(d)))
expect(json.load(open(os.path.join(d, 'My.App.json')))['name'] == 'My.App', 'name')
''')
