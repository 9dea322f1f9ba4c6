From 39168fa43ca54f61f1f56ecd2ff2fa6e32348729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:20 +0000
Subject: [PATCH 01/26] fix: crash on Org headings with skipped levels

A nil heading was used as properties of the node for a missing level,
and the backend panicked on attempt to serialize the reply.
---
 pkg/burl_links/extract_org.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/burl_links/extract_org.go b/pkg/burl_links/extract_org.go
index 4704425..5163452 100644
--- a/pkg/burl_links/extract_org.go
+++ b/pkg/burl_links/extract_org.go
@@ -156,6 +156,11 @@ func (_ OrgLinkSource) Extract(file io.Reader, filter Filter) (*TreeChildrenNode
 				if link := OrgLinkMatchIsUrl(match); link != nil &&
 					(filter == nil || filter(link)) {
 					for i := len(treeNodes) - 1; i < len(headings); i++ {
+						if headings[i] == nil {
+							// Skipped level, descendants belong to the upper heading.
+							treeNodes = append(treeNodes, treeNodes[i])
+							continue
+						}
 						newNode := NewTreeChildrenNode(headings[i])
 						treeNodes = append(treeNodes, &newNode)
 						treeNodes[i].AddChild(&newNode)
-- 
2.43.0


From 8492539649dbc0e3d98bc7936aa6ecdc4c1cb9bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:52 +0000
Subject: [PATCH 02/26] fix: wrong ancestors of Org headings

Reslicing beyond the current length resurrected headings that had been
closed already, so a heading with skipped levels was put below
an unrelated one. Levels deeper than 10 were treated as level 9.
---
 pkg/burl_links/extract_org.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pkg/burl_links/extract_org.go b/pkg/burl_links/extract_org.go
index 5163452..9d962b3 100644
--- a/pkg/burl_links/extract_org.go
+++ b/pkg/burl_links/extract_org.go
@@ -138,10 +138,9 @@ func (_ OrgLinkSource) Extract(file io.Reader, filter Filter) (*TreeChildrenNode
 		lineNo++
 		if matchHeading := reHeading.FindStringSubmatch(line); matchHeading != nil {
 			level := len(matchHeading[1])
-			if level > cap(headings) {
-				level = cap(headings) - 1
+			if len(headings) >= level {
+				headings = headings[0 : level-1]
 			}
-			headings = headings[0 : level-1]
 			if len(treeNodes) >= level {
 				treeNodes = treeNodes[0:level]
 			}
-- 
2.43.0


From 45d28674952b4166769cb9bd38546c18524e31bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:52 +0000
Subject: [PATCH 03/26] fix: Org headings with trailing spaces were ignored

Links were attributed to the preceding heading.
---
 pkg/burl_links/extract_org.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/burl_links/extract_org.go b/pkg/burl_links/extract_org.go
index 9d962b3..5cb063f 100644
--- a/pkg/burl_links/extract_org.go
+++ b/pkg/burl_links/extract_org.go
@@ -25,7 +25,7 @@ import (
 	"strings"
 )
 
-var reHeading = regexp.MustCompile(`^(\*+)\s+(\S(?:.*\S)?)?$`)
+var reHeading = regexp.MustCompile(`^(\*+)\s+(\S(?:.*\S)?)?\s*$`)
 
 // "mid": mail messages, absent in default Org configuration, see
 // RFC 2392 - Content-ID and Message-ID Uniform Resource Locators
-- 
2.43.0


From f27b23f9fc8b7c1932e97e28b1d4701d85e3762d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:29 +0000
Subject: [PATCH 04/26] fix: crash of urlMentions on negative or huge
 countLimit

---
 pkg/burl_links/node_count.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pkg/burl_links/node_count.go b/pkg/burl_links/node_count.go
index 2d23fe1..b65603b 100644
--- a/pkg/burl_links/node_count.go
+++ b/pkg/burl_links/node_count.go
@@ -168,6 +168,13 @@ func CountDescendants(inputTree TreeBaseNode, filter Filter) *LimitCountNode {
 }
 
 func FilterChildrenCount(tree *LimitCountNode, target int) *LimitCountNode {
+	// Negative limit is invalid slice length, a huge one causes overflow.
+	if target > tree.Attrs.Count {
+		target = tree.Attrs.Count
+	}
+	if target < 0 {
+		target = 0
+	}
 	tree.Attrs.TargetCount = target
 	queue := NewDepthFirstQueue(tree)
 	for !queue.Empty() {
-- 
2.43.0


From dff00ab97ad5196ed871f24657cea660c75a8ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:25:23 +0000
Subject: [PATCH 05/26] fix: invalid linkSet prefixes were accepted without
 files

---
 pkg/burl_links/link_source.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/burl_links/link_source.go b/pkg/burl_links/link_source.go
index 85ecc20..898eea4 100644
--- a/pkg/burl_links/link_source.go
+++ b/pkg/burl_links/link_source.go
@@ -79,7 +79,11 @@ func ExtractLinksFromFileGroup(list []TextLinkSource, filter Filter) (*TreeChild
 
 func ExtractLinkSetFromFileGroup(list []TextLinkSource, filters []string) (map[string]bool, error) {
 	result := map[string]bool{}
-	var err error
+	// Report invalid prefixes even if there are no files.
+	_, err := MakeLinkSetBase(filters)
+	if err != nil {
+		return result, err
+	}
 	for _, src := range list {
 		var reader io.Reader
 		name := src.Name()
-- 
2.43.0


From 69b6c9565c52e9bb02d29c8567e6794dcc47837c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:46 +0000
Subject: [PATCH 06/26] fix: linkSet missed plain links barely longer than the
 prefix

Regexp for the rest of a plain link requires at least 2 characters, so
a link equal to the prefix or longer by one character was not reported.
---
 pkg/burl_links/extract_org.go | 25 +++++++++++++++++++++++--
 pkg/burl_links/extract_txt.go |  5 ++++-
 2 files changed, 27 insertions(+), 3 deletions(-)

diff --git a/pkg/burl_links/extract_org.go b/pkg/burl_links/extract_org.go
index 5cb063f..03132db 100644
--- a/pkg/burl_links/extract_org.go
+++ b/pkg/burl_links/extract_org.go
@@ -193,6 +193,22 @@ func MakeLinkSetBase(filters []string) (string, error) {
 	return "(?:" + strings.Join(base, "|") + ")", nil
 }
 
+// Regexp for plain links having scheme of any filter.
+//
+// Plain link suffix can not match an arbitrary short tail after the prefix,
+// so links must be compared with the complete prefixes later.
+func makeLinkSetPlainReStr(filters []string) (string, error) {
+	schemes := make([]string, 0, len(filters))
+	for _, prefix := range filters {
+		schemes = append(schemes, strings.SplitN(prefix, ":", 2)[0])
+	}
+	base, err := MakeLinkSetBase(schemes)
+	if err != nil {
+		return "", err
+	}
+	return "\\b(" + base + rePlainSuffixStr + ")", nil
+}
+
 // TODO: buld filter regexp ones for several files.
 func (_ OrgLinkSource) ExtractSet(file io.Reader, filters []string, result *map[string]bool) error {
 	scanner := bufio.NewScanner(file)
@@ -202,7 +218,10 @@ func (_ OrgLinkSource) ExtractSet(file io.Reader, filters []string, result *map[
 		return err
 	}
 	reAngle := "<(" + base + reAngleSuffixStr + ")>"
-	rePlain := "\\b(" + base + rePlainSuffixStr + ")"
+	rePlain, err := makeLinkSetPlainReStr(filters)
+	if err != nil {
+		return err
+	}
 	reSetLink, err := regexp.Compile(reBracketStr + "|" + reAngle + "|" + rePlain)
 	if err != nil {
 		return err
@@ -225,7 +244,9 @@ func (_ OrgLinkSource) ExtractSet(file io.Reader, filters []string, result *map[
 			} else if angle := match[3]; len(angle) > 0 {
 				(*result)[angle] = true
 			} else if plain := match[4]; len(plain) > 0 {
-				(*result)[plain] = true
+				if reBracketPrefix.MatchString(plain) {
+					(*result)[plain] = true
+				}
 			} else {
 				log.Printf("burl_links.OrgLinkSource.ExtractSet: internal error '%v'", match[0])
 			}
diff --git a/pkg/burl_links/extract_txt.go b/pkg/burl_links/extract_txt.go
index 9c56289..fa506ff 100644
--- a/pkg/burl_links/extract_txt.go
+++ b/pkg/burl_links/extract_txt.go
@@ -108,7 +108,10 @@ func (_ TxtLinkSource) ExtractSet(file io.Reader, filters []string, result *map[
 	if err != nil {
 		return err
 	}
-	rePlain := "\\b(" + base + rePlainSuffixStr + ")"
+	rePlain, err := makeLinkSetPlainReStr(filters)
+	if err != nil {
+		return err
+	}
 	reSetLink, err := regexp.Compile(rePlain)
 	if err != nil {
 		return err
-- 
2.43.0


From 43fc05625ee9f3ece2f9df1f6f6c33ebfed54d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:11 +0000
Subject: [PATCH 07/26] fix: data race on emacsclient arguments of concurrent
 requests

---
 pkg/burl_emacs/emacs.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/burl_emacs/emacs.go b/pkg/burl_emacs/emacs.go
index 6c79539..18ca535 100644
--- a/pkg/burl_emacs/emacs.go
+++ b/pkg/burl_emacs/emacs.go
@@ -57,7 +57,11 @@ var EnsureFrameLisp = `
 var EmacsServerNotFoundError = errors.New("Emacs server is not running, please, start it")
 
 func execEmacs(args ...string) ([]byte, error) {
-	allArgs := append(UserArgs, Args...)
+	// UserArgs may have spare capacity, so appending to it directly is a data
+	// race between concurrent requests.
+	allArgs := make([]string, 0, len(UserArgs)+len(Args)+len(args))
+	allArgs = append(allArgs, UserArgs...)
+	allArgs = append(allArgs, Args...)
 	allArgs = append(allArgs, args...)
 	cmd := exec.Command(Command, allArgs...)
 	out, err := cmd.CombinedOutput()
-- 
2.43.0


From 08ed61926147f044231253e15ee672887ca74976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:04 +0000
Subject: [PATCH 08/26] fix: white space after JSON value of a message ended
 the session

JSON decoder does not read the body beyond the end of the value. A newline
added by an encoder remained unread if the value exactly filled decoder
buffer, so the next message was rejected with ErrReadBody.
---
 pkg/webextensions/frame.go | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/pkg/webextensions/frame.go b/pkg/webextensions/frame.go
index 41cb0a0..352a3de 100644
--- a/pkg/webextensions/frame.go
+++ b/pkg/webextensions/frame.go
@@ -54,9 +54,8 @@ func NewFrameLimitedReader(reader io.ReadCloser) FrameReader {
 }
 
 func (r *FrameLimitedReader) ReadHeader() error {
-	if r.LimitedReader.N != 0 {
-		// TODO maybe just discard
-		return ErrReadBody
+	if err := r.skipSpace(); err != nil {
+		return err
 	}
 	r.LimitedReader.N = 4
 	var size uint32
@@ -70,6 +69,25 @@ func (r *FrameLimitedReader) ReadHeader() error {
 	return nil
 }
 
+// JSON decoder stops at the end of a value, so trailing white space,
+// e.g. newline added by json.Encoder, may remain unread.
+func (r *FrameLimitedReader) skipSpace() error {
+	var buf [512]byte
+	for r.LimitedReader.N != 0 {
+		n, err := r.Read(buf[:])
+		if len(bytes.Trim(buf[:n], " \t\r\n")) != 0 {
+			// TODO maybe just discard
+			return ErrReadBody
+		}
+		if err == io.EOF && r.LimitedReader.N != 0 {
+			return io.ErrUnexpectedEOF
+		} else if err != nil && err != io.EOF {
+			return err
+		}
+	}
+	return nil
+}
+
 type FrameWriter interface {
 	io.Writer
 	WriteFrame() error
-- 
2.43.0


From 103a5000d32d0f5d8c84729686886f3055b59510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:17:28 +0000
Subject: [PATCH 09/26] fix: shell quoting in the wrapper is independent of
 locale and shell

printf %q generates $'...' for control characters and, in the C locale, for
non-ASCII ones. It is not POSIX, so dash used another value.
---
 pkg/burl_fileutil/escape_printf.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/pkg/burl_fileutil/escape_printf.go b/pkg/burl_fileutil/escape_printf.go
index ce2f0d7..69c0db8 100644
--- a/pkg/burl_fileutil/escape_printf.go
+++ b/pkg/burl_fileutil/escape_printf.go
@@ -17,10 +17,16 @@
 
 package burl_fileutil
 
-import "os/exec"
+import "strings"
 
-// TODO avoid printf external process
+const shellSafeChars = "abcdefghijklmnopqrstuvwxyz" +
+	"ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789%+,-./:=@_"
+
+// printf(1) "%q" is not suitable since it may generate $'...' (depending on
+// locale), that is not supported by POSIX shells, e.g. by dash.
 func EscapeShellArg(arg string) (string, error) {
-	out, err := exec.Command("/usr/bin/printf", "%q", arg).Output()
-	return string(out), err
+	if arg != "" && strings.Trim(arg, shellSafeChars) == "" {
+		return arg, nil
+	}
+	return "'" + strings.Replace(arg, "'", `'\''`, -1) + "'", nil
 }
-- 
2.43.0


From 46d20663e8cff963ddf9554e8dd0fbb6f8d2ff21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:44 +0000
Subject: [PATCH 10/26] fix: length of the error frame of the wrapper whose
 backend is missing

Only the lowest byte of the header was written and, in multibyte locales,
size was in characters, so the frame was broken for long executable paths.
---
 cmd/burl_backend/install.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cmd/burl_backend/install.go b/cmd/burl_backend/install.go
index c4a1e1d..2fb36c4 100644
--- a/cmd/burl_backend/install.go
+++ b/cmd/burl_backend/install.go
@@ -131,8 +131,9 @@ BURL_BACKEND=%s
 [ -x "$BURL_BACKEND" ] && \
 	exec "$BURL_BACKEND" %s
 err="{\"error\": \"$(printf '%%s' "$BURL_BACKEND" | tr '\\"' "/'"): file not found or not executable\"}"
-# platform endian-dependent hack
-/usr/bin/printf "\\x$(printf '%%x' "${#err}")\\x00\\x00\\x00"
+# platform endian-dependent hack, size in bytes
+size=$(printf '%%s' "$err" | wc -c)
+/usr/bin/printf "\\x$(printf '%%x' $((size %% 256)))\\x$(printf '%%x' $((size / 256)))\\x00\\x00"
 printf '%%s' "$err"
 `
 			content := fmt.Sprintf(template, exe, strings.Join(escaped_args, " "))
-- 
2.43.0


From 0488bb89b07be11bdc1c27c80cc1e5af76450183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:47 +0000
Subject: [PATCH 11/26] fix: wrapper with the same content did not become
 executable

A wrapper script having the generated content already was left without
the exec permission if it was readable, since permissions were added
only to files with neither read nor exec bit.
---
 pkg/burl_fileutil/fileutil.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/burl_fileutil/fileutil.go b/pkg/burl_fileutil/fileutil.go
index 7e6ac0d..16915d9 100644
--- a/pkg/burl_fileutil/fileutil.go
+++ b/pkg/burl_fileutil/fileutil.go
@@ -79,7 +79,7 @@ func WriteFile(path string, content []byte, mode os.FileMode, force bool) error
 		}
 		if bytes.Equal(data[:count], content) {
 			perm := stat.Mode().Perm()
-			if (mode&0500) != 0 && (perm&0500) == 0 {
+			if (mode&0100) != 0 && (perm&0500) != 0500 {
 				if err := os.Chmod(path, perm|0500); err != nil {
 					return fmt.Errorf("set exec permission: %w", err)
 				}
-- 
2.43.0


From 3bac7555c87ae2f6a6d5636454d3e0349f27170d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:47 +0000
Subject: [PATCH 12/26] fix: empty wrapper or manifest file could not be
 overwritten

io.EOF from an existing empty file was reported as a read failure
even with the -force option.
---
 pkg/burl_fileutil/fileutil.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/burl_fileutil/fileutil.go b/pkg/burl_fileutil/fileutil.go
index 16915d9..4894555 100644
--- a/pkg/burl_fileutil/fileutil.go
+++ b/pkg/burl_fileutil/fileutil.go
@@ -19,6 +19,7 @@ import (
 	"bytes"
 	"errors"
 	"fmt"
+	"io"
 	"io/ioutil"
 	"os"
 	"path/filepath"
@@ -65,7 +66,7 @@ func WriteFile(path string, content []byte, mode os.FileMode, force bool) error
 		}
 		defer file.Close()
 		count, err := file.Read(data)
-		if err != nil {
+		if err != nil && err != io.EOF {
 			return fmt.Errorf("%w: failed to read existing file", err)
 		}
 		if !force {
-- 
2.43.0


From b7381b09ed68cadec04d751b1d04cec86b505421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:47 +0000
Subject: [PATCH 13/26] fix: file with the same 4096 bytes considered too large

The buffer must be larger than the content to tell a file with
the same content from a longer one.
---
 pkg/burl_fileutil/fileutil.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/burl_fileutil/fileutil.go b/pkg/burl_fileutil/fileutil.go
index 4894555..7d398e9 100644
--- a/pkg/burl_fileutil/fileutil.go
+++ b/pkg/burl_fileutil/fileutil.go
@@ -56,7 +56,7 @@ func WriteFile(path string, content []byte, mode os.FileMode, force bool) error
 	stat, err := os.Stat(path)
 	if !errors.Is(err, os.ErrNotExist) {
 		bufLen := 4096
-		if len(content) > bufLen {
+		if len(content) >= bufLen {
 			bufLen += len(content)
 		}
 		data := make([]byte, bufLen)
-- 
2.43.0


From ec024f903867d16ab9580ec70dd379c164e7691f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:47 +0000
Subject: [PATCH 14/26] fix: hang when the target of a wrapper or manifest is a
 FIFO

Do not open existing files that are not regular ones.
---
 pkg/burl_fileutil/fileutil.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/burl_fileutil/fileutil.go b/pkg/burl_fileutil/fileutil.go
index 7d398e9..2fad54b 100644
--- a/pkg/burl_fileutil/fileutil.go
+++ b/pkg/burl_fileutil/fileutil.go
@@ -55,6 +55,9 @@ func WriteFile(path string, content []byte, mode os.FileMode, force bool) error
 	}
 	stat, err := os.Stat(path)
 	if !errors.Is(err, os.ErrNotExist) {
+		if err == nil && !stat.Mode().IsRegular() {
+			return fmt.Errorf("%s: not a regular file", path)
+		}
 		bufLen := 4096
 		if len(content) >= bufLen {
 			bufLen += len(content)
-- 
2.43.0


From d2657880c9df47e34db153dd9b4e18414fca91f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:47 +0000
Subject: [PATCH 15/26] fix: dangling symbolic link was replaced without -force

---
 pkg/burl_fileutil/fileutil.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/burl_fileutil/fileutil.go b/pkg/burl_fileutil/fileutil.go
index 2fad54b..7be885c 100644
--- a/pkg/burl_fileutil/fileutil.go
+++ b/pkg/burl_fileutil/fileutil.go
@@ -93,6 +93,8 @@ func WriteFile(path string, content []byte, mode os.FileMode, force bool) error
 		if !force {
 			return &os.PathError{Op: "Check contents", Path: path, Err: os.ErrExist}
 		}
+	} else if _, err := os.Lstat(path); err == nil && !force {
+		return fmt.Errorf("%s: dangling symbolic link: %w", path, os.ErrExist)
 	}
 	f, err := ioutil.TempFile(filepath.Dir(path), filepath.Base(path))
 	defer f.Close()
-- 
2.43.0


From 7db7c2eef11ddc08f8829bdf60e375898e47b1e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:00 +0000
Subject: [PATCH 16/26] fix: crash on stat failure of existing wrapper or
 manifest

Nil value of stat was used when the file that may not be examined
has the same content.
---
 pkg/burl_fileutil/fileutil.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/burl_fileutil/fileutil.go b/pkg/burl_fileutil/fileutil.go
index 7be885c..a1346e9 100644
--- a/pkg/burl_fileutil/fileutil.go
+++ b/pkg/burl_fileutil/fileutil.go
@@ -54,6 +54,9 @@ func WriteFile(path string, content []byte, mode os.FileMode, force bool) error
 		return err
 	}
 	stat, err := os.Stat(path)
+	if err != nil && !errors.Is(err, os.ErrNotExist) {
+		return err
+	}
 	if !errors.Is(err, os.ErrNotExist) {
 		if err == nil && !stat.Mode().IsRegular() {
 			return fmt.Errorf("%s: not a regular file", path)
-- 
2.43.0


From 7e116a2b1257051f690d57fa82ad36b979a25935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:28 +0000
Subject: [PATCH 17/26] fix: exact search was case sensitive unlike approximate
 one

When the tolerance was exhausted (or zero) words having other
letter case were not found.
---
 pkg/burl_fuzzy/rank.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/burl_fuzzy/rank.go b/pkg/burl_fuzzy/rank.go
index 7fd2203..4e9803e 100644
--- a/pkg/burl_fuzzy/rank.go
+++ b/pkg/burl_fuzzy/rank.go
@@ -87,7 +87,7 @@ func GetSubqueryDistance(query string, word string, limit EditorDistance) (dista
 	case limit < 0:
 		return EditorDistance(len(word)) * SubstitutionDistance
 	case limit == 0:
-		if strings.Contains(word, query) {
+		if strings.Contains(strings.ToLower(word), strings.ToLower(query)) {
 			return 0
 		} else {
 			return EditorDistance(len(word)) * SubstitutionDistance
-- 
2.43.0


From aaa4ad177f467d2cbacc2c0d773152053f697bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:40 +0000
Subject: [PATCH 18/26] fix: search missed words having fewer bytes than the
 query

Characters should be counted for early rejection of short words,
otherwise close non-ASCII words are not found.
---
 pkg/burl_fuzzy/rank.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/burl_fuzzy/rank.go b/pkg/burl_fuzzy/rank.go
index 4e9803e..8f16c04 100644
--- a/pkg/burl_fuzzy/rank.go
+++ b/pkg/burl_fuzzy/rank.go
@@ -19,6 +19,7 @@ import (
 	"container/heap"
 	"sort"
 	"strings"
+	"unicode/utf8"
 )
 
 type WeightedString struct {
@@ -93,7 +94,7 @@ func GetSubqueryDistance(query string, word string, limit EditorDistance) (dista
 			return EditorDistance(len(word)) * SubstitutionDistance
 		}
 	}
-	lenDiff := EditorDistance(len(query)-len(word)) * InsertionDistance
+	lenDiff := EditorDistance(utf8.RuneCountInString(query)-utf8.RuneCountInString(word)) * InsertionDistance
 	if lenDiff > limit {
 		return lenDiff
 	}
-- 
2.43.0


From 7c42d766699b837ad7984dcde5a2a1050af3704f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:51 +0000
Subject: [PATCH 19/26] fix: burl_tool reported all links instead of queried
 URL

Result of UrlVariants was ignored, so the query was considered as an empty
one.
---
 cmd/burl_tool/burl_tool.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/burl_tool/burl_tool.go b/cmd/burl_tool/burl_tool.go
index d5638ab..b493a2d 100644
--- a/cmd/burl_tool/burl_tool.go
+++ b/cmd/burl_tool/burl_tool.go
@@ -61,9 +61,9 @@ func mainWithGracefulShutdown() error {
 	}
 
 	nextArg := 0
-	variants := make([]string, 0, 8)
+	var variants []string
 	if len(set) == 0 {
-		burl_url.UrlVariants(flag.Arg(0))
+		variants = burl_url.UrlVariants(flag.Arg(0))
 		nextArg = 1
 	}
 	queryIsEmpty := len(variants) == 0
-- 
2.43.0


From d5e16f18e5d1d986cb3c539e3b0975205b72253f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:34 +0000
Subject: [PATCH 20/26] fix: burl_tool -set required an extra positional
 argument

URL argument is not expected with -set, sources may be specified by options
or it may be stdin.
---
 cmd/burl_tool/burl_tool.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/burl_tool/burl_tool.go b/cmd/burl_tool/burl_tool.go
index b493a2d..19515bc 100644
--- a/cmd/burl_tool/burl_tool.go
+++ b/cmd/burl_tool/burl_tool.go
@@ -56,7 +56,7 @@ func mainWithGracefulShutdown() error {
 	flag.Var(&set, "set", "Link prefix to extract set of links")
 	flag.Usage = Usage
 	flag.Parse()
-	if flag.NArg() < 1 {
+	if len(set) == 0 && flag.NArg() < 1 {
 		return fmt.Errorf("%w: no url to query", usageError)
 	}
 
-- 
2.43.0


From 398ce64827ea2bfb1d35384c6388ffafff60ca05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:02 +0000
Subject: [PATCH 21/26] fix: crash of burl_client when backend command is empty

Arguments before the separator were assumed to be not empty.
---
 tools/burl_client/burl_client.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/burl_client/burl_client.go b/tools/burl_client/burl_client.go
index 906f9a7..db919a3 100644
--- a/tools/burl_client/burl_client.go
+++ b/tools/burl_client/burl_client.go
@@ -119,7 +119,7 @@ func mainWithGracefulShutdown() error {
 			break
 		}
 	}
-	if flag.NArg() == 0 {
+	if separator == 0 {
 		return fmt.Errorf("%w: backend command is not specified", usageError)
 	}
 	backendCmd := flag.Args()[0]
-- 
2.43.0


From f27bf99e7ec4c86ec2d033a87e364e6d398dd03a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:32 +0000
Subject: [PATCH 22/26] fix: scheme of links in double brackets was not checked
 precisely

---
 pkg/burl_links/extract_org.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/burl_links/extract_org.go b/pkg/burl_links/extract_org.go
index 03132db..f991982 100644
--- a/pkg/burl_links/extract_org.go
+++ b/pkg/burl_links/extract_org.go
@@ -32,7 +32,7 @@ var reHeading = regexp.MustCompile(`^(\*+)\s+(\S(?:.*\S)?)?\s*$`)
 // https://datatracker.ietf.org/doc/html/rfc2392.html
 var SchemeVariants []string = []string{"doi", "https?", "mid"}
 var reSchemeStr = MakeSchemeReStr(SchemeVariants)
-var reScheme = regexp.MustCompile("^" + reSchemeStr + ":")
+var reScheme = regexp.MustCompile("^(?:" + reSchemeStr + "):")
 var reBracketStr = "\\[\\[((?:[^\\]\\[]|\\\\(?:\\\\\\\\)*[\\]\\[]|\\\\+[^\\]\\[])+)](?:\\[((?:.|\n)+?)\\])?\\]"
 var reAngleSuffixStr = "[^>\n]*(?:\n[ \t]*[^> \t\n][^> \n]*)*"
 var rePlainSuffixStr = "(?:[^][ \t\n(\\)<>]|\\((?:[^][ \t\n(\\)<>]|\\([^][ \t\n(\\)<>]*\\))*\\))+(?:[^[:punct:] \t\n]|/|\\((?:[^][ \t\n(\\)<>]|\\([^][ \t\n(\\)<>]*\\))*\\))"
@@ -64,7 +64,7 @@ func UpdateRe(schemeVariants []string) error {
 	if schemeStr == "" {
 		return errors.New("No scheme variants")
 	}
-	reSchemeTmp, err := regexp.Compile("^" + schemeStr + ":")
+	reSchemeTmp, err := regexp.Compile("^(?:" + schemeStr + "):")
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 9afc075e769b03b4ac9ab8272d1685c7dfb4f776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:40 +0000
Subject: [PATCH 23/26] fix: no response when the result can not be encoded

---
 pkg/webextensions/server.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pkg/webextensions/server.go b/pkg/webextensions/server.go
index c2de1e6..64eae5f 100644
--- a/pkg/webextensions/server.go
+++ b/pkg/webextensions/server.go
@@ -23,6 +23,7 @@
 package webextensions
 
 import (
+	"encoding/json"
 	"io"
 	"net/rpc"
 )
@@ -42,6 +43,16 @@ func (c *serverCodec) ReadRequestHeader(r *rpc.Request) error {
 }
 
 func (c *serverCodec) WriteResponse(r *rpc.Response, x interface{}) error {
+	if r.Error == "" {
+		// Otherwise there would be no response at all, since rpc.Server
+		// ignores errors, and the codec can not write response twice.
+		if body, err := json.Marshal(x); err != nil {
+			r.Error = err.Error()
+			x = struct{}{}
+		} else {
+			x = json.RawMessage(body)
+		}
+	}
 	if err := c.ServerCodec.WriteResponse(r, x); err != nil {
 		return err
 	}
-- 
2.43.0


From 6dae25e79c410f9fa24548195963d9d2b5403bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:18:27 +0000
Subject: [PATCH 24/26] fix: tools claimed success when their output could not
 be written

---
 cmd/burl_tool/burl_tool.go       | 8 ++++++--
 tools/burl_client/burl_client.go | 4 +++-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/cmd/burl_tool/burl_tool.go b/cmd/burl_tool/burl_tool.go
index 19515bc..8f4d8c2 100644
--- a/cmd/burl_tool/burl_tool.go
+++ b/cmd/burl_tool/burl_tool.go
@@ -79,7 +79,9 @@ func mainWithGracefulShutdown() error {
 			return err
 		}
 		for key, _ := range result {
-			fmt.Println(key)
+			if _, err := fmt.Println(key); err != nil {
+				return err
+			}
 		}
 		return nil
 	}
@@ -107,7 +109,9 @@ func mainWithGracefulShutdown() error {
 		if attrTree != nil {
 			enc := json.NewEncoder(os.Stdout)
 			enc.SetIndent("", "  ")
-			enc.Encode(attrTree)
+			if encErr := enc.Encode(attrTree); err == nil {
+				err = encErr
+			}
 			// enc.Encode(group)
 		}
 	}
diff --git a/tools/burl_client/burl_client.go b/tools/burl_client/burl_client.go
index db919a3..72db0a3 100644
--- a/tools/burl_client/burl_client.go
+++ b/tools/burl_client/burl_client.go
@@ -164,7 +164,9 @@ func mainWithGracefulShutdown() error {
 	if err = rpcClient.Call(method, data, &reply); err == nil {
 		enc := json.NewEncoder(os.Stdout)
 		enc.SetIndent("", "  ")
-		enc.Encode(reply)
+		if err := enc.Encode(reply); err != nil {
+			return fmt.Errorf("%s output: %w", subcommandName, err)
+		}
 	} else {
 		return fmt.Errorf("%s response: %w", subcommandName, err)
 	}
-- 
2.43.0


From 3d9c7a1591fadb52f0a523a79a8c439a9aad31ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:10 +0000
Subject: [PATCH 25/26] fix: wrong target of bracket links ending with an
 escaped bracket

The character class for ordinary characters of link target included
backslash in contrast to `org-link-make-regexps`, so for
"[[https://example.org/a\[1\]][b]]" the link was "https://example.org/a\[1\"
and its description was lost.
---
 pkg/burl_links/extract_org.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/burl_links/extract_org.go b/pkg/burl_links/extract_org.go
index f991982..08a9327 100644
--- a/pkg/burl_links/extract_org.go
+++ b/pkg/burl_links/extract_org.go
@@ -33,7 +33,7 @@ var reHeading = regexp.MustCompile(`^(\*+)\s+(\S(?:.*\S)?)?\s*$`)
 var SchemeVariants []string = []string{"doi", "https?", "mid"}
 var reSchemeStr = MakeSchemeReStr(SchemeVariants)
 var reScheme = regexp.MustCompile("^(?:" + reSchemeStr + "):")
-var reBracketStr = "\\[\\[((?:[^\\]\\[]|\\\\(?:\\\\\\\\)*[\\]\\[]|\\\\+[^\\]\\[])+)](?:\\[((?:.|\n)+?)\\])?\\]"
+var reBracketStr = "\\[\\[((?:[^\\]\\[\\\\]|\\\\(?:\\\\\\\\)*[\\]\\[]|\\\\+[^\\]\\[])+)](?:\\[((?:.|\n)+?)\\])?\\]"
 var reAngleSuffixStr = "[^>\n]*(?:\n[ \t]*[^> \t\n][^> \n]*)*"
 var rePlainSuffixStr = "(?:[^][ \t\n(\\)<>]|\\((?:[^][ \t\n(\\)<>]|\\([^][ \t\n(\\)<>]*\\))*\\))+(?:[^[:punct:] \t\n]|/|\\((?:[^][ \t\n(\\)<>]|\\([^][ \t\n(\\)<>]*\\))*\\))"
 var reLink = regexp.MustCompile(MakeLinkReStr(reSchemeStr))
-- 
2.43.0


From 4b1eb205008ff9d77c1b10c48bcd641054b997d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:11 +0000
Subject: [PATCH 26/26] fix: fuzzy distance of long patterns was capped

The value used as an infinite cost was 32767, so patterns of a larger
number of characters never got a greater distance.
---
 pkg/burl_fuzzy/approsearch.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/burl_fuzzy/approsearch.go b/pkg/burl_fuzzy/approsearch.go
index f145c20..22e0377 100644
--- a/pkg/burl_fuzzy/approsearch.go
+++ b/pkg/burl_fuzzy/approsearch.go
@@ -21,6 +21,7 @@ package burl_fuzzy
 
 import (
 	// "fmt" // debug output
+	"math"
 	"strings"
 )
 
@@ -31,7 +32,7 @@ const (
 	DeletionDistance      = EditorDistance(1)
 	InsertionDistance     = EditorDistance(1)
 	SubstitutionDistance  = EditorDistance(1)
-	CutCost               = EditorDistance(32767)
+	CutCost               = EditorDistance(math.MaxInt32)
 )
 
 func SameRuneDistance(p rune, w rune) EditorDistance {
-- 
2.43.0

