#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run it after editing)."""
import json, os

P = []


def p(id, title, statement, over, qtext, why, files, mechanism, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files,
         "mechanism": [{"name": n, "where": w} for n, w in mechanism],
         "observe_at": observe, "hook_needed": None}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})


FRAME = "pkg/webextensions/frame.go"
SERVER = "pkg/webextensions/server.go"
CLIENT = "pkg/webextensions/client.go"
BACKEND = "cmd/burl_backend/burl_backend.go"
ARGS = "cmd/burl_backend/args.go"
INSTALL = "cmd/burl_backend/install.go"
ORG = "pkg/burl_links/extract_org.go"
TXT = "pkg/burl_links/extract_txt.go"
UMATCH = "pkg/burl_links/urlmatch_txt.go"
SRC = "pkg/burl_links/link_source.go"
TREE = "pkg/burl_links/link_tree.go"
COUNT = "pkg/burl_links/node_count.go"
URL = "pkg/burl_url/url.go"
EMACS = "pkg/burl_emacs/emacs.go"
FUTIL = "pkg/burl_fileutil/fileutil.go"
ESC = "pkg/burl_fileutil/escape_printf.go"
MANI = "pkg/webextensions/manifest.go"
MFLAG = "pkg/burl_util/multistring_flag.go"
APPRO = "pkg/burl_fuzzy/approsearch.go"
RANK = "pkg/burl_fuzzy/rank.go"
TOOL = "cmd/burl_tool/burl_tool.go"
BCLIENT = "tools/burl_client/burl_client.go"
EXB = "examples/webextensions_backend/webextensions_example_backend.go"
EXC = "examples/webextensions_client/webextensions_example_client.go"

p("C01", "Native-messaging framing is lossless, self-delimiting and bounded",
  "Every message written through the framing layer appears on the wire as exactly one frame, a 32-bit native-order byte count followed by exactly the message bytes, and reading the stream back yields the same messages in the same order whatever their sizes (including zero) and however the transport splits the bytes. "
  "A stream cut inside a frame, or a header announcing more than 1 GiB, is reported as an error and never as a clean end of stream; the end of the stream between frames is reported as a clean end. "
  "Bytes of one message are never taken for the header or body of another one, even if the consumer did not read a message to its end.",
  ["inputs", "histories"],
  "All sequences of messages of all sizes, all ways to split the writes and reads of the stream, all cut points.",
  "The existing tests exchange four short strings over an unbuffered in-memory pipe; they never split a header, cut a stream, exceed the limit or hit a buffer boundary.",
  [FRAME, "pkg/webextensions/native_amd64.go"],
  [("length header and limited reader", FRAME), ("buffering writer that prepends the size", FRAME)],
  ["bytes on the wire", "errors returned to the codec"],
  [("remaining", "bytes of the current frame which are not consumed yet", FRAME)])

p("C02", "Every well-formed RPC request gets exactly one response of its own",
  "For every sequence of well-formed JSON-RPC requests sent over native messaging, each request gets exactly one response frame, which carries the id of that request and either the result of that call or its error text (never both), whatever the sizes and JSON whitespace of the messages and however the pipes split the bytes. "
  "Requests already sent when the input is closed are still answered before the server finishes, and the server then finishes cleanly. "
  "The bundled client codec, talking to the bundled server codec, returns to every caller the result of its own call.",
  ["inputs", "histories", "schedules"],
  "All sequences of requests (serial, pipelined, concurrent), payload sizes including every buffer boundary, ids of any JSON type, chunkings of both pipes, position of the end of input.",
  "Tests send at most four tiny requests with the library client; no message ever reaches the 512-byte decoder buffer, no raw client, no close with pending calls.",
  [SERVER, CLIENT, FRAME],
  [("server codec decorator", SERVER), ("client codec decorator", CLIENT), ("frame per encoded message", FRAME)],
  ["response frames", "results seen by callers", "return of the serve loop"])

p("C03", "A slow request neither blocks nor corrupts the other requests",
  "While any number of requests are still being processed, a later request is accepted, executed and answered, so responses are delivered in the order in which handlers finish, not in the order of arrival. "
  "Responses of handlers that finish at the same time never interleave on the wire: the output always stays a sequence of complete, correctly sized frames, one per request.",
  ["schedules", "histories"],
  "All completion orders of sets of concurrent requests and all payload sizes, including many handlers finishing together.",
  "The only parallel test runs four instant calls; it cannot tell serial from concurrent execution and never holds a handler.",
  [SERVER, FRAME, EXB],
  [("requests carry identifiers, handlers run concurrently", SERVER), ("one frame is written per response under the sending lock", SERVER)],
  ["order of response frames", "wire bytes"])

p("C04", "Only published method names reach a handler",
  "A request whose method name is in the published name map runs exactly the mapped handler, once; all published aliases of one backend operation (hello, linkremark.hello, burl.hello and so on) behave identically. "
  "A request with any other method name, including internal handler names such as Burl.Visit or Burl.Search, empty or odd names, runs no handler and gets an error response with its id, and the session goes on serving later requests.",
  ["inputs", "histories", "configurations"],
  "All method names (published, internal, mutated, empty, with dots, quotes or non-ASCII text), all name maps, any position in a session.",
  "No existing test uses the mapped codec or the backend's method table.",
  [SERVER, BACKEND],
  [("method name mapping codec", SERVER), ("method table of the backend", BACKEND)],
  ["response of each request", "which handlers ran"])

p("C05", "Malformed or hostile input never crashes the backend or pollutes its output",
  "Whatever bytes, frames, JSON values or parameter types arrive on its input, and whatever the content of the note files, the backend never crashes: it answers or ends in an orderly way with status 0. "
  "Its standard output only ever carries complete native-messaging frames, each containing one JSON object, wherever the log is directed; and every well-formed request that precedes the first undecodable frame is answered.",
  ["inputs", "histories", "configurations"],
  "All byte streams, all JSON values in place of parameters (wrong types, extreme numbers, missing and null fields), all note file contents, all log settings.",
  "No existing test feeds malformed frames or parameters; none runs the backend at all.",
  [BACKEND, FRAME, SERVER, COUNT, TREE, ORG],
  [("decode errors end the session", SERVER), ("parameter validation in the methods", BACKEND)],
  ["exit status", "standard output", "responses"])

p("C06", "URL mentions in Org files: exact links, lines and heading path",
  "For any Org file, the answer to a mentions query lists precisely the occurrences of the queried URLs as bracket links (with or without description), angle-bracket links or plain links, each with its URL, description and 1-based line number. "
  "Each link is placed below its nearest preceding heading, and that heading below its proper ancestors, i.e. for each lower level the nearest preceding heading that is not closed by a heading of the same or lower level, also when levels are skipped or deep; headings carry their text and line number. "
  "Only the first of several occurrences of one URL directly in the same section is listed, while totals count all of them; files are reported in the configured order.",
  ["inputs"],
  "All Org documents: heading structures (skipped, deep, repeated, empty headings), link syntaxes, positions in the line, descriptions, line endings, groups of files.",
  "Existing tests check only the flat link set of five short texts; nothing tests headings, line numbers, descriptions or the result tree.",
  [ORG, TREE, COUNT, SRC, BACKEND],
  [("heading stack while scanning lines", ORG), ("link regular expression", ORG), ("tree of files, headings and bodies", TREE), ("JSON form of the tree", COUNT)],
  ["reply of urlMentions"],
  [("heading stack", "open headings of the current line", ORG)])

p("C07", "URL mentions in plain text files: exact links and lines",
  "For any text file, a mentions query for URLs of the form scheme://domain/path reports precisely the occurrences of these URLs delimited by white space, brackets, quotes or line ends, with 1-based line numbers in file order, all in one section of that file. "
  "Words, bare domains' fragments and relative paths that are not such a URL are never reported.",
  ["inputs"],
  "All text files composed of words, relative paths and URLs (ASCII and international domains, percent escapes), delimiters, line endings, several URLs per line.",
  "Existing tests check only single-word regular expression matches and the link set, never extraction, line numbers or surrounding text.",
  [TXT, UMATCH, SRC, TREE],
  [("word scanner and URL pattern", TXT), ("URL match filter", UMATCH)],
  ["reply of urlMentions for txt sources"])

p("C08", "Result limiting: exact totals, bounded and representative excerpts",
  "A mentions query with any limit shows at most that many links (none for zero or less): exactly min(limit, matches) when no URL is repeated within a section, everything when the limit is at least the number of matches, and 8 is the limit when none is given. "
  "Every reported total is the number of all matching links below that node of the notes, every filtered count is the number of links actually shown below it. "
  "At each level as many children are kept as the limit allows, in document order, never dropping a child that has more matches than a kept one, and each kept child shows at least one link.",
  ["inputs"],
  "All link trees (several files, nested headings, bodies with repeated URLs) and all integer limits, including zero, negative and huge ones.",
  "No existing test covers counting or limiting.",
  [COUNT, TREE, BACKEND],
  [("counting pass", COUNT), ("top-down distribution of the limit", TREE)],
  ["attr totals and links in the urlMentions reply"],
  [("target count", "share of the limit given to a node", TREE)])

p("C09", "URL lookup equates http/https and a redundant tail, nothing else",
  "A stored link matches a queried URL if and only if it equals the query, possibly after exchanging the http: and https: scheme and after removing some trailing part of the redundant tail (slashes, then an optional question mark, then ampersands, then an optional number sign) from the query. "
  "The answer to a query with several variants is the union of the answers for each non-empty variant, and a query without any non-empty variant is an error.",
  ["inputs"],
  "All pairs of stored and queried URLs, in particular pairs that differ only in scheme, tail characters, tail order, case or one character, ASCII or not.",
  "No existing test covers URL variants.",
  [URL, BACKEND],
  [("variant generation", URL), ("exact comparison filter", BACKEND)],
  ["links in the urlMentions reply"])

p("C10", "linkSet returns exactly the distinct links with the requested prefixes",
  "For valid prefixes (a scheme, with or without colon and a further prefix) linkSet returns, without duplicates, precisely the links in all configured files that start with one of the prefixes: bracket, angle-bracket and plain links of Org files, and plain links, including those inside brackets, of text files. "
  "Every request reflects the current contents of the files. "
  "An empty prefix list, more than 16 prefixes, a prefix that is not of that form, or a disabled method yields an error and no URLs.",
  ["inputs", "configurations", "histories"],
  "All note files, all sets of prefixes (schemes, long prefixes equal to or almost equal to a link, prefixes with regular expression characters), file changes between requests.",
  "Existing tests use five texts with scheme or host prefixes, one file at a time, and never invalid prefixes, the request limit or prefixes as long as a link.",
  [ORG, TXT, SRC, BACKEND],
  [("prefix validation and quoting", ORG), ("set extraction", TXT), ("limits", BACKEND)],
  ["urls of the linkSet reply"])

p("C11", "Lookups are never silently incomplete",
  "If any configured note file cannot be opened or cannot be read to its end (missing, a directory, a line longer than the reader supports), URL mentions and link set requests report an error or a complete answer, never an answer that silently lacks links of some file. "
  "The same holds for every repetition of the request in that session.",
  ["inputs", "fault_sequences"],
  "All groups of files, position and kind of the faulty file, position of the fault inside the file, sequences of requests.",
  "No existing test reads from files or provokes read errors.",
  [SRC, ORG, TXT, BACKEND],
  [("error propagation from scanner and open", SRC), ("error remembered by the lazy initialiser", BACKEND)],
  ["replies of urlMentions and linkSet"])

p("C12", "visit opens only configured files, at the requested line",
  "A visit request makes the backend run the Emacs client only if its path is literally one of the configured note files; any other path is refused with an error before anything is run. "
  "For an allowed file the configured client command is run to ensure a frame and then exactly once with the user's extra arguments, no-wait, +LINE if the line is positive, and that path as one separate last argument. "
  "The reply is true exactly if all runs succeeded, and otherwise an error, which names the missing Emacs server when the client reports that. The client is run in the directory and with the environment of the backend and can not read the messages of the browser; however long it takes, the reply waits for it.",
  ["inputs", "configurations", "fault_sequences"],
  "All requested paths (configured, relative or otherwise equivalent spellings, prefixes, options, empty), all line numbers, all sets of sources and client arguments, all client outcomes.",
  "No existing test covers the backend methods or the Emacs invocation.",
  [BACKEND, EMACS],
  [("allow list check", BACKEND), ("emacsclient invocation", EMACS)],
  ["commands executed", "reply of visit"])

p("C13", "capture passes to Emacs nothing but an org-protocol URI, and reports truthfully",
  "A capture request runs the Emacs client only for format org-protocol, without an error field, and with a URL that starts with org-protocol:; anything else is refused (or answered with status preview when the error field is set) without running any command. "
  "The URI is handed over exactly once, byte for byte, as a single separate last argument, only after Emacs confirmed that org-protocol is loaded and a frame was ensured, with the user's extra arguments on every call. "
  "Status success is reported exactly if every client run succeeded; otherwise the reply is an error. The client has the environment of the backend and can not read the messages of the browser; however long it takes, the reply waits for it.",
  ["inputs", "configurations", "fault_sequences"],
  "All capture parameters (formats, URLs with option-like, quoted, multi-line or non-ASCII text, error values) and all outcomes of each client run.",
  "No existing test covers capture or the Emacs invocation.",
  [BACKEND, EMACS],
  [("format, error and scheme checks", BACKEND), ("check, ensure frame, pass", EMACS)],
  ["commands executed", "reply of capture"])

p("C14", "Concurrently processed requests do not interfere with each other",
  "When many requests of any mixture (hello, mentions, linkSet, visit, capture) are processed at the same time, each gets the reply it would get alone. "
  "Every command run for Emacs has exactly the arguments that belong to one of the requests. "
  "There are no unsynchronised accesses to shared data.",
  ["schedules", "histories"],
  "All mixtures and interleavings of concurrent requests, including the first ones which trigger lazy loading of the files.",
  "No existing test runs the backend, and the parallel test of the codec has a stateless handler.",
  [BACKEND, EMACS, COUNT, TREE],
  [("once-only lazy initialisation", BACKEND), ("per-query cloned result tree", COUNT), ("argument list built per command", EMACS)],
  ["replies", "commands executed", "race detector reports"])

p("C15", "The generated wrapper reproduces the configuration it was made from",
  "Running the wrapper script created from any backend options starts the very backend executable that created it with an equivalent configuration: same log destination, same link sources with their types and order, same emacsclient command and arguments, same scheme list and same disabled methods, independent of the current directory. "
  "Relative paths of notes and logs are made absolute and links resolved when the wrapper is created, and every character of every value survives shell quoting.",
  ["inputs", "configurations"],
  "All option combinations and orders, all path names and values (spaces, quotes, dollar signs, newlines, non-ASCII or leading dashes), all locales.",
  "No existing test covers option parsing, quoting or the wrapper.",
  [INSTALL, ARGS, ESC, FUTIL, MFLAG],
  [("arguments as shell command", ARGS), ("shell quoting", ESC), ("paths made absolute", ARGS), ("script template", INSTALL)],
  ["arguments received by the executable started by the wrapper"])

p("C16", "A wrapper whose backend is gone still answers with a valid error frame",
  "If the backend executable is missing or not executable, running the generated wrapper prints exactly one native-messaging frame whose length header equals the byte length of its body, and the body is a JSON object with an error text that names the executable (quotes and backslashes replaced). "
  "This holds for executable paths of any length and any printable characters.",
  ["inputs", "configurations"],
  "All executable paths up to the system limit, ASCII and not, with shell-special characters.",
  "No existing test covers the wrapper.",
  [INSTALL],
  [("fallback branch of the script template", INSTALL)],
  ["standard output of the wrapper"])

p("C17", "Generated manifests are valid, consistent and browser specific",
  "Every manifest written by the install options is a JSON object with type stdio, a non-empty description, an absolute path of the wrapper (or of the backend executable when no wrapper is requested), and a name equal to the base name of the manifest file without .json and to the -backend option if given. "
  "The Firefox manifest has only allowed_extensions and the Chrome manifest only allowed_origins, listing the default and additional ids in order (replaced by those after an empty value), with bare Chrome ids in chrome-extension://ID/ form. "
  "A request that cannot satisfy this (custom options without a wrapper, name and file name disagree, wrong extension, no ids, several outputs to stdout) fails with an error and does not write the manifest concerned.",
  ["inputs", "configurations"],
  "All combinations of install options, names, target forms (directory, file, -), id lists and file states.",
  "No existing test covers the manifest or the install options.",
  [INSTALL, MANI, FUTIL],
  [("manifest validation", MANI), ("file name derivation", FUTIL), ("option checks", INSTALL)],
  ["files written", "exit status"])

p("C18", "Generated files never overwrite other content without -force",
  "When a wrapper or manifest is to be written over an existing path, a file with different content, or anything that is not a regular file, is left untouched and an error is reported unless -force is given; a file with the same content is kept and reported as success, and gets its owner execute permission if a script lacks it. "
  "After any successful run the target has exactly the generated content and, when newly written, mode 0755 for wrappers and 0644 for manifests, whatever the umask and whatever was there before with -force. "
  "No temporary or partial file remains after success or failure.",
  ["inputs", "configurations", "histories"],
  "All previous states of the target (absent, empty, same, prefix or extension of the content, other script or text, large, link, directory, permissions), content sizes, with and without force, repeated runs.",
  "No existing test covers file writing.",
  [FUTIL, INSTALL],
  [("compare before write", FUTIL), ("temporary file and rename", FUTIL)],
  ["file system state after the run", "exit status"])

p("C19", "Writing a wrapper or manifest is atomic under crashes and I/O errors",
  "If the process is killed or a file operation fails at any point while a wrapper or manifest is being written, the target path afterwards holds either its complete previous state or the complete new content with its access rights (an executable wrapper, a readable manifest), never a partial, empty or missing file. "
  "When an operation fails, the failure is reported as an error and success is never claimed unless the target is complete.",
  ["crash_points", "fault_sequences"],
  "All points (every file system call) at which the process may be killed or a call may fail, for all previous states and contents.",
  "No existing test injects faults.",
  [FUTIL],
  [("temporary file in the same directory and rename", FUTIL)],
  ["file system state after the crash or failure", "exit status"])

p("C20", "Approximate search distance is the true minimal edit distance",
  "For all non-empty query and text strings, the search distance equals the minimal number of insertions, deletions, substitutions and swaps of adjacent characters (no character edited twice) that turns the lower-cased query into some, possibly empty, substring of the lower-cased text, counting Unicode characters. "
  "In particular it is zero exactly for case-insensitive substrings and never more than the query length.",
  ["inputs"],
  "All pairs of strings over all alphabets.",
  "Seven fixed pairs of short ASCII words are tested.",
  [APPRO],
  [("rolling-row dynamic programming", APPRO)],
  ["returned distance"])

p("C21", "Search returns the best matches, ordered and bounded",
  "For any collection of URLs, query words, positive limit and non-negative tolerance, search returns exactly the best URLs, up to the limit, among those whose summed distances of all query words do not exceed the tolerance, ranked by distance, then length, then alphabetically. "
  "The result does not depend on the order in which the URLs are supplied.",
  ["inputs"],
  "All collections (with ties, duplicates, more or fewer than the limit), query word lists, limits and tolerances.",
  "No existing test covers ranking or the bounded heap.",
  [RANK, APPRO],
  [("bounded heap and ordering", RANK), ("per-word distances and tolerance", RANK)],
  ["list of weighted URLs"])

p("C22", "The command-line search tool reports only what was asked for",
  "The search tool, given a URL and files, prints precisely the mention tree of that URL (with the same equivalences and at most 8 links) that the backend would report for these files, and nothing if there is no mention; without files it reads text from standard input. "
  "With prefixes instead of a URL, it prints precisely the distinct links with these prefixes, one per line. Output that can not be written is reported by a non-zero status.",
  ["inputs", "configurations"],
  "All files, URLs, prefixes and ways to name sources (typed options, positional by suffix, standard input).",
  "No existing test runs the tool.",
  [TOOL, SRC, "pkg/burl_links/flag.go"],
  [("variant filter", TOOL), ("shared extraction and limiting", SRC)],
  ["standard output of the tool"])

p("C23", "Command-line clients report the backend's replies faithfully",
  "The command-line client prints, for each of its subcommands, exactly the result that the backend gives to the corresponding request with the given arguments, and for an error reply, unknown subcommand, wrong usage or a result that can not be written it prints a message and exits with a non-zero status. "
  "The library client for a launched command delivers every result and error of any sequence of calls to a backend process, and closing it ends the process and reports its exit status.",
  ["inputs", "histories"],
  "All subcommands and arguments, sequences of calls of any payload size, backends that exit with any status.",
  "No existing test runs a client against a process.",
  [BCLIENT, CLIENT, EXC, EXB],
  [("subcommand to request mapping", BCLIENT), ("process wrapper", CLIENT)],
  ["output and exit status of the client", "results of library calls"])

p("C24", "hello negotiates the format and advertises what is configured",
  "hello succeeds exactly if org-protocol with a non-empty version is the first org-protocol offer; it then returns that format and version. "
  "The capabilities visit and urlMentions are advertised exactly if note files are configured, and linkSet additionally exactly if it is not disabled; every advertised lookup method is usable and a disabled linkSet is refused.",
  ["inputs", "configurations"],
  "All lists of offered formats (any order, duplicates, other formats, missing versions), all source and disable options.",
  "No existing test covers hello.",
  [BACKEND, ARGS],
  [("format selection", BACKEND), ("capabilities by configuration", BACKEND)],
  ["reply of hello", "replies of advertised methods"])

p("C25", "Scheme options decide exactly which Org links are indexed",
  "A link of an Org file can be found by a mentions query if and only if its scheme, the text before the first colon at the start of the link, is one of the configured schemes: by default doi, http, https and mid, extended by each scheme option (given with or without colon), or replaced by the options following an empty value. "
  "Text that merely contains the name of a configured scheme elsewhere is not treated as such a link, in all three link syntaxes. "
  "An empty scheme list, or an empty value after additions to the default list, is refused at start-up.",
  ["inputs", "configurations"],
  "All sequences of scheme options and all bracket, angle and plain links with configured, unconfigured, similar and embedded schemes.",
  "Existing tests never change schemes and never check a link that must be rejected because of its scheme.",
  [ORG, MFLAG, ARGS, BACKEND],
  [("scheme regular expressions", ORG), ("append or reset list option", MFLAG)],
  ["links in the urlMentions reply", "exit status at start-up"])

p("C26", "Answers do not depend on earlier queries of the session",
  "In a session of any length the answer to a mentions, linkSet or hello request is the same as the answer to that request in a fresh session over the same files, whatever requests (with whatever limits, errors or refused parameters) preceded it. "
  "Repeating a request gives the same answer.",
  ["histories"],
  "All sequences of requests with all limits, URL variants, prefixes and invalid parameters.",
  "No existing test issues more than one query to a backend with state.",
  [BACKEND, COUNT, TREE],
  [("index is cloned, not modified, per query", COUNT), ("once-only lazy initialisation", BACKEND)],
  ["replies"],
  [("link index", "tree of all links read once", BACKEND)])

p("C27", "Serving requests changes nothing but the log",
  "Whatever requests it serves, the backend itself creates, modifies or removes no file except the log given by -log, to which it only appends: earlier content is kept and a new log is readable by the owner alone. "
  "With -log FILE messages go to that file and nowhere else, with -log - to standard error, with an empty value nowhere; replies and executed commands do not depend on the choice. "
  "Backends sharing a log lose or mix none of their messages. If the log can not be opened, the backend refuses to start with a message on standard error, a non-zero status and nothing on standard output.",
  ["inputs", "configurations", "histories"],
  "All sequences of valid and invalid requests, log destinations (new, existing, empty, in a missing directory, a directory, relative), numbers of concurrent backends.",
  "No existing test looks at the log or at files beside those it creates.",
  [ARGS, BACKEND, EXB],
  [("opening of the log in append mode", ARGS), ("log destination", EXB)],
  ["files of the working directory and of the notes", "log", "standard error", "replies"])

p("C28", "An installed native messaging host works as configured when a browser starts it",
  "After any history of installations of a host (Firefox or Chrome manifest, with or without -force, relative or absolute paths, from any directory, repeated or changed options), the executable named in the manifest, started as a browser does it (manifest or origin argument, another working directory), gives the replies, runs the Emacs commands and writes the log that a backend started directly with the configuration in effect would. "
  "Installation of a different configuration without -force is refused, with the previous host still working; repeating an installation succeeds and changes nothing.",
  ["inputs", "configurations", "histories"],
  "All option lists (sources of every kind, schemes, log, Emacs options), file names with any characters, histories of installations of up to several steps.",
  "Existing tests compare the text of generated wrappers in a few configurations and never run one.",
  [INSTALL, MANI, MFLAG, ESC, ARGS, FUTIL],
  [("wrapper generation", INSTALL), ("quoting", ESC), ("absolute paths", INSTALL)],
  ["replies of the installed host", "commands executed by it", "log", "exit status of the installation"],
  [("installed host", "manifest and wrapper files", INSTALL)])

p("C29", "Wrong command lines are refused as a whole",
  "A backend command line with an unknown option, a missing value, a bad boolean, bad flag syntax, an empty scheme list, a list reset after additions or a log file that can not be created is refused: a message on standard error, a non-zero status, nothing on standard output, no request served and no file created or changed. "
  "Requests for help or version print to standard output, end successfully, serve nothing and create nothing. Every other command line is served with each option in its documented meaning in all its forms (one or two dashes, value attached or separate, after --).",
  ["inputs", "configurations"],
  "All sequences of options of any forms with errors in any position.",
  "Existing tests parse a few correct lines.",
  [ARGS, MFLAG, "pkg/burl_links/flag.go", BACKEND],
  [("parsing and validation of options", ARGS)],
  ["exit status, standard output and standard error", "replies of a served session", "files"])

p("C30", "The backend serves as long as its browser is connected, and no longer",
  "While its input is open the backend goes on serving, whatever pauses, failed or refused requests there are. However the browser leaves "
  "(end of input at any byte, closing of the receiving end, both in any order, without reading of pending replies, SIGTERM) and "
  "whatever requests are in progress, the process ends by itself: after the end of input when these requests are done, after loss of the "
  "receiving end not later than at the next reply. It never crashes, and all it has written is complete replies to the requests (the last one may be cut only when nobody receives it).",
  ["inputs", "histories", "schedules"],
  "All sequences of requests, sizes of replies (below and above of the capacity of pipes), ways and moments of leaving.",
  "Existing tests do not run the executables.",
  [SERVER, FRAME, BACKEND],
  [("serving loop and end of input", SERVER), ("frame reader and writer", FRAME)],
  ["end of the process", "output till the end"])

p("C31", "Answers agree with each other and with the text of the notes, whatever it is",
  "For arbitrary text of notes: every link, description and heading reported by linkremark.urlMentions is literally on the line reported for it and "
  "lines are reported in ascending order; only asked links are reported. Every link returned by linkremark.linkSet is literally in the notes, has a requested prefix, and is not repeated. "
  "For files in Org format and schemes of index, the set of links is exactly what urlMentions is able to find. The answers for several files are "
  "the union (the sequence) of the answers for each file alone. A longer prefix returns at least all links having this prefix among ones returned for the whole scheme.",
  ["inputs"],
  "Arbitrary mixtures of markup, delimiters, control and non-ASCII characters, links; Org and plain text files, their combinations; sets of schemes.",
  "Existing tests have a few well-formed documents with expected trees.",
  [ORG, TXT, UMATCH, SRC, TREE],
  [("Org extraction", ORG), ("plain text extraction", TXT), ("tree of mentions", TREE), ("set of links", SRC)],
  ["reply to linkremark.urlMentions", "reply to linkremark.linkSet"])

p("C32", "The add-on's RPC client settles each call once, with the reply to that call",
  "Each call of the JavaScript client of the example add-on sends one message with an identifier of its own and the given method and argument, over a connection established when "
  "there is none. It is fulfilled with the result, whatever JSON value it is, as soon as the reply with the same identifier and no error arrives, and is rejected with the text of the error otherwise; "
  "an invalid reply to it rejects it. When the connection is lost all pending calls are rejected with the reason, and later calls establish a new one. "
  "A failure to connect or to send rejects just that call. Null messages, unknown identifiers and repeated replies change nothing. Together with the example backend the results are those of the backend.",
  ["schedules", "histories", "inputs", "fault_sequences"],
  "All interleavings of calls, replies in any order, messages of other forms, disconnections with and without a reason, failures to connect and to send; kills of the real backend.",
  "There are no tests of the add-on at all.",
  ["examples/webextensions_addon/rpc_client.js", "examples/webextensions_addon/background.js", "examples/webextensions_backend/webextensions_example_backend.go"],
  [("JsonRpcClient", "examples/webextensions_addon/rpc_client.js"), ("menu", "examples/webextensions_addon/background.js")],
  ["promises returned by sendMessage", "messages posted to the port", "log of the add-on"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
