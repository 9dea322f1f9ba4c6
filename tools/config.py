"""Settings of the checks: cases per tier, binaries, description."""

CONFIG = {
    "C01": dict(
        quick=200000, thorough=4000000,
        rule="generated message sequences (sizes 0-300000 around buffer boundaries, contents that look like headers), write and read splits, "
             "cuts, huge headers, write errors, unread bodies; non-trivial: some message has bytes or a huge header is sent",
    ),
    "C02": dict(
        bins=["example_backend", "burl_backend"], quick=20000, thorough=400000,
        rule="generated request sequences (ids of all JSON types, white space, body sizes around decoder buffer boundaries, unknown methods, "
             "failing and late handlers) with generated chunking, to the codec, the client and the executables; "
             "non-trivial: more than one request or a body larger than 500 bytes",
    ),
    "C03": dict(
        bins=["example_backend", "burl_backend"], helpers=["stub"], quick=6000, thorough=150000,
        technique="property-based testing: generated schedules in which the harness owns the completion of every handler",
        rule="generated histories of requests whose handlers are released by the harness one by one or together in generated order, "
             "in the codec and (held Emacs commands, held note files) in the backend; non-trivial: at least two requests pending at once",
    ),
    "C04": dict(
        bins=["burl_backend"], helpers=["stub"], quick=14000, thorough=150000,
        rule="generated name maps and sessions of published, internal, mutated and arbitrary method names; "
             "non-trivial: both published and unpublished names in the session",
    ),
    "C05": dict(
        bins=["burl_backend"], quick=16000, thorough=400000,
        technique="fuzzing: structured generation of hostile byte streams, JSON values and note files against an invariant of the output",
        rule="generated streams of well-formed requests with hostile parameters, undecodable, cut and oversized frames, hostile note files, "
             "all log destinations; every case counts",
    ),
    "C06": dict(
        bins=["burl_backend"], quick=20000, thorough=100000,
        rule="generated Org files (1-3 files, headings of levels 1-25 with skips, bracket/angle/plain links, decoys) and queries; "
             "non-trivial: at least one expected link in the answers",
    ),
    "C07": dict(
        bins=["burl_backend"], quick=16000, thorough=200000,
        rule="generated text files (and mixtures with Org files) with URLs between generated delimiters, decoys, and queries; "
             "non-trivial: at least one expected link in the answers",
    ),
    "C08": dict(
        bins=["burl_backend"], quick=5000, thorough=200000,
        rule="generated note trees and queries with default, zero, negative, small, large and huge limits; "
             "non-trivial: some query has more matches than its limit",
    ),
    "C09": dict(
        bins=["burl_backend"], quick=20000, thorough=300000,
        rule="stored URLs and queries drawn from common bases with arbitrary tails and schemes; "
             "non-trivial: some stored URL is expected to match and some other is not",
    ),
    "C10": dict(
        bins=["burl_backend"], quick=20000, thorough=200000,
        rule="generated Org and text files with links of many schemes, histories of linkSet requests and file rewrites; "
             "non-trivial: some request is expected to return links",
    ),
    "C11": dict(
        bins=["burl_backend"], helpers=["tracer"], quick=3000, thorough=40000,
        technique="property-based testing with fault injection: generated faulty files, file system calls that fail (ptrace)",
        rule="generated note files, some of them missing, directories, dangling or looping links or with an overlong line at a drawn place, "
             "or file system calls for them fail or read less than asked at drawn moments, "
             "and repeated requests; non-trivial: at least one file can not be read completely (a fault takes place)",
    ),
    "C12": dict(
        bins=["burl_backend"], helpers=["stub"], quick=8000, thorough=60000,
        rule="generated configured files, user arguments and histories of visit requests for allowed, mangled and foreign paths with scripted client outcomes; "
             "non-trivial: some file is opened, or some request is refused although files are configured",
    ),
    "C13": dict(
        bins=["burl_backend"], helpers=["stub"], quick=8000, thorough=60000,
        rule="generated histories of capture requests (formats, error fields, URLs) with scripted client outcomes; every case counts",
    ),
    "C14": dict(
        bins=["burl_backend"], race_bins=["burl_backend"], helpers=["stub"], quick=400, thorough=8000,
        technique="property-based testing: generated bursts of concurrent requests, differential against each request alone, "
                  "with the race detector as an additional oracle",
        rule="bursts of 2-40 requests of all kinds sent at once to a normal and a race-detecting build; "
             "every burst is non-trivial (at least two requests)",
    ),
    "C15": dict(
        bins=["burl_backend"], helpers=["argdump", "stub"], quick=12000, thorough=150000,
        rule="generated option sequences with hostile names and values, locales, working directories, forms of paths; the script is run with a "
             "recording stand-in for the executable and with the executable itself; non-trivial: some option or an unusual executable name",
    ),
    "C16": dict(
        bins=["burl_backend"], quick=14000, thorough=150000,
        rule="generated paths of the executable up to 4000 bytes with printable characters, ways to lose the executable, locales; every case counts",
    ),
    "C17": dict(
        bins=["burl_backend"], quick=12000, thorough=150000,
        rule="generated combinations of install options (targets, names, ids, wrapper forms, custom options, existing files, order); "
             "non-trivial: some manifest is requested",
    ),
    "C18": dict(
        bins=["burl_backend"], helpers=["tracer"], quick=9000, thorough=150000,
        rule="generated histories of runs over one target with tampered previous states, content lengths around buffer sizes, force, umask; "
             "single failures of file system calls; non-trivial: something exists at the target before some run, files are changed",
    ),
    "C19": dict(
        bins=["burl_backend"], helpers=["tracer"], quick=400, thorough=12000, level="fault_enumeration",
        technique="property-based fault injection: generated scenarios, every file system call of each is killed or made to fail in turn "
                  "(ptrace), pairs of faults are sampled",
        rule="generated sets of targets, previous states, sizes and -force; for each scenario all kills and realistic errors at all file system "
             "calls below of the target directories, short writes, sampled pairs of faults (see distribution for counts of runs); "
             "non-trivial: something is renamed in the run without faults",
        note="Every file system call boundary of each generated scenario is a crash point and every call is made to fail with realistic errors; "
             "scenarios themselves are sampled. Kills of the process only, not power failures. Trusts ptrace and the kernel.",
    ),
    "C20": dict(
        quick=400000, thorough=20000000,
        technique="property-based testing: generated strings against the definition (all substrings) and an independent matrix",
        rule="generated pairs of query and text over small, mixed case and non-ASCII alphabets, texts having edited copies of the query; "
             "non-trivial: the distance is neither zero nor the length of the query",
    ),
    "C21": dict(
        overlay_bins={"burl_backend_search": ("burl_backend", {"cmd/burl_backend/verif_rpc_socket.go": "overlay/backend_rpc.go.txt"})},
        quick=60000, thorough=3000000,
        rule="generated collections of edited copies of query words (with ties and duplicates) in two orders, limits, tolerances, ranked by "
             "sorting everything; some through the RPC method of the backend; non-trivial: more than one URL is expected",
    ),
    "C22": dict(
        bins=["burl_tool", "burl_backend"], quick=10000, thorough=200000,
        rule="generated note files passed by typed options, positional arguments and standard input, URLs and prefixes, compared with the model "
             "and the backend; non-trivial: something is found",
    ),
    "C23": dict(
        bins=["burl_client", "burl_backend", "example_client", "example_backend"], helpers=["peer"], quick=4000, thorough=150000,
        rule="generated subcommands with arguments and wrong usage against a stand-in backend with prescribed replies, the client against direct "
             "requests to the backend, schedules of library calls with generated replies, chunking and ways to exit; "
             "non-trivial: all command lines, library histories with more than one call",
    ),
    "C24": dict(
        bins=["burl_backend"], helpers=["stub"], quick=6000, thorough=150000,
        rule="generated source and disable options, lists of offered formats, uses of the advertised methods, starts in the way browsers do; "
             "non-trivial: some hello succeeds",
    ),
    "C25": dict(
        bins=["burl_backend"], quick=20000, thorough=200000,
        rule="generated sequences of scheme options and links in all syntaxes having configured, unconfigured, similar schemes, names of schemes "
             "elsewhere; non-trivial: options are refused or some candidates are found and some are not",
    ),
    "C26": dict(
        bins=["burl_backend"], quick=6000, thorough=150000,
        rule="generated note files and histories over a pool of generated requests (mentions with all limits, sets of links, hello, refused "
             "requests), one by one and pipelined, each answer is compared with a fresh session; non-trivial: at least two different requests "
             "and some of them succeeds",
    ),
    "C27": dict(
        bins=["burl_backend"], helpers=["stub"], quick=6000, thorough=100000,
        rule="generated note files (some unreadable), log destinations, outcomes of Emacs and sessions, each compared with the same session "
             "that logs to standard error, and backends that share a log; non-trivial: something is logged or the log is refused",
    ),
    "C28": dict(
        bins=["burl_backend"], helpers=["stub"], quick=3000, thorough=80000,
        rule="generated histories of installations (configurations, -force, path forms, current directories); the host is started as browsers "
             "do and compared with a backend started directly; non-trivial: some host with notes has been started",
    ),
    "C29": dict(
        bins=["burl_backend"], quick=16000, thorough=300000,
        rule="generated command lines of general, backend and installation options in all forms, half of them with an error in a generated "
             "place, against a model of the command line; non-trivial: more than one argument",
    ),
    "C30": dict(
        bins=["burl_backend", "example_backend"], helpers=["stub"], quick=3000, thorough=100000,
        rule="generated sessions (sizes of requests and replies below and above of capacity of pipes) and ways to leave: end of input at "
             "generated byte, loss of the receiving end, both, not reading, SIGTERM; non-trivial: requests are in progress",
    ),
    "C31": dict(
        bins=["burl_backend"], quick=8000, thorough=300000,
        technique="property-based testing: metamorphic relations over arbitrary generated text",
        rule="generated text of URLs, markup, punctuation, Unicode and control characters in Org and text files, sets of schemes and prefixes; "
             "non-trivial: linkSet and urlMentions have found something",
    ),
    "C32": dict(
        bins=["example_backend"], quick=16000, thorough=1000000,
        technique="property-based testing: stateful model of the JavaScript client under generated schedules; differential with the real backend",
        rule="generated schedules of calls, replies in any order, invalid messages, losses of connection, failures to send for the client of the add-on "
             "example in a JavaScript sandbox; sessions with the real backend including its kills; clicks in menu; non-trivial: several "
             "messages and some replies",
    ),
}
