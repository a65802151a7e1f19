"""What each check runs. checks = (quick, thorough) cases per shard."""

NOT_APPLICABLE = {}

# system calls of each thread that take longer than usual (strace), in microseconds
DELAYS = ["openat:delay_enter=3000:when=3+7", "unlinkat:delay_exit=500:when=2+5"]

SPEC = {
    "C01": {
        "rule": "a case is one (tree, pattern, case mode); non-trivial: some line of the tree matches and some line does not",
        "oracle": "set-of-positions matcher over Go's parsed syntax tree, run on every line of every original file (cross-checked with Go's regexp engine)",
        "note": "random search: trees of text files (including files crossing the 1 MiB read buffer, and up to the 32 MiB limit) and patterns made from their content; trusts Go's regexp/syntax parser",
        "jobs": [{"pkg": "c01", "test": "TestExact", "checks": (330, 12000)}, {"pkg": "c01", "test": "TestHuge", "checks": (3, 80), "shards": 4}],
    },
    "C02": {
        "rule": "a case is one (tree, pattern, context size); non-trivial: context requested and adjacent matches, overlapping contexts, a file edge or a blank context line occur",
        "oracle": "context computed from the original file's lines by the property's definition",
        "note": "random search over texts with blank lines, CR, missing final newlines, adjacent and sparse matches, 0-500 lines of context, files up to the 32 MiB limit",
        "jobs": [{"pkg": "c02", "test": "TestContext", "checks": (300, 12000)}, {"pkg": "c02", "test": "TestHuge", "checks": (3, 80), "shards": 4}],
    },
    "C03": {
        "rule": "a case is one (tree, pattern, files filter, excludeFiles filter); non-trivial: the filters keep some and drop some of the matching files",
        "oracle": "the unfiltered response restricted with Go's regexp engine on each path (metamorphic)",
        "note": "random search over trees with nested, unicode and metacharacter names; names containing a newline only where line-wise and whole-name readings of the filter agree",
        "jobs": [{"pkg": "c03", "test": "TestFilter", "checks": (300, 12000)}],
    },
    "C04": {
        "rule": "a case is one page or one maximum of a fixed search; non-trivial: the page is a proper nonempty part of the full list, or the maximum cuts it",
        "oracle": "slice of the unlimited response of the same index (metamorphic)",
        "note": "random search over offsets, limits and maxima around the real totals, including consecutive pages",
        "jobs": [{"pkg": "c04", "test": "TestPaging", "checks": (300, 12000)}],
    },
    "C05": {
        "rule": "a case is one (tree, literal or pattern, case mode); non-trivial: some line matches and some does not (literal), or ignoring case adds matches (fold)",
        "oracle": "strings.Contains and rune-by-rune unicode.SimpleFold containment on every original line; swapped-case query equality; superset relation; set-of-positions matcher with (?i)",
        "note": "random search over literals cut from file lines, metacharacter strings and arbitrary Unicode strings; the superset relation is only demanded of patterns without negation",
        "jobs": [{"pkg": "c05", "test": "TestLiteral", "checks": (260, 10000)}, {"pkg": "c05", "test": "TestFold", "checks": (160, 5000), "shards": 4}],
    },
    "C06": {
        "rule": "a case is one (expression, matching text); non-trivial: the query is not 'all'",
        "oracle": "the query evaluated over the text's own trigrams, for texts that Go's regexp engine confirms to match",
        "note": "random search: matching texts are produced from each expression's syntax tree; expressions include wide alternations and classes that exceed the analysis' set limits",
        "jobs": [{"pkg": "c06", "test": "TestQuerySound", "checks": (40000, 1500000)}],
    },
    "C07": {
        "rule": "a case is one file sequence, posting query or merge; non-trivial: at least two files are held, the query selects some but not all files, or both indexes contribute to the merge",
        "oracle": "sets of trigrams computed from the contents; the set meaning of boolean queries; the union of the two file lists with the second owning its paths",
        "note": "random search; volumes on both sides of the writer's in-memory limit are written so that runs are spilled and merged; up to two million files, so that ids and their distances take one to four bytes; merge inputs keep its precondition (names and paths in byte order, paths ending in a slash)",
        "jobs": [
            {"pkg": "c07", "test": "TestRoundTrip", "checks": (170, 6000)},
            {"pkg": "c07", "test": "TestMerge", "checks": (70, 2500), "shards": 4},
            {"pkg": "c07", "test": "TestSpill", "checks": (1, 6), "shards": 4},
            {"pkg": "c07", "test": "TestMany", "checks": (12, 150), "shards": 4},
            {"pkg": "c07", "test": "TestManyMerge", "checks": (8, 150), "shards": 4},
        ],
    },
    "C08": {
        "rule": "a case is one (expression, text, mode); non-trivial: it matches or the text is longer than two bytes (match), some but not all lines match (grep)",
        "oracle": "set-of-positions matcher over the syntax tree on every line, cross-checked with Go's regexp engine where the expression has no text anchors",
        "note": "random search over valid UTF-8 texts; chunked input crosses the 1 MiB buffer at every seam offset; texts are often produced from the expression itself",
        "jobs": [
            {"pkg": "c08", "test": "TestMatch", "checks": (5000, 400000)},
            {"pkg": "c08", "test": "TestGrep", "checks": (250, 20000)},
            {"pkg": "c08", "test": "TestStates", "checks": (12, 1500)},
        ],
    },
    "C09": {
        "rule": "a case is one source tree (with exclusion options); non-trivial: some entries are indexed and some are not, or the root is special or reached through links",
        "oracle": "the generated entries themselves: content read back through a search matching every line, exclusion list through the searcher",
        "note": "random search over trees with text, invalid UTF-8 around the 2 KiB check, overlong lines, many trigrams, 32 MiB files, links, FIFOs, sockets, dot-names and special names; what lies between 'certainly text' and 'certainly not' must be one of both, never neither",
        "jobs": [
            {"pkg": "c09", "test": "TestEveryFile", "checks": (170, 6000)},
            {"pkg": "c09", "test": "TestRoots", "checks": (60, 2000), "shards": 4},
        ],
    },
    "C10": {
        "rule": "a case is one history over one index; non-trivial: the source changed, or the index was opened again, and was then searched",
        "oracle": "answers computed from the tree that was indexed; equality with the first answers; byte comparison of the index files",
        "note": "random histories under the race detector, reopening in the same and in another process",
        "jobs": [
            {"pkg": "c10", "test": "TestSnapshot", "checks": (50, 2500)},
            {"pkg": "c10", "test": "TestSnapshot", "race": True, "checks": (3, 250)},
        ],
    },
    "C11": {
        "rule": "a case is one history of starts on a database directory; non-trivial: at least one of them, or git in it, was killed",
        "oracle": "the generated trees of the revisions in force at the last start, compared with a search for every line and for a literal",
        "note": "random crash points: SIGKILL injected with strace at the n-th call of a chosen system call of hound, or of git (alone, or with hound at the same instant); power loss (unsynced data) and crashes inside hg, svn and bzr (not installed) are not modelled",
        "technique": "property-based testing with injected crashes (generated histories, strace fault injection, reference trees)",
        "jobs": [
            {"pkg": "c11", "test": "TestCrash", "checks": (40, 3000)},
            {"pkg": "c11", "test": "TestGit", "checks": (25, 1500)},
        ],
    },
    "C12": {
        "rule": "a case is one build with an injected failure, or one startup over partly unreadable repositories; non-trivial: the failure was reached, or something was unreadable",
        "oracle": "the generated tree: a build that reports success must hold all of it; errors and process ends are accepted outcomes of a failed call",
        "note": "random failures of open, read, write, close, mkdir, getdents, stat, mmap at the n-th call (once, repeatedly or from then on) and random unreadable files and directories for an unprivileged user",
        "technique": "property-based testing with injected faults (strace error injection, permissions, reference trees)",
        "jobs": [
            {"pkg": "c12", "test": "TestInject", "checks": (45, 3000), "injects": True},
            {"pkg": "c12", "test": "TestUnreadable", "checks": (40, 1500), "shards": 4},
            {"pkg": "c12", "test": "TestFull", "checks": (25, 1500), "shards": 4, "injects": True},
            {"pkg": "c12", "test": "TestSpillFull", "checks": (1, 12), "shards": 2, "injects": True},
            {"pkg": "c12", "test": "TestSpillFails", "checks": (1, 12), "shards": 2, "injects": True},
        ],
    },
    "C13": {
        "rule": "a case is one history over 1-3 repositories with concurrent observers; non-trivial: at least one new revision was published",
        "oracle": "the published histories: every answer must be exactly one published revision's content, never older than one already seen, and finally the newest",
        "note": "random histories through a version-control driver the harness controls; scheduling is the machine's own; 'eventually' means within 90 s",
        "technique": "stateful property-based testing (generated histories, concurrent observers, reference model of the histories)",
        "jobs": [
            {"pkg": "c13", "test": "TestConverge", "checks": (60, 2500)},
            {"pkg": "c13", "test": "TestConverge", "checks": (10, 500), "delays": DELAYS},
        ],
    },
    "C14": {
        "rule": "a case is one history of updates, failures and restarts; non-trivial: at least one update or start failed",
        "oracle": "the published histories with the revisions that can have been indexed; the index directories counted whenever no update is going on",
        "note": "random histories; failures: the pull fails (before or after changing the working copy), the working copy vanishes, a file is unreadable, the old index cannot be removed",
        "technique": "stateful property-based testing with injected failures (generated histories, concurrent observers, reference model)",
        "jobs": [{"pkg": "c14", "test": "TestRecover", "checks": (30, 1500), "user": "nobody"}],
    },
    "C15": {
        "rule": "a case is one sequence of starts on a database directory; non-trivial: an index was reused or rebuilt at a restart, or leftovers had to be swept",
        "oracle": "the trees and options in force at each start; byte comparison of the index directories of unchanged repositories; the foreign files",
        "note": "random configurations (repositories sharing urls, changed options), contents, leftovers, copies of indexes and foreign files; directory names with glob metacharacters",
        "technique": "stateful property-based testing (generated restart histories against a reference model)",
        "jobs": [{"pkg": "c15", "test": "TestRestart", "checks": (45, 2500)}, {"pkg": "c15", "test": "TestProcesses", "checks": (20, 1200)}],
    },
    "C16": {
        "rule": "a case is one history of concurrent calls in which every repository is stopped; non-trivial: one was stopped in the middle of a pull or an index build",
        "oracle": "the race detector; watchdogs; counted driver calls around Stop and Wait; reference model of the histories for every answer",
        "note": "random histories and stop points, through the searcher's methods and the HTTP handlers; scheduling is the machine's own; 'terminates' means within 45 s",
        "technique": "stateful property-based testing under the race detector (generated histories, schedule control through the driver and file leases)",
        "jobs": [
            {"pkg": "c16", "test": "TestLife", "checks": (40, 2000)},
            {"pkg": "c16", "test": "TestLife", "race": True, "checks": (5, 300)},
            {"pkg": "c16", "test": "TestLife", "checks": (8, 400), "delays": DELAYS},
        ],
    },
    "C17": {
        "rule": "a case is one history of a startup and rounds of updates; non-trivial: the limit was reached by more repositories than it admits, or a repository hung",
        "oracle": "the number of repositories that are inside a driver call or caught in an index build at one instant; reference model of the histories for progress",
        "note": "random numbers of repositories, limits, durations, failures and hangs; a build counts while it waits for a file lease that the harness holds",
        "technique": "stateful property-based testing (generated histories, schedule control through the driver and file leases, counting invariant)",
        "jobs": [{"pkg": "c17", "test": "TestLimit", "checks": (50, 1500)}],
    },
    "C18": {
        "rule": "a case is one history of a remote repository and its pulls; non-trivial: at least two pulls had something to change (TestPull), two branches or more than three commits (TestSearch)",
        "oracle": "the generated commits: tree and commit id of the branch's tip, compared with the working copy, the reported revision and the search results",
        "note": "real git over file:// urls, histories written with fast-import: rewrites, renames, switching HEAD, file/directory changes, tags and paths named like refs, local changes, configuration changes; submodules, filters and unreachable remotes are not generated",
        "technique": "stateful property-based testing (generated git histories against a reference model)",
        "jobs": [
            {"pkg": "c18", "test": "TestPull", "checks": (25, 1500)},
            {"pkg": "c18", "test": "TestSearch", "checks": (8, 400)},
        ],
    },
    "C19": {
        "rule": "a case is one history of a directory (TestRevision, TestSearch) or one unusable url (TestErrors); non-trivial: revisions of equal and of different contents were compared, or a watched change had to be searchable",
        "oracle": "the directory's own files, read by the harness at each step, and what it keeps of earlier steps",
        "note": "random changes including same-size same-time edits, swaps, renames to names with newlines, quotes and invalid UTF-8, links, FIFOs, and sources behind chains of links; the directory does not change while it is being hashed or indexed, except under polling",
        "technique": "stateful property-based testing (generated directory histories against a reference model)",
        "jobs": [
            {"pkg": "c19", "test": "TestRevision", "checks": (250, 12000)},
            {"pkg": "c19", "test": "TestSearch", "checks": (20, 1200)},
            {"pkg": "c19", "test": "TestErrors", "checks": (40, 500), "shards": 1},
        ],
    },
    "C20": {
        "rule": "a case is one history of a repository whose files are marked in changing ways; non-trivial: some files are to be flagged and some are not",
        "oracle": "the meaning of simple .gitattributes rules computed by the harness (nearest file, last line wins, macros), or the generated option and marks; matches computed from the generated files",
        "note": "random attribute files in several directories, random auto-generated-files options, updates and restarts; patterns are of simple kinds (names, one star, rooted paths, dir/**, **/name)",
        "technique": "stateful property-based testing (generated git histories and options against a reference model)",
        "jobs": [
            {"pkg": "c20", "test": "TestAttributes", "checks": (45, 2500)},
            {"pkg": "c20", "test": "TestFlags", "checks": (25, 1200)},
        ],
    },
    "C21": {
        "rule": "a case is one history of a working copy (TestDriver), of searchers (TestSearch) or one driver configuration (TestConfig); non-trivial: successes and injected failures were both seen, an update or a failing clone was followed, or the driver or its configuration is bad",
        "oracle": "the state of a small version control system that stand-ins for hg, svn, svnversion and bzr keep: contents and revision of each url, credentials asked for, failures injected",
        "note": "random urls, directories and credentials with white space and shell metacharacters, remote changes, failures of every tool invocation (exit status, signal, missing tool, before and after the work); the real tools are not installed, so what they would do beyond this model is not covered",
        "technique": "stateful property-based testing with injected failures (generated histories over model tools)",
        "jobs": [
            {"pkg": "c21", "test": "TestDriver", "checks": (200, 8000)},
            {"pkg": "c21", "test": "TestSearch", "checks": (40, 1500)},
            {"pkg": "c21", "test": "TestConfig", "checks": (3000, 100000), "shards": 1},
        ],
    },
    "C22": {
        "rule": "a case is one configuration file; non-trivial: it has repositories and global options or a dbpath to apply (TestLoad), it was refused (TestInvalid)",
        "oracle": "the generated configuration's meaning, built together with its text; encoding/json's validity for corrupted files",
        "note": "random documents over all options, layouts, locations and relative or absolute file names; corrupted, cut and ill-typed documents; empty strings and zeros count as omitted, option names are spelled as documented",
        "technique": "property-based testing (generated configuration files against a reference model) and structured fuzzing of invalid ones",
        "jobs": [
            {"pkg": "c22", "test": "TestLoad", "checks": (5000, 200000)},
            {"pkg": "c22", "test": "TestInvalid", "checks": (5000, 200000)},
        ],
    },
    "C24": {
        "rule": "a case is one set of repositories with its requests (TestSearch, TestLists) or one request of random text (TestRaw); non-trivial: some request had results, there were excluded files, the request could be parsed",
        "oracle": "searches of each selected repository's searcher with the options that the generated parameters mean; the configuration; the files that cannot be indexed",
        "note": "random parameters in every form a request can carry them: GET, POST, multipart, repeated, surrounded by junk; one at a time and several at once; where the documentation leaves a number's meaning open (a sign, white space), every reading is accepted; names with commas cannot be listed and are not generated",
        "technique": "property-based testing (generated requests, differential against direct searches) and structured fuzzing of requests",
        "jobs": [
            {"pkg": "c24", "test": "TestSearch", "checks": (150, 8000)},
            {"pkg": "c24", "test": "TestMany", "checks": (8, 300)},
            {"pkg": "c24", "test": "TestLists", "checks": (120, 6000)},
            {"pkg": "c24", "test": "TestRaw", "checks": (3000, 200000)},
        ],
    },
    "C25": {
        "rule": "a case is one history of requests to the update and webhook endpoints; non-trivial: some repository was updated and some request was refused",
        "oracle": "the generated push settings and request, the pulls that the repositories' fake remotes saw, and the contents they published",
        "note": "random repository sets, methods, forms of the repository list, webhook bodies (valid, extended, cut, ill-typed, deeply nested, junk), requests that arrive while a repository is being pulled; update requests that name unknown repositories may be answered either way",
        "technique": "stateful property-based testing (generated request histories) and structured fuzzing of webhook bodies",
        "jobs": [
            {"pkg": "c25", "test": "TestEndpoints", "checks": (120, 6000)},
        ],
    },
    "C23": {
        "rule": "a case is one configuration file, its server and some 150 requests; non-trivial: vcs-config values were configured and some repository was served",
        "oracle": "the generated values themselves: none may occur in the bytes (headers and body) of any answer, in plain, in another case, backwards, in hex, in base64 or as a list of numbers",
        "note": "vcs-config values of every JSON type, nested, global, per repository and merged, for svn (a stand-in that asks for the credentials), hg, local and a fake driver; repositories that fail to index, before and after indexing, dev and production pages, requests for files outside of the assets",
        "technique": "property-based testing (generated configurations with unique tokens, searched for in every answer)",
        "jobs": [
            {"pkg": "c23", "test": "TestLeaks", "checks": (40, 2500)},
        ],
    },
    "C26": {
        "rule": "a case is one server from its start until it serves; non-trivial: it was asked both before and after it was ready (TestReady), or while a repository was being fetched (TestServer)",
        "oracle": "the health check's path and the moment the server is given its indexes; the pages and the API made directly, without the server; for the program, the repositories that can be fetched",
        "note": "in one process with concurrent clients over the moment of readiness, random methods, paths and health check paths; and the real houndd program on a loopback port with version control stand-ins that wait until the harness lets them go on",
        "technique": "stateful property-based testing (generated request schedules, differential against the bare handlers)",
        "jobs": [
            {"pkg": "c26", "test": "TestReady", "checks": (120, 6000), "procs": 4},
            {"pkg": "c26", "test": "TestSwitch", "checks": (800, 40000), "procs": 4, "shards": 4},
            {"pkg": "c26", "test": "TestServer", "checks": (8, 400), "bins": ["houndd"]},
        ],
    },
    "C27": {
        "rule": "a case is one or two servers and some pages with a Host header (TestPages), or one request for an asset or unknown path (TestAssets); non-trivial: there were repositories on the pages, the file exists or is answered with 404",
        "oracle": "the generated title, host and repositories, compared with what an HTML parser, an XML parser and a JavaScript engine read from the page; the page of an innocent configuration for the structure; the files in ui/assets",
        "note": "texts put together from markup, script, template and encoding fragments, and random Unicode, in every configured text; pages of several servers in one process, at once and in turn, production and development mode",
        "technique": "property-based testing (round trip of generated texts through an HTML parser and a JavaScript engine)",
        "jobs": [
            {"pkg": "c27", "test": "TestPages", "checks": (1000, 40000)},
            {"pkg": "c27", "test": "TestAssets", "checks": (2000, 100000), "shards": 4},
        ],
    },
    "C28": {
        "rule": "a case is one response that is printed; non-trivial: some line is in the context of several matches",
        "oracle": "the union of the lines of all matches and contexts of the generated response, with their numbers",
        "note": "responses as the server makes them (the same context around each match, cut off at the ends of the file) and with any windows in order, line numbers of all widths, contents that look like the client's own output",
        "technique": "property-based testing (generated responses, output parsed back)",
        "jobs": [
            {"pkg": "c28", "test": "TestPresent", "checks": (8000, 150000)},
        ],
    },
    "C29": {
        "rule": "a case is one call of the client or one run of the hound program; non-trivial: headers are configured or the server's answer is an error (TestClient), several matches (TestOdd), text to highlight (TestHighlight), results are printed or the run fails (TestCli)",
        "oracle": "what a real HTTP server decodes against what was passed in; the response as generated against the response as decoded; a failed answer against an error; the output with the escape sequences removed against the lines; the program's output against Search on the same index",
        "note": "the server of TestClient answers with responses, error statuses, cut off and malformed bodies, nulls, raw junk, {\"Error\"}, or is gone; TestCli runs the hound program as an unprivileged user with generated config files and flags, with stdout a pipe or a terminal",
        "technique": "property-based testing (generated calls and answers, fault injection at the server, round trip)",
        "jobs": [
            {"pkg": "c28", "test": "TestClient", "checks": (2500, 40000)},
            {"pkg": "c28", "test": "TestOdd", "checks": (1500, 20000)},
            {"pkg": "c28", "test": "TestHighlight", "checks": (2500, 40000)},
            {"pkg": "c28", "test": "TestCli", "checks": (60, 1000), "bins": ["hound"]},
        ],
    },
    "C30": {
        "rule": "a case is one call of a function of the UI, one history of a signal or one answered search on the page; non-trivial: something is replaced or escaped (functions), an event is raised (signals), a match is marked or blocks are merged (page)",
        "oracle": "expansion of the template piece by piece, plain string search, a model of the listeners; the lines, links and marks on the page against the generated response",
        "note": "the page is the real hound.js with the React that is in the repository, in an implementation of as much of the DOM as they need; the two npm packages (reqwest, merge-anything) are stand-ins, and esbuild takes the place of webpack. Carriage returns, NULs and lone surrogates in lines are left out",
        "technique": "property-based testing (generated calls, histories and server answers against reference models)",
        "jobs": [
            {"node": "js/functions.mjs", "checks": (4000, 300000)},
            {"node": "js/render.mjs", "checks": (300, 20000)},
        ],
    },
    "C31": {
        "rule": "a case is one history of user actions and server answers on a page; non-trivial: more than one search, an answer that comes late or matches loaded later (search page), files are listed (excluded files)",
        "oracle": "a model of the form, the address and the latest search; what an address stands for is decided by URLSearchParams; the results on the page are compared with the generated answer",
        "note": "the real hound.js and excluded_files.js with the React that is in the repository, in an implementation of as much of the DOM as they need; answers come in any order, as errors, failures or empty. The request is observed where reqwest is called, its encoding is not part of the repository",
        "technique": "stateful property-based testing (generated histories of actions and answers against a model)",
        "jobs": [
            {"node": "js/search.mjs", "checks": (250, 20000)},
            {"node": "js/excluded.mjs", "checks": (200, 15000)},
        ],
    },
    "C32": {
        "rule": "a case is one history of updates, failures, searches and requests (TestSteady), or of pulls with one tool (TestTools); non-trivial: something failed, or several operations were done",
        "oracle": "what the process holds whenever no update is going on (descriptors, mappings of index files, goroutines, child processes, temporary files, index directories), compared with what it held after the start",
        "note": "random histories; a file that only the garbage collector closes counts as closed after a collection; memory is not measured",
        "technique": "stateful property-based testing (generated histories with failures, invariant on the process's resources)",
        "jobs": [
            {"pkg": "c32", "test": "TestSteady", "checks": (14, 1000), "user": "nobody"},
            {"pkg": "c32", "test": "TestTools", "checks": (12, 800), "shards": 4},
        ],
    },
    "C33": {
        "rule": "a case is one index (or set of repositories) with damaged copies of files and the searches made before and after; non-trivial: a search failed",
        "oracle": "the answers before the damage: afterwards a search fails or gives the same answer, in other repositories it gives the same answer (metamorphic)",
        "note": "random damages of the copies of files that searches read: removed, unreadable, a directory in its place, cut off anywhere, bytes changed or zeroed; damage to the trigram index itself (which is mapped into memory and trusted) is not generated",
        "technique": "property-based testing with injected damage (metamorphic)",
        "jobs": [
            {"pkg": "c33", "test": "TestDamaged", "checks": (120, 6000), "user": "nobody"},
            {"pkg": "c33", "test": "TestApi", "checks": (25, 1500), "shards": 4, "user": "nobody"},
        ],
    },
    "C34": {
        "rule": "a case is one search of a tree (TestPeak), or one history of some hundred different requests (TestKept); non-trivial: the search takes more than 4 MiB, or any history",
        "oracle": "the live heap as the garbage collector sees it: its peak during a search against a bound, and what is left of it after a history",
        "note": "random expressions whose automata have about one state per byte of text, 100 to 200 kB of text; the bound is 80 MiB (a search of a small tree takes up to 20 MiB now)",
        "technique": "property-based testing (bound on measured memory; invariant over histories of requests)",
        "jobs": [
            {"pkg": "c34", "test": "TestPeak", "checks": (5, 400)},
            {"pkg": "c34", "test": "TestKept", "checks": (5, 400)},
        ],
    },
    "C35": {
        "rule": "a case is one search of a generated tree; non-trivial: some files can match and some cannot",
        "oracle": "the trigrams of the literals that a match must contain, and the path filters: the number of files opened, and the answer after the copies of all files that cannot match were taken away",
        "note": "random expressions in which words are required: literal searches, sequences, repetitions, groups, alternatives of words (case-sensitively); with longer alternatives, or ones with a common beginning, the analysis keeps less, which is not judged",
        "technique": "property-based testing (known necessary condition; metamorphic: taking away what must not be read)",
        "jobs": [
            {"pkg": "c35", "test": "TestOpened", "checks": (700, 8000)},
        ],
    },
    "C36": {
        "rule": "a case is one history of publications, requests, failing pulls and restarts; non-trivial: there are pulls besides those of the start",
        "oracle": "the times of all pulls against the configured interval and the number of update requests; the number of index directories made against the number of revisions; the number of clones",
        "note": "random histories in real time, with intervals of 20 to 150 ms; only too much is judged here, what is late is judged by C13 and C25",
        "technique": "stateful property-based testing (generated histories, invariants over the recorded pulls and builds)",
        "jobs": [
            {"pkg": "c36", "test": "TestDue", "checks": (36, 1500)},
        ],
    },
    "C37": {
        "rule": "a case is one history of starts of houndd with changes, requests, kills and damages of the database; non-trivial: it got ready more than once, or was killed",
        "oracle": "everything around the database directory (contents, kinds, modes, modification times, entries of directories), before and after; the directory for temporary files after a graceful end",
        "note": "random histories over git and local repositories (some the same, some links), the database inside of somebody's git working copy with uncommitted changes; access times are not compared; hg, svn and bzr are not run here",
        "technique": "stateful property-based testing (generated histories with injected crashes and damages, invariant on the surroundings)",
        "jobs": [
            {"pkg": "c37", "test": "TestOutside", "checks": (40, 2500), "user": "nobody", "bins": ["houndd"]},
        ],
    },
}
