#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a,b,c in state],
            mechanism=[dict(name=a, where=b) for a,b in mech],
            observe_at=list(observe), hook_needed=None)))

# ---------------------------------------------------------------- crawl engine
p("E01","A crawl visits exactly the reachable URLs, each once",
 "When no error occurs, a crawl fetches and scrapes exactly the URLs reachable from the start URLs through the URLs scrapers return (those the matcher accepts), each distinct normalized URL exactly once, for every worker count, concurrency limit and interleaving; then Run returns nil. The URLs a scraper returned stay the scraper's: it may return the same ones for several pages.",
 ["schedules","inputs","configurations"],"every link graph over a small URL set (symbolic edges, duplicates and equivalent spellings included), 1-2 workers, concurrency 0-1, every schedule within the preemption bound",
 "engine tests crawl one fixed site with real goroutines and see one schedule per run",
 ["engine.go","queue.go","dedupe.go"],[("Engine.Run/run/process/enqueue","engine.go"),("memoryQueue","queue.go"),("deduper.Dedupe","dedupe.go")],
 [("queue.pending + wg","URLs accepted but not yet handled","queue.go")],["Scraper.Scrape calls","Client.Do calls","Run result"])
p("E02","Run always returns, whatever fails or is cancelled",
 "Engine.Run returns in every execution in which the client, scraper, deduper, queue, limiter and matcher return: no combination of errors from them, context cancellation, start-URL errors, URLs added from outside while it runs, an earlier Run, worker count or concurrency limit can leave Run or one of its workers blocked forever or make it panic.",
 ["schedules","fault_sequences","configurations"],"every placement of failures/cancellation over small crawls, 1-2 workers, concurrency 0-1, every schedule within the preemption bound",
 "a deadlock needs one particular interleaving of cancellation, semaphore wait and queue close; tests sample none of them",
 ["engine.go","queue.go"],[("Run: queue.Wait/Close then errgroup.Wait","engine.go"),("process: deferred queue.Done","engine.go")],
 [("queue.wg","outstanding URLs; Run waits for zero","queue.go")],["Run returning"])
p("E03","Crawl failures are reported and stop the crawl",
 "If fetching, scraping, limiting, de-duplicating, queueing or a robots lookup fails during a crawl, Run returns a non-nil error that wraps a failure that actually happened, and the crawl stops: URLs discovered or queued but not yet started when the failure was observed by the engine's workers are not crawled to completion one after another. Run returns nil only if every accepted URL was handled without error.",
 ["schedules","fault_sequences"],"every choice of which URL fails with which kind of failure, 1-2 workers, every schedule within the preemption bound",
 "tests check one failing scraper with one worker; which worker owns the failing URL depends on the schedule",
 ["engine.go"],[("run/process error propagation","engine.go"),("errgroup per run","engine.go")],(),["Run error","fetches after failure"])
p("E04","Never more than Concurrency URLs are processed at once",
 "With Concurrency = n > 0 at most n URLs are being processed (robots check, limit, fetch, scrape) at any instant across all workers, and a permit is given back on every exit path, so that after any failure of single URLs the limit neither shrinks nor grows.",
 ["schedules","configurations","fault_sequences"],"n in 1-2, 1-3 workers, small crawls with symbolic success/failure per URL, every schedule within the preemption bound",
 "an overshoot needs several workers to be inside at the same time; the tests never set Concurrency and count",
 ["engine.go"],[("semaphore Acquire/Release around process","engine.go")],[("Engine.sema","permits","engine.go")],["overlap of Client.Do/Scrape calls"])
p("E05","Politeness gates come before every page fetch",
 "Unless Impolite is set, no page is fetched before its host's robots.txt allowed it for the engine's user agent, the configured limiter admitted it and the robots crawl delay elapsed, in that order; a disallowed URL is neither limited nor fetched nor scraped and is not an error. With Impolite set robots.txt is never requested but the limiter still gates every fetch; if the limiter or the delay fails, the page is not fetched.",
 ["inputs","configurations","schedules"],"symbolic robots verdict, crawl delay, limiter result, impolite flag and cancellation for each URL",
 "one test checks one disallowed path; orderings and failure combinations are untested",
 ["engine.go","internal/robots/cache.go"],[("process: Allowed, limit, scrape","engine.go"),("limit: limiter then robots.Wait","engine.go")],(),["order of robots fetch / Limit / delay / page fetch"])
p("E06","Only matching URLs enter the queue; bad start URLs are refused",
 "A URL, given at the start or returned by a scraper, is queued only if the configured matcher, which is given the normalized URL, accepts it, and every accepted new URL is queued; rejected URLs are not recorded as visited. A start URL that does not parse or whose scheme is not http or https makes Enqueue and Run fail without queueing or recording anything from that call.",
 ["inputs"],"symbolic scheme strings, positions of the invalid URL in the batch and matcher verdicts",
 "tests try one invalid scheme; batches mixing valid and invalid URLs are not tried",
 ["engine.go"],[("Enqueue scheme switch","engine.go"),("enqueue: normalize, match, dedupe, queue","engine.go")],(),["Queue.Enqueue arguments","Deduper.Dedupe arguments"])
# ---------------------------------------------------------------- queue
p("Q01","The memory queue is FIFO and loses or repeats nothing",
 "Under concurrent Enqueue and Dequeue calls every URL enqueued before the queue is closed is dequeued exactly once, URLs of one Enqueue call leave in their order, and a single consumer receives URLs in the order of a sequential FIFO history consistent with real time.",
 ["schedules","histories"],"2 producers and 2 consumers, symbolic batch sizes 0-2, every schedule within the preemption bound",
 "the queue test has three readers and one writer and one schedule per run",
 ["queue.go"],[("memoryQueue.Enqueue/Dequeue under cond.L","queue.go")],[("pending","queued URLs in order","queue.go")],["Dequeue results"])
p("Q02","Queue close, wait and cancellation never strand a caller",
 "Close wakes every blocked Dequeue, which then returns io.EOF; after Close, Enqueue of a non-empty batch returns io.EOF and nothing is delivered; Enqueue or blocking Dequeue with an already cancelled context returns the context error without changing the queue. Wait returns exactly when every enqueued URL was either acknowledged with Done or discarded by Close, and not earlier, also when the queue is used on while it waits.",
 ["schedules","histories"],"every history of up to 3-4 operations by 2-3 goroutines with symbolic operation choice, every schedule within the preemption bound",
 "each test calls the operations in one order from one goroutine",
 ["queue.go"],[("Close broadcast and wg accounting","queue.go")],[("wg","outstanding URLs","queue.go"),("stopped","closed flag","queue.go")],["returned errors","blocked callers"])
# ---------------------------------------------------------------- dedupe / normalize
p("D01","De-duplicators never return a URL twice",
 "Over any concurrent history of Dedupe calls on one de-duplicator, a given URL is returned at most once in total, returned URLs keep their input order and come only from the input, and calls are safe to make from several goroutines. The map de-duplicator returns every URL the first time it is seen; the bloom-filter one may drop new URLs only through false positives.",
 ["schedules","histories","inputs"],"2-3 goroutines, batches of up to 3 URLs drawn symbolically (repeats included), arbitrary bloom false positives, every schedule within the preemption bound, data races included",
 "tests call Dedupe from one goroutine with fixed URLs",
 ["dedupe.go"],[("sync.Map LoadOrStore","dedupe.go"),("bloom Test/Add","dedupe.go")],(),["returned slices"])
p("N01","URL normalization is idempotent and canonical",
 "Normalizing a normalized URL changes nothing, and URLs that differ only by host letter case, a default port for their scheme, fragment, an empty path versus '/', dot segments or repeated slashes, needless percent-encoding in the path, an empty query mark or query parameter order normalize to the same string; the path of a normalized http(s) URL always starts with '/'.",
 ["inputs"],"symbolic host, port, path, query and fragment bytes over an alphabet of structural characters, lengths up to 3-5",
 "a table of about thirty fixed URLs",
 ["internal/normalize/url.go"],[("hostname/pathname/query","internal/normalize/url.go")],(),["URL.String of the result"])
p("N02","URL normalization keeps distinct resources distinct",
 "Normalization never changes which resource a URL names beyond the documented equivalences: scheme, host name, non-default port, user info, the dot-resolved sequence of non-empty path segments and the multiset of query parameters of the result equal those of the input, for named, IPv4 and bracketed IPv6 hosts.",
 ["inputs"],"symbolic URL components over structural alphabets, lengths up to 3-5, both schemes",
 "fixed table; no test compares two different resources",
 ["internal/normalize/url.go"],[("hostname/pathname/query","internal/normalize/url.go")],(),["components of the result"])
# ---------------------------------------------------------------- fetcher
p("F01","Fetch follows the documented retry protocol",
 "Fetch sends GET requests for the URL with the configured User-Agent and an HTML Accept header, makes at most MaxAttempts (default 5) attempts, retries exactly while the outcome is temporary (status 429, 503, 504 or a temporary network error, also when wrapped) and stops at the first other outcome. Status below 400 yields a page, 404 yields nil page and nil error, any other status yields a FetchError with that status and URL, other errors are returned wrapped, and exhausting the attempts yields an error wrapping the last failure.",
 ["inputs","fault_sequences","configurations"],"every sequence of up to MaxAttempts outcomes with a fully symbolic status code or error kind per attempt, MaxAttempts symbolic in -1..3 plus the default",
 "tests try a few fixed status codes",
 ["fetcher.go"],[("Fetcher.Fetch loop","fetcher.go"),("isTemporary","fetcher.go"),("FetchError.Temporary","fetcher.go")],(),["requests at the client","returned page/error"])
p("F02","Backoff stays within its bounds and obeys the context",
 "Between attempts Fetch waits at least min(MinBackoff, MaxBackoff) and never more than MaxBackoff (defaults 50ms and 1s), and the waits of one Fetch never decrease, for every attempt number and every bounds, however large; MinBackoff >= MaxBackoff is an error as soon as a retry is needed. A context cancelled during the wait ends Fetch promptly with the context error and without another request.",
 ["inputs","schedules","configurations"],"symbolic 64-bit MinBackoff, MaxBackoff and attempt number; virtual clock; cancellation at any point",
 "no test covers the wait durations; overflow needs extreme values",
 ["fetcher.go"],[("Fetcher.backoff","fetcher.go")],(),["timer durations","returned error"])
p("F03","Every response body is drained and closed, unless handed over",
 "For every attempt that yields a response and does not become the returned page, Fetch reads the body to the end and closes it; the body of the returned page is left unread and open for the caller, and a crawl closes every page after scraping it, whether or not scraping succeeded.",
 ["inputs","fault_sequences"],"symbolic statuses and errors (also error together with a response) per attempt, body length 0-2, scraper outcome symbolic",
 "tests use httptest bodies and never look at Close",
 ["fetcher.go","engine.go","page.go"],[("Fetcher.discard","fetcher.go"),("scrape: defer page.close","engine.go")],(),["Read/Close calls on bodies"])
p("L01","Limiters wait on exactly the URLs they cover",
 "A limiter for n requests per second makes a caller wait for one token of one n-per-second limiter with burst n exactly when the URL is covered (host equal; host+path matches the pattern or regexp; or always for Limit), independent of scheme, query and fragment, and returns nil at once otherwise; all callers of one limiter share it, the URL is not modified and the wait's error is returned. A regexp that does not compile is refused (a panic) when the limiter is made.",
 ["inputs","configurations"],"symbolic host/path bytes, n in {1,2,5}, fixed sets of patterns and regexps, up to n+4 calls against a token-bucket reference on the virtual clock, symbolic cancellation times",
 "limiters_test.go is empty",
 ["limiters.go"],[("LimitHostname/LimitPattern/LimitRegexp/Limit","limiters.go")],(),["rate.Limiter.Wait calls"])
p("M01","Matchers decide on host and path alone",
 "MatchHostname accepts exactly the URLs whose host equals the given one; MatchPattern and MatchRegexp accept exactly the URLs whose host+path (path with a leading slash) matches the glob ('*' any run, '?' any one character) or the regexp; scheme, query, fragment and user info never matter, and the URL is not modified. A regexp that does not compile is refused (a panic) when the matcher is made.",
 ["inputs"],"symbolic host and path bytes and symbolic glob patterns up to 3-4 bytes against an independent glob reference",
 "a fixed table of URLs",
 ["matchers.go"],[("MatchHostname/MatchPattern/MatchRegexp","matchers.go")],(),["Match results"])
# ---------------------------------------------------------------- page / list / scan / json
p("P01","Link extraction returns every valid link, resolved",
 "URLs (for every a[href]) and Next (for the selector) return, in document order and one per element, the absolute http or https URL of each matched element's href resolved against the page URL per RFC 3986, and nothing else: unparsable hrefs, other schemes and elements without href are skipped, an invalid selector yields none, and the page URL itself is not altered.",
 ["inputs"],"documents of up to 3 links with symbolic href bytes (structural alphabet, length up to 4) and presence bits",
 "one fixed HTML document",
 ["page.go"],[("Page.resolve","page.go")],(),["returned URLs"])
p("P02","A page is parsed at most once and its body always closed",
 "However many Document, HTML, Query, Text, URLs, Next and Scan calls are made on a page, in any order and from several goroutines, the body is read and parsed once, every call sees the same document or the same error, and after the first call the body has been drained and closed.",
 ["schedules","histories","fault_sequences"],"2 goroutines, symbolic choice of 2-3 methods, body read error at a symbolic position, every schedule within the preemption bound",
 "single goroutine, successful bodies only",
 ["page.go"],[("Page.parse sync.Once","page.go")],(),["Read/Close calls","results"])
p("L02","List accessors select exactly the documented nodes",
 "At(i) returns the i-th node, or counted from the end for negative i, or an empty list out of range, for every int; Query returns each node's matches in order; Is reports whether any node matches; Attr and Scan use the first node; Text concatenates the text of all nodes; invalid selectors and empty lists give zero results and never panic.",
 ["inputs"],"symbolic full-width index, list length 0-3, symbolic small trees and attribute bytes",
 "a handful of fixed indexes",
 ["list.go","internal/scan/nodes.go"],[("List.At/Query/Is/Attr/Text","list.go"),("Text/Attr","internal/scan/nodes.go")],(),["results"])
p("S01","Struct scanning fills each tagged field from its own nodes",
 "Scan sets each exported field with a css tag from the first element matching its selector (all matches, in order, for slices; the element's attribute for '@attr' tags; nested struct fields are scanned within their selected element), leaves untagged, '-' tagged and unexported fields untouched, and gives the same result on first and later use of a type and from several goroutines. Unsupported types, bad selectors and non-pointers are errors, never panics.",
 ["inputs","schedules","programs"],"a family of struct types, documents with symbolic presence, text and attributes; 2 goroutines for the type cache",
 "each test scans one document into one type, from one goroutine",
 ["internal/scan/struct.go","internal/scan/slice.go","internal/scan/scanner.go","internal/scan/scan.go"],[("Struct/Slice/ScannerOf","internal/scan"),("Scanner.register","internal/scan/scanner.go")],[("Scanner.types","per-type scan funcs","internal/scan/scanner.go")],["scanned values"])
p("S02","Scanned numbers equal the decimal text, or zero/saturated",
 "Int, uint, float, string and byte-slice fields receive exactly the text or attribute's value: strings and bytes verbatim, integers the base-10 value when the text is a valid integer of the range, the nearest bound when it is out of range, floats the nearest float of the decimal text, and zero when it is not a number or the node is missing.",
 ["inputs"],"symbolic text bytes up to length 3-4 over digits, signs and letters, plus full-range boundary strings",
 "two or three fixed numbers",
 ["internal/scan/scan.go"],[("String/Int/Uint/Bytes","internal/scan/scan.go")],(),["scanned values"])
p("J01","The JSON scraper writes one whole line per page",
 "Concurrent scrapes with one JSON scraper produce exactly one JSON line per successfully scanned page, never interleaved or shared between pages, and each scrape returns the URLs matched by its selectors in order (all page links when there are none); scan and encode errors are returned and make the scrape yield no URLs, and so does a type which is not a struct.",
 ["schedules","inputs","fault_sequences"],"2 goroutines, symbolic field text and write failure, every schedule within the preemption bound",
 "tests scrape one page at a time",
 ["json.go"],[("jsonscraper.encode lock","json.go")],(),["bytes at the writer","returned URLs"])
p("X01","Selector cache returns the selector that was asked for",
 "Compile returns a selector that behaves like a freshly compiled one for exactly the given string, or the compile error for invalid strings every time, for every sequence of calls and from several goroutines.",
 ["schedules","histories"],"histories of up to 3 compiles over valid and invalid selectors, 2 goroutines",
 "two sequential calls",
 ["internal/selectors/selectors.go"],[("Cache.Compile","internal/selectors/selectors.go")],(),["matched nodes","errors"])
# ---------------------------------------------------------------- http cache
p("H01","Requests that must bypass the cache always reach the origin",
 "A request whose method is not GET or HEAD, or which carries Range, Content-Range, Authorization or Cache-Control: no-store (in any letter case, spacing, position or header line), is sent to the origin unchanged, its response returned unchanged, and nothing is read from or written to the storage, under both strategies.",
 ["inputs"],"symbolic method, header presence and spelling, both strategies",
 "one example per rule",
 ["antcache/rfc7234.go","antcache/httpcache.go","antcache/utils.go"],[("rfc7234.cache","antcache/rfc7234.go"),("Cache.Do","antcache/httpcache.go")],(),["storage calls","client calls"])
p("H02","Only storable responses are stored",
 "With the standard strategy a response is stored only if the request is GET or HEAD, the status is one of 200 203 204 206 300 301 404 405 410 414 501, no-store appears in neither request nor response Cache-Control (any spelling or line), it has a valid Date and an explicit positive lifetime (max-age, which overrides Expires, or Expires after Date); every such response is stored.",
 ["inputs"],"symbolic status code, directive presence, spelling and 64-bit values, symbolic Date and Expires instants",
 "a table of about forty fixed cases",
 ["antcache/rfc7234.go","antcache/directives.go","antcache/utils.go"],[("rfc7234.store","antcache/rfc7234.go")],(),["Storage.Store calls"])
p("H03","A stored response is served unvalidated only while fresh",
 "With the standard strategy a stored response is served without contacting the origin only if its Vary-selected request headers match, neither side says no-cache, and lifetime (request max-age, else response max-age, else Expires minus Date) exceeds age plus min-fresh minus allowed max-stale, or only-if-cached asked for it; must-revalidate forbids max-stale; and every response meeting these conditions is served from the cache. Extreme directive values saturate instead of wrapping.",
 ["inputs"],"symbolic 64-bit second counts for every directive, symbolic Date, Expires and clock instants, symbolic presence of each directive",
 "fixed small durations; overflow and combinations are not reached",
 ["antcache/rfc7234.go","antcache/directives.go"],[("rfc7234.fresh","antcache/rfc7234.go"),("directives.duration","antcache/directives.go")],(),["client calls","served response"])
p("H04","Validation serves the right response and updates the store",
 "A stale stored response is revalidated with its ETag and Last-Modified; 304 serves the stored body with merged headers, a full storable response replaces it, a 5xx is forwarded (or the stored response served when the request says stale-if-error), and any other answer leads to an unconditional fetch whose response is served; X-From-Cache marks exactly the responses whose body came from the store; storage and client errors are returned.",
 ["inputs","fault_sequences"],"symbolic validator presence, origin status and storability, stale-if-error, storage/client error at each call",
 "one path per outcome, and none reads the body after a 304",
 ["antcache/httpcache.go"],[("Cache.Do/load/verify","antcache/httpcache.go")],(),["client requests","served status/headers/body","stored bytes"])
p("H05","The cache never stores or serves a truncated or altered body",
 "What is stored for a response is its status, headers and entire body exactly as the origin sent them, and only if the caller read the body to its end without error before closing it; if it was closed early or reading failed nothing is stored. A later hit returns the same status and body, and storing happens at most once per response, with storage errors returned by Close.",
 ["inputs","histories","fault_sequences"],"symbolic body bytes up to length 3, symbolic read sizes, early close position, read/close/store errors, double close, known and unknown content length",
 "tests always read everything",
 ["antcache/cachereader.go","antcache/httpcache.go"],[("cachereader.Read/Close","antcache/cachereader.go")],(),["Storage.Store argument","hit body"])
p("H06","The aggressive cache keeps its documented limits",
 "The aggressive strategy stores every GET or HEAD response with a cacheable status and a valid Date regardless of the response's directives, serves it while its age is below the configured age (default 24h when <= 0) and fetches from the origin afterwards; a request saying no-cache is never answered from the store, and one saying no-store neither reads nor writes it.",
 ["inputs"],"symbolic age, Date, clock, status and directive presence",
 "fixed dates only",
 ["antcache/aggressive.go"],[("aggressive.store/fresh","antcache/aggressive.go")],(),["client calls","Storage calls"])
p("H07","A stored response is only served for its own method and URL",
 "A response that was stored for one request is served from the store only for requests with the same method, scheme, user, host, path and query, under both strategies (assuming no two of them collide in the 64-bit hash).",
 ["inputs"],"pairs of symbolic URLs that differ in any one part",
 "one URL per test",
 ["antcache/utils.go","antcache/httpcache.go"],[("keyof","antcache/utils.go")],(),["client calls","response body"])
# ---------------------------------------------------------------- storage
p("K01","Storage returns exactly the bytes last stored",
 "After Store(key, v) succeeds, Load(key) returns v until the entry is overwritten or swept; keys never mix, unknown keys load as nil without error, with and without compression, for the in-memory and disk stores alike, and a failed Store leaves no temporary file behind and either the previous value or, if only the last sync of the directory failed, the complete new one.",
 ["inputs","histories","fault_sequences"],"symbolic keys and values (length 0-3), histories of up to 4 operations, a fault at any file-system call",
 "one store and one load per test, no faults",
 ["antcache/disk.go","antcache/memstore.go"],[("Diskstore.Store/add/Load","antcache/disk.go"),("memstore","antcache/memstore.go")],[("Diskstore.ready","key -> file","antcache/disk.go")],["Load results","directory contents"])
p("K02","A crash never leaves a torn or missing acknowledged entry",
 "If the process or machine stops at any point, then after reopening the directory every key whose Store had returned nil loads a complete value that was stored for it (the acknowledged one or one being stored), a key whose Store had not returned loads its old value, its new value or nothing, and partial or temporary data is never returned.",
 ["crash_points","histories"],"crash at every file-system call of histories of 1-2 stores, arbitrary subset of unsynced data and directory entries lost, followed by reopen",
 "no test crashes or loses unsynced data",
 ["antcache/disk.go"],[("CreateTemp, Write, Sync, Rename, dir Sync","antcache/disk.go"),("warmup","antcache/disk.go")],(),["Load after reopen"])
p("K03","Concurrent Store, Load, sweep and Close stay consistent",
 "With Store, Load, the sweeper, warm-up and Close running concurrently, Load returns nil or one complete stored value of its key and never an error for a removed or replaced file, an entry stored successfully and neither expired nor evicted stays loadable, there are no data races and Close waits for the background goroutines.",
 ["schedules","histories"],"2-3 goroutines with 1-2 operations each, every schedule within the preemption bound, data-race detection",
 "single-goroutine tests",
 ["antcache/disk.go"],[("readymu","antcache/disk.go"),("sweep","antcache/disk.go")],[("ready","key -> file","antcache/disk.go")],["Load results","directory contents"])
p("K04","The sweeper removes exactly expired and surplus entries",
 "A sweep removes every entry older than maxage (none for age when maxage <= 0) and then, when maxsize > 0, the oldest remaining entries until the total size is at most maxsize, and nothing else; it reports how many it removed, removed entries load as absent and their files are gone, and a failing removal of one file does not stop the others.",
 ["inputs","fault_sequences"],"up to 3 entries with symbolic sizes, ages, maxage and maxsize (64-bit), removal failure bits",
 "two tests with fixed sizes",
 ["antcache/disk.go"],[("Diskstore.sweep","antcache/disk.go")],[("ready","key -> file","antcache/disk.go")],["Load results","removed count"])
p("K05","Reopening a directory serves all its valid entries",
 "After Open and Wait every file whose name is a decimal key is loadable with its content; temporary and foreign files are ignored and left alone, entries stored while warming up are not overwritten by older data, Wait returns the context error when cancelled, Open rejects relative paths and non-directories, and warm-up ends even if reading the directory fails.",
 ["inputs","schedules","fault_sequences"],"directories of up to 3 files with symbolic kinds, directory read errors at any batch, a Store concurrent with warm-up",
 "one reopen test with valid files",
 ["antcache/disk.go"],[("Diskstore.init/warmup/Wait","antcache/disk.go")],[("ready","key -> file","antcache/disk.go")],["Load results","Wait/Open results"])
# ---------------------------------------------------------------- robots
p("R01","robots.txt decisions follow the host's file",
 "Allowed answers what the host's robots.txt (fetched from scheme://host/robots.txt, at most once per host while cached, which is for an hour unless other hosts displace it) says for the request's user agent ('*' when empty) and path (with a leading slash): disallowed paths are refused, 4xx/5xx answers allow everything, and fetch, read or parse failures are errors that are not remembered; answers for one host never leak to another.",
 ["inputs","histories","fault_sequences"],"symbolic path bytes, user agent choice, response status (full range), two hosts, failures per fetch, histories of 2-3 calls",
 "fixed paths and one host",
 ["internal/robots/cache.go"],[("Cache.Allowed/lookup","internal/robots/cache.go"),("Host.test","internal/robots/cache.go")],[("lru","host -> robots data","internal/robots/cache.go")],["Allowed result","robots.txt requests"])
p("R02","Crawl delay is waited in full, or the context error returned",
 "Wait blocks for exactly the crawl delay that the host's robots.txt gives the request's user agent (the '*' group when it has none of its own), returns at once when there is none, and returns the context's error promptly when cancelled during the delay; it never returns nil before the delay elapsed.",
 ["inputs","schedules"],"symbolic delay choice, group choice and cancellation time on a virtual clock",
 "one real-time test with one delay",
 ["internal/robots/cache.go"],[("Cache.Wait","internal/robots/cache.go")],(),["virtual time at return","error"])
# ---------------------------------------------------------------- CDP client
p("C01","A browser target serves one request at a time",
 "A browser target (tab) that a request of antcdp's Client uses is not used by any other request until that request has finished with it; idle targets are reused before new ones are created, a request whose context is cancelled returns its context's error instead of waiting and costs no target, and giving targets back never blocks, however many requests ran at once.",
 ["schedules","histories"],"2-3 concurrent requests under every schedule within the preemption bound, up to 13 simultaneous requests under delay-bounded schedules, sequences of up to 3 requests",
 "antcdp's tests need Chrome and do not run",
 ["antcdp/targets.go","antcdp/transport.go"],[("targets.acquire/release","antcdp/targets.go")],[("targets chan","idle targets","antcdp/targets.go")],["connections open per target","targets created"])
p("C02","A rendered response carries the main document's metadata",
 "A browser request returns as soon as the response of the document in the navigated (main) frame has arrived and its DOM is ready, whatever events of sub-resources and of other frames the browser sends, in whatever order; the response has that document's status, headers and protocol version, its rendered content as body with the matching length, and the browser's cookies, and nothing of other responses. If the document never arrives, the request ends with its context's error when that is cancelled, and with an error when the browser goes away.",
 ["inputs","histories"],"event histories of up to 3-4 events of any of 7 kinds around the document's response, early or late; symbolic status, content, protocol version and cookies; cancellation and disconnection at each point",
 "antcdp's tests need Chrome and do not run",
 ["antcdp/tx.go"],[("tx.wait/merge/readbody/readcookies/parseProto","antcdp/tx.go")],(),["response fields","Client.Do returns"])
p("C03","Every browser request releases its target and connection",
 "Whatever step of a browser request fails or does not answer until the request is cancelled (creating the target, dialing, enabling, headers, cookies, event subscription, navigation, reading), the connection and event streams opened for it are closed, the target goes back to the pool for the next request, and the error is returned with no response.",
 ["fault_sequences"],"a failure or hang of each step of the transaction, in a new or a reused target, followed by another request",
 "antcdp's tests need Chrome and do not run",
 ["antcdp/transport.go","antcdp/tx.go"],[("transport.roundtrip defers","antcdp/transport.go"),("tx.close","antcdp/tx.go")],(),["open connections and streams","targets created","Client.Do result"])
p("C04","The browser is given the request's URL, headers and cookies",
 "Before a browser is sent to a page it has been given all of the request's headers and cookies, and only those (nothing of earlier requests in the same target), the event streams the response is made of are open, and it is sent to the request's URL.",
 ["inputs","histories"],"requests with symbolic header values and cookies, with and without a query, in a new or a reused target",
 "antcdp's tests need Chrome and do not run",
 ["antcdp/tx.go"],[("tx.init/setHeaders/setCookies/do","antcdp/tx.go")],(),["calls received by the browser"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P), "properties")
