#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design.md.in, the harnesses, the findings and the planted bugs."""
import json, re, glob, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.chdir(V)

HOW = {
"E01": ("the reachable set and its normalization are computed by the harness from the symbolic link graph; the multiset of fetched and of scraped URLs must equal it, and Run must return nil",
        "tests crawl one graph with one schedule; here every graph over the hosts, spellings and links, and for small graphs every schedule"),
"E02": ("Run must return: a path on which every goroutine is blocked, or workers survive Run, is a violation; client, scraper, deduper, limiter, matcher and robots answer with symbolic errors, the context is cancelled at any scheduling point",
        "a lost wakeup or a leaked permit needs one particular fault at one particular moment"),
"E03": ("the harness records every injected failure; Run's error must wrap one of them, nil only if there was none and everything was handled; after the failure has been seen by the workers nothing new may be started",
        "which error wins and what is already queued depends on the schedule"),
"E04": ("a counter of URLs in processing at every gate, its maximum over the path; a second crawl of the same engine must reach exactly Concurrency again whatever happened in the first",
        "permits are lost on rare exits only, and only a later crawl shows it"),
"E05": ("the sequence of robots, limiter, delay and fetch events of every URL is checked against the order the property gives, with symbolic refusals, delays and errors at each",
        "orders and skipped gates show under particular combinations of options and failures only"),
"E06": ("start URLs are symbolic strings; the oracle parses them itself (scheme, host) and the matcher is a symbolic predicate on normalized URLs; queue and deduper contents are compared",
        "every short string rather than the spellings a test thought of"),
"Q01": ("dequeued URLs against the enqueued ones: each exactly once, per-batch order, real-time FIFO for one consumer; consumers of one URL each must all end",
        "lost wakeups and duplicates need a schedule; all within the bound are explored, with race detection"),
"Q02": ("after Close/cancel/Done every blocked call must have returned with the given error, Wait not before and not never",
        "same"),
"D01": ("returned URLs counted per URL over all calls, order checked against the input; races on",
        "check-then-act races between two callers"),
"N01": ("normalize is executed on a symbolic spelling and on its equivalent (computed by the harness: port, case, escapes, dots, slashes, query order); results must be equal, and a fixed point",
        "every path/query/host of the given length over an alphabet with all special bytes"),
"N02": ("an independent reading of the input (segments, parameters, host, port, user) must equal that of the result",
        "same"),
"F01": ("status, error kind (plain, temporary, wrapped) of every attempt symbolic; the harness computes the documented outcome and number of requests",
        "all statuses and error combinations in sequence"),
"F02": ("bounds are symbolic durations over the whole int64 range the options allow, waits are measured on the virtual clock and compared with the formula in the property",
        "overflow at one magnitude and one attempt number; up to 40 (120) attempts"),
"F03": ("bodies count their reads and closes; every path of Fetch and of a crawl is checked at its end",
        "leaks on rare exits"),
"L01": ("symbolic host, path, query, scheme; the oracle says covered or not, the limiter's real rate.Limiter on the virtual clock tells how long was waited; the URL is compared with a copy",
        "every URL of the length"),
"M01": ("symbolic host, path and pattern against a reference glob (written independently) and regexp",
        "every pattern and path of the length, including metacharacters and missing slashes"),
"P01": ("symbolic href, base variants; the oracle resolves by RFC 3986 independently for the classes of references",
        "every href of the length over an alphabet of reference syntax"),
"P02": ("sequences and concurrent calls with symbolic choice of accessor; reads, closes, parses counted; the same document or error demanded",
        "schedules of first calls"),
"L02": ("At over every int; trees with symbolic attributes against a reference walk",
        "every int, every attribute value"),
"S01": ("struct types of the harness, symbolic texts; fields compared with a reference reading of the tree, first and second use, concurrent use with races on",
        "first-use caching and nesting under schedules"),
"S02": ("text is symbolic; the oracle evaluates it as an integer in wider arithmetic and clamps",
        "every text up to the length, every digit of full-width numbers"),
"J01": ("the writer records every Write; lines are split and compared with the scans",
        "interleavings of concurrent scrapes"),
"X01": ("after every history of compilations, the selector from the cache and a fresh one must agree in error and in matches on a set of nodes",
        "collisions of cache keys for strings nobody tests"),
"H01": ("request directives in symbolic spelling (case, spaces, position, header line), method and headers; the transport and storage must be seen called, resp. untouched",
        "every spelling"),
"H02": ("status a symbolic int, Date/Expires/max-age symbolic numbers and times; the store's writes compared with the property's condition",
        "arithmetic over all times and ages at once"),
"H03": ("a stored response with symbolic Date, lifetime, request directives; served-without-origin must equal the property's formula, both ways",
        "the formula is decided over all integers, with saturation, not on samples"),
"H04": ("origin answers symbolically (304, 2xx, 5xx, other, error); the served response, the validators sent and the store afterwards are compared with the property",
        "combinations of answer, directive and failure"),
"H05": ("the body is delivered in any pieces, with an error or cut anywhere, and read and closed in any way; the store's content must be exact or absent",
        "partial reads at every point"),
"H06": ("as H02/H03 for the aggressive strategy", "as H02/H03"),
"H07": ("two symbolic requests; if the second is answered from the store, method and URL must be equal; the hash is injective",
        "pairs of URLs that alias in the key's text"),
"K01": ("a map of what was stored, against Load after any sequence of stores, with a failing file-system call anywhere",
        "sequences times faults"),
"K02": ("at every file-system call a crash may happen; durable state is what was synced plus a symbolic choice of the rest; after reopening, Load must give one of the allowed values",
        "no test can crash a machine between two calls; every crash point of every schedule in the bound is explored"),
"K03": ("Store, Load, sweeper, warm-up and Close as goroutines; each Load's result must be among complete values of its key; races and deadlocks are violations",
        "schedules of up to five goroutines"),
"K04": ("files with symbolic age, size and order; the survivors must equal the property's set, the count the number removed",
        "every order of ages and sizes"),
"K05": ("directories with symbolic names and kinds; loads after warm-up against the oracle for decimal names; faults while reading",
        "every name of the length, stores during warm-up at every moment"),
"R01": ("robots files of rule lists and symbolic rules, symbolic agent and path; oracle: longest-match reference for the group; fetch counts and errors per host over histories",
        "histories with failures, concurrent calls, every path of the length"),
"R02": ("delay symbolic, cancellation at a symbolic time; the virtual clock at the return is compared",
        "every relation between delay, deadline and cancellation"),
"C01": ("the model browser tells which tab each request used and when; overlap in a tab, more new tabs than needed, and blocked returns are violations",
        "concurrent requests with cancellation at any point"),
"C02": ("a script of events, among them the document's response with symbolic status, headers, protocol and body, those of other frames and resources, DOM-ready, pauses and disconnection, in symbolic order",
        "orders of events a real browser shows rarely"),
"C03": ("one call of the browser, or every later one, fails or hangs until cancelled; afterwards connections and streams are counted and a next request must reuse the target",
        "every step of the protocol, which tests with a real browser cannot make fail"),
"C04": ("what the model browser was told before it navigated, against symbolic request headers, cookies and URL",
        "every header set within the bound, requests after one another in one tab"),
}

props = [json.loads(l) for l in open('properties.jsonl')]
harn = {}
for f in sorted(glob.glob('harness/**/*.go', recursive=True)):
    for m in re.finditer(r'((?:^//.*\n)*)^func Verif_([A-Z]\d+)_(\w+)\(', open(f).read(), re.M):
        doc, dirs = [], []
        for l in m.group(1).splitlines():
            l = l.lstrip('/').strip()
            if l.startswith('verif:'): dirs.append(l[6:].strip())
            elif l: doc.append(l)
        harn.setdefault(m.group(2), []).append((m.group(3), ' '.join(doc), '; '.join(dirs)))

def evidence(p):
    try: return json.load(open(f'evidence/{p}.json'))
    except OSError: return None

out = []
for p in props:
    i = p['id']
    o, w = HOW[i]
    out.append(f"### {i} — {p['title']}\n")
    out.append(f"Oracle: {o}. Beyond tests: {w}.\n")
    e = evidence(i)
    if e and e.get('tier') == 'quick':
        c = e['coverage']
        out.append(f"Cost (quick): {e['wall_s']:.0f} s, {c['states']} paths, {c['transitions']} decisions, "
                   f"{c['solver_queries']} solver queries ({c['solver_time_s']:.0f} s), {c['functions_count']} functions executed.\n")
    out.append("| harness | what it explores | bounds |\n|---|---|---|")
    for n, d, b in harn[i]:
        out.append(f"| {n} | {d} | {b or 'defaults'} |")
    out.append('')
fixes = ["| property | commit | what failed |\n|---|---|---|"]
for k in json.load(open('known_findings.json'))['findings']:
    m = re.match(r'fixed: property=(\w+) (\w+) (.*)', k['what'])
    fixes.append(f"| {m.group(1)} | {m.group(2)} | {m.group(3)} |")
res = {}
if os.path.exists('tools/seedresults.txt'):
    for l in open('tools/seedresults.txt'):
        m = re.match(r'(\S+): (\w+) (caught|MISSED)', l)
        if m: res[m.group(1)] = m.group(3)
seeds = ["| bug | what it breaks | needs | check |\n|---|---|---|---|"]
cell = lambda s: str(s).replace('|', '\\|').replace('\n', ' ')
ids = sorted(d for d in os.listdir('seeded') if os.path.isdir('seeded/' + d)) if os.path.isdir('seeded') else []
for d in ids:
    m = json.load(open(f'seeded/{d}/meta.json'))
    seeds.append(f"| {d} | {cell(m['what_it_breaks'])} | {cell(m['needs'])} | {m['property']} {res.get(d, 'not run')} |")
t = open('tools/design.md.in').read()
t = t.replace('{{PROPERTIES}}', '\n'.join(out)).replace('{{FIXES}}', '\n'.join(fixes))
t = t.replace('{{SEEDS}}', '\n'.join(seeds)).replace('{{NSEEDS}}', str(len(ids)))
open('DESIGN.md', 'w').write(t)
