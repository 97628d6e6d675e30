#!/usr/bin/env python3
# Writes properties.jsonl and MANIFEST.json from one table (run in /verif).
import json, os
T = "property-based testing: "
P = []
def p(id, title, statement, over, text, why, files, mech, technique, note, level="exploration", observe=None, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, technique=technique, note=note, level=level, observe=observe or [], state=state or []))

p("C01", "Cache eviction keeps the size limit and removes exactly the right files",
  "After every write into the cache the total size of all cached files is at most the configured maximum (with strategy 'none' nothing is ever removed), the written file is there with exactly the written content, and no write fails or ends the program because space is needed. A file is only removed when the new file would not fit otherwise, and then the largest (strategy 'largest') or the least recently used one (strategy 'lru') goes first.",
  ["histories", "inputs", "configurations"], "all histories of writes and reads of any sizes, names and cache folders, every strategy and size limit",
  "the tests replace the file system by a mock and walk through one or two hand-made situations per function; sums over histories (replaced files, temporary files, several evictions in a row) are never reached",
  ["src/cache/cache.go", "src/util/files.go"],
  [("eviction loop before a cached file is moved in place", "src/cache/cache.go CacheToFile / deleteFilesFromCache..."), ("largest / least recently used search", "src/util/files.go FindLargestFile, FindLruFile")],
  "stateful property-based testing against a reference model of the cache (rapid)",
  "Random histories on the real file system compared with a model after every operation; trusts file modification times set by the harness as logical clock.",
  observe=["directory tree below the cache directory"])
p("C02", "An interrupted or failing cache write never leaves damaged or lost content",
  "Whatever file system operation fails, or wherever the process dies, during a write into the cache, every name in the cache afterwards holds either a complete content that was successfully written to it or nothing; an already cached content of the same name is complete or replaced as a whole, and a later write of the same name works again.",
  ["crash_points", "fault_sequences", "histories"], "every file system operation of a generated write history as crash point or failing operation",
  "the tests have no notion of a crash; they use a mocked file system whose operations succeed or fail once",
  ["src/cache/cache.go", "src/util/files.go"],
  [("temporary file and rename", "src/cache/cache.go CacheToFile")],
  "generated histories with systematic fault and crash injection at every file system operation",
  "All fault points of each generated history are enumerated (error, short write, crash before and after); a crash is simulated by stopping the call at the file system interface, lost page cache contents are not modelled.",
  level="fault_enumeration", observe=["directory tree below the cache directory"])
p("C03", "Concurrent use of the cache yields complete contents and keeps the limit",
  "When several threads read and write the cache at the same time, also under the same names, every content read is one that some thread has written completely, every write of a thread succeeds, and once all threads are done the size limit holds.",
  ["schedules", "histories"], "all interleavings of 2-6 threads with generated operations (sampled by the scheduler)",
  "the tests are single threaded although the tool processes articles with several workers",
  ["src/cache/cache.go", "src/util/files.go", "src/main.go"],
  [("rename of a private temporary file, lock around the eviction", "src/cache/cache.go CacheToFile")],
  "randomised concurrent histories checked by an invariant over all reads and the final state",
  "Samples schedules of the Go runtime (no control over the scheduler), so rare interleavings may be missed.",
  observe=["contents read through the cache API", "directory tree after all threads are done"])
p("C04", "Cache entries of different names never collide and stay inside their folder",
  "Any article, image or template name can be cached and read back, content cached under one name is never returned for another name, and nothing is ever written outside the folder of the cache the name belongs to.",
  ["inputs"], "all sets of names, including path separators, dots, percent signs, reserved characters and names that look escaped",
  "the tests check a few fixed names for their exact escaped form; injectivity and containment are statements about all pairs and all names",
  ["src/cache/cache.go", "src/util/files.go"],
  [("escaping of names", "src/util/files.go, src/cache/cache.go GetFilePathInCache")],
  "property-based testing: round trip and non-interference over adversarial name sets",
  "Round trip on the real file system for generated name sets; the tree around the cache is compared before and after.",
  observe=["files in and around the cache directory"])
p("C05", "Every resource is downloaded once while fresh, and failures are never cached",
  "A resource that has been downloaded successfully is served from the cache with exactly the content of the response and without any request until it is older than the configured maximum age, after which it is requested again. An unusable answer (error status, API error, broken connection, incomplete body, also after throttling) is reported as error and leaves nothing in the cache.",
  ["histories", "fault_sequences", "configurations"], "all histories of requests, ageing and deletion with any server behaviour per request, for every maximum age and eviction strategy",
  "the tests check one request each with mocked cache and HTTP client; combinations of age, eviction strategy, throttling and broken bodies are not reached",
  ["src/http/http.go", "src/cache/cache.go"],
  [("cache lookup before a download", "src/http/http.go DownloadAndCache"), ("age check", "src/cache/cache.go GetFile")],
  "stateful property-based testing against a model of cached entries and a scripted server",
  "Model comparison after every request; the transport below the standard library's HTTP client is replaced, files are aged through their modification time, and the minute of the limit itself is left open.",
  observe=["requests at the transport", "returned path and content", "files in the cache"])
p("C06", "Throttled requests are repeated unchanged until answered, and never too early",
  "However often the server answers 'too many requests', the request is sent again with the same method, URL, body and headers (including the configured user agent with the version filled in), not before the time the server asked for, and the first other answer decides: a success is handed out completely, anything else is an error and not cached.",
  ["fault_sequences", "inputs"], "any number of throttling answers with any waiting time, any final answer, GET and POST, any body and user agent template",
  "the tests use at most two throttled answers and never look at the repeated request's body, and mock the sleep",
  ["src/http/http.go"],
  [("retry loop", "src/http/http.go download / doRequest")],
  "property-based testing with a scripted server and comparison of all attempts",
  "Every attempt seen by the replaced transport is compared with the intended request; waiting times are only sampled with 1-2 seconds.",
  observe=["requests at the transport"])

exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "meta_more.py")).read()) if os.path.exists(os.path.join(os.path.dirname(os.path.abspath(__file__)), "meta_more.py")) else None

P.sort(key=lambda x: x["id"])
with open("properties.jsonl", "w") as f:
    for x in P:
        a = dict(files=x["files"], mechanism=[dict(name=n, where=w) for n, w in x["mech"]], observe_at=x["observe"], hook_needed=None)
        if x["state"]: a["state"] = x["state"]
        f.write(json.dumps(dict(id=x["id"], title=x["title"], statement=x["statement"], quantifier=dict(over=x["over"], text=x["text"]), why_tests_cant=x["why"], anchors=a), ensure_ascii=False) + "\n")
        assert len(x["title"]) <= 80, x["id"]
        assert x["statement"].count(". ") <= 2, x["id"]
json.dump(dict(version=1, setup_cmd="bash check.sh --build",
    checks=[dict(property=x["id"], quick_cmd=f"bash check.sh {x['id']} quick", thorough_cmd=f"bash check.sh {x['id']} thorough",
                 evidence_file=f"evidence/{x['id']}.json", technique=x["technique"], level=x["level"], level_note=x["note"]) for x in P],
    not_applicable=[], notes="All checks are one Go program (harness/) that imports wiki2book's packages from /repo/src and also drives the built command line tool; no hooks in /repo are used."),
    open("MANIFEST.json", "w"), indent=1, ensure_ascii=False)
print(len(P), "properties")
