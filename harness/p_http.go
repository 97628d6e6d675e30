package main

import (
	"fmt"
	"io"
	"net/http"
	"net/url"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"time"

	"wiki2book/cache"
	"wiki2book/config"
	ownhttp "wiki2book/http"
	"wiki2book/util"

	"pgregory.net/rapid"
)

// ---- C05: download once, freshness, failures are never cached -------------------------------------------------------

type dlOp struct {
	Op     string // get, age, del, rm-all
	File   int
	AgeMin int
	// server behaviour for a get
	Kind string // ok, status, apierror, conn, cut, throttled-ok, throttled-fail, throttled-apierror
	Code int
	Size int
	N429 int
	Err  string // value of the API error header
}

// apiErrors are error codes of the MediaWiki API; the documentation of the API says that this list is not complete.
var apiErrors = []string{"missingtitle", "internal_api_error_DBQueryError", "readonly", "ratelimited", "maxlag", "readapidenied", "badtoken", "blocked", "invalidtitle", "pagecannotexist", "permissiondenied", "nosuchpageid", "unknown_action", "x", "0", "false", "none", "ok"}

func genApiError(t *rapid.T) string {
	if oneIn(t, 3) {
		return rapid.StringMatching(`[a-z][a-z_-]{0,12}`).Draw(t, "apierror")
	}
	return pick(t, apiErrors)
}

// genStatus draws a status that is neither an answer with content nor a request to slow down.
func genStatus(t *rapid.T) int {
	if oneIn(t, 2) {
		for {
			if c := 201 + uni(t, 399); c != 429 {
				return c
			}
		}
	}
	return pick(t, []int{404, 500, 503, 403, 401, 409, 400, 201, 203, 204, 206, 301, 304, 410, 502})
}

type dlCase struct {
	Strategy string
	MaxAge   int
	Ops      []dlOp
}

func genDl(t *rapid.T) dlCase {
	c := dlCase{Strategy: rapid.SampledFrom([]string{"lru", "none", "largest"}).Draw(t, "strategy")}
	c.MaxAge = rapid.SampledFrom([]int{1, 2, 10, 59, 60, 61, 1439, 1440, 1441, 40320, 500000}).Draw(t, "maxage")
	n := rapid.IntRange(2, 16).Draw(t, "n")
	for i := 0; i < n; i++ {
		op := dlOp{Op: rapid.SampledFrom([]string{"get", "get", "get", "get", "age", "del"}).Draw(t, "op")}
		op.File = rapid.IntRange(0, 2).Draw(t, "file")
		switch op.Op {
		case "age":
			// the boundary minute itself is left open by the documentation
			d := rapid.SampledFrom([]int{-1, 2, -1000, 1000, 0}).Draw(t, "rel")
			op.AgeMin = c.MaxAge + d
			if d == 0 {
				op.AgeMin = c.MaxAge / 2
			}
			if op.AgeMin < 0 {
				op.AgeMin = 0
			}
			if d == -1 && c.MaxAge == 1 {
				op.AgeMin = 0
			}
		case "get":
			op.Kind = rapid.SampledFrom([]string{"ok", "ok", "ok", "status", "apierror", "conn", "cut", "throttled-ok", "throttled-fail", "throttled-apierror"}).Draw(t, "kind")
			op.Code = genStatus(t)
			op.Err = genApiError(t)
			op.Size = rapid.SampledFrom([]int{0, 1, 10, 200, 1024, 40000}).Draw(t, "size")
			op.N429 = rapid.IntRange(1, 3).Draw(t, "n429")
		}
		c.Ops = append(c.Ops, op)
	}
	return c
}

func runDl(env *Env, c dlCase) Result {
	resetWorld(env.Dir)
	config.Current.CacheEvictionStrategy = c.Strategy
	config.Current.CacheMaxAge = int64(c.MaxAge)
	config.Current.CacheMaxSize = 1 << 40
	type entry struct {
		content string
		age     int // minutes
	}
	model := map[int]*entry{}
	var cur dlOp
	curBody := ""
	attempts := 0
	tr := installTransport(func(r fakeReq) fakeResp {
		attempts++
		switch {
		case strings.HasPrefix(cur.Kind, "throttled") && attempts <= cur.N429:
			return fakeResp{Status: 429, Headers: map[string]string{"Retry-After": "0"}, Body: []byte("too many")}
		case cur.Kind == "status" || cur.Kind == "throttled-fail":
			return fakeResp{Status: cur.Code, Body: []byte("error page")}
		case cur.Kind == "apierror" || cur.Kind == "throttled-apierror":
			return fakeResp{Status: 200, Headers: map[string]string{"mediawiki-api-error": cur.Err}, Body: []byte(`{"error":{}}`)}
		case cur.Kind == "conn":
			return fakeResp{ConnErr: true}
		case cur.Kind == "cut":
			return fakeResp{Status: 200, Body: []byte(curBody), CutAt: max(1, len(curBody)/2)}
		}
		return okResp(curBody)
	})
	svc := ownhttp.NewDefaultHttpService()
	hits, refetch := 0, 0
	for i, op := range c.Ops {
		name := []string{"file one", "b.svg", "c:d?"}[op.File]
		path := cache.GetFilePathInCache(cache.ImageCacheDirName, name)
		where := fmt.Sprintf("op %d %+v", i, op)
		switch op.Op {
		case "age":
			if model[op.File] != nil {
				ts := time.Now().Add(-time.Duration(op.AgeMin)*time.Minute - 5*time.Second)
				must(os.Chtimes(path, ts, ts))
				model[op.File].age = op.AgeMin
			}
		case "del":
			_ = os.Remove(path)
			delete(model, op.File)
		case "get":
			cur, attempts = op, 0
			curBody = string(payload(fmt.Sprintf("v%d", i), op.Size))
			if op.Kind == "cut" && len(curBody) < 2 {
				cur.Kind = "conn"
			}
			tr.take()
			u := "https://example.org/" + strconv.Itoa(op.File)
			p, fresh, err := svc.DownloadAndCache(u, cache.ImageCacheDirName, name)
			reqs := tr.take()
			m := model[op.File]
			if m != nil && m.age <= c.MaxAge {
				hits++
				if len(reqs) != 0 || err != nil || fresh {
					return fail("%s: cached %d minutes ago (limit %d), but: %d requests, fresh=%v, err=%v", where, m.age, c.MaxAge, len(reqs), fresh, err)
				}
				b, rerr := os.ReadFile(p)
				if rerr != nil || string(b) != m.content {
					return fail("%s: cached content lost (err=%v)", where, rerr)
				}
				if c.Strategy == "lru" {
					m.age = 0
				}
				continue
			}
			if m != nil {
				refetch++
			}
			delete(model, op.File)
			if len(reqs) == 0 {
				return fail("%s: missing or outdated file was not requested (err=%v)", where, err)
			}
			for _, r := range reqs {
				if r.URL != u || r.Method != "GET" {
					return fail("%s: requested %s %s", where, r.Method, r.URL)
				}
			}
			if cur.Kind == "ok" || cur.Kind == "throttled-ok" {
				if err != nil || !fresh {
					return fail("%s: download failed although the server answered: fresh=%v err=%v", where, fresh, err)
				}
				b, rerr := os.ReadFile(p)
				if rerr != nil || string(b) != curBody {
					return fail("%s: cached content is not the body of the response (%d of %d bytes, err=%v)", where, len(b), len(curBody), rerr)
				}
				if p != path {
					return fail("%s: returned path %s, expected %s", where, p, path)
				}
				model[op.File] = &entry{curBody, 0}
			} else {
				if err == nil {
					return fail("%s: no error reported although the response was unusable", where)
				}
				if b, rerr := os.ReadFile(path); rerr == nil {
					return fail("%s: something (%d bytes: %s) is cached after a failed download", where, len(b), trunc(string(b), 40))
				}
			}
		}
	}
	r := Result{NonTrivial: hits > 0}
	if hits > 0 {
		r.Classes = append(r.Classes, "cache-hit")
	}
	if refetch > 0 {
		r.Classes = append(r.Classes, "outdated")
	}
	return r
}

// ---- C06: throttling and request fidelity ---------------------------------------------------------------------------

type httpCase struct {
	Post   bool
	N429   int
	Retry  []string // Retry-After values
	Slow   []int    `json:",omitempty"` // milliseconds until the n-th answer
	Final  string   // ok, status, apierror, conn
	Code   int
	ApiErr string
	Body   string
	Path   string
	Resp   string
	UA     string
}

func genHttp(t *rapid.T) httpCase {
	c := httpCase{Post: rapid.Bool().Draw(t, "post")}
	c.N429 = rapid.IntRange(0, 12).Draw(t, "n429")
	for i := 0; i < c.N429; i++ {
		v := ""
		switch uni(t, 8) {
		case 0:
		case 1:
			v = pick(t, []string{"soon", "1.5", "Wed, 21 Oct 1998 07:28:00 GMT"})
		case 4:
			v = "date+" + strconv.Itoa(uni(t, 1<<uint(1+uni(t, 17)))) // replaced by the date that many seconds ahead
		case 2, 3:
			v = pick(t, []string{"0", "1", "2", "59", "60", "61", "299", "300", "301", "3599", "3600", "3601", "86400", "604800"})
		default:
			v = strconv.Itoa(uni(t, 1<<uint(1+uni(t, 17))))
		}
		c.Retry = append(c.Retry, v)
		slow := 0
		if oneIn(t, 2) {
			slow = uni(t, 1500)
		}
		c.Slow = append(c.Slow, slow)
	}
	c.Final = rapid.SampledFrom([]string{"ok", "ok", "ok", "status", "apierror", "conn"}).Draw(t, "final")
	c.Code = genStatus(t)
	c.ApiErr = genApiError(t)
	c.Body = rapid.SampledFrom([]string{"", "q=x", "q=%7B%5Cdisplaystyle+x%7D", strings.Repeat("long body ", 500), "ä=ö\nß"}).Draw(t, "body")
	c.Path = rapid.SampledFrom([]string{"", "w/api.php?action=parse&page=A_B&x=%C3%A4", "a/b.svg", "wikipedia/de/a/ab/x%2By.png"}).Draw(t, "path")
	c.Resp = rapid.SampledFrom([]string{"", "r", "some content\n\x00\xff", strings.Repeat("z", 100000)}).Draw(t, "resp")
	c.UA = rapid.SampledFrom([]string{"", "wiki2book {{VERSION}} (https://github.com/hauke96/wiki2book)", "x", "{{VERSION}}{{VERSION}}", "{{version}} foo"}).Draw(t, "ua")
	return c
}

// runHttp runs the case with a clock that jumps over all waiting.
func runHttp(env *Env, c httpCase) (r Result) {
	resetWorld(env.Dir)
	inBubble(func() { r = runHttpTimed(env, c) })
	return r
}

func runHttpTimed(env *Env, c httpCase) Result {
	if c.UA != "" {
		config.Current.UserAgentTemplate = c.UA
	}
	wantUA := strings.ReplaceAll(config.Current.UserAgentTemplate, "{{VERSION}}", util.VERSION)
	n := 0
	var when, answered, until []time.Time
	tr := installTransport(func(r fakeReq) fakeResp {
		n++
		when = append(when, time.Now())
		if n <= c.N429 {
			if n <= len(c.Slow) {
				time.Sleep(time.Duration(c.Slow[n-1]) * time.Millisecond)
			}
			answered, until = append(answered, time.Now()), append(until, time.Time{})
			h := map[string]string{}
			if ahead, ok := strings.CutPrefix(c.Retry[n-1], "date+"); ok {
				sec, _ := strconv.Atoi(ahead)
				date := time.Now().Add(time.Duration(sec) * time.Second).UTC()
				h["Retry-After"] = date.Format(http.TimeFormat)
				until[n-1] = date.Truncate(time.Second)
			} else if c.Retry[n-1] != "" {
				h["Retry-After"] = c.Retry[n-1]
			}
			return fakeResp{Status: 429, Headers: h, Body: []byte("slow down")}
		}
		switch c.Final {
		case "status":
			return fakeResp{Status: c.Code, Body: []byte("nope")}
		case "apierror":
			return fakeResp{Status: 200, Headers: map[string]string{"mediawiki-api-error": c.ApiErr}, Body: []byte("nope")}
		case "conn":
			return fakeResp{ConnErr: true}
		}
		return fakeResp{Status: 200, Headers: map[string]string{"x-resource-location": "abc"}, Body: []byte(c.Resp)}
	})
	u := "https://example.org/" + c.Path
	svc := ownhttp.NewDefaultHttpService()
	var err error
	got := ""
	if c.Post {
		resp, e := svc.PostFormEncoded(u, c.Body)
		err = e
		if e == nil {
			b, rerr := io.ReadAll(resp.Body)
			resp.Body.Close()
			if rerr != nil {
				return fail("response body unreadable: %v", rerr)
			}
			got = string(b)
			if resp.StatusCode != 200 || resp.Header.Get("X-Resource-Location") != "abc" {
				return fail("response of the last attempt was not handed out: status %d, headers %v", resp.StatusCode, resp.Header)
			}
		}
	} else {
		p, fresh, e := svc.DownloadAndCache(u, cache.ImageCacheDirName, "f")
		err = e
		if e == nil {
			b, rerr := os.ReadFile(p)
			if rerr != nil || !fresh {
				return fail("fresh=%v, err=%v", fresh, rerr)
			}
			got = string(b)
		}
	}
	reqs := tr.take()
	if len(reqs) != c.N429+1 {
		return fail("%d answers with status 429 were followed by %d requests instead of %d (err=%v)", c.N429, len(reqs)-1, c.N429, err)
	}
	for i, r := range reqs {
		m, b, ct := "GET", "", ""
		if c.Post {
			m, b, ct = "POST", c.Body, "application/x-www-form-urlencoded"
		}
		if r.Method != m || r.URL != u {
			return fail("attempt %d went to %s %s instead of %s %s", i, r.Method, r.URL, m, u)
		}
		if r.Body != b {
			return fail("attempt %d carried the body %q instead of %q", i, trunc(r.Body, 60), trunc(b, 60))
		}
		if r.UserAgent != wantUA {
			return fail("attempt %d has user agent %q instead of %q", i, r.UserAgent, wantUA)
		}
		if c.Post && r.ContentType != ct {
			return fail("attempt %d has content type %q", i, r.ContentType)
		}
	}
	if c.Final == "ok" {
		if err != nil {
			return fail("the last attempt was answered, but: %v", err)
		}
		if got != c.Resp {
			return fail("got %d bytes instead of the %d of the response", len(got), len(c.Resp))
		}
	} else {
		if err == nil {
			return fail("no error although the server answered with %s %d", c.Final, c.Code)
		}
		if f := listCache(env.Dir); len(f) > 0 {
			return fail("failed download is cached: %v", f)
		}
	}
	for i, v := range c.Retry {
		waited := when[i+1].Sub(answered[i])
		asked, perr := strconv.Atoi(strings.TrimPrefix(v, "date+"))
		slack := time.Duration(0)
		if strings.HasPrefix(v, "date+") {
			slack = time.Second // dates are whole seconds
			if when[i+1].Before(until[i]) {
				return fail("the server asked to wait until %s, but attempt %d came at %s", until[i], i+1, when[i+1])
			}
		}
		if perr != nil {
			asked = 0 // any waiting time is fine
		}
		if waited < time.Duration(asked)*time.Second-slack {
			return fail("the server asked to wait %d s, but attempt %d came after %s", asked, i+1, waited)
		}
		if waited > time.Duration(asked)*time.Second*2+2*time.Minute {
			return fail("the server asked to wait %q s, but attempt %d came only after %s", v, i+1, waited)
		}
	}
	r := Result{NonTrivial: c.N429 > 0, Classes: []string{fmt.Sprintf("post:%v", c.Post), "final:" + c.Final}}
	if c.N429 > 0 {
		r.Classes = append(r.Classes, "throttled")
	}
	return r
}

var _ = url.QueryEscape
var _ = filepath.Join

func init() {
	register(&Prop{
		ID: "C05", Quick: 8000, Thorough: 200000,
		Rule:        "histories of requests for three files with generated server behaviour (answers, error codes, API errors, broken connections, throttling), ageing and deletion against a model of what is cached; non-trivial = at least one cache hit",
		Assumptions: []string{"the minute in which a file reaches the maximum age is left open", "files are aged by setting their modification time"},
	}, genDl, runDl)
	register(&Prop{
		ID: "C06", Quick: 8000, Thorough: 200000,
		Rule:        "one GET or POST against a server that throttles 0-12 times and then answers or fails; every attempt is compared with the intended request; non-trivial = throttled at least once",
		Assumptions: []string{"the transport below the standard library's HTTP client is replaced by a recording one"},
	}, genHttp, runHttp)
}
