package main

import (
	"crypto/md5"
	"encoding/json"
	"fmt"
	"net/url"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"wiki2book/cache"
	"wiki2book/config"
	ownhttp "wiki2book/http"
	"wiki2book/image"
	"wiki2book/parser"
	"wiki2book/wikipedia"

	"pgregory.net/rapid"
)

func newService(instance, host string, imgHosts []string, imgHost, math string) *wikipedia.DefaultWikipediaService {
	return wikipedia.NewWikipediaService(instance, host, imgHosts, imgHost, math, image.NewImageProcessingService(), ownhttp.NewDefaultHttpService())
}

func jsonOf(v any) string {
	b, err := json.Marshal(v)
	must(err)
	return string(b)
}

func articleJson(title, content string) string {
	return jsonOf(map[string]any{"parse": map[string]any{"title": title, "pageid": 1, "wikitext": map[string]string{"*": content}}})
}

func templateJson(content string) string {
	return jsonOf(map[string]any{"expandtemplates": map[string]string{"wikitext": content}})
}

// Characters of page titles: everything that needs care in URLs, file names or JSON, but nothing MediaWiki forbids.
var titleRunes = []rune("abcXYZ019 _-.,'()!*&+=%/?;~@$äöüßéñ漢字😀\"\\^`")

func genTitle(t *rapid.T) string {
	if oneIn(t, 6) { // many words
		var w []string
		for i, k := 0, 3+uni(t, 6); i < k; i++ {
			w = append(w, pick(t, []string{"of", "the", "a", "Łódź", "view", "12", "(b)", "x&y", "-", "It's", "Q"}))
		}
		return strings.Join(w, pick(t, []string{" ", " ", "_"}))
	}
	n := 1 + uni(t, 12)
	var sb strings.Builder
	for i := 0; i < n; i++ {
		if oneIn(t, 3) {
			sb.WriteRune(titleRunes[uni(t, len(titleRunes))])
		} else {
			sb.WriteByte("abcdefghijABC"[uni(t, 13)])
		}
	}
	s := strings.Trim(sb.String(), " _./")
	if s == "" || s == "." || s == ".." {
		return "Page"
	}
	return s
}

// nearTitle makes a different title that resembles the given one.
func nearTitle(t *rapid.T, s string) string {
	switch r := []rune(s); uni(t, 8) {
	case 0:
		return s + pick(t, []string{".json", ".html", ".json.json", "2", ".", "-", "é", ".tmp", ".part", ".JSON"})
	case 1:
		return strings.ToUpper(s)
	case 2:
		return strings.ToLower(s)
	case 3:
		return strings.ReplaceAll(s, " ", "")
	case 4:
		return strings.NewReplacer("/", "-", "-", "/", "é", "e", "a", "á", "&", "+", "?", "").Replace(s)
	case 5:
		return pick(t, []string{"A", "the ", "(", "'"}) + s
	case 6:
		if len(r) > 1 {
			return strings.Trim(string(r[:len(r)-1]), " _./") + "x"
		}
	case 7:
		if len(r) > 1 {
			i := uni(t, len(r)-1)
			r[i], r[i+1] = r[i+1], r[i]
			return "B" + strings.Trim(string(r), " _./")
		}
	}
	return s + "x"
}

func under(s string) string { return strings.ReplaceAll(s, " ", "_") }

// ---- C07: articles --------------------------------------------------------------------------------------------------

type artCase struct {
	Instance, Host string
	Pages          []artPage
	Gets           []artGet
}
type artPage struct {
	Title   string
	Target  string // title the server answers with (redirect)
	Content string
}
type artGet struct {
	Page int // index, may be past the end: page the server does not know
	Fail string

	Spoil bool `json:",omitempty"` // all cached files hold useless answers by then
}

// garbage are answers with success that hold nothing that has been asked for.
var garbage = []string{"", "<html><body>Service temporarily unavailable</body></html>", "{}", "null", "[]", `{"error":{"code":"internal_api_error","info":"x"}}`, `{"batchcomplete":""}`, `{"parse":{}}`, `{"parse":null,"expandtemplates":null}`, `{"parse":[]}`, `{"expandtemplates":{}}`, `{"parse":"x"`, "\"x\"", "0"}

func garbageResp(seed string) fakeResp {
	return okResp(garbage[hash32(seed)%len(garbage)])
}

// spoilCache replaces the content of all cached files by useless answers.
func spoilCache(seed int) {
	must(filepath.WalkDir(config.Current.CacheDir, func(p string, d os.DirEntry, err error) error {
		if os.IsNotExist(err) || err == nil && d.IsDir() {
			return nil
		}
		if err != nil {
			return err
		}
		return os.WriteFile(p, garbageResp(p+fmt.Sprint(seed)).Body, 0o644)
	}))
}

func genArt(t *rapid.T) artCase {
	c := artCase{Instance: pick(t, []string{"en", "de", "simple", "zh-yue"}), Host: pick(t, []string{"wikipedia.org", "wiki.example.com", "wikivoyage.org"})}
	n := 1 + uni(t, 4)
	for i := 0; i < n; i++ {
		p := artPage{Title: genTitle(t), Content: genTitle(t) + pick(t, []string{"", "\n== x ==\n", "\u2028<&>\"", "\x00\x7f", strings.Repeat("long ", 300), "{{a}}"})}
		if oneIn(t, 12) {
			p.Title = longName(t, p.Title, 255)
		} else if i > 0 && oneIn(t, 3) {
			p.Title = nearTitle(t, c.Pages[uni(t, i)].Title)
		}
		p.Target = p.Title
		if oneIn(t, 3) {
			p.Target = genTitle(t)
		}
		c.Pages = append(c.Pages, p)
	}
	for i := 0; i < 1+uni(t, 7); i++ {
		c.Gets = append(c.Gets, artGet{Page: uni(t, n+1), Fail: pick(t, []string{"", "", "", "", "status", "api", "conn", "cut", "garbage"}), Spoil: oneIn(t, 10)})
	}
	return c
}

func runArt(env *Env, c artCase) Result {
	resetWorld(env.Dir)
	svc := newService(c.Instance, c.Host, nil, "upload.example.org", "https://math")
	byName := map[string]artPage{}
	for _, p := range c.Pages {
		if _, dup := byName[under(p.Title)]; !dup {
			byName[under(p.Title)] = p
		}
	}
	failNow := ""
	tries := 0
	bad := ""
	host := c.Instance + "." + c.Host
	wantTitle := ""
	tr := installTransport(func(r fakeReq) fakeResp {
		u, err := url.Parse(r.URL)
		if err != nil {
			bad = "unparsable URL " + r.URL
			return fakeResp{Status: 400}
		}
		q, err := url.ParseQuery(u.RawQuery)
		switch {
		case err != nil:
			bad = "unparsable query " + r.URL
		case u.Scheme != "https" || u.Host != host || u.Path != "/w/api.php" || u.Fragment != "":
			bad = "wrong API address " + r.URL
		case q.Get("action") != "parse" || q.Get("prop") != "wikitext" || q.Get("format") != "json" || !q.Has("redirects"):
			bad = "wrong API parameters " + r.URL
		case under(q.Get("page")) != under(wantTitle):
			bad = fmt.Sprintf("page %q was requested instead of %q", q.Get("page"), wantTitle)
		}
		p, ok := byName[under(q.Get("page"))]
		switch {
		case failNow == "conn":
			return fakeResp{ConnErr: true}
		case failNow == "status":
			return fakeResp{Status: 503, Body: []byte("x")}
		case failNow == "api" || !ok:
			return fakeResp{Status: 200, Headers: map[string]string{"MediaWiki-API-Error": "missingtitle"}, Body: []byte(`{"error":{"code":"missingtitle"}}`)}
		}
		body := []byte(articleJson(p.Target, p.Content))
		if failNow == "garbage" {
			return garbageResp(r.URL + fmt.Sprint(tries))
		}
		if failNow == "cut" {
			return fakeResp{Status: 200, Body: body, CutAt: len(body) / 2}
		}
		return fakeResp{Status: 200, Body: body}
	})
	have := map[string]bool{}
	hits, spoiled, got := 0, 0, 0
	for i, g := range c.Gets {
		title := "Unknown page"
		if g.Page < len(c.Pages) {
			title = c.Pages[g.Page].Title
		}
		p, known := byName[under(title)]
		failNow, bad, wantTitle, tries = g.Fail, "", title, i
		tr.take()
		if g.Spoil { // as if aborted runs had left useless answers behind
			spoilCache(i)
			have = map[string]bool{}
			spoiled++
		}
		dto, err := svc.DownloadArticle(host, title)
		reqs := len(tr.take())
		where := fmt.Sprintf("get %d of %q (server: %s)", i, title, g.Fail)
		if bad != "" {
			return fail("%s: %s", where, bad)
		}
		cached := have[under(title)]
		if cached {
			hits++
			if reqs != 0 {
				return fail("%s: already downloaded, but requested again", where)
			}
		} else if reqs != 1 {
			return fail("%s: %d requests", where, reqs)
		}
		if cached || (known && g.Fail == "") {
			if err != nil {
				return fail("%s: %v", where, err)
			}
			if dto.Parse.Wikitext.Content != p.Content || dto.Parse.Title != p.Target || dto.Parse.OriginalTitle != title {
				return fail("%s: got title %q, original title %q, content %q; expected %q, %q, %q", where, dto.Parse.Title, dto.Parse.OriginalTitle, trunc(dto.Parse.Wikitext.Content, 60), p.Target, title, trunc(p.Content, 60))
			}
			have[under(title)] = true
			got++
		} else if err == nil {
			return fail("%s: no error although there is no such page or no answer", where)
		}
	}
	r := Result{NonTrivial: got > 0}
	if hits > 0 {
		r.Classes = append(r.Classes, "cache-hit")
	}
	if spoiled > 0 {
		r.Classes = append(r.Classes, "spoiled")
	}
	return r
}

// ---- C08/C11: images ------------------------------------------------------------------------------------------------

type imgCase struct {
	Hosts    []string
	ImgHost  string
	Images   []imgSpec
	Calls    [][]int // every element: one download call with these images
	Fails    []int   // per call: 0 = server fine, n = the n-th image request of this call breaks
	CmdFails []int   // per call: 0 = commands work, n = the n-th command of this call fails half way
	Proc     bool
	Svg      bool
	Pdf      bool
	Webp     bool
	CacheDir string
	Old      int `json:",omitempty"` // before this call (1 = first) all files become outdated and their contents change
}
type imgSpec struct {
	Name    string
	Target  string // redirect target
	Article []bool // per host: image page known
	File    []bool // per host: file available
	Prefix  string
	Garbage bool     `json:",omitempty"` // hosts without the page answer with something else
	NoPage  []int    `json:",omitempty"` // per host without the page: 0 or the HTTP status of its answer, 1 = broken connection
	NoFile  []int    `json:",omitempty"` // likewise for the file
	_       struct{} `json:"-"`
}

var imgHostPool = []string{"commons.wikimedia.org", "en.wikipedia.org", "de.wikipedia.org", "fr.wikivoyage.org", "zh-min-nan.wikipedia.org", "wiki2.wikibooks.org", "images.example.com"}

func genImgName(t *rapid.T, ext string) string {
	s := genTitle(t)
	s = strings.NewReplacer("/", "-", "\\", "-", "%", "0", "`", "a", "^", "b").Replace(s)
	s = strings.Trim(s, " ._")
	if s == "" {
		s = "Pic"
	}
	if oneIn(t, 6) {
		ext = strings.ToUpper(ext)
	}
	if oneIn(t, 10) {
		s = longName(t, s, 240-len(ext))
	}
	return s + ext
}

// longName makes a name of nearly the given number of bytes out of s.
func longName(t *rapid.T, s string, size int) string {
	fill := pick(t, []string{"x", "ab ", "д", "漢", "a'", "é_", "Ж (б) "})
	for size -= uni(t, 30); len(s)+len(fill) <= size; {
		s += fill
	}
	return strings.TrimRight(s, " _")
}

// nameInCache tells which name a file of the image folder stands for. Names too long for a file are shortened there.
func nameInCache(file string, names []string) string {
	for _, n := range names {
		if base := filepath.Base(cache.GetFilePathInCache(cache.ImageCacheDirName, n)); len(n) > 150 {
			switch file {
			case base:
				return n
			case base + ".png":
				return n + ".png"
			case filepath.Base(cache.GetFilePathInCache(cache.ImageCacheDirName, n+".part")):
				return n + ".part"
			}
		}
	}
	return unescapeName(file)
}

func genImgs(t *rapid.T, withCommands bool) imgCase {
	c := imgCase{ImgHost: pick(t, []string{"upload.wikimedia.org", "img.example.com"}), CacheDir: "cache"}
	perm := rapid.Permutation(imgHostPool).Draw(t, "hosts")
	c.Hosts = perm[:1+uni(t, 3)]
	exts := []string{".jpg", ".png", ".svg"}
	if withCommands {
		exts = []string{".jpg", ".png", ".svg", ".pdf", ".webp", ".gif", ".jpeg"}
		c.Proc, c.Svg, c.Pdf, c.Webp = rapid.Bool().Draw(t, "proc"), rapid.Bool().Draw(t, "svg"), rapid.Bool().Draw(t, "pdf"), rapid.Bool().Draw(t, "webp")
		if oneIn(t, 4) {
			c.CacheDir = "my cache dir"
		}
	}
	n := 1 + uni(t, 4)
	for i := 0; i < n; i++ {
		ext := pick(t, exts)
		sp := imgSpec{Name: genImgName(t, ext), Prefix: pick(t, []string{"File", "Image", "Datei"})}
		if i > 0 && oneIn(t, 4) {
			old := c.Images[uni(t, i)].Name
			stem := strings.TrimSuffix(old, filepath.Ext(old))
			if n := strings.TrimRight(strings.NewReplacer("/", "-", "\\", "-", "%", "0").Replace(nearTitle(t, stem)), " ._"); n != "" && len(n) < 220 {
				sp.Name = n + pick(t, []string{ext, filepath.Ext(old)})
			}
		}
		sp.Target = sp.Name
		if oneIn(t, 3) {
			sp.Target = genImgName(t, ext)
		}
		sp.Garbage = oneIn(t, 6)
		for range c.Hosts {
			a := !oneIn(t, 3)
			sp.NoPage = append(sp.NoPage, pick(t, []int{0, 0, 0, 1, 400, 403, 404, 500, 502, 503, 504}))
			sp.NoFile = append(sp.NoFile, pick(t, []int{404, 404, 404, 1, 400, 403, 410, 500, 502, 503, 504}))
			sp.Article = append(sp.Article, a)
			sp.File = append(sp.File, a && !oneIn(t, 5))
		}
		if withCommands {
			sp.Article[0], sp.File[0] = true, true
		}
		c.Images = append(c.Images, sp)
	}
	k := 1 + uni(t, 4)
	for i := 0; i < k; i++ {
		m := uni(t, 4)
		call := []int{}
		for j := 0; j < m; j++ {
			call = append(call, uni(t, n))
		}
		c.Calls = append(c.Calls, call)
		f := 0
		if oneIn(t, 4) {
			f = 1 + uni(t, 3)
		}
		c.Fails = append(c.Fails, f)
		cf := 0
		if withCommands && oneIn(t, 4) {
			cf = 1 + uni(t, 3)
		}
		c.CmdFails = append(c.CmdFails, cf)
	}
	if withCommands && k > 1 && oneIn(t, 3) {
		c.Old = 2 + uni(t, k-1)
		for i := c.Old - 1; i < k; i++ {
			c.Fails[i], c.CmdFails[i] = 0, 0
		}
	}
	return c
}

// webImages serves image pages and files of the specs as the Wikimedia servers do.
type webImages struct {
	c        imgCase
	bad      string
	failAt   int // n-th file request from now on breaks; 0 = none
	fileReqs int
	version  string
}

func segment(host string) (string, bool) {
	parts := strings.Split(host, ".")
	if len(parts) == 3 && strings.HasPrefix(parts[1], "wiki") {
		return parts[0], true
	}
	return "", false
}

func imgContent(host, target string) string { return "img<" + host + "|" + under(target) + ">" }

func (w *webImages) serve(r fakeReq) fakeResp {
	u, err := url.Parse(r.URL)
	if err != nil || r.Method != "GET" {
		w.bad = "bad request " + r.Method + " " + r.URL
		return fakeResp{Status: 400}
	}
	for hi, h := range w.c.Hosts {
		if u.Host != h {
			continue
		}
		page := u.Query().Get("page")
		if u.Path != "/w/api.php" || !strings.HasPrefix(page, "File:") {
			w.bad = "unexpected request " + r.URL
			return fakeResp{Status: 400}
		}
		for _, sp := range w.c.Images {
			if under(page) == "File:"+under(sp.Name) {
				if !sp.Article[hi] {
					if sp.Garbage {
						return garbageResp(r.URL)
					}
					if hi < len(sp.NoPage) && sp.NoPage[hi] > 0 {
						return fakeResp{Status: sp.NoPage[hi], ConnErr: sp.NoPage[hi] == 1, Body: []byte("no")}
					}
					return fakeResp{Status: 200, Headers: map[string]string{"MediaWiki-API-Error": "missingtitle"}, Body: []byte(`{"error":{}}`)}
				}
				return okResp(articleJson("File:"+strings.ReplaceAll(sp.Target, "_", " "), "description"))
			}
		}
		w.bad = "page of no image: " + page
		return fakeResp{Status: 400}
	}
	if u.Host != w.c.ImgHost {
		w.bad = "request to an unknown host: " + r.URL
		return fakeResp{Status: 400}
	}
	w.fileReqs++
	if w.failAt > 0 && w.fileReqs == w.failAt {
		return fakeResp{ConnErr: true}
	}
	name, err := url.PathUnescape(u.EscapedPath()[strings.LastIndex(u.EscapedPath(), "/")+1:])
	if err != nil {
		w.bad = "bad path " + r.URL
		return fakeResp{Status: 400}
	}
	sum := fmt.Sprintf("%x", md5.Sum([]byte(name)))
	for hi, h := range w.c.Hosts {
		seg, isWiki := segment(h)
		pre := "/wikipedia/" + seg + "/" + sum[:1] + "/" + sum[:2] + "/"
		if !isWiki {
			pre = "/wikipedia//" + sum[:1] + "/" + sum[:2] + "/"
			if strings.HasPrefix(u.EscapedPath(), "/wikipedia/"+sum[:1]+"/") {
				pre = "/wikipedia/" + sum[:1] + "/" + sum[:2] + "/"
			}
		}
		if strings.HasPrefix(u.EscapedPath(), pre) {
			for _, sp := range w.c.Images {
				if under(sp.Target) == name {
					if !sp.File[hi] {
						status := 404
						if hi < len(sp.NoFile) {
							status = sp.NoFile[hi]
						}
						return fakeResp{Status: status, ConnErr: status == 1, Body: []byte("no")}
					}
					return okResp(imgContent(h, sp.Target) + w.version)
				}
			}
		}
	}
	w.bad = "no image has this address: " + r.URL
	return fakeResp{Status: 404}
}

// usableImgs drops images whose names collide with an earlier one (as page, file or target).
func usableImgs(c imgCase) imgCase {
	seen := map[string]bool{}
	stems := map[string]bool{}
	var keep []imgSpec
	remap := map[int]int{}
	for i, sp := range c.Images {
		a, b := strings.ToLower(under(sp.Name)), strings.ToLower(under(sp.Target))
		if seen[a] || seen[b] || stems[a+".png"] || stems[strings.TrimSuffix(a, ".png")] {
			continue
		}
		seen[a], seen[b] = true, true
		stems[a] = true
		stems[a+".png"] = true
		remap[i] = len(keep)
		keep = append(keep, sp)
	}
	c.Images = keep
	var calls [][]int
	for _, call := range c.Calls {
		var x []int
		for _, i := range call {
			if j, ok := remap[i]; ok {
				x = append(x, j)
			}
		}
		calls = append(calls, x)
	}
	c.Calls = calls
	return c
}

func runImgs(env *Env, c imgCase) Result {
	return runImages(env, usableImgs(c), false)
}
func runImgCommands(env *Env, c imgCase) Result {
	return runImages(env, usableImgs(c), true)
}

func runImages(env *Env, c imgCase, commands bool) Result {
	resetWorld(env.Dir)
	config.Current.CacheDir = mkdir(env.Dir, c.CacheDir)
	mkdir(config.Current.CacheDir, cache.TempDirName)
	config.Current.CommandTemplateImageProcessing = ""
	config.Current.CommandTemplateSvgToPng = ""
	config.Current.CommandTemplatePdfToPng = ""
	config.Current.CommandTemplateWebpToPng = ""
	logFile := filepath.Join(env.Dir, "stub.log")
	if commands {
		must(os.Setenv("VH_STUB_LOG", logFile))
		must(os.Setenv("VH_STUB_FAIL", filepath.Join(env.Dir, "stub.fail")))
		stub := filepath.Join(os.Getenv("VH_BIN"), "stub-convert")
		if c.Proc {
			config.Current.CommandTemplateImageProcessing = stub + " proc {INPUT} {OUTPUT}"
		}
		if c.Svg {
			config.Current.CommandTemplateSvgToPng = stub + " svg {INPUT} {OUTPUT} -x"
		}
		if c.Pdf {
			config.Current.CommandTemplatePdfToPng = stub + " pdf {INPUT} {OUTPUT}"
		}
		if c.Webp {
			config.Current.CommandTemplateWebpToPng = stub + " webp {INPUT} {OUTPUT} a b"
		}
	}
	w := &webImages{c: c}
	tr := installTransport(w.serve)
	svc := newService("en", "wikipedia.org", c.Hosts, c.ImgHost, "https://math")

	pages := map[string]bool{}   // image pages in the cache
	files := map[string]string{} // expected image folder
	dirty := map[string]bool{}   // images whose commands failed
	aged := map[string]bool{}    // outdated images
	hits, failed, multi, broken, renewed := 0, 0, 0, 0, 0
	for ci, call := range c.Calls {
		if c.Old == ci+1 {
			w.version = "v2"
			dir := filepath.Join(config.Current.CacheDir, cache.ImageCacheDirName)
			for f := range listDir(dir) {
				old := time.Now().Add(-time.Duration(config.Current.CacheMaxAge+5) * time.Minute)
				must(os.Chtimes(filepath.Join(dir, f), old, old))
			}
			for f := range files {
				aged[f] = true
			}
		}
		var args []string
		for _, i := range call {
			args = append(args, c.Images[i].Prefix+":"+c.Images[i].Name)
		}
		fail1 := c.Fails[ci]
		for _, i := range call {
			if dirty[under(c.Images[i].Name)] {
				fail1 = 0 // it is open how many requests there are
			}
		}
		w.failAt, w.fileReqs, w.bad = fail1, 0, ""
		// model
		wantErr := false
		var wantHosts []string
		reqNo, cmdNo, cmdFail := 0, 0, 0
		anyHosts := false
		if commands && ci < len(c.CmdFails) {
			cmdFail = c.CmdFails[ci]
		}
		must(os.WriteFile(filepath.Join(env.Dir, "stub.fail"), []byte(fmt.Sprint(cmdFail)), 0o644))
		command := func() bool { cmdNo++; return cmdNo != cmdFail }
		for _, i := range call {
			sp := c.Images[i]
			name := under(sp.Name)
			got := false
			if dirty[name] { // may be downloaded again, but need not when the original can be used
				anyHosts = true
				delete(dirty, name)
				delete(files, name)
				delete(files, name+".png")
			}
			for hi, h := range c.Hosts {
				if !pages[name] {
					wantHosts = append(wantHosts, h)
					if !sp.Article[hi] {
						continue
					}
					pages[name] = true
				}
				if aged[name] {
					renewed++
					delete(aged, name)
					delete(files, name)
					delete(files, name+".png")
				}
				if _, ok := files[name]; ok {
					got = true
					hits++
					break
				}
				wantHosts = append(wantHosts, c.ImgHost)
				reqNo++
				if reqNo == fail1 || !sp.File[hi] {
					multi++
					continue
				}
				files[name] = imgContent(h, sp.Target) + w.version
				got = true
				break
			}
			if !got {
				wantErr = true
				break
			}
			if commands {
				ext := strings.ToLower(filepath.Ext(name))
				src := files[name]
				conv := (ext == ".svg" && c.Svg) || (ext == ".pdf" && c.Pdf) || (ext == ".webp" && c.Webp)
				if conv {
					if _, ok := files[name+".png"]; !ok {
						v := ext[1:] + "(" + src + ")"
						if c.Proc {
							v = "proc(" + v + ")"
						}
						files[name+".png"] = v
						if !command() || c.Proc && !command() {
							dirty[name] = true
						}
					}
				} else if c.Proc && ext != ".svg" && ext != ".pdf" && !strings.HasPrefix(src, "proc(") {
					files[name] = "proc(" + src + ")"
					if !command() {
						dirty[name] = true
					}
				}
				if dirty[name] {
					broken++
					wantErr = true
					break
				}
			}
		}
		tr.take()
		err := svc.DownloadImages(args)
		var hosts []string
		for _, r := range tr.take() {
			u, _ := url.Parse(r.URL)
			hosts = append(hosts, u.Host)
		}
		where := fmt.Sprintf("call %d %q", ci, args)
		if w.bad != "" {
			return fail("%s: %s", where, w.bad)
		}
		if (err != nil) != wantErr {
			return fail("%s: error=%v, expected an error: %v", where, err, wantErr)
		}
		if !anyHosts && strings.Join(hosts, " ") != strings.Join(wantHosts, " ") {
			return fail("%s: hosts asked: %v, expected: %v", where, hosts, wantHosts)
		}
		var allNames []string
		for _, sp := range c.Images {
			allNames = append(allNames, under(sp.Name))
		}
		got := map[string]string{}
		for k, v := range listDir(filepath.Join(config.Current.CacheDir, cache.ImageCacheDirName)) {
			k = nameInCache(k, allNames)
			if strings.HasSuffix(k, ".part") && v == "" { // marks images whose commands failed
				k = strings.TrimSuffix(k, ".part")
				if !dirty[k] {
					return fail("%s: image %q is still marked as incomplete", where, k)
				}
				continue
			}
			got[k] = v
		}
		want := map[string]string{}
		for k, v := range files {
			want[k] = v
		}
		for k := range dirty {
			delete(got, k)
			delete(want, k)
			delete(got, k+".png")
			delete(want, k+".png")
		}
		if d := diffMaps(got, want); d != "" {
			return fail("%s: image folder: %s", where, d)
		}
		if err != nil {
			failed++
		}
	}
	r := Result{NonTrivial: len(files) > 0}
	if hits > 0 {
		r.Classes = append(r.Classes, "cache-hit")
	}
	if failed > 0 {
		r.Classes = append(r.Classes, "failed-call")
	}
	if multi > 0 {
		r.Classes = append(r.Classes, "file-missing-at-host")
	}
	if commands {
		b, _ := os.ReadFile(logFile)
		r.NonTrivial = len(b) > 0
		if broken > 0 {
			r.Classes = append(r.Classes, "command-failed")
		}
		if renewed > 0 {
			r.Classes = append(r.Classes, "renewed")
		}
		if c.CacheDir != "cache" {
			r.Classes = append(r.Classes, "space-in-path")
		}
	}
	return r
}

func listDir(dir string) map[string]string {
	out := map[string]string{}
	es, _ := os.ReadDir(dir)
	for _, e := range es {
		b, _ := os.ReadFile(filepath.Join(dir, e.Name()))
		out[e.Name()] = string(b)
	}
	return out
}

// unescapeName undoes the escaping of reserved characters in cached file names (judged in C04, here only undone).
func unescapeName(s string) string {
	if u, err := url.PathUnescape(s); err == nil {
		return u
	}
	return s
}

func diffMaps(got, want map[string]string) string {
	var ks []string
	for k := range got {
		ks = append(ks, k)
	}
	for k := range want {
		if _, ok := got[k]; !ok {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	for _, k := range ks {
		g, okg := got[k]
		w, okw := want[k]
		switch {
		case !okg:
			return fmt.Sprintf("%q is missing (expected content %q)", k, trunc(w, 80))
		case !okw:
			return fmt.Sprintf("%q should not exist (content %q)", k, trunc(g, 80))
		case g != w:
			return fmt.Sprintf("%q contains %q instead of %q", k, trunc(g, 120), trunc(w, 120))
		}
	}
	return ""
}

// ---- C09: math ------------------------------------------------------------------------------------------------------

type mathCase struct {
	Converter string
	Formulas  []string
	Calls     []mathCall
}
type mathCall struct {
	F     int
	Fail  string // "", post, header, svg, png, conn, garbage (no SVG)
	Spoil bool   `json:",omitempty"` // all cached SVG files are useless by then
	Old   int    `json:",omitempty"` // outdated before this call (and changed on the server): 1 resource names, 2 SVG, 4 PNG files
}

func genMath(t *rapid.T) mathCase {
	c := mathCase{Converter: pick(t, []string{"none", "wikimedia", "template"})}
	n := 1 + uni(t, 4)
	for i := 0; i < n; i++ {
		k := 1 + uni(t, 5)
		var sb strings.Builder
		for j := 0; j < k; j++ {
			sb.WriteString(pick(t, []string{"x", "\\frac{a}{b}", "+", "&", "=", "%", " ", "\n", "\\sqrt[3]{2}", "ä", "\"", "#", ";", "y_1^2", "<"}))
		}
		c.Formulas = append(c.Formulas, sb.String())
	}
	for i := 0; i < 1+uni(t, 8); i++ {
		call := mathCall{F: uni(t, n), Fail: pick(t, []string{"", "", "", "", "post", "header", "svg", "png", "conn", "garbage"}), Spoil: i > 0 && oneIn(t, 8)}
		if i > 0 && oneIn(t, 5) {
			call.Old = pick(t, []int{1, 2, 4, 6, 7, 7})
		}
		c.Calls = append(c.Calls, call)
	}
	return c
}

// formulaId is what the fake math service calls the formula: an opaque string, also in its case.
func formulaId(f string) string {
	s := fmt.Sprintf("%x", md5.Sum([]byte("id"+f)))
	return strings.ToUpper(s[:9]) + s[9:]
}

func mathSvgFile(formula, version string) string {
	return fmt.Sprintf(`<svg xmlns="http://www.w3.org/2000/svg" width="1ex" height="2ex"><!-- %x%s --></svg>`, formula, version)
}

func runMath(env *Env, c mathCase) Result {
	resetWorld(env.Dir)
	config.Current.MathConverter = c.Converter
	must(os.Setenv("VH_STUB_LOG", filepath.Join(env.Dir, "stub.log")))
	config.Current.CommandTemplateMathSvgToPng = filepath.Join(os.Getenv("VH_BIN"), "stub-convert") + " math {INPUT} {OUTPUT}"
	api := "https://math.example.org/rest/media/math"
	svc := newService("en", "wikipedia.org", nil, "upload", api)
	known := map[string]string{}
	for _, f := range c.Formulas {
		known[formulaId(f)] = f
	}
	failNow, bad, version := "", "", ""
	tr := installTransport(func(r fakeReq) fakeResp {
		if failNow == "conn" {
			return fakeResp{ConnErr: true}
		}
		switch {
		case r.Method == "POST" && r.URL == api+"/check/tex":
			q, err := url.ParseQuery(r.Body)
			if err != nil || len(q) != 1 || len(q["q"]) != 1 {
				bad = fmt.Sprintf("unusable form body %q", r.Body)
				return fakeResp{Status: 400}
			}
			f, ok := strings.CutPrefix(q.Get("q"), `{\displaystyle `)
			f, ok2 := strings.CutSuffix(f, "}")
			if !ok || !ok2 {
				bad = fmt.Sprintf("formula sent as %q", q.Get("q"))
				return fakeResp{Status: 400}
			}
			if _, ok := known[formulaId(f)]; !ok {
				bad = fmt.Sprintf("formula sent as %q", f)
				return fakeResp{Status: 400}
			}
			if failNow == "post" {
				return fakeResp{Status: 400, Body: []byte("syntax")}
			}
			if failNow == "header" {
				return fakeResp{Status: 200, Body: []byte("{}")}
			}
			return fakeResp{Status: 200, Headers: map[string]string{"X-Resource-Location": formulaId(f)}, Body: []byte("{}")}
		case r.Method == "GET" && strings.HasPrefix(r.URL, api+"/render/"):
			kind, id, _ := strings.Cut(strings.TrimPrefix(r.URL, api+"/render/"), "/")
			f, ok := known[id]
			if !ok || (kind != "svg" && kind != "png") {
				bad = "unknown resource " + r.URL
				return fakeResp{Status: 404}
			}
			if failNow == kind {
				return fakeResp{Status: 500, Body: []byte("x")}
			}
			if kind == "svg" {
				if failNow == "garbage" {
					return garbageResp(f)
				}
				return okResp(mathSvgFile(f, version))
			}
			return okResp(kind + ":" + f + version)
		}
		bad = "unexpected request " + r.Method + " " + r.URL
		return fakeResp{Status: 404}
	})
	type st struct {
		res, svg, png          bool
		svgVersion, pngVersion string
	}
	state := map[string]*st{}
	hits := 0
	for i, call := range c.Calls {
		f := c.Formulas[call.F]
		s := state[f]
		if s == nil {
			s = &st{}
			state[f] = s
		}
		if call.Old > 0 {
			version = fmt.Sprintf(" v%d", i)
			for _, s := range state {
				s.res = s.res && call.Old&1 == 0
				s.svg = s.svg && call.Old&2 == 0
				s.png = s.png && call.Old&4 == 0
			}
			old := time.Now().Add(-time.Duration(config.Current.CacheMaxAge+5) * time.Minute)
			for _, d := range []string{cache.MathCacheDirName, cache.ImageCacheDirName} {
				dir := filepath.Join(config.Current.CacheDir, d)
				for n := range listDir(dir) {
					bit := map[string]int{"": 1, ".svg": 2, ".png": 4}[filepath.Ext(n)]
					if call.Old&bit != 0 {
						must(os.Chtimes(filepath.Join(dir, n), old, old))
					}
				}
			}
		}
		if call.Spoil { // as if aborted runs had left useless answers behind
			dir := filepath.Join(config.Current.CacheDir, cache.ImageCacheDirName)
			for n := range listDir(dir) {
				if filepath.Ext(n) == ".svg" {
					info, err := os.Stat(filepath.Join(dir, n))
					must(err)
					must(os.WriteFile(filepath.Join(dir, n), garbageResp(n+fmt.Sprint(i)).Body, 0o644))
					must(os.Chtimes(filepath.Join(dir, n), info.ModTime(), info.ModTime()))
				}
			}
			for _, s := range state {
				s.svg = false
			}
		}
		failNow, bad = call.Fail, ""
		want, okk := []string{}, true
		step := func(flag *bool, name string, broken bool) {
			if !okk || *flag {
				return
			}
			want = append(want, name)
			if broken || call.Fail == "conn" {
				okk = false
				return
			}
			*flag = true
			if name == "svg" {
				s.svgVersion = version
			} else if name == "png" {
				s.pngVersion = version
			}
		}
		if s.res && s.svg && (s.png || c.Converter != "wikimedia") {
			hits++
		}
		step(&s.res, "POST", call.Fail == "post" || call.Fail == "header")
		step(&s.svg, "svg", call.Fail == "svg" || call.Fail == "garbage")
		if c.Converter == "wikimedia" {
			step(&s.png, "png", call.Fail == "png")
		}
		tr.take()
		svg, png, err := svc.RenderMath(f)
		var got []string
		for _, r := range tr.take() {
			switch {
			case r.Method == "POST":
				got = append(got, "POST")
			case strings.Contains(r.URL, "/svg/"):
				got = append(got, "svg")
			default:
				got = append(got, "png")
			}
		}
		where := fmt.Sprintf("call %d of %q (%s, server: %s)", i, f, c.Converter, call.Fail)
		if bad != "" {
			return fail("%s: %s", where, bad)
		}
		if strings.Join(got, " ") != strings.Join(want, " ") {
			return fail("%s: requests %v, expected %v", where, got, want)
		}
		if (err == nil) != okk {
			return fail("%s: error=%v", where, err)
		}
		if !okk {
			if svg != "" || png != "" {
				return fail("%s: error together with the paths %q %q", where, svg, png)
			}
			continue
		}
		b, e1 := os.ReadFile(svg)
		if e1 != nil || string(b) != mathSvgFile(f, s.svgVersion) {
			return fail("%s: SVG file %s contains %q (%v)", where, svg, b, e1)
		}
		wantPng := map[string]string{"none": mathSvgFile(f, s.svgVersion), "wikimedia": "png:" + f + s.pngVersion, "template": "math(" + mathSvgFile(f, s.svgVersion) + ")"}[c.Converter]
		b, e1 = os.ReadFile(png)
		if e1 != nil || string(b) != wantPng {
			return fail("%s: image file %s contains %q (%v)", where, png, b, e1)
		}
	}
	r := Result{NonTrivial: hits > 0, Classes: []string{"converter:" + c.Converter}}
	return r
}

// ---- C10: templates -------------------------------------------------------------------------------------------------

// A tplNode is either text (Name == "") or a template call with arguments.
type tplNode struct {
	Text string      `json:",omitempty"`
	Name string      `json:",omitempty"`
	Args [][]tplNode `json:",omitempty"`
}
type tplCase struct {
	Content []tplNode
	Fail    int  // the n-th evaluation fails (0: none)
	Garbage bool `json:",omitempty"` // with an answer that holds no text
	Spoil   bool `json:",omitempty"` // finally the cached files hold useless answers
}

func genTplNodes(t *rapid.T, depth int) []tplNode {
	var out []tplNode
	n := 1 + uni(t, 3)
	for i := 0; i < n; i++ {
		if depth > 0 && rapid.Bool().Draw(t, "tpl") {
			nd := tplNode{Name: pick(t, []string{"a", "b", "dup", "drop", "long", "Weiß", "x y", "a&b", "c+d", "100%", "lines", "\nm\n", "vis", "A"})}
			k := uni(t, 4)
			if nd.Name == "vis" { // what it shows are the characters of its arguments, which are plain text
				for j := 0; j < k; j++ {
					nd.Args = append(nd.Args, []tplNode{{Text: pick(t, []string{"w", "W", "a b", "a  b", " a", "a ", "a\nb", "a\n\nb", "a\tb", "a+b", "A B", "ä", "Ä", "", " ", "a&b=c#d", "%20"})}})
				}
				out = append(out, nd)
				continue
			}
			for j := 0; j < k; j++ {
				nd.Args = append(nd.Args, genTplNodes(t, depth-1))
			}
			out = append(out, nd)
		} else {
			out = append(out, tplNode{Text: pick(t, []string{"w", "word ", "ä", "1", "x=y", "c}d", "a{b", " ", "a b", ".", "$", "$$", "x#", "&amp;", "?"})})
		}
	}
	return out
}

func genTpl(t *rapid.T) tplCase {
	c := tplCase{Content: genTplNodes(t, 3), Spoil: oneIn(t, 5)}
	if oneIn(t, 6) {
		c.Fail = 1 + uni(t, 3)
		c.Garbage = oneIn(t, 2)
	}
	if oneIn(t, 10) {
		c.Content = []tplNode{{Name: "cut", Args: [][]tplNode{c.Content}}}
	}
	return c
}

func tplSource(ns []tplNode) string {
	var sb strings.Builder
	for _, n := range ns {
		if n.Name == "" {
			sb.WriteString(n.Text)
			continue
		}
		sb.WriteString("{{" + n.Name)
		for _, a := range n.Args {
			sb.WriteString("|" + tplSource(a))
		}
		sb.WriteString("}}")
	}
	return sb.String()
}

func tplExpand(name string, args []string) string {
	switch strings.TrimSpace(name) {
	case "drop":
		return "(dropped)"
	case "up":
		return "(" + strings.ToUpper(strings.Join(args, ",")) + ")"
	case "cut": // shortens its argument; the placeholder of an inner call is already so damaged that nothing fits any more
		s := strings.Join(args, ",")
		return "(" + s[:min(len(s), 40)] + ")"
	case "dup":
		s := strings.Join(args, ",")
		return "(dup:" + s + ";" + s + ")"
	case "vis":
		return "(" + strings.NewReplacer("\n", "¶", " ", "·", "\t", "→").Replace(strings.Join(args, ",")) + ")"
	case "long":
		return "(long:" + strings.Repeat("0123456789", 50) + strings.Join(args, ",") + ")"
	case "lines":
		return "(l1\nl2 " + strings.Join(args, ",") + ")"
	}
	return "(" + strings.TrimSpace(name) + ":" + strings.Join(args, ",") + ")"
}

func tplEval(ns []tplNode) string {
	var sb strings.Builder
	for _, n := range ns {
		if n.Name == "" {
			sb.WriteString(n.Text)
			continue
		}
		var args []string
		for _, a := range n.Args {
			args = append(args, tplEval(a))
		}
		sb.WriteString(tplExpand(n.Name, args))
	}
	return sb.String()
}

func tplCount(ns []tplNode) (n, depth int) {
	for _, x := range ns {
		if x.Name != "" {
			n++
			d := 0
			for _, a := range x.Args {
				m, dd := tplCount(a)
				n += m
				d = max(d, dd)
			}
			depth = max(depth, d+1)
		}
	}
	return
}

func runTpl(env *Env, c tplCase) Result {
	src := tplSource(c.Content)
	_, depth := tplCount(c.Content)
	resetWorld(env.Dir)
	svc := newService("de", "wikipedia.org", nil, "upload", "https://math")
	bad := ""
	evals := 0
	failed := ""
	sent := map[string]int{}
	tr := installTransport(func(r fakeReq) fakeResp {
		u, err := url.Parse(r.URL)
		if err != nil || u.Scheme != "https" || u.Host != "de.wikipedia.org" || u.Path != "/w/api.php" {
			bad = "request to " + r.URL
			return fakeResp{Status: 400}
		}
		q, err := url.ParseQuery(u.RawQuery)
		if err != nil || q.Get("action") != "expandtemplates" || q.Get("prop") != "wikitext" || q.Get("format") != "json" {
			bad = "request to " + r.URL
			return fakeResp{Status: 400}
		}
		text := q.Get("text")
		sent[text]++
		if !strings.HasPrefix(text, "{{") || !strings.HasSuffix(text, "}}") {
			bad = fmt.Sprintf("evaluation of %q", text)
			return fakeResp{Status: 400}
		}
		evals++
		if c.Fail == evals {
			failed = text
			if c.Garbage {
				return garbageResp(r.URL)
			}
			return fakeResp{Status: 500, Body: []byte("no")}
		}
		out, rest := serverExpand(text[2:])
		if rest != "" {
			bad = fmt.Sprintf("evaluation of %q, which is not one template", text)
		}
		return okResp(templateJson(out))
	})
	var classes []string
	tk := parser.NewTokenizer(svc)
	art, err := tk.Tokenize(src, "T")
	tr.take()
	if bad != "" {
		return fail("%q: %s", src, bad)
	}
	if c.Fail > 0 && evals >= c.Fail {
		if err == nil {
			return fail("%q: evaluation %d failed, but no error", src, c.Fail)
		}
		classes = append(classes, "failing")
		sent[failed]-- // next time it is evaluated again, and only it and what has not been asked for yet
		tk = parser.NewTokenizer(svc)
		art, err = tk.Tokenize(src, "T")
		tr.take()
		if bad != "" {
			return fail("%q after a failure: %s", src, bad)
		}
	}
	if err != nil {
		return fail("%q: %v", src, err)
	}
	for s, k := range sent {
		if k > 1 {
			return fail("%q: template %q evaluated %d times by the server", src, s, k)
		}
	}
	if strings.Contains(src, "{{cut|") {
		return Result{Classes: append(classes, "ends")} // only that it ends, see KNOWN_FINDINGS for the result
	}
	want := tplEval(c.Content)
	if squash(art.Content) != squash(want) {
		return fail("%q: evaluated to %q instead of %q", src, trunc(art.Content, 400), trunc(want, 400))
	}
	// once more: everything is in the cache
	tk = parser.NewTokenizer(svc)
	art2, err := tk.Tokenize(src, "T")
	if reqs := tr.take(); len(reqs) > 0 || err != nil {
		return fail("%q: second evaluation: %d requests, %v", src, len(reqs), err)
	}
	if art2.Content != art.Content {
		return fail("%q: second evaluation differs: %q, %q", src, art.Content, art2.Content)
	}
	if c.Spoil && len(sent) > 0 {
		classes = append(classes, "spoiled")
		spoilCache(len(src))
		c.Fail = 0
		was := len(sent)
		clear(sent)
		tk = parser.NewTokenizer(svc)
		art3, err := tk.Tokenize(src, "T")
		tr.take()
		if err != nil || art3.Content != art.Content {
			return fail("%q: evaluation with useless cached answers: %v, %q instead of %q", src, err, art3, art.Content)
		}
		for s, k := range sent {
			if k > 1 {
				return fail("%q: template %q evaluated %d times by the server to replace its useless cached answer", src, s, k)
			}
		}
		if len(sent) != was {
			return fail("%q: %d instead of %d useless cached answers replaced", src, len(sent), was)
		}
	}
	return Result{NonTrivial: depth > 1, Classes: append(classes, fmt.Sprintf("depth:%d", depth))}
}

// squash makes whitespace irrelevant (cleaning may trim it).
func squash(s string) string {
	s = strings.ReplaceAll(s, parser.MARKER_PARAGRAPH, " ")
	return strings.Join(strings.Fields(s), " ")
}

// serverExpand expands the template whose text starts after its opening braces, like the real API: inner templates
// first, arguments split at the pipes of this level.
func serverExpand(s string) (out, rest string) {
	parts := []string{""}
	for {
		switch {
		case s == "":
			return "(unclosed)", "x"
		case strings.HasPrefix(s, "{{"):
			var v string
			v, s = serverExpand(s[2:])
			parts[len(parts)-1] += v
		case strings.HasPrefix(s, "}}"):
			return tplExpand(parts[0], parts[1:]), s[2:]
		case s[0] == '|':
			parts = append(parts, "")
			s = s[1:]
		default:
			parts[len(parts)-1] += s[:1]
			s = s[1:]
		}
	}
}

func init() {
	register(&Prop{
		ID: "C07", Quick: 8000, Thorough: 200000,
		Rule: "a wiki with 1-4 generated pages (special characters, redirects) and 1-8 article requests against a server that may fail; non-trivial = at least one article was retrieved",
	}, genArt, runArt)
	register(&Prop{
		ID: "C08", Quick: 8000, Thorough: 200000,
		Rule:        "1-4 images with generated names and redirects available on a generated subset of 1-3 wikis, up to 4 download calls with failing requests, against a model of requests and cached files; non-trivial = at least one image was downloaded",
		Assumptions: []string{"file names contain no colon (MediaWiki forbids it)", "an image redirects to the same name on every wiki that knows it"},
	}, func(t *rapid.T) imgCase { return genImgs(t, false) }, runImgs)
	register(&Prop{
		ID: "C09", Quick: 8000, Thorough: 200000,
		Rule: "1-4 formulas rendered up to 8 times with each of the three converters against a server failing at generated steps; non-trivial = a rendering served from the cache",
	}, genMath, runMath)
	register(&Prop{
		ID: "C10", Quick: 8000, Thorough: 300000,
		Rule:        "texts with templates nested up to three levels against a server whose expansion is computable (keeps, duplicates or drops arguments), compared with the direct evaluation of the tree; non-trivial = nested templates",
		Assumptions: []string{"whitespace is not compared"},
	}, genTpl, runTpl)
	register(&Prop{
		ID: "C11", Quick: 2400, Thorough: 60000,
		Rule: "downloads of images of all file types with generated conversion settings and stub commands that record what was applied to which content; non-trivial = a command ran",
	}, func(t *rapid.T) imgCase { return genImgs(t, true) }, runImgCommands)
}
