package main

import (
	"crypto/md5"
	"fmt"
	"hash/fnv"
	"net/url"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"
	"time"

	"pgregory.net/rapid"
)

// ---- C28-C31: whole books -------------------------------------------------------------------------------------------
//
// The real command line tool creates books from generated articles; everything it can reach is a fake web. The stand-in
// for pandoc puts the pages it is given one after the other, so the book can be read page by page.

type bookArt struct {
	Title  string
	Blocks []Nd
}

type bookCase struct {
	Preset   int
	Svg      bool // SVG files are converted to PNG
	Proc     bool // images are processed
	Arts     []bookArt
	Order    []int
	Cmd      string // project, article, standalone (the latter two only with one article)
	Type     string
	Delay    int // seed of the response times, 0 = none
	Steps    []bookStep
	Cache    string `json:",omitempty"` // name of the cache directory
	Race     bool   `json:",omitempty"` // with the race detector
	Log      string `json:",omitempty"` // level of the log output
	Math     string `json:",omitempty"` // converter of formulas, if not the default one: none, template
	Evict    string `json:",omitempty"` // strategy of the cache, if not the default one
	RelCache bool   `json:",omitempty"` // the cache directory is given relative to the configuration file
}

// bookStep is one run of wiki2book or something that happens between two runs.
type bookStep struct {
	Kind    string // run, fail, kill, remove, age
	Workers int
	Target  string // fail: what fails; kill: request, command, time; run: "", offline, cwd, stats
	Mode    string // fail: how
	I       int
	Old     bool // there already is an output file
}

func bookTitle(t *rapid.T, n int) string {
	s := pick(t, []string{"Foo", "foo", "Foo bar", "C++", "AC/DC", "Foo (Bar)", "Ü 漢", "a'b", "50%", "Wer?", "A & B", "Foo_bar", "Foo: bar", ".a", "x.html", "..", "$1", "a=b", "#", strings.Repeat("lang ", 20) + "x", strings.Repeat("Жук ", 34), "q" + strings.Repeat("a?", 80), "A\"b", "1;2", "a*", "-o"})
	return fmt.Sprintf("%s %d", s, n)
}

func (c bookCase) cacheDir(env *Env) string {
	if c.Cache == "" {
		return filepath.Join(env.Dir, "cache")
	}
	return filepath.Join(env.Dir, "c", c.Cache)
}

func genBook(steps func(t *rapid.T) []bookStep, maxArts int) func(t *rapid.T) bookCase {
	return func(t *rapid.T) bookCase {
		c := bookCase{Preset: uni(t, len(docPresets)), Svg: oneIn(t, 2), Proc: oneIn(t, 2), Cmd: "project", Type: pick(t, []string{"epub2", "epub3"})}
		c.Cache = pick(t, []string{"cache", "cache", "my cache", "50% cache", "a:b", "it's", "Ü", "x*y?", "$HOME", "a&b <c>", "#1"})
		bb := map[string]int{"P": 6, "H": 2, "L": 2, "T": 1, "F": 3, "G": 1, "R": 1, "X": 2, "Y": 1}
		bi := map[string]int{"t": 10, "f": 2, "l": 2, "r": 1, "m": 2, "i": 2, "x": 2}
		g := &dgen{t: t, preset: c.Preset, p: docPresets[c.Preset], wb: bb, wi: bi, noSpan: true}
		n := 1 + uni(t, maxArts)
		g.wb, g.wi = map[string]int{"P": 2, "F": 3, "G": 1}, map[string]int{"t": 4, "m": 2, "i": 2, "x": 2}
		shared := g.article(1, 3)
		shared[0].J = 1
		g.wb, g.wi = bb, bi
		for i := 0; i < n; i++ {
			a := bookArt{Title: bookTitle(t, i)}
			if i > 0 && oneIn(t, 6) { // nearly the title of another article
				a.Title = c.Arts[uni(t, i)].Title
				switch uni(t, 4) {
				case 0:
					a.Title = strings.ToUpper(a.Title)
				case 1:
					a.Title = strings.ToLower(a.Title)
				default:
					a.Title += pick(t, []string{".", "..", ".html", "é", "-", "'", "?", "!", ")", ".json"})
				}
				for _, b := range c.Arts {
					if b.Title == a.Title {
						a.Title = bookTitle(t, i)
					}
				}
			}
			own := g.article(1, 4)
			switch {
			case i > 0 && oneIn(t, 6):
				own = c.Arts[uni(t, i)].Blocks
			case oneIn(t, 2):
				own[0].J = 1
				s := append([]Nd{}, shared...)
				s = append(s, Nd{K: "P", J: 1, N: []Nd{{K: "ln", N: []Nd{{K: "t", T: "shared"}}}}})
				own = append(s, own...)
			}
			a.Blocks = own
			c.Arts = append(c.Arts, a)
			c.Order = append(c.Order, i)
		}
		if oneIn(t, 2) {
			c.Order = rapid.Permutation(c.Order).Draw(t, "o")
		}
		for oneIn(t, 2) && len(c.Order) < 12 {
			k := uni(t, len(c.Order)+1)
			c.Order = append(c.Order[:k], append([]int{uni(t, n)}, c.Order[k:]...)...)
		}
		if len(c.Order) == 1 {
			c.Cmd = pick(t, []string{"project", "article", "standalone"})
		}
		if !oneIn(t, 4) {
			c.Delay = 1 + uni(t, 1000)
		}
		c.Log = logLevel(t)
		c.Evict = pick(t, []string{"", "", "", "lru", "largest", "none"})
		c.RelCache = oneIn(t, 3)
		c.Math = pick(t, []string{"", "", "", "none", "template"})
		c.Steps = steps(t)
		return c
	}
}

// bookWorld is what the articles of a case consist of, and the server that knows them.
type bookWorld struct {
	c         bookCase
	version   int
	text      []string // wikitext per article
	want      []string // normal form of the expected page per article
	feat      map[string]int
	templates map[string]string
	images    map[string]bool // names of the files
	formulas  map[string]bool // ids
	instance  string          // of Wikipedia
	tplNames  []string
	imgNames  []string
	mathIds   []string

	mu      sync.Mutex
	agent   string // every run has its own user agent
	log     []string
	bad     string
	step    *bookStep
	hit     bool // the failure of the step has been met
	killAt  int
	killCh  chan struct{}
	offline bool
}

func newBookWorld(c bookCase) (*bookWorld, string) {
	w := &bookWorld{c: c, version: 1, templates: map[string]string{}, images: map[string]bool{}, formulas: map[string]bool{}, feat: map[string]int{}, instance: "en"}
	used := map[int]bool{}
	for _, i := range c.Order {
		used[i] = true
	}
	for i, a := range c.Arts {
		r := newDocR(docCase{Preset: c.Preset, Svg: c.Svg, Blocks: a.Blocks})
		text, want := r.document(a.Blocks)
		n, problem := normalHtml(want)
		if problem != "" {
			return nil, problem
		}
		if c.Math == "none" {
			n = shownMathRegex.ReplaceAllString(n, "images/$1.svg")
		}
		w.text, w.want = append(w.text, text), append(w.want, n)
		if !used[i] {
			continue
		}
		for k, v := range r.templates {
			w.templates[k] = v
		}
		shared := false
		for k := range r.images {
			shared = shared || w.images[k]
			w.images[k] = true
		}
		for _, m := range mathContents(text) {
			shared = shared || w.formulas[mathId(m)]
			w.formulas[mathId(m)] = true
		}
		for _, v := range r.templates {
			for _, m := range mathContents(v) {
				w.formulas[mathId(m)] = true
			}
		}
		if shared {
			w.feat["shared"]++
		}
		for k, v := range r.feat {
			w.feat[k] += v
		}
	}
	w.tplNames, w.imgNames, w.mathIds = sortedKeys(w.templates), sortedKeys(w.images), sortedKeys(w.formulas)
	return w, ""
}

var mathTagRegex = regexp.MustCompile(`(?s)<math[^>]*>(.*?)</math>`)

func mathContents(text string) []string {
	var out []string
	for _, m := range mathTagRegex.FindAllStringSubmatch(text, -1) {
		out = append(out, m[1])
	}
	return out
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// content of article i in the current version: every version gives the articles the content of another one.
func (w *bookWorld) content(i int) int {
	if w.version > 1 {
		return (i + w.version - 1) % len(w.c.Arts)
	}
	return i
}

func hash32(s string) int {
	h := fnv.New32a()
	_, _ = h.Write([]byte(s))
	return int(h.Sum32() >> 1)
}

func (w *bookWorld) imgContent(name string) string {
	return fmt.Sprintf("img<%s|v%d>%s", name, w.version, strings.Repeat(".", hash32(name)%3000))
}

func mathSvg(id string) string {
	a, b, st := mathSizes(id)
	return fmt.Sprintf(`<svg width="%s" height="%s" style="%s;" viewBox="0 0 10 10"></svg>`, a, b, st)
}

// mathFile: the images of formulas change with the version like all images.
func (w *bookWorld) mathFile(kind, id string) string {
	s := "png " + id
	if kind == "svg" {
		s = mathSvg(id)
	}
	if w.version > 1 {
		s += fmt.Sprintf("<!--v%d-->", w.version)
	}
	return s
}

const mathApi = "https://wikimedia.org/api/rest_v1/media/math"

// broken is the answer of a server when something fails.
func brokenResp(mode string, good fakeResp) fakeResp {
	switch mode {
	case "404":
		return fakeResp{Status: 404, Body: []byte("not found")}
	case "500":
		return fakeResp{Status: 500, Body: []byte("internal error")}
	case "conn":
		return fakeResp{ConnErr: true}
	case "cut":
		good.CutAt = max(1, len(good.Body)/2)
		return good
	case "garbage":
		return garbageResp(string(good.Body))
	}
	return fakeResp{Status: 200, Headers: map[string]string{"MediaWiki-API-Error": "missingtitle"}, Body: []byte(`{"error":{"code":"missingtitle"}}`)}
}

func (w *bookWorld) serve(r fakeReq) fakeResp {
	if w.c.Delay > 0 {
		time.Sleep(time.Duration(hash32(fmt.Sprint(w.c.Delay)+r.URL)%9) * time.Millisecond)
	}
	w.mu.Lock()
	defer w.mu.Unlock()
	if r.UserAgent != w.agent { // late request of a run that has ended
		return fakeResp{ConnErr: true}
	}
	w.log = append(w.log, r.Method+" "+r.URL+" "+r.Body)
	if w.offline {
		return fakeResp{ConnErr: true}
	}
	if w.killAt > 0 && len(w.log) == w.killAt {
		w.hit = true
		close(w.killCh)
		w.mu.Unlock()
		time.Sleep(20 * time.Millisecond)
		w.mu.Lock()
		return fakeResp{ConnErr: true}
	}
	kind, idx, resp := w.answer(r)
	if kind == "" {
		if w.bad == "" {
			w.bad = r.Method + " " + r.URL + " " + r.Body
		}
		return fakeResp{Status: 400}
	}
	if s := w.step; s != nil && s.Kind == "fail" && s.Target == kind && idx >= 0 {
		n := map[string]int{"article": len(w.c.Order), "template": len(w.tplNames), "page": len(w.imgNames), "image": len(w.imgNames), "mathpost": len(w.mathIds), "mathsvg": len(w.mathIds), "mathpng": len(w.mathIds)}[kind]
		target := s.I % max(1, n)
		if kind == "article" {
			target = w.c.Order[target]
		}
		if target == idx {
			w.hit = true
			switch {
			case s.Mode == "garbage" && (kind == "image" || kind == "mathpng"): // that these are no pictures cannot be seen
				return brokenResp("500", resp)
			case s.Mode == "garbage" && kind == "mathsvg":
				return okResp("Service temporarily unavailable")
			}
			if kind == "mathpost" && s.Mode == "cut" { // what is needed is in the header
				return brokenResp("500", resp)
			}
			return brokenResp(s.Mode, resp)
		}
	}
	return resp
}

func indexOf(l []string, s string) int {
	for i, x := range l {
		if x == s {
			return i
		}
	}
	return -1
}

// answer gives the kind of a request ("" = nothing in this world has this address), the number of what it asks for
// (-1: it does not exist at this host) and the answer.
func (w *bookWorld) answer(r fakeReq) (string, int, fakeResp) {
	u, err := url.Parse(r.URL)
	if err != nil {
		return "", 0, fakeResp{}
	}
	if r.Method == "POST" {
		q, err := url.ParseQuery(r.Body)
		if err != nil || r.URL != mathApi+"/check/tex" {
			return "", 0, fakeResp{}
		}
		f, ok := strings.CutPrefix(q.Get("q"), `{\displaystyle `)
		f, ok2 := strings.CutSuffix(f, "}")
		if !ok || !ok2 || !w.formulas[mathId(f)] {
			return "", 0, fakeResp{}
		}
		id := mathId(f)
		return "mathpost", indexOf(w.mathIds, id), fakeResp{Status: 200, Headers: map[string]string{"X-Resource-Location": id}, Body: []byte("{}")}
	}
	if p, ok := strings.CutPrefix(r.URL, mathApi+"/render/"); ok {
		kind, id, _ := strings.Cut(p, "/")
		if !w.formulas[id] {
			return "", 0, fakeResp{}
		}
		if kind == "svg" {
			return "mathsvg", indexOf(w.mathIds, id), okResp(w.mathFile("svg", id))
		}
		return "mathpng", indexOf(w.mathIds, id), okResp(w.mathFile("png", id))
	}
	q := u.Query()
	hosts := []string{"commons.wikimedia.org", "en.wikipedia.org"}
	articleHost := w.instance + ".wikipedia.org"
	if u.Path == "/w/api.php" && (u.Host == hosts[0] || u.Host == hosts[1] || u.Host == articleHost) {
		if text := q.Get("text"); q.Get("action") == "expandtemplates" && u.Host == articleHost {
			if !strings.HasPrefix(text, "{{") || !strings.HasSuffix(text, "}}") {
				return "", 0, fakeResp{}
			}
			args := strings.Split(text[2:len(text)-2], "|")
			name := strings.TrimSpace(args[0])
			res, ok := w.templates[name]
			if !ok {
				return "", 0, fakeResp{}
			}
			for i := 1; i < len(args); i++ {
				res = strings.ReplaceAll(res, fmt.Sprintf("{{{%d}}}", i), args[i])
			}
			return "template", indexOf(w.tplNames, name), okResp(templateJson(res))
		}
		page := q.Get("page")
		if name, ok := strings.CutPrefix(page, "File:"); ok && q.Get("action") == "parse" {
			i := indexOf(w.imgNames, name)
			if i < 0 {
				return "", 0, fakeResp{}
			}
			if u.Host == hosts[0] && hash32(name)%3 == 0 {
				return "page", -1, brokenResp("missing", fakeResp{})
			}
			return "page", i, okResp(articleJson("File:"+strings.ReplaceAll(name, "_", " "), "description"))
		}
		if q.Get("action") == "parse" && u.Host == articleHost {
			for i, a := range w.c.Arts {
				if under(a.Title) == page {
					title := strings.ReplaceAll(a.Title, "_", " ")
					if hash32(title)%4 == 0 {
						title += " (target of a redirect)"
					}
					return "article", i, okResp(articleJson(title, w.text[w.content(i)]))
				}
			}
		}
		return "", 0, fakeResp{}
	}
	if u.Host == "upload.wikimedia.org" {
		p := u.EscapedPath()
		name, err := url.PathUnescape(p[strings.LastIndex(p, "/")+1:])
		i := indexOf(w.imgNames, name)
		if err != nil || i < 0 {
			return "", 0, fakeResp{}
		}
		sum := fmt.Sprintf("%x", md5.Sum([]byte(name)))
		where := "commons"
		if hash32(name)%3 == 0 {
			where = "en"
		}
		if strings.HasPrefix(p, "/wikipedia/"+where+"/"+sum[:1]+"/"+sum[:2]+"/") {
			return "image", i, okResp(w.imgContent(name))
		}
		return "image", -1, fakeResp{Status: 404}
	}
	return "", 0, fakeResp{}
}

// wantImages: the files the pages refer to, and their originals.
func (w *bookWorld) wantImages() map[string]string {
	out := map[string]string{}
	for name := range w.images {
		ext := strings.ToLower(filepath.Ext(name))
		v := w.imgContent(name)
		switch {
		case ext == ".svg" && w.c.Svg:
			out[name] = v
			v = "svg(" + v + ")"
			if w.c.Proc {
				v = "proc(" + v + ")"
			}
			out[name+".png"] = v
		case ext != ".svg" && w.c.Proc:
			out[name] = "proc(" + v + ")"
		default:
			out[name] = v
		}
	}
	return out
}

var shownMathRegex = regexp.MustCompile(`images/([0-9a-f]{40})\.(?:png|svg)`)

// badImages compares the image folder of the cache with what the pages need.
func (w *bookWorld) badImages(dir string) string {
	got := map[string]string{}
	for k, v := range listDir(dir) {
		got[unescapeName(k)] = v
	}
	want := w.wantImages()
	shown := map[string]bool{}
	for _, i := range w.c.Order {
		for _, m := range shownMathRegex.FindAllStringSubmatch(w.want[w.content(i)], -1) {
			shown[m[1]] = true
		}
	}
	for id := range w.formulas { // of formulas that are not shown, e.g. in captions of ignored files, there may be files
		if c, ok := got[id+".png"]; ok && !shown[id] {
			want[id+".png"] = c
		} else if w.c.Math != "none" && shown[id] {
			want[id+".png"] = w.mathFile("png", id)
			if w.c.Math == "template" {
				want[id+".png"] = "math(" + w.mathFile("svg", id) + ")"
			}
		}
		if c, ok := got[id+".svg"]; ok && !shown[id] {
			want[id+".svg"] = c
		} else if shown[id] {
			want[id+".svg"] = w.mathFile("svg", id)
		}
	}
	return diffMaps(got, want)
}

var pageStart = "<?xml version"

// splitPages takes the output of the stand-in for pandoc apart.
func splitPages(s string) []string {
	parts := strings.Split(s, pageStart)
	return parts[1:]
}

// pages compares the book with the articles.
func (w *bookWorld) pages(book string) string {
	ps := splitPages(book)
	titles := func() []string {
		var ts []string
		for _, p := range ps {
			_, t, _ := strings.Cut(p, "<h1>")
			t, _, _ = strings.Cut(t, "</h1>")
			ts = append(ts, t)
		}
		return ts
	}
	if len(ps) != len(w.c.Order) {
		return fmt.Sprintf("the book has %d instead of %d articles: %q", len(ps), len(w.c.Order), titles())
	}
	for k, i := range w.c.Order {
		title := w.c.Arts[i].Title
		body, problem := docBody(ps[k], title)
		if problem != "" {
			return fmt.Sprintf("article %d should be %q: %s, titles: %q", k, title, problem, titles())
		}
		n, _ := normalHtml(body)
		if want := w.want[w.content(i)]; !matchesWild(n, want) {
			return fmt.Sprintf("article %d (%q): %s\nwikitext:\n%s\nexpected (normal form):\n%s\ngot:\n%s", k, title, diffAt(want, n), w.text[w.content(i)], want, n)
		}
	}
	return ""
}

func (c bookCase) usable() bookCase {
	if len(c.Order) != 1 {
		c.Cmd = "project"
	}
	if c.Cmd == "standalone" {
		a := c.Arts[c.Order[0]]
		a.Title = strings.NewReplacer("/", "_").Replace(a.Title)
		c.Arts = append([]bookArt{}, c.Arts...)
		c.Arts[c.Order[0]] = a
	}
	return c
}

// config is the configuration for the articles.
func (w *bookWorld) config(cacheDir string) map[string]any {
	p := docPresets[w.c.Preset%len(docPresets)]
	bin := os.Getenv("VH_BIN")
	convert := func(mode string, on bool) string {
		if !on {
			return ""
		}
		return filepath.Join(bin, "stub-convert") + " " + mode + " {INPUT} {OUTPUT}"
	}
	list := func(l []string) []any {
		out := []any{}
		for _, s := range l {
			out = append(out, s)
		}
		return out
	}
	converter := "wikimedia"
	if w.c.Math != "" {
		converter = w.c.Math
	}
	return map[string]any{
		"math-converter": converter, "command-template-math-svg-to-png": convert("math", true),
		"cache-dir": cacheDir, "file-prefixes": list(p.filePrefixes), "category-prefixes": list(p.categories),
		"ignored-templates": list(p.ignoredTemplates), "trailing-templates": list(p.trailingTemplates), "ignored-image-params": list(p.ignoredParams),
		"command-template-svg-to-png": convert("svg", w.c.Svg), "command-template-image-processing": convert("proc", w.c.Proc),
		"command-template-pdf-to-png": "", "command-template-webp-to-png": "",
		"pandoc-executable": filepath.Join(bin, "stub-pandoc"), "output-driver": "pandoc", "output-type": w.c.Type,
		"style-file": "", "cover-image": "", "pandoc-data-dir": "", "font-files": []any{}, "worker-threads": 5.0,
	}
}

func (w *bookWorld) titles() []any {
	var arts []any
	for _, i := range w.c.Order {
		arts = append(arts, w.c.Arts[i].Title)
	}
	return arts
}

func runBook(env *Env, c bookCase, rule func(w *bookWorld, seen map[string]int) Result) Result {
	c = c.usable()
	env.Race, env.Log = c.Race, c.Log
	w, problem := newBookWorld(c)
	if problem != "" {
		return infra("expected HTML: %s", problem)
	}
	bin := os.Getenv("VH_BIN")
	cwd, prj, cacheDir, outDir := mkdir(env.Dir, "cwd"), mkdir(env.Dir, "prj"), c.cacheDir(env), mkdir(env.Dir, "out")
	cfg := w.config(cacheDir)
	if c.Evict != "" {
		cfg["cache-eviction-strategy"] = c.Evict
	}
	cfgFile := filepath.Join(env.Dir, "config.json")
	if c.RelCache {
		rel, err := filepath.Rel(env.Dir, cacheDir)
		must(err)
		cfg["cache-dir"] = rel
	}
	writeJson(env, cfgFile, cfg)
	prjFile := filepath.Join(prj, "project.json")
	writeJson(env, prjFile, map[string]any{"metadata": map[string]any{"title": "T"}, "articles": w.titles()})
	if c.Cmd == "standalone" {
		must(os.WriteFile(filepath.Join(cwd, c.Arts[c.Order[0]].Title+".mediawiki"), []byte(w.text[w.content(c.Order[0])]), 0o644))
	}
	web := getWeb(env.Root)
	web.set(w.serve)
	defer web.set(nil)
	seen := map[string]int{}
	fresh := true // nothing of the current version is cached
	complete := false
	var firstUrls map[string]bool
	for si := range c.Steps {
		s := c.Steps[si]
		where := fmt.Sprintf("step %d %+v", si, s)
		if s.Kind == "remove" {
			removeSome(cacheDir, s)
			complete = false
			seen["removed"]++
			continue
		}
		if s.Kind == "age" {
			if c.Cmd == "standalone" {
				continue
			}
			old := time.Now().Add(-(40320 + 60) * time.Minute)
			must(filepath.Walk(cacheDir, func(path string, info os.FileInfo, err error) error {
				if err != nil || info.IsDir() {
					return err
				}
				return os.Chtimes(path, old, old)
			}))
			w.version++
			fresh, complete = true, false
			seen["aged"]++
			continue
		}
		if (s.Target == "offline" || s.Target == "cwd" || s.Target == "stats") && s.Kind == "run" && !complete {
			s.Target = "" // something is missing, so the web is needed
		}
		outFile := filepath.Join(outDir, fmt.Sprintf("book%d.epub", si))
		if s.Old {
			must(os.WriteFile(outFile, []byte("old book"), 0o644))
		}
		w.mu.Lock()
		w.agent = fmt.Sprintf("run-%d", si)
		w.log, w.hit, w.bad, w.step, w.killAt, w.killCh, w.offline = nil, false, "", &s, 0, nil, s.Target == "offline" || s.Target == "cwd" || s.Target == "stats"
		var extra []string
		var kill chan struct{}
		if s.Kind == "kill" {
			kill = make(chan struct{})
			w.killCh = kill
			switch s.Target {
			case "request":
				w.killAt = 1 + s.I
			case "command":
				kf := filepath.Join(env.Dir, "stub.kill")
				must(os.WriteFile(kf, []byte(fmt.Sprint(1+s.I)), 0o644))
				extra = append(extra, "VH_STUB_KILL="+kf)
			}
		}
		w.mu.Unlock()
		if s.Kind == "kill" && s.Target == "time" {
			time.AfterFunc(time.Duration(s.I)*time.Millisecond, func() { close(kill) })
		}
		args := []string{"-c", cfgFile, "-o", outFile, fmt.Sprintf("--worker-threads=%d", max(1, s.Workers)), fmt.Sprintf("--user-agent-template=run-%d", si)}
		dir := cwd
		failFile := filepath.Join(env.Dir, "stub.fail")
		if s.Kind == "fail" && s.Target == "convert" {
			must(os.WriteFile(failFile, []byte(fmt.Sprint(1+s.I)), 0o644))
			extra = append(extra, "VH_STUB_FAIL="+failFile)
		}
		if s.Kind == "fail" && s.Target == "pandoc" && s.Mode == "cut" {
			extra = append(extra, "VH_STUB_PANDOC_FAIL=partial")
		} else if s.Kind == "fail" && s.Target == "pandoc" {
			args = append(args, "--pandoc-executable="+filepath.Join(bin, "stub-fail"))
		}
		isStats := s.Kind == "run" && s.Target == "stats"
		if isStats {
			outFile += ".json"
			args = append(args, "-o", outFile, "--output-type=stats-json", "--output-driver=internal")
		}
		if s.Kind == "run" && (s.Target == "cwd" || s.Target == "force") && c.Cmd != "standalone" {
			dir = cacheDir
		}
		if s.Kind == "run" && s.Target == "force" { // existing pages are not used
			args = append(args, "--force-regenerate-html")
			for f := range listDir(filepath.Join(cacheDir, "html")) {
				must(os.WriteFile(filepath.Join(cacheDir, "html", f), []byte("old page"), 0o644))
			}
			if dir == cacheDir {
				seen["forced"]++
			}
		}
		switch c.Cmd {
		case "project":
			if dir == cacheDir { // the tool works in the directory of the project
				writeJson(env, filepath.Join(cacheDir, "project.json"), map[string]any{"metadata": map[string]any{"title": "T"}, "articles": w.titles()})
				args = append(args, "project", "project.json")
			} else {
				args = append(args, "project", prjFile)
			}
		case "article":
			args = append(args, "article", "--", c.Arts[c.Order[0]].Title)
		default:
			args = append(args, "standalone", "--", c.Arts[c.Order[0]].Title+".mediawiki")
		}
		_ = os.Remove(filepath.Join(env.Dir, "stub.log"))
		if s.Kind == "fail" && s.Target == "disk" {
			env.FileLimit = 1 + s.I
		}
		res := runCli(env, dir, extra, kill, args...)
		env.FileLimit = 0
		w.mu.Lock()
		w.step, w.killCh, w.killAt = nil, nil, 0
		log, bad, hit := w.log, w.bad, w.hit
		w.log = nil
		w.mu.Unlock()
		if report := takeRaces(env); report != "" {
			return fail("%s: the articles are not processed independently of each other: data race\n%s", where, trunc(report, 3000))
		}
		if res.TimedOut {
			return fail("%s: wiki2book did not end\n%s", where, lastLines(res.Out, 30))
		}
		if bad != "" {
			return fail("%s: wiki2book asked for something that no article needs: %s", where, bad)
		}
		old := ""
		if s.Old {
			old = "old book"
		}
		if s.Kind == "fail" && s.Target == "convert" {
			b, _ := os.ReadFile(failFile)
			hit = string(b) == "0"
		}
		if s.Kind == "fail" && s.Target == "pandoc" {
			hit = true
		}
		if s.Kind == "fail" && s.Target == "disk" { // either something could not be written, or everything is right
			hit = res.Code != 0
		}
		if res.Signaled && s.Kind == "kill" {
			seen["killed-"+s.Target]++
			fresh = false
			continue
		}
		if s.Kind == "fail" && hit {
			seen["failed-"+s.Target]++
			if res.Code == 0 || strings.Contains(res.Out, "Successfully created") {
				return fail("%s: wiki2book reports success (exit code %d) although something is missing\n%s", where, res.Code, lastLines(res.Out, 20))
			}
			b, err := os.ReadFile(outFile)
			if err == nil && (!s.Old || string(b) != old) || err != nil && s.Old {
				return fail("%s: the failing run leaves the output file %q (%v), before it was %q", where, trunc(string(b), 200), err, old)
			}
			fresh = false
			continue
		}
		if res.Code != 0 || res.Signaled || !strings.Contains(res.Out, "Successfully created") {
			return fail("%s: wiki2book fails (exit code %d)\n%s", where, res.Code, lastLines(res.Out, 40))
		}
		b, err := os.ReadFile(outFile)
		if err != nil {
			return fail("%s: no output file: %v\n%s", where, err, lastLines(res.Out, 20))
		}
		if w.offline && len(log) > 0 {
			return fail("%s: a request although everything is in the cache: %s", where, log[0])
		}
		if isStats {
			seen["stats"]++
			continue
		}
		if d := w.pages(string(b)); d != "" {
			return fail("%s: %s", where, d)
		}
		if d := w.badImages(filepath.Join(cacheDir, "images")); d != "" {
			return fail("%s: images: %s", where, d)
		}
		urls := map[string]int{}
		for _, l := range log {
			urls[l]++
			if urls[l] > 1 && s.Workers <= 1 {
				return fail("%s: the same request twice: %s", where, l)
			}
			if urls[l] > 1 && strings.Contains(l, "//upload.wikimedia.org/") {
				return fail("%s: the same image is downloaded twice: %s", where, l)
			}
		}
		all := map[string]bool{}
		for k := range urls {
			all[k] = true
		}
		if fresh && len(c.Steps) > 1 {
			if firstUrls == nil {
				firstUrls = all
			} else if d := diffSets(all, firstUrls); d != "" {
				return fail("%s: requests with an outdated cache compared to those without cache: %s", where, d)
			}
		}
		if !fresh && len(log) == 0 {
			seen["no-request"]++
		}
		fresh, complete = false, true
		if w.offline {
			seen["offline"]++
		}
		if s.Kind == "run" && s.Target == "cwd" && dir == cacheDir {
			seen["existing-html"]++
		}
		seen["book"]++
		if c.Race && haveRaceTool() {
			seen["race-detector"]++
		}
		if s.Workers > 1 {
			seen["parallel"]++
		}
	}
	dup := map[int]bool{}
	for _, i := range c.Order {
		if dup[i] {
			seen["duplicate"]++
		}
		dup[i] = true
	}
	if w.feat["shared"] > 0 {
		seen["shared-resource"]++
	}
	return rule(w, seen)
}

// removeSome removes a part of the cache.
func removeSome(cacheDir string, s bookStep) {
	if s.Target != "" {
		for _, d := range strings.Split(s.Target, ",") {
			must(os.RemoveAll(filepath.Join(cacheDir, d)))
		}
		return
	}
	must(filepath.Walk(cacheDir, func(path string, info os.FileInfo, err error) error {
		if err != nil || info.IsDir() {
			return err
		}
		if (hash32(fmt.Sprint(s.I)+filepath.Base(path)))%3 == 0 {
			return os.Remove(path)
		}
		return nil
	}))
}

func seenClasses(seen map[string]int) []string { return sortedKeys(seen) }

func bookProp(id string, quick, thorough int, rule string, steps func(t *rapid.T) []bookStep, maxArts int, nonTrivial func(w *bookWorld, seen map[string]int) bool, assumptions ...string) {
	register(&Prop{ID: id, Quick: quick, Thorough: thorough, Rule: rule, Assumptions: assumptions, Confirm: 12},
		func(t *rapid.T) bookCase {
			c := genBook(steps, maxArts)(t)
			if c.Race = id == "C35"; c.Race {
				c.Cache = "" // the cache directory is a matter of the other properties
			}
			return c
		},
		func(env *Env, c bookCase) Result {
			return runBook(env, c, func(w *bookWorld, seen map[string]int) Result {
				return Result{NonTrivial: nonTrivial(w, seen), Classes: seenClasses(seen)}
			})
		})
}

func init() {
	workers := func(t *rapid.T) int { return pick(t, []int{1, 1, 2, 3, 5, 8}) }
	bookProp("C28", 400, 20000, "books of several articles with shared images, templates and formulas, articles listed more than once, one to eight workers and random response times; non-trivial = several articles",
		func(t *rapid.T) []bookStep { return []bookStep{{Kind: "run", Workers: workers(t), Old: oneIn(t, 4)}} }, 7,
		func(w *bookWorld, seen map[string]int) bool { return len(w.c.Order) > 1 })
	targets := []string{"article", "article", "template", "template", "page", "image", "image", "mathpost", "mathsvg", "mathpng", "convert", "convert", "pandoc"}
	failing := func(t *rapid.T) bookStep {
		if oneIn(t, 8) {
			return bookStep{Kind: "fail", Workers: workers(t), Target: "disk", I: pick(t, []int{0, 30, 100, 300, 600, 1000, 2000, 4000, 8000}) + uni(t, 100), Old: oneIn(t, 2)}
		}
		return bookStep{Kind: "fail", Workers: workers(t), Target: pick(t, targets), Mode: pick(t, []string{"404", "500", "conn", "cut", "missing", "garbage"}), I: uni(t, 8), Old: oneIn(t, 2)}
	}
	bookProp("C35", 120, 8000, "as C28, but every book has two to eight workers, is created in several runs (new, complete, incomplete and outdated cache, failing requests and conversions, statistics) and wiki2book is built with the race detector; non-trivial = several articles processed at the same time",
		func(t *rapid.T) []bookStep {
			many := func() int { return pick(t, []int{2, 2, 3, 4, 5, 8}) }
			s := []bookStep{{Kind: "run", Workers: many()}}
			for oneIn(t, 2) && len(s) < 6 {
				switch uni(t, 4) {
				case 0:
					s = append(s, bookStep{Kind: "run", Target: pick(t, []string{"stats", "offline"}), Workers: many()})
				case 1:
					s = append(s, bookStep{Kind: "remove", I: uni(t, 1000), Target: pick(t, []string{"", "images", "templates", "math"})}, bookStep{Kind: "run", Workers: many()})
				case 2:
					s = append(s, bookStep{Kind: "age"}, bookStep{Kind: "run", Workers: many()})
				default:
					s = append(s, bookStep{Kind: "age"}, failing(t), bookStep{Kind: "run", Workers: many()})
				}
			}
			return s
		}, 7,
		func(w *bookWorld, seen map[string]int) bool { return len(w.c.Order) > 1 && seen["parallel"] > 0 })
	bookProp("C29", 350, 15000, "one to three runs in which an article, template, image, formula, conversion or pandoc fails in some way, then one without failure; non-trivial = a failure that has been met",
		func(t *rapid.T) []bookStep {
			var s []bookStep
			if oneIn(t, 3) { // everything is there, but outdated
				s = append(s, bookStep{Kind: "run", Workers: workers(t)}, bookStep{Kind: "age"})
			}
			s = append(s, failing(t))
			for n := len(s) + 2; len(s) < n && oneIn(t, 3); {
				s = append(s, failing(t))
			}
			return append(s, bookStep{Kind: "run", Workers: workers(t), Old: oneIn(t, 2)})
		}, 4,
		func(w *bookWorld, seen map[string]int) bool {
			for k := range seen {
				if strings.HasPrefix(k, "failed-") {
					return true
				}
			}
			return false
		})
	bookProp("C30", 250, 10000, "histories of runs with complete, partly removed and outdated cache, with and without web; non-trivial = at least two books",
		func(t *rapid.T) []bookStep {
			s := []bookStep{{Kind: "run", Workers: workers(t)}}
			for i := 1 + uni(t, 4); i > 0; i-- {
				switch uni(t, 6) {
				case 0, 1:
					s = append(s, bookStep{Kind: "run", Target: "offline", Workers: workers(t), Old: oneIn(t, 3)})
				case 2:
					s = append(s, bookStep{Kind: "run", Target: pick(t, []string{"cwd", "stats", "force"}), Workers: workers(t)})
				case 3, 4:
					s = append(s, bookStep{Kind: "remove", I: uni(t, 1000), Target: pick(t, []string{"", "", "images", "articles", "templates", "math", "html", "images,articles", "math,html"})},
						bookStep{Kind: "run", Workers: workers(t)})
				default:
					s = append(s, bookStep{Kind: "age"}, bookStep{Kind: "run", Workers: workers(t)})
				}
			}
			return s
		}, 3,
		func(w *bookWorld, seen map[string]int) bool { return seen["book"] > 1 })
	bookProp("C31", 350, 15000, "one to four runs that are killed at a request, within a conversion or pandoc, or at some time, then a complete run; non-trivial = a run has been killed",
		func(t *rapid.T) []bookStep {
			var s []bookStep
			if oneIn(t, 3) { // everything is there, but outdated
				s = append(s, bookStep{Kind: "run", Workers: workers(t)}, bookStep{Kind: "age"})
			}
			for first := len(s); len(s) == first || len(s) < first+4 && oneIn(t, 2); {
				k := bookStep{Kind: "kill", Workers: workers(t), Target: pick(t, []string{"request", "command", "time"})}
				switch k.Target {
				case "request":
					k.I = uni(t, 25)
				case "command":
					k.I = uni(t, 8)
				default:
					k.I = 5 + uni(t, 120)
				}
				s = append(s, k)
				if oneIn(t, 5) {
					s = append(s, failing(t))
				}
			}
			return append(s, bookStep{Kind: "run", Workers: workers(t), Old: oneIn(t, 2)})
		}, 4,
		func(w *bookWorld, seen map[string]int) bool {
			return seen["killed-request"]+seen["killed-command"]+seen["killed-time"] > 0
		})
}
