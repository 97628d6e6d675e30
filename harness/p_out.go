package main

import (
	"encoding/json"
	"fmt"
	"net/url"
	"os"
	"path/filepath"
	"regexp"
	"strings"

	"pgregory.net/rapid"
)

// ---- C34: where the book is written ----------------------------------------------------------------------------------

type outCase struct {
	Cmd      string // project, article, standalone
	Type     string // epub2, epub3, stats-json, stats-txt
	Internal bool
	Project  string // how the project file is given: "cwd", "rel", "abs"
	Cli      *outPath
	Prj      *outPath
	Title    string // name of the article or of the file (without extension)
	Ext      string
	Others   bool // there are other files at all places
	Runs     int
	Dir      string // name of the working and the project directory
	Log      string `json:",omitempty"` // level of the log output
	Fails    string // what makes the runs fail: "article" (it does not exist), "pandoc" (it fails), "partial" (it fails after a part of the file), "style" (it is a directory) or nothing
	Limit    int    `json:",omitempty"` // maximum size of a file of the first run, so maybe something cannot be written
}

// outPath is a path given by the user.
type outPath struct {
	Kind string // file, dir
	How  string // rel, dotrel, sub, newsub, abs, absnew, parent
	Name string
	Old  bool // the file exists, or (dir) a book in it
	Bad  bool // one of the parents is a file
	Link bool `json:",omitempty"` // it is a symbolic link
}

func genOut(t *rapid.T) outCase {
	c := outCase{Cmd: pick(t, []string{"project", "project", "article", "standalone"}), Type: pick(t, []string{"epub2", "epub3", "stats-json", "stats-txt"}), Project: pick(t, []string{"cwd", "rel", "abs"}), Others: oneIn(t, 2), Runs: 1 + uni(t, 2), Log: logLevel(t)}
	c.Internal = strings.HasPrefix(c.Type, "stats") || c.Type == "epub3" && oneIn(t, 2)
	ext := map[string]string{"epub2": ".epub", "epub3": ".epub", "stats-json": ".json", "stats-txt": ".txt"}[c.Type]
	c.Dir = pick(t, []string{"cwd", "my dir", "50% off", "a:b", "Ü", "it's", "x*", "-d"})
	gen := func() *outPath {
		if oneIn(t, 3) {
			return nil
		}
		p := &outPath{Kind: pick(t, []string{"file", "file", "dir"}), How: pick(t, []string{"rel", "dotrel", "sub", "newsub", "abs", "absnew", "parent"}), Old: oneIn(t, 3), Bad: oneIn(t, 12)}
		p.Name = pick(t, []string{"book", "my book", "Ü 漢", "a.b", "100%", "it's", "x=y", "$HOME", "~", "{OUTPUT}", "book.epub", ".hidden", "*", "a&b", "ebook", "stats"})
		if p.Kind == "dir" {
			p.Bad, p.Link = false, oneIn(t, 3)
		} else {
			p.Link = p.Old && !p.Bad && oneIn(t, 3)
			p.Name += ext
			if strings.HasPrefix(c.Type, "epub") {
				p.Name = strings.TrimSuffix(p.Name, ext) + pick(t, []string{".epub", ".epub", "", ".zip", ".json"})
			}
		}
		return p
	}
	c.Cli = gen()
	if c.Cmd == "project" {
		if c.Prj = gen(); c.Prj != nil {
			c.Prj.Name = "p" + c.Prj.Name
		}
	}
	c.Title = pick(t, []string{"Foo", "Foo bar", "Ü 漢", "a.b", "1.2.3", "C++", "it's", "x=y", "100%", "A & B", "README", strings.Repeat("long ", 46) + "x"})
	c.Ext = pick(t, []string{".mediawiki", ".txt", ".wiki", ""})
	if c.Ext == "" && strings.Contains(c.Title, ".") {
		c.Ext = ".wiki"
	}
	if oneIn(t, 6) {
		if c.Cmd != "standalone" {
			c.Fails = "article"
		}
		if !c.Internal && (c.Fails == "" || oneIn(t, 2)) {
			c.Fails = pick(t, []string{"pandoc", "partial"})
		}
		if c.Internal && c.Type == "epub3" && (c.Fails == "" || oneIn(t, 2)) {
			c.Fails = "style"
		}
	} else if oneIn(t, 6) {
		c.Limit = 1 + pick(t, []int{0, 50, 100, 200, 400, 800, 1600, 3000, 6000}) + uni(t, 100)
	}
	return c
}

type outWorld struct {
	root, cwd, prj string
}

// resolve prepares the place a path leads to and gives the path as argument, as absolute path and as expected file.
func (w outWorld) resolve(p *outPath, base, id, defaultName string) (arg, file string) {
	rel := map[string]string{"rel": "", "dotrel": ".", "sub": "sub " + id, "newsub": "new " + id + "/a/b", "parent": "../side " + id}[p.How]
	abs := filepath.Join(base, rel)
	switch p.How {
	case "abs":
		abs = filepath.Join(w.root, "abs "+id)
	case "absnew":
		abs = filepath.Join(w.root, "absnew "+id, "x", "y")
	}
	isNew := p.How == "newsub" || p.How == "absnew"
	if p.Bad {
		first := filepath.Join(base, "new "+id)
		if p.How == "absnew" {
			first = filepath.Join(w.root, "absnew "+id)
		}
		if !isNew {
			must(os.MkdirAll(abs, 0o755))
			first = filepath.Join(abs, "blocker")
			abs, rel = filepath.Join(first, "x"), filepath.Join(rel, "blocker", "x")
		}
		must(os.MkdirAll(filepath.Dir(first), 0o755))
		must(os.WriteFile(first, []byte("a file"), 0o644))
	} else if !isNew {
		must(os.MkdirAll(abs, 0o755))
	}
	full := filepath.Join(abs, p.Name)
	arg = full
	if p.How != "abs" && p.How != "absnew" {
		arg = filepath.Join(rel, p.Name)
		if p.How == "dotrel" {
			arg = "./" + arg
		}
	}
	file = full
	if p.Bad {
		return
	}
	if p.Kind == "dir" {
		if p.Link {
			target := mkdir(w.root, "target "+id)
			must(os.MkdirAll(filepath.Dir(full), 0o755))
			must(os.Symlink(target, full))
		} else {
			must(os.MkdirAll(full, 0o755))
		}
		file = filepath.Join(full, defaultName)
	}
	if p.Old {
		must(os.MkdirAll(filepath.Dir(file), 0o755))
		if p.Link && p.Kind == "file" {
			_ = os.Remove(file)
			must(os.Symlink(filepath.Join(mkdir(w.root, "target "+id), "old book"), file))
		}
		must(os.WriteFile(file, []byte("old "+strings.Repeat("content ", 3000)), 0o644))
	}
	return
}

func treeOf(dir string, skip ...string) map[string]string {
	out := map[string]string{}
	must(filepath.Walk(dir, func(p string, info os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		for _, s := range skip {
			if p == s {
				if info.IsDir() {
					return filepath.SkipDir
				}
				return nil
			}
		}
		if info.IsDir() {
			out[p] = "dir"
			return nil
		}
		if info.Mode()&os.ModeSymlink != 0 {
			target, err := os.Readlink(p)
			out[p] = "link " + target
			return err
		}
		b, err := os.ReadFile(p)
		out[p] = "file " + string(b)
		return err
	}))
	return out
}

var createdRegex = regexp.MustCompile(`Successfully created (\S+) file '(.*)'`)

func runOut(env *Env, c outCase) Result {
	w := outWorld{root: mkdir(env.Dir, "root")}
	w.cwd = mkdir(w.root, c.Dir)
	w.prj = w.cwd
	if c.Project != "cwd" && c.Cmd == "project" {
		w.prj = mkdir(w.root, c.Dir+" project")
	}
	cacheDir := filepath.Join(env.Dir, "c", c.Dir, "cache")
	if len(c.Title)%2 == 0 {
		cacheDir = filepath.Join(env.Dir, "c", c.Dir)
	}
	cfg := map[string]any{"cache-dir": cacheDir, "pandoc-executable": filepath.Join(os.Getenv("VH_BIN"), "stub-pandoc"), "output-type": c.Type, "output-driver": "pandoc",
		"command-template-svg-to-png": "", "command-template-image-processing": "", "command-template-pdf-to-png": "", "command-template-webp-to-png": "", "style-file": "", "pandoc-data-dir": ""}
	if c.Internal {
		cfg["output-driver"] = "internal"
	}
	if c.Fails == "style" {
		cfg["style-file"] = env.Dir
	}
	cfgFile := filepath.Join(env.Dir, "config.json")
	writeJson(env, cfgFile, cfg)
	defaultName := map[string]string{"epub2": "ebook.epub", "epub3": "ebook.epub", "stats-json": "stats.json", "stats-txt": "stats.txt"}[c.Type]
	want := filepath.Join(w.prj, defaultName)
	if c.Others {
		for _, d := range []string{w.root, w.cwd, w.prj} {
			for _, n := range []string{"ebook.epub", "stats.json", "stats.txt", "other"} {
				must(os.WriteFile(filepath.Join(d, n), []byte("other "+n), 0o644))
			}
		}
	}
	bad := false
	project := map[string]any{"metadata": map[string]any{"title": "T"}, "articles": []any{c.Title}}
	if c.Prj != nil {
		arg, file := w.resolve(c.Prj, w.prj, "p", defaultName)
		project["output-file"] = arg
		want, bad = file, c.Prj.Bad
	}
	args := []string{"-c", cfgFile}
	if c.Cli != nil {
		arg, file := w.resolve(c.Cli, w.cwd, "c", defaultName)
		if len(arg)%2 == 1 {
			args = append(args, "--output="+arg)
		} else {
			args = append(args, "-o", arg)
		}
		want, bad = file, c.Cli.Bad
	}
	text := "some text of the article"
	switch c.Cmd {
	case "project":
		name := map[string]string{"cwd": "project.json", "rel": "../" + c.Dir + " project/project.json", "abs": filepath.Join(w.prj, "project.json")}[c.Project]
		writeJson(env, filepath.Join(w.prj, "project.json"), project)
		args = append(args, "project", name)
	case "article":
		args = append(args, "article", "--", c.Title)
	default:
		f := filepath.Join(mkdir(w.root, "texts"), c.Title+c.Ext)
		must(os.WriteFile(f, []byte(text), 0o644))
		args = append(args, "standalone", "--", []string{f, "../texts/" + c.Title + c.Ext}[len(c.Title)%2])
	}
	web := getWeb(env.Root)
	web.set(func(r fakeReq) fakeResp {
		u, err := url.Parse(r.URL)
		if err != nil || u.Query().Get("page") == "" {
			return fakeResp{Status: 400}
		}
		if c.Fails == "article" {
			return fakeResp{Status: 200, Headers: map[string]string{"MediaWiki-API-Error": "missingtitle"}, Body: []byte(`{"error":{"code":"missingtitle"}}`)}
		}
		return okResp(articleJson(strings.ReplaceAll(u.Query().Get("page"), "_", " "), text))
	})
	defer web.set(nil)
	env.Log = c.Log
	before := treeOf(w.root)
	for run := 0; run < c.Runs; run++ {
		_ = os.Remove(filepath.Join(env.Dir, "stub.log"))
		var extraEnv []string
		if c.Fails == "pandoc" {
			extraEnv = []string{"VH_STUB_PANDOC_FAIL=1"}
		}
		if c.Fails == "partial" {
			extraEnv = []string{"VH_STUB_PANDOC_FAIL=partial"}
		}
		if run == 0 {
			env.FileLimit = c.Limit
		}
		r := runCli(env, w.cwd, extraEnv, nil, args...)
		limited := env.FileLimit > 0 && r.Code != 0
		env.FileLimit = 0
		after := treeOf(w.root)
		if r.TimedOut || r.Signaled {
			return fail("wiki2book did not end\n%s", lastLines(r.Out, 30))
		}
		if bad {
			if r.Code == 0 || strings.Contains(r.Out, "Successfully") {
				return fail("wiki2book reports success although the output file cannot be created\n%s", lastLines(r.Out, 20))
			}
			if d := diffMaps(after, before); d != "" {
				return fail("the failing run changes files: %s", d)
			}
			continue
		}
		if c.Fails != "" || limited {
			if r.Code == 0 || strings.Contains(r.Out, "Successfully") {
				return fail("wiki2book reports success although the %s fails\n%s", c.Fails, lastLines(r.Out, 20))
			}
			// Only the directory of the output may already exist
			for d := filepath.Dir(want); len(d) > len(w.root); d = filepath.Dir(d) {
				if before[d] == "" && after[d] == "dir" {
					delete(after, d)
				}
			}
			if d := diffMaps(after, before); d != "" {
				return fail("the failing run (%s) changes files: %s", c.Fails, d)
			}
			continue
		}
		if r.Code != 0 {
			return fail("wiki2book fails (exit code %d)\n%s", r.Code, lastLines(r.Out, 40))
		}
		m := createdRegex.FindStringSubmatch(r.Out)
		if m == nil || m[2] != want {
			return fail("the output file should be %q, but wiki2book reports %q", want, m)
		}
		real := want // without symbolic link
		if file, err := filepath.EvalSymlinks(want); err == nil {
			real = file
		} else if dir, err := filepath.EvalSymlinks(filepath.Dir(want)); err == nil {
			real = filepath.Join(dir, filepath.Base(want))
		}
		got, ok := after[real]
		if !ok {
			return fail("there is no output file %q although wiki2book reports success\n%s", want, lastLines(r.Out, 20))
		}
		delete(after, real)
		exp := map[string]string{}
		for k, v := range before {
			exp[k] = v
		}
		delete(exp, real)
		for d := filepath.Dir(real); d != w.root && len(d) > len(w.root); d = filepath.Dir(d) {
			exp[d] = "dir"
		}
		if d := diffMaps(after, exp); d != "" {
			return fail("besides the output file: %s", d)
		}
		if msg := c.checkContent(env, strings.TrimPrefix(got, "file "), text); msg != "" {
			return fail("output file: %s", msg)
		}
		if _, err := os.Stat(filepath.Join(cacheDir, ".tmp")); err == nil {
			return fail("there still are temporary files after the run")
		}
	}
	res := Result{Classes: []string{c.Cmd + "-" + c.Type}, NonTrivial: c.Cli != nil || c.Prj != nil}
	if c.Fails != "" {
		res.Classes = append(res.Classes, "failing-"+c.Fails)
	}
	if c.Limit > 0 {
		res.Classes = append(res.Classes, "limited")
	}
	if bad {
		res.Classes = append(res.Classes, "impossible")
	}
	if c.Cli != nil && c.Prj != nil {
		res.Classes = append(res.Classes, "both")
	}
	return res
}

func (c outCase) checkContent(env *Env, got, text string) string {
	switch {
	case c.Type == "stats-json":
		var s statsJson
		if err := json.Unmarshal([]byte(got), &s); err != nil || s.Words == nil || *s.Words != 5 {
			return fmt.Sprintf("no statistics of the article (%v): %s", err, trunc(got, 300))
		}
	case c.Type == "stats-txt":
		if !strings.HasPrefix(got, "Statistics generated with wiki2book:") || !strings.Contains(got, "\n  "+c.Title+"\n") {
			return "no statistics of the article: " + trunc(got, 300)
		}
	case c.Internal:
		e, err := readEpub([]byte(got))
		if err != nil {
			return fmt.Sprintf("EPUB: %v", err)
		}
		for _, d := range e.docs {
			if t, _ := htmlText(e.files[d]); strings.Contains(t, squeeze(text)) {
				return ""
			}
		}
		return "the article is not part of the EPUB"
	default:
		if ps := splitPages(got); len(ps) != 1 || !strings.Contains(ps[0], text) {
			return "not (only) the article: " + trunc(got, 300)
		}
		b, _ := os.ReadFile(filepath.Join(env.Dir, "stub.log"))
		var rec struct{ Args []string }
		if err := json.Unmarshal(b, &rec); err != nil {
			return fmt.Sprintf("calls of pandoc: %v, %q", err, b)
		}
		title := map[string]string{"project": "T", "standalone": c.Title}[c.Cmd]
		found := title == ""
		typ := ""
		for i, a := range rec.Args {
			found = found || a == "title="+title || a == "--metadata=title="+title || a == "title:"+title
			if a == "-t" && i+1 < len(rec.Args) {
				typ = rec.Args[i+1]
			}
			if v, ok := strings.CutPrefix(a, "--to="); ok {
				typ = v
			}
		}
		if !found {
			return fmt.Sprintf("the title is not %q: %q", title, rec.Args)
		}
		if typ != c.Type {
			return fmt.Sprintf("pandoc writes %q instead of %q", typ, c.Type)
		}
	}
	return ""
}

func init() {
	register(&Prop{ID: "C34", Quick: 250, Thorough: 8000, Rule: "output files and directories given on the command line, in the project file or not at all, relative and absolute, existing, new and impossible ones, for all commands and output types; non-trivial = some path is given"}, genOut, runOut)
}
