package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"slices"
	"strings"

	"wiki2book/config"

	"pgregory.net/rapid"
)

// ---- C13: precedence of settings ------------------------------------------------------------------------------------

// A setting is given as JSON value; paths are relative names or start with @ABS@ (the scratch directory).
type cfgLevel map[string]any

type cfgCase struct {
	Command string // project, article, standalone
	File    cfgLevel
	Project cfgLevel
	Cli     cfgLevel
	Output  []string // output file: project, command line ("" = not given)
	Cwd     string   // working directory relative to the scratch directory
	CfgDir  string
	PrjDir  string
	Decoys  bool `json:",omitempty"` // files with the given names exist in all directories
}

type cfgField struct {
	Name string
	Kind reflect.Kind
	Def  any
}

func cfgFields() []cfgField {
	d := config.NewDefaultConfig()
	v := reflect.ValueOf(*d)
	var out []cfgField
	for i := 0; i < v.NumField(); i++ {
		tag := strings.Split(v.Type().Field(i).Tag.Get("json"), ",")[0]
		if tag == "" || tag == "-" {
			continue
		}
		out = append(out, cfgField{tag, v.Field(i).Kind(), v.Field(i).Interface()})
	}
	return out
}

var pathFields = []string{"cache-dir", "style-file", "cover-image", "pandoc-data-dir", "font-files"}

func genPath(t *rapid.T, what string) string {
	p := pick(t, []string{what, "./" + what, "sub/" + what, "../" + what, "@ABS@/" + what, "@ABS@/x/../" + what, "with space/" + what})
	return p
}

func genCfgValue(t *rapid.T, f cfgField) any {
	switch f.Name {
	case "math-converter":
		return pick(t, []string{"none", "template", "wikimedia"})
	case "cache-eviction-strategy":
		return pick(t, []string{"none", "largest", "lru"})
	case "toc-depth":
		return uni(t, 7)
	case "worker-threads":
		return 1 + uni(t, 20)
	case "cache-max-size", "cache-max-age":
		return pick(t, []int{1, 77, 40320, 100_000_000, 5_000_000_000})
	case "cache-dir", "style-file", "cover-image", "pandoc-data-dir":
		return genPath(t, strings.ReplaceAll(f.Name, "-", "")+string(rune('a'+uni(t, 3))))
	case "font-files":
		var l []any
		for i := 0; i < 1+uni(t, 3); i++ {
			l = append(l, genPath(t, "font"+string(rune('a'+uni(t, 3)))+pick(t, []string{".ttf", ".ttf", ",b.ttf"})))
		}
		return l
	case "pandoc-executable":
		return pick(t, []string{"no-pandoc", "pandoc-x", "/nowhere/pandoc", "./pandoc-x", "tools/pandoc-x", "../pandoc-x", "@ABS@/x/../pandoc-x"})
	case "command-template-math-svg-to-png":
		return pick(t, []string{"a {INPUT} {OUTPUT}", "b -o {OUTPUT} {INPUT} -x"})
	}
	if strings.HasPrefix(f.Name, "command-template") {
		return pick(t, []string{"a {INPUT} {OUTPUT}", "b -o {OUTPUT} {INPUT} -x", ""})
	}
	switch f.Kind {
	case reflect.Bool:
		return rapid.Bool().Draw(t, "bool")
	case reflect.Int, reflect.Int64:
		return 1 + uni(t, 50)
	case reflect.Slice:
		def, _ := f.Def.([]string)
		l := []any{}
		pool := append([]string{"a", "b c", "ä,ö", "x=y", "a,b", " c", `d"e`, "F"}, def...)
		perm := rapid.Permutation(pool).Draw(t, "perm")
		for _, x := range perm[:uni(t, min(5, len(perm)+1))] {
			l = append(l, x)
		}
		if len(def) > 1 && oneIn(t, 4) {
			l = nil
			for i := range def {
				l = append(l, def[len(def)-1-i])
			}
		}
		if len(def) > 0 && oneIn(t, 4) { // nearly the default
			l = nil
			for _, x := range def {
				l = append(l, x)
			}
			switch i := uni(t, len(def)); uni(t, 3) {
			case 0:
				l[i] = "zzz"
			case 1:
				l = append(l, "zzz")
			default:
				if l = append(l[:i:i], l[i+1:]...); l == nil {
					l = []any{}
				}
			}
		}
		return l
	}
	return pick(t, []string{"v1", "some value", "a,b", "x.example.org", "ü{{VERSION}}", "https://a.b/c?d=e"})
}

func canon(v any) string {
	b, err := json.Marshal(v)
	must(err)
	s := string(b)
	if s == "null" {
		s = "[]"
	}
	return s
}

func genCfg(t *rapid.T) cfgCase {
	c := cfgCase{Command: pick(t, []string{"project", "project", "article", "standalone"})}
	c.Cwd = pick(t, []string{"w", "w/deep"})
	c.CfgDir = pick(t, []string{"w", "cfg/a", "w/deep/c"})
	c.PrjDir = pick(t, []string{"w", "prj/p q", "w/deep/p"})
	c.Decoys = oneIn(t, 2)
	fields := cfgFields()
	level := func(name string, density int, nonDefault bool) cfgLevel {
		l := cfgLevel{}
		for _, f := range fields {
			if f.Name == "output-type" || f.Name == "output-driver" || !oneIn(t, density) {
				continue
			}
			v := genCfgValue(t, f)
			if nonDefault && (canon(v) == canon(f.Def) || f.Kind == reflect.Slice && f.Name != "wikipedia-image-article-hosts" && canon(sortedList(v)) == canon(sortedList(f.Def))) {
				continue
			}
			if name == "cli" && f.Kind == reflect.Slice && (canon(v) == "[]") {
				continue // the command line cannot express an empty list
			}
			l[f.Name] = v
		}
		return l
	}
	density := 2 + uni(t, 6)
	c.File = level("file", density, false)
	c.Project = cfgLevel{}
	if c.Command == "project" {
		c.Project = level("project", density, true)
	}
	c.Cli = level("cli", density, true)
	typ := "epub2"
	for _, l := range []cfgLevel{c.File, c.Project, c.Cli} {
		if c.Command != "project" && reflect.ValueOf(l).Pointer() == reflect.ValueOf(c.Project).Pointer() {
			continue
		}
		switch uni(t, 7) {
		case 1:
			if typ == "epub2" || typ == "epub3" {
				l["output-type"], typ = "epub3", "epub3"
			}
		case 2:
			l["output-type"], l["output-driver"], typ = "epub3", "internal", "epub3"
		case 3:
			l["output-type"], l["output-driver"], typ = "stats-json", "internal", "stats-json"
		case 4:
			l["output-type"], l["output-driver"], typ = "stats-txt", "internal", "stats-txt"
		case 5:
			if typ == "epub3" {
				l["output-driver"] = "internal"
			}
		}
	}
	c.Output = []string{pick(t, []string{"", "out.epub", "sub/out.epub"}), pick(t, []string{"", "cli.epub", "@ABS@/o/abs.epub"})}
	return c
}

func absify(env *Env, base string, v any) any {
	one := func(s string) string {
		s = strings.ReplaceAll(s, "@ABS@", env.Dir)
		if s != "" && !filepath.IsAbs(s) {
			s = filepath.Join(base, s)
		}
		return s
	}
	switch x := v.(type) {
	case string:
		return one(x)
	case []any:
		var l []any
		for _, y := range x {
			l = append(l, one(y.(string)))
		}
		return l
	}
	return v
}

// literal inserts the scratch directory into values that are passed on as they are.
func literal(env *Env, v any) any {
	switch x := v.(type) {
	case string:
		return strings.ReplaceAll(x, "@ABS@", env.Dir)
	case []any:
		l := []any{}
		for _, y := range x {
			l = append(l, strings.ReplaceAll(y.(string), "@ABS@", env.Dir))
		}
		return l
	}
	return v
}

func cliFlags(env *Env, l cfgLevel) []string {
	var names []string
	for k := range l {
		names = append(names, k)
	}
	slices.Sort(names)
	var out []string
	for _, k := range names {
		switch x := literal(env, l[k]).(type) {
		case []any:
			for _, y := range x {
				out = append(out, fmt.Sprintf("--%s=%v", k, y))
			}
		case float64:
			out = append(out, fmt.Sprintf("--%s=%d", k, int64(x)))
		default:
			out = append(out, fmt.Sprintf("--%s=%v", k, x))
		}
	}
	return out
}

func writeJson(env *Env, file string, l map[string]any) {
	m := map[string]any{}
	for k, v := range l {
		m[k] = literal(env, v)
	}
	must(os.MkdirAll(filepath.Dir(file), 0o755))
	b, err := json.MarshalIndent(m, "", " ")
	must(err)
	must(os.WriteFile(file, b, 0o644))
}

// relTo gives the path of a file as a user in dir would write it.
func relTo(dir, file string) string {
	r, err := filepath.Rel(dir, file)
	must(err)
	return r
}

func runCfg(env *Env, c cfgCase) Result {
	cwd := mkdir(env.Dir, c.Cwd)
	cfgFile := filepath.Join(mkdir(env.Dir, c.CfgDir), "config.json")
	prjFile := filepath.Join(mkdir(env.Dir, c.PrjDir), "project.json")
	args := []string{"-l", "debug"}
	writeJson(env, cfgFile, c.File)
	args = append(args, "-c", relTo(cwd, cfgFile))
	args = append(args, cliFlags(env, c.Cli)...)
	if c.Output[1] != "" {
		args = append(args, "-o", strings.ReplaceAll(c.Output[1], "@ABS@", env.Dir))
	}
	switch c.Command {
	case "project":
		p := map[string]any{"metadata": map[string]any{"title": "T"}, "articles": []any{"A"}}
		if c.Output[0] != "" {
			p["output-file"] = c.Output[0]
		}
		for k, v := range c.Project {
			p[k] = literal(env, v)
		}
		b, _ := json.Marshal(p)
		must(os.WriteFile(prjFile, b, 0o644))
		args = append(args, "project", relTo(cwd, prjFile))
	case "article":
		args = append(args, "article", "A")
	default:
		must(os.WriteFile(filepath.Join(cwd, "a.mediawiki"), []byte("text"), 0o644))
		args = append(args, "standalone", "a.mediawiki")
	}
	if c.Decoys {
		for _, l := range []cfgLevel{c.File, c.Project, c.Cli} {
			for _, f := range append([]string{"pandoc-executable"}, pathFields...) {
				values, ok := l[f].([]any)
				if !ok {
					values = []any{l[f]}
				}
				for _, v := range values {
					if name, ok := v.(string); ok && !strings.HasPrefix(name, "@ABS@") && f != "cache-dir" && (f != "pandoc-executable" || strings.Contains(name, "/")) {
						for _, dir := range []string{cwd, filepath.Dir(cfgFile), filepath.Dir(prjFile)} {
							file := filepath.Join(dir, name)
							must(os.MkdirAll(filepath.Dir(file), 0o755))
							must(os.WriteFile(file, nil, 0o644))
						}
					}
				}
			}
		}
	}
	w := getWeb(env.Root)
	w.set(func(r fakeReq) fakeResp { return fakeResp{Status: 404} })
	res := runCli(env, cwd, []string{"PATH=/nonexistent"}, nil, args...)
	if res.TimedOut {
		return fail("wiki2book %q did not end", args)
	}
	i := strings.Index(res.Out, "Configuration:\n")
	if i < 0 {
		return fail("wiki2book %q did not get as far as its configuration: %s", args, trunc(res.Out, 1500))
	}
	got := map[string]any{}
	if err := json.NewDecoder(strings.NewReader(res.Out[i+len("Configuration:\n"):])).Decode(&got); err != nil {
		return infra("cannot read the configuration: %v", err)
	}
	overlaps := 0
	for _, f := range cfgFields() {
		var want any = f.Def
		if f.Name == "cache-dir" {
			want = filepath.Join(env.Dir, "home", "cache", "wiki2book")
		}
		from := "default"
		n := 0
		isPathField := slices.Contains(pathFields, f.Name)
		for _, l := range []struct {
			name string
			m    cfgLevel
			base string
		}{{"config file", c.File, filepath.Dir(cfgFile)}, {"project file", c.Project, filepath.Dir(prjFile)}, {"command line", c.Cli, cwd}} {
			v, ok := l.m[f.Name]
			if !ok {
				continue
			}
			n++
			want, from = literal(env, v), l.name
			if s, ok := v.(string); isPathField || ok && f.Name == "pandoc-executable" && strings.Contains(s, "/") {
				want = absify(env, l.base, v)
			}
		}
		if n > 1 {
			overlaps++
		}
		g := got[f.Name]
		if isPathField || f.Name == "pandoc-executable" {
			g, want = cleanPaths(g), cleanPaths(want)
		}
		if f.Kind == reflect.Slice && f.Name != "wikipedia-image-article-hosts" && f.Name != "font-files" {
			g, want = sortedList(g), sortedList(want) // the order of the other lists means nothing
		}
		if canon(g) != canon(want) {
			return fail("wiki2book %q (config file %s, project file %s): %s is %s instead of %s from the %s", args, canon(c.File), canon(c.Project), f.Name, canon(g), canon(want), from)
		}
	}
	if c.Command == "project" {
		want := ""
		if c.Output[0] != "" {
			want = filepath.Join(filepath.Dir(prjFile), c.Output[0])
		}
		if c.Output[1] != "" {
			want = absify(env, cwd, c.Output[1]).(string)
		}
		if want != "" && !strings.Contains(res.Out, "OutputFile: "+want+"\n") {
			return fail("wiki2book %q: the output file should be %s: %s", args, want, trunc(res.Out[strings.Index(res.Out, "OutputFile")-10:], 300))
		}
	}
	return Result{NonTrivial: overlaps > 0, Classes: []string{"command:" + c.Command}}
}

func sortedList(v any) any {
	var l []string
	switch x := v.(type) {
	case []any:
		for _, y := range x {
			l = append(l, fmt.Sprint(y))
		}
	case []string:
		l = append(l, x...)
	}
	slices.Sort(l)
	return l
}

func cleanPaths(v any) any {
	switch x := v.(type) {
	case string:
		if x == "" {
			return x
		}
		return filepath.Clean(x)
	case []any:
		var l []any
		for _, y := range x {
			l = append(l, cleanPaths(y))
		}
		return l
	}
	return v
}

// ---- C14: invalid settings are rejected before anything happens ------------------------------------------------------

type validCase struct {
	Command string
	Level   string // file, project, cli: where the settings are
	Set     cfgLevel
	Missing string   // path setting that points to nothing
	Broken  string   // malformed file: file, project
	How     int      // what's wrong with it
	Lower   cfgLevel `json:",omitempty"` // settings of the config file, overridden by Set
}

func genValid(t *rapid.T) validCase {
	c := validCase{Command: pick(t, []string{"project", "article"}), Set: cfgLevel{}}
	levels := []string{"file", "cli"}
	if c.Command == "project" {
		levels = append(levels, "project")
	}
	c.Level = pick(t, levels)
	n := uni(t, 3)
	for i := 0; i < n; i++ {
		switch uni(t, 12) {
		case 0, 1, 2:
			c.Set["output-type"] = pick(t, []string{"epub2", "epub3", "stats-json", "stats-txt", "pdf", "", "EPUB2"})
			c.Set["output-driver"] = pick(t, []string{"pandoc", "internal", "internal", "calibre", ""})
		case 3:
			c.Set["math-converter"] = pick(t, []string{"none", "wikimedia", "template", "rsvg", "None", ""})
		case 4:
			c.Set["toc-depth"] = pick(t, []int{-1, 0, 1, 5, 6, 7, 100})
		case 5:
			c.Set["worker-threads"] = pick(t, []int{-3, 0, 1, 2, 50})
		case 6:
			c.Set[pick(t, []string{"cache-max-size", "cache-max-age"})] = pick(t, []int{-1, 0, 1000000, 5000000})
		case 7:
			c.Set["cache-eviction-strategy"] = pick(t, []string{"none", "lru", "largest", "fifo", "LRU", ""})
		case 8, 9:
			c.Set["command-template-"+pick(t, []string{"svg-to-png", "math-svg-to-png", "image-processing", "pdf-to-png", "webp-to-png"})] =
				pick(t, []string{"", "x {INPUT} {OUTPUT}", "x {INPUT}", "x {OUTPUT}", "x", "x {OUTPUT}{INPUT}", "x {input} {output}"})
		case 10:
			c.Missing = pick(t, []string{"style-file", "cover-image", "pandoc-data-dir", "font-files"})
		}
	}
	if oneIn(t, 3) { // a single problem, if any, among many settings that are all right
		valid := cfgLevel{
			"math-converter": pick(t, []string{"none", "wikimedia", "template"}), "toc-depth": pick(t, []int{0, 1, 6}), "worker-threads": pick(t, []int{1, 2, 50}),
			"cache-max-size": 5000000, "cache-max-age": 1 + uni(t, 3), "cache-eviction-strategy": pick(t, []string{"none", "lru", "largest"}),
		}
		for _, k := range []string{"svg-to-png", "math-svg-to-png", "image-processing", "pdf-to-png", "webp-to-png"} {
			valid["command-template-"+k] = pick(t, []string{"x {INPUT} {OUTPUT}", "x {OUTPUT}{INPUT}"})
		}
		if _, ok := c.Set["output-type"]; !ok {
			valid["output-type"], valid["output-driver"] = "epub3", pick(t, []string{"pandoc", "internal"})
		}
		keep := ""
		if keys := sortedKeys(c.Set); len(keys) > 0 {
			keep = pick(t, keys)
		}
		for _, k := range sortedKeys(valid) {
			if k != keep && oneIn(t, 2) {
				c.Set[k] = valid[k]
			}
		}
	}
	if c.Level != "file" && len(c.Set) > 0 && oneIn(t, 3) { // what is overridden has to be valid as well
		c.Lower = cfgLevel{}
		keys := sortedKeys(c.Set)
		for _, k := range keys {
			switch {
			case k == "math-converter":
				c.Lower[k] = pick(t, []string{"none", "rsvg"})
			case k == "toc-depth":
				c.Lower[k] = pick(t, []int{3, 7})
			case k == "worker-threads":
				c.Lower[k] = pick(t, []int{3, 0})
			case k == "cache-eviction-strategy":
				c.Lower[k] = pick(t, []string{"largest", "fifo"})
			case strings.HasPrefix(k, "command-template"):
				c.Lower[k] = pick(t, []string{"y {INPUT} {OUTPUT}", "x"})
			case k == "output-type" && c.Set["output-type"] != "epub2" && c.Set["output-driver"] != "pandoc":
				c.Lower["output-type"], c.Lower["output-driver"] = "epub3", pick(t, []string{"pandoc", "calibre"})
			}
		}
	}
	if oneIn(t, 15) {
		c.Broken = pick(t, []string{"file", "project"})
		c.How = uni(t, 5)
	}
	return c
}

func cfgValid(m cfgLevel) bool {
	get := func(k string, def any) any {
		if v, ok := m[k]; ok {
			return v
		}
		return def
	}
	num := func(k string, def float64) float64 {
		switch x := get(k, def).(type) {
		case float64:
			return x
		case int:
			return float64(x)
		}
		return def
	}
	typ, drv := get("output-type", "epub2").(string), get("output-driver", "pandoc").(string)
	if !slices.Contains([]string{"epub2/pandoc", "epub3/pandoc", "epub3/internal", "stats-json/internal", "stats-txt/internal"}, typ+"/"+drv) {
		return false
	}
	if !slices.Contains([]string{"none", "wikimedia", "template"}, get("math-converter", "none").(string)) {
		return false
	}
	if !slices.Contains([]string{"none", "lru", "largest"}, get("cache-eviction-strategy", "lru").(string)) {
		return false
	}
	if num("toc-depth", 1) < 0 || num("toc-depth", 1) > 6 || num("worker-threads", 1) < 1 || num("cache-max-size", 1) <= 0 || num("cache-max-age", 1) <= 0 {
		return false
	}
	for _, k := range []string{"svg-to-png", "math-svg-to-png", "image-processing", "pdf-to-png", "webp-to-png"} {
		v := get("command-template-"+k, "{INPUT} {OUTPUT}").(string)
		if v == "" && k != "math-svg-to-png" {
			continue
		}
		if !strings.Contains(v, "{INPUT}") || !strings.Contains(v, "{OUTPUT}") {
			return false
		}
	}
	return true
}

func runValid(env *Env, c validCase) Result {
	cwd := mkdir(env.Dir, "w")
	set := cfgLevel{"cache-dir": env.Dir + "/cache", "pandoc-executable": os.Getenv("VH_BIN") + "/stub-pandoc"}
	for k, v := range c.Set {
		set[k] = v
	}
	if c.Missing == "font-files" {
		existing := filepath.Join(env.Dir, "exists.ttf")
		must(os.WriteFile(existing, []byte("font"), 0o644))
		set[c.Missing] = []any{existing, "does-not-exist.ttf"}
	} else if c.Missing != "" {
		set[c.Missing] = "does-not-exist"
	}
	var args []string
	file, prj := cfgLevel{}, cfgLevel{}
	for k, v := range c.Lower {
		file[k] = v
	}
	switch c.Level {
	case "file":
		file = set
	case "project":
		prj = set
	default:
		args = append(args, cliFlags(env, set)...)
	}
	writeJson(env, filepath.Join(cwd, "config.json"), file)
	prj["articles"] = []any{"A"}
	prj["output-file"] = "book.epub"
	b, _ := json.Marshal(prj)
	must(os.WriteFile(filepath.Join(cwd, "project.json"), b, 0o644))
	for name, content := range map[string][]string{
		"file":    {`{"cache-dir": "x",`, `{} x`, `{}{}`, `[]`, `{"toc-depth": 1.5}`},
		"project": {`{"articles": ["A"], "toc-depth": "x"}`, `{"articles": ["A"]} x`, `{"articles": ["A"]}{"articles": ["B"]}`, `["A"]`, `{"articles": "A"}`},
	} {
		if c.Broken == name {
			must(os.WriteFile(filepath.Join(cwd, map[string]string{"file": "config.json", "project": "project.json"}[name]), []byte(content[c.How]), 0o644))
		}
	}
	args = append(args, "-c", "config.json", "-o", "book.epub")
	if c.Command == "project" {
		args = append(args, "project", "project.json")
	} else {
		args = append(args, "article", "A")
	}
	w := getWeb(env.Root)
	w.set(func(r fakeReq) fakeResp { return fakeResp{Status: 404} })
	res := runCli(env, cwd, nil, nil, args...)
	reqs := len(w.take())
	if res.TimedOut {
		return fail("wiki2book %q did not end", args)
	}
	if strings.Contains(res.Out, "goroutine ") && strings.Contains(res.Out, "panic") {
		return fail("wiki2book %q with %s: %s", args, canon(set), trunc(res.Out, 1500))
	}
	merged := cfgLevel{}
	for k, v := range c.Lower {
		merged[k] = v
	}
	for k, v := range c.Set {
		merged[k] = v
	}
	ok := cfgValid(merged) && cfgValid(c.Lower) && c.Missing == "" && c.Broken != "file" && !(c.Broken == "project" && c.Command == "project")
	if ok && reqs == 0 {
		return fail("wiki2book %q with valid settings %s (%s) was refused: %s", args, canon(set), c.Level, trunc(res.Out, 600))
	}
	if !ok && reqs > 0 {
		return fail("wiki2book %q with unusable settings %s (%s; config file %s, broken %q, missing %q) started to work", args, canon(set), c.Level, canon(c.Lower), c.Broken, c.Missing)
	}
	if res.Code == 0 {
		return fail("wiki2book %q with %s: exit code 0 although no book can have been made", args, canon(set))
	}
	cl := "rejected"
	if ok {
		cl = "accepted"
	}
	return Result{NonTrivial: len(c.Set) > 0, Classes: []string{cl, "level:" + c.Level}}
}

func init() {
	register(&Prop{
		ID: "C13", Quick: 2400, Thorough: 60000,
		Rule:        "values for random subsets of all settings in config file, project file and on the command line, relative and absolute paths, three different directories; the effective configuration printed by the real tool is compared with the model; non-trivial = at least one setting given at two levels",
		Assumptions: []string{"values equal to the default are not used to override a lower level (known finding)", "every level on its own leads to a valid combination of output type and driver"},
	}, genCfg, runCfg)
	register(&Prop{
		ID: "C14", Quick: 2400, Thorough: 60000,
		Rule: "valid and invalid settings (also combinations of output type and driver, missing files, malformed files) at each level; the real tool may only start requesting articles when everything is valid; non-trivial = at least one setting given",
	}, genValid, runValid)
}
