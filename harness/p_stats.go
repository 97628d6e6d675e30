package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"unicode"

	"pgregory.net/rapid"
)

// ---- C33: statistics -------------------------------------------------------------------------------------------------

type statsCase struct {
	Book     bookCase
	Instance string
	First    string // the type that is created first
}

var wordsPerMinute = map[string]int{"en": 228, "de": 179, "fr": 195, "nl": 202, "fi": 161, "he": 187, "it": 188, "jp": 193, "pl": 166, "pt": 181, "ru": 184, "sl": 180, "es": 218, "se": 199, "tr": 166}

var linkableTitle = regexp.MustCompile(`^[A-Za-zÜ漢][A-Za-zÜ漢+ ()0-9]*$`)

func genStats(t *rapid.T) statsCase {
	c := statsCase{Instance: pick(t, []string{"en", "de", "fr", "nl", "fi", "he", "it", "jp", "pl", "pt", "ru", "sl", "es", "se", "tr", "simple", "xy"}), First: pick(t, []string{"stats-json", "stats-txt"})}
	c.Book = genBook(func(t *rapid.T) []bookStep { return nil }, 5)(t)
	c.Book.Delay = 0
	var titles []string
	for _, a := range c.Book.Arts {
		if linkableTitle.MatchString(a.Title) {
			titles = append(titles, a.Title)
		}
	}
	g := &dgen{t: t, preset: c.Book.Preset, p: docPresets[c.Book.Preset], noSpan: true, n: 1000}
	for i := range c.Book.Arts {
		a := &c.Book.Arts[i]
		if oneIn(t, 3) { // rich document
			g.wb = map[string]int{"P": 6, "H": 2, "L": 2, "T": 2, "F": 2, "G": 1, "I": 1, "R": 2, "X": 2}
			g.wi = map[string]int{"t": 10, "f": 3, "l": 4, "e": 3, "r": 3, "u": 2, "m": 1, "n": 1, "i": 1, "c": 1, "k": 1, "g": 1, "x": 2}
			a.Blocks = g.article(1, 6)
		}
		if oneIn(t, 4) { // a single line
			g.wi = map[string]int{"t": 10, "l": 4}
			a.Blocks = []Nd{{K: "P", N: []Nd{{K: "ln", N: g.inline(dctx{}, 6)}}}}
			continue
		}
		for k := uni(t, 4); k > 0; k-- { // more links
			var ls []Nd
			for m := 1 + uni(t, 12); m > 0; m-- {
				l := Nd{K: "l", T: pick(t, []string{"Link ", "Other "}) + fmt.Sprint(uni(t, 20))}
				if len(titles) > 0 && oneIn(t, 4) {
					l.T = pick(t, titles)
				}
				switch uni(t, 4) {
				case 0:
					l.I, l.N = 1, []Nd{{K: "t", T: g.plainWords(2)}}
				case 1:
					l.I, l.U = 2, "section"
				case 2:
					l.I, l.U, l.N = 3, "section", []Nd{{K: "t", T: g.plainWords(2)}}
				}
				ls = append(ls, l)
			}
			a.Blocks = append(a.Blocks, Nd{K: "P", J: 1, N: []Nd{{K: "ln", N: append(ls, Nd{K: "t", T: "end"})}}})
		}
		if oneIn(t, 12) { // very many different links
			var ls []Nd
			for m, n := uni(t, 60), 60+uni(t, 100); m < n; m++ {
				ls = append(ls, Nd{K: "l", T: fmt.Sprint("Many ", m)}, Nd{K: "t", T: " "})
			}
			a.Blocks = append(a.Blocks, Nd{K: "P", J: 1, N: []Nd{{K: "ln", N: append(ls, Nd{K: "t", T: "end"})}}})
		}
		if oneIn(t, 3) { // a long text
			a.Blocks = append(a.Blocks, Nd{K: "P", J: 1, N: []Nd{{K: "ln", N: []Nd{{K: "t", T: strings.TrimSpace(strings.Repeat("long text with words ", 50+uni(t, 1000)))}}}}})
		}
	}
	return c
}

// artStats are the expected numbers of an article; words and characters are known up to what counts as part of the text.
type artStats struct {
	links                          map[string]int
	nLinks, ext, img, math, ru, rd int
	wordsMin, wordsMax             int
	charsMin, charsMax             int
}

var (
	statMarkRegex   = regexp.MustCompile("\x03([^\x04]*)\x04")
	nowikiRegex     = regexp.MustCompile("(?s)\x03N\x04(.*?)\x03/N\x04")
	numberRegex     = regexp.MustCompile("(?s)\x03([UD])\x04.*?\x03/[UD]\x04")
	fmtTagRegex     = regexp.MustCompile(`</?[bi]>`)
	htmlInListRegex = regexp.MustCompile(`<li [^>]*>`)
	anyTagRegex     = regexp.MustCompile(`</?[a-z][^>]*>`)
)

func countWords(s string) int {
	return len(strings.FieldsFunc(s, func(r rune) bool { return !unicode.IsLetter(r) && !unicode.IsNumber(r) }))
}

func countVisible(s string) (visible, blank int) {
	for _, r := range s {
		if unicode.IsSpace(r) {
			blank++
		} else {
			visible++
		}
	}
	return
}

func expectedStats(want string, blanks int, exact bool) artStats {
	st := artStats{links: map[string]int{}}
	for _, m := range statMarkRegex.FindAllStringSubmatch(want, -1) {
		switch m[1] {
		case "E":
			st.ext++
		case "U":
			st.ru++
		case "D":
			st.rd++
		case "I":
			st.img++
		case "M":
			st.math++
		case "S": // link to a section of the article itself
			st.nLinks++
		default:
			if n, ok := strings.CutPrefix(m[1], "L"); ok {
				st.links[n]++
				st.nLinks++
			}
		}
	}
	s := fmtTagRegex.ReplaceAllString(want, "")
	s = numberRegex.ReplaceAllString(s, "\x03\x04")
	tight := statMarkRegex.ReplaceAllString(anyTagRegex.ReplaceAllString(nowikiRegex.ReplaceAllString(s, "x"), " "), "")
	loose := statMarkRegex.ReplaceAllString(anyTagRegex.ReplaceAllString(s, " "), " ")
	st.wordsMin = countWords(statMarkRegex.ReplaceAllString(anyTagRegex.ReplaceAllString(s, " "), ""))
	if n := countWords(statMarkRegex.ReplaceAllString(anyTagRegex.ReplaceAllString(nowikiRegex.ReplaceAllString(s, " "), " "), "")); n < st.wordsMin {
		st.wordsMin = n
	}
	st.wordsMax = countWords(loose)
	v, b := countVisible(strings.TrimSpace(tight))
	st.charsMin = v - strings.Count(s, "\x03N\x04")
	v, _ = countVisible(loose)
	st.charsMax = v + blanks
	if exact {
		st.charsMin, st.charsMax = st.charsMin+b, st.charsMin+b
	}
	return st
}

type statsJson struct {
	Chars   *int           `json:"number-of-characters"`
	Words   *int           `json:"number-of-words"`
	Links   *int           `json:"number-of-internal-links"`
	Ext     *int           `json:"number-of-external-links"`
	Images  *int           `json:"number-of-images"`
	Math    *int           `json:"number-of-math"`
	RefDefs *int           `json:"number-of-ref-definitions"`
	RefUses *int           `json:"number-of-ref-usages"`
	All     map[string]int `json:"internal-links"`
	Missing map[string]int `json:"uncovered-internal-links"`
	Top     map[string]int `json:"top-10-uncovered-internal-links"`
	Time    *int           `json:"estimated-reading-time-minutes"`
}

func diffCounts(got, want map[string]int) string {
	g, w := map[string]string{}, map[string]string{}
	for k, v := range got {
		g[k] = fmt.Sprint(v)
	}
	for k, v := range want {
		w[k] = fmt.Sprint(v)
	}
	return diffMaps(g, w)
}

func runStats(env *Env, c statsCase) Result {
	b := c.Book.usable()
	w, problem := newBookWorld(b)
	if problem != "" {
		return infra("expected HTML: %s", problem)
	}
	w.instance = c.Instance
	w.agent = "stats"
	cwd, prj := mkdir(env.Dir, "cwd"), mkdir(env.Dir, "prj")
	cfg := w.config(filepath.Join(env.Dir, "cache"))
	cfg["wikipedia-instance"] = c.Instance
	cfgFile := filepath.Join(env.Dir, "config.json")
	writeJson(env, cfgFile, cfg)
	writeJson(env, filepath.Join(prj, "project.json"), map[string]any{"metadata": map[string]any{"title": "T"}, "articles": w.titles()})
	last := []string{"project", filepath.Join(prj, "project.json")}
	switch b.Cmd {
	case "article":
		last = []string{"article", "--", b.Arts[b.Order[0]].Title}
	case "standalone":
		f := b.Arts[b.Order[0]].Title + ".mediawiki"
		must(os.WriteFile(filepath.Join(cwd, f), []byte(w.text[b.Order[0]]), 0o644))
		last = []string{"standalone", "--", f}
	}
	web := getWeb(env.Root)
	web.set(w.serve)
	defer web.set(nil)
	env.Log = b.Log
	out := map[string]string{}
	for _, typ := range []string{c.First, "stats-json", "stats-txt", "stats-json", "stats-txt"} {
		f := filepath.Join(env.Dir, "out."+strings.TrimPrefix(typ, "stats-"))
		args := append([]string{"-c", cfgFile, "-o", f, "--output-type=" + typ, "--output-driver=internal", "--user-agent-template=stats"}, last...)
		r := runCli(env, cwd, nil, nil, args...)
		if r.TimedOut || r.Signaled || r.Code != 0 || !strings.Contains(r.Out, "Successfully created") {
			return fail("%s: wiki2book fails (exit code %d)\n%s", typ, r.Code, lastLines(r.Out, 40))
		}
		if w.bad != "" {
			return fail("wiki2book asked for something that no article needs: %s", w.bad)
		}
		content, err := os.ReadFile(f)
		if err != nil {
			return fail("%s: no output file: %v", typ, err)
		}
		if old, ok := out[typ]; ok && old != string(content) {
			return fail("%s: a second run yields other statistics: %s", typ, diffAt(old, string(content)))
		}
		out[typ] = string(content)
	}
	if msg := w.checkStats(c, b, out); msg != "" {
		var ts []string
		for _, i := range b.Order {
			ts = append(ts, w.text[i])
		}
		return fail("%s\nwikitext:\n%s", msg, trunc(strings.Join(ts, "\n-----\n"), 6000))
	}
	res := Result{Classes: []string{b.Cmd}}
	for _, f := range []string{"ilink", "elink", "refdef", "math", "table", "list", "template", "gallery"} {
		if w.feat[f] > 0 {
			res.Classes = append(res.Classes, f)
		}
	}
	res.NonTrivial = w.feat["ilink"] > 0 && len(b.Order) > 1
	return res
}

func (w *bookWorld) checkStats(c statsCase, b bookCase, out map[string]string) string {
	var sum artStats
	sum.links = map[string]int{}
	timeMin, timeMax := 0, 0
	wpm := wordsPerMinute[c.Instance]
	if wpm == 0 {
		wpm = 183
	}
	titles := map[string]bool{}
	for _, i := range b.Order {
		a := b.Arts[i]
		r := newDocR(docCase{Preset: b.Preset, Svg: b.Svg, Blocks: a.Blocks})
		r.marks = true
		text, want := r.document(a.Blocks)
		_, blanks := countVisible(text)
		for n, v := range r.templates {
			_, b := countVisible(v)
			blanks += b * (1 + strings.Count(text, "{{"+n))
			for _, o := range r.templates {
				blanks += b * strings.Count(o, "{{"+n)
			}
		}
		single := len(a.Blocks) == 1 && a.Blocks[0].K == "P" && len(a.Blocks[0].N) == 1 && a.Blocks[0].N[0].I == 0
		if single {
			for _, n := range a.Blocks[0].N[0].N {
				single = single && (n.K == "t" || n.K == "l" && n.I < 9 && n.I != 4)
			}
		}
		s := expectedStats(want, 2*blanks+20, single)
		for _, tag := range htmlInListRegex.FindAllString(want, -1) { // whether HTML of the wikitext counts as text is open
			s.wordsMax += countWords(tag)
			s.charsMax += len(tag)
		}
		for k, v := range s.links {
			sum.links[k] += v
		}
		sum.nLinks += s.nLinks
		sum.ext += s.ext
		sum.img += s.img
		sum.math += s.math
		sum.ru += s.ru
		sum.rd += s.rd
		sum.wordsMin += s.wordsMin
		sum.wordsMax += s.wordsMax
		sum.charsMin += s.charsMin
		sum.charsMax += s.charsMax
		timeMin += s.wordsMin / wpm
		timeMax += s.wordsMax/wpm + 1
		titles[a.Title] = true
	}
	missing := map[string]int{}
	for k, v := range sum.links {
		if !titles[k] {
			missing[k] = v
		}
	}
	names := sortedKeys(missing)
	sort.SliceStable(names, func(i, j int) bool { return missing[names[i]] > missing[names[j]] })
	top := map[string]int{}
	for i, n := range names {
		if i < 10 {
			top[n] = missing[n]
		}
	}
	var got statsJson
	if err := json.Unmarshal([]byte(out["stats-json"]), &got); err != nil {
		return fmt.Sprintf("stats-json: %v\n%s", err, trunc(out["stats-json"], 500))
	}
	for _, n := range []struct {
		name   string
		got    *int
		lo, hi int
	}{
		{"characters", got.Chars, sum.charsMin, sum.charsMax}, {"words", got.Words, sum.wordsMin, sum.wordsMax}, {"internal links", got.Links, sum.nLinks, sum.nLinks},
		{"external links", got.Ext, sum.ext, sum.ext}, {"images", got.Images, sum.img, sum.img}, {"formulas", got.Math, sum.math, sum.math},
		{"reference definitions", got.RefDefs, sum.rd, sum.rd}, {"reference usages", got.RefUses, sum.ru, sum.ru}, {"minutes", got.Time, timeMin, timeMax},
	} {
		if n.got == nil {
			return "stats-json: number of " + n.name + " is missing"
		}
		if *n.got < n.lo || *n.got > n.hi {
			return fmt.Sprintf("stats-json: number of %s is %d, expected %d to %d", n.name, *n.got, n.lo, n.hi)
		}
	}
	if d := diffCounts(got.All, sum.links); d != "" {
		return "stats-json: internal links: " + d
	}
	if d := diffCounts(got.Missing, missing); d != "" {
		return "stats-json: links to articles that are not part of the book: " + d
	}
	if d := diffCounts(got.Top, top); d != "" {
		return "stats-json: top ten of the links to articles that are not part of the book: " + d
	}
	txt := "Statistics generated with wiki2book:\n\nGeneral:\n"
	txt += fmt.Sprintf("  Number of characters    : %d\n  Number of internal links: %d\n\nArticle:\n", *got.Chars, sum.nLinks)
	for _, i := range b.Order {
		txt += "  " + b.Arts[i].Title + "\n"
	}
	txt += fmt.Sprintf("\nTop 20 linked articles that are not part of the book (total: %d):\n", len(missing))
	for i, n := range names {
		if i < 20 {
			txt += fmt.Sprintf("  %s (%d)\n", n, missing[n])
		}
	}
	fields := func(s string) string { return strings.Join(strings.Fields(s), " ") }
	if a, b := fields(out["stats-txt"]), fields(txt); a != b {
		return "stats-txt: " + diffAt(b, a)
	}
	return ""
}

func init() {
	register(&Prop{ID: "C33", Quick: 200, Thorough: 8000, Rule: "statistics of books of generated articles with links to each other and elsewhere, all languages with a known reading speed, both formats, run repeatedly; non-trivial = several articles with internal links"}, genStats, runStats)
}
