package main

import (
	"fmt"
	"hash/fnv"
	"html"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"time"

	"wiki2book/cache"

	"pgregory.net/rapid"
)

// ---- C26: any wikitext ----------------------------------------------------------------------------------------------
//
// No oracle for the whole page here, but for what holds for every article: the run neither crashes nor hangs, the page
// is complete, what stands before the broken part is untouched, no internals show, images shown are images downloaded,
// and a second rendering yields the same.

type soupCase struct {
	Preset    int
	Svg       bool
	Parts     []string
	Templates []string // possible results of the calls
	Before    *docCase // intact document in front
	Repeat    int      // how often the parts are repeated
}

var soupFragments = []string{
	"[[", "]]", "[[", "]]", "[", "]", "{{", "}}", "{{t|", "{{a}}", "{{{1}}}", "{|", "|}", "\n{|\n", "\n|}\n", "\n|-\n", "\n| ", "\n! ", "\n|+ ", "|", "||", "!!", "|-", "\n|",
	"''", "'''", "'''''", "'", "''", "'''", "'''''", "''''",
	"<ref>", "</ref>", "<ref name=\"a\">", "<ref name=\"a\" />", "<ref name=a/>", "<ref", "<ref group=g>", "<ref name=", "<references>", "</references>", "<references />", "<references group=\"g\"/>", "<references", "{{refs}}",
	"<nowiki>", "</nowiki>", "<nowiki/>", "<nowiki", "<math>", "</math>", "<math display=\"block\">", "<math", "<gallery>", "</gallery>", "\n<gallery>\n", "\n</gallery>\n", "<gallery", "<imagemap>", "</imagemap>", "<imagemap>\n", "<imagemap",
	"<!--", "-->", "<div>", "</div>", "<br>", "<p>", "</p>", "<table>", "</table>", "<", ">", "</", "/>",
	"\n", "\n", "\n\n", "\n\n\n", " ", "\t", "\n* ", "\n# ", "\n; ", "\n: ", "\n** ", "\n*", "\n#", "\n:#*", "\n::{|\n", "*", "#", ":", ";",
	"\n== ", " ==\n", "\n= ", " =\n", "==", "=", "===", "\n====== ", " ======\n", "\n== ==\n", "\n----\n",
	"File:a.jpg", "[[File:a.jpg", "[[File:b c.png|", "[[Image:x.svg]]", "[[File:]]", "[[File:|", "File:", "[[:File:q.png|", "[[Media:m.ogg", "|thumb", "|thumb|", "|100px", "|mini", "|100x200px", "|x20px", "px", "|left", "|upright=", "a.pdf", "[[File:d.pdf|mini|",
	"[[Category:x]]", "[[category:", "[[:Category:x", "[[en:", "[[#a", "[[#", "[[|", "[[a|", "[[a|b", "[[]]", "[[ ]]", "[[a#b|", "[[:",
	"http://x.y", "[http://x.y", "[https://x.y z", "[//x.y", "[mailto:a@b.c", "[http://", "https://", "http:", "[ftp://x y]",
	"__TOC__", "__NOTOC__", "__", "&lt;", "&", "&nbsp;", "$$", "$", "%", "%s", "%d", "\\", "\"", "colspan=2", "rowspan=\"3\"", "style=\"text-align:left\"", "align=", "style=", "style=\"",
	"{{DISPLAYTITLE:x}}", "{{#if:", "~~~~", "ä", "→", "\u00a0", "\u200b", "\x00", "\xff", "\r\n", "\r",
	"word", "other words", "a", "1", "x y",
}

var soupTemplateResults = []string{"", "R", "''R", "'''R'''", "{|", "|}", "\n{|\n| R\n|}\n", "{{t}", "[[", "]]", "[[R]]", "<ref>R</ref>", "<ref>", "</ref>", "\n* R\n", "* R", "\n|-\n| R", "<nowiki>", "<!--", "-->", "[[Category:R]]", "[[File:r.png|mini|R]]", "\n== R ==\n", "==", "\n\n", " ", "<div>R</div>", "{{{1}}}", "|", "{{", "}}", "<math>R</math>", "<gallery>\nFile:r.png|R\n</gallery>"}

func genSoup(t *rapid.T) soupCase {
	c := soupCase{Preset: uni(t, len(docPresets)), Svg: oneIn(t, 3)}
	for i, n := 0, uni(t, 4); i < n; i++ {
		c.Templates = append(c.Templates, pick(t, soupTemplateResults))
	}
	if oneIn(t, 150) {
		c.Repeat = 5 + uni(t, 40)
	}
	if oneIn(t, 3) {
		d := soupDoc(t)
		c.Preset, c.Svg = d.Preset, d.Svg
		c.Before = &d
	}
	if oneIn(t, 2) { // fragments
		for i, n := 0, 1+uni(t, 30); i < n; i++ {
			c.Parts = append(c.Parts, pick(t, soupFragments))
		}
		if oneIn(t, 8) { // many repetitions of a short sequence
			short := c.Parts[:min(len(c.Parts), 1+uni(t, 4))]
			var out []string
			for i, n := 0, 2+uni(t, 40); i < n; i++ {
				out = append(out, short...)
			}
			c.Parts = append(out, c.Parts[len(short):]...)
		}
		return c
	}
	// a document with pieces removed, doubled, moved or replaced
	d := soupDoc(t)
	r := newDocR(d)
	text, _ := r.document(d.Blocks)
	parts := splitMarkup(text)
	for i, n := 0, 1+uni(t, 6); i < n && len(parts) > 0; i++ {
		at := uni(t, len(parts))
		k := min(1+uni(t, 3), len(parts)-at)
		switch uni(t, 5) {
		case 0:
			parts = append(parts[:at:at], parts[at+k:]...)
		case 1:
			parts = append(parts[:at+k:at+k], parts[at:]...)
		case 2:
			parts = append(parts[:at:at], append([]string{pick(t, soupFragments)}, parts[at:]...)...)
		case 3:
			parts = append(parts[:at:at], append([]string{pick(t, soupFragments)}, parts[at+k:]...)...)
		case 4:
			b := uni(t, len(parts))
			parts[at], parts[b] = parts[b], parts[at]
		}
	}
	c.Parts = parts
	return c
}

var soupDoc = genDoc(
	map[string]int{"P": 8, "H": 2, "S": 1, "L": 4, "T": 4, "F": 2, "G": 1, "I": 1, "R": 2, "C": 1, "V": 1},
	map[string]int{"t": 8, "f": 4, "l": 3, "e": 2, "r": 2, "u": 1, "m": 1, "n": 1, "i": 1, "h": 1, "E": 1, "b": 1, "c": 1, "k": 1}, 1, 5)

var markupRegex = regexp.MustCompile(`'+|\[+|\]+|\{[{|]|\}\}|\|\}|\|-|\|\||\||<[a-z/!-]*|-*>|=+|\n|[*#:;]+|[a-zA-Z0-9äöüß]+|.`)

func splitMarkup(s string) []string { return markupRegex.FindAllString(s, -1) }

func (c soupCase) result(template string) string {
	if len(c.Templates) == 0 {
		return "r"
	}
	h := fnv.New32a()
	_, _ = h.Write([]byte(template))
	return c.Templates[int(h.Sum32()>>3)%len(c.Templates)]
}

var openTagRegex = regexp.MustCompile(`(</?[a-zA-Z]*)(\[\[|<)`)
var imgSrcRegex = regexp.MustCompile(`<img [^>]*src="\./images/([^"]*)"`)

// plainName undoes any escaping of a file name.
func plainName(s string) string {
	for i := 0; i < 5; i++ {
		s = strings.ReplaceAll(unescapeName(html.UnescapeString(s)), "+", "_")
	}
	return s
}

func runSoup(env *Env, c soupCase) Result {
	resetWorld(env.Dir)
	docPresets[c.Preset].apply(c.Svg)
	// Images and tags that vanish must not complete the tag they stand in.
	garbage := strings.Join(c.Parts, "")
	if garbage != "" && c.Repeat > 1 {
		garbage = strings.Repeat(garbage, max(1, min(c.Repeat, 12000/len(garbage)))) // unclosed elements cost quadratic time
	}
	for openTagRegex.MatchString(garbage) {
		garbage = openTagRegex.ReplaceAllString(garbage, "$1 $2")
	}
	text := "Sentinel alpha.\n\n" + garbage
	var wantBefore string
	templates := map[string]string{}
	if c.Before != nil {
		r := newDocR(*c.Before)
		t, w := r.document(c.Before.Blocks)
		wantBefore, templates = w, r.templates
		_ = wantBefore
		text = t + "\n\nSentinel alpha.\n\n" + garbage
	}
	title := "Generated article"
	render := func() (docOut, error) {
		svc := &docService{templates: templates, fallback: c.result}
		return renderWith(svc, text, title)
	}
	o, err := render()
	if err != nil {
		return fail("%v\nwikitext:\n%q", err, text)
	}
	body, problem := docBody(o.html, title)
	if problem != "" {
		return fail("%s\nwikitext:\n%q", problem, text)
	}
	if m := leakRegex.FindString(body); m != "" {
		return fail("internal marker %q in the result: %q\nwikitext:\n%q\nHTML:\n%s", m, around(body, m), text, body)
	}
	if n := strings.Count(body, "Sentinel alpha."); n != 1 {
		return fail("the paragraph before the broken part appears %d times\nwikitext:\n%q\nHTML:\n%s", n, text, body)
	}
	have := map[string]bool{}
	for _, i := range o.images {
		_, n, _ := strings.Cut(i, ":")
		have[plainName(n)] = true
		have[plainName(filepath.Base(cache.GetFilePathInCache(cache.ImageCacheDirName, n)))] = true // long names are shortened
	}
	for _, id := range o.svc.math {
		have[mathId(id)+".svg"], have[mathId(id)+".png"] = true, true
	}
	for _, m := range imgSrcRegex.FindAllStringSubmatch(body, -1) {
		n := plainName(m[1])
		if !have[n] && !(strings.HasSuffix(n, ".png") && have[strings.TrimSuffix(n, ".png")]) {
			var l []string
			for k := range have {
				l = append(l, k)
			}
			sort.Strings(l)
			return fail("image %q is shown but not downloaded (downloaded: %q)\nwikitext:\n%q\nHTML:\n%s", n, l, text, body)
		}
	}
	resetWorld(env.Dir)
	docPresets[c.Preset].apply(c.Svg)
	o2, err := render()
	if err != nil || o2.html != o.html || fmt.Sprint(o2.images) != fmt.Sprint(o.images) {
		return fail("a second rendering differs (%v)\nwikitext:\n%q", err, text)
	}
	res := Result{NonTrivial: len(c.Parts) >= 3}
	for k, s := range map[string]string{"image": "<img", "table": "<table", "link": "<a ", "list": "<li>", "bold": "<b>", "heading": "<h2"} {
		if strings.Contains(body, s) {
			res.Classes = append(res.Classes, k)
		}
	}
	sort.Strings(res.Classes)
	return res
}

func init() {
	register(&Prop{ID: "C26", Quick: 16000, Thorough: 1500000, Cpu: 30 * time.Second,
		Rule: "random sequences of wikitext fragments and generated documents with pieces removed, doubled, moved and replaced; non-trivial = at least three pieces"},
		genSoup, runSoup)
}

func around(s, part string) string {
	i := strings.Index(s, part)
	return s[max(0, i-80):min(len(s), i+80)]
}
