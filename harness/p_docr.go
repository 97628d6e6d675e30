package main

import (
	"fmt"
	"net/url"
	"path/filepath"
	"sort"
	"strings"
	"unicode"

	"wiki2book/config"
)

// ---- C15-C25: documents ---------------------------------------------------------------------------------------------
//
// A document is generated as a tree. From the tree both the wikitext and the HTML a reader has to get are written; the
// HTML of the real tokenizer and generator must have the same normal form.

// Nd is a node of a document; which fields are used depends on the kind K (see inl and blk).
type Nd struct {
	K string   `json:",omitempty"`
	T string   `json:",omitempty"`
	U string   `json:",omitempty"`
	S []string `json:",omitempty"`
	I int      `json:",omitempty"`
	J int      `json:",omitempty"`
	B bool     `json:",omitempty"`
	N []Nd     `json:",omitempty"`
	M []Nd     `json:",omitempty"`
}

type docCase struct {
	Preset int
	Svg    bool // SVG files are converted to PNG
	Webp   bool `json:",omitempty"`
	Pdf    bool `json:",omitempty"`
	Media  int  `json:",omitempty"` // index in ignoredMediaTypes
	Blocks []Nd
}

// ignoredMediaTypes are values for the list of ignored media; the first one is the default.
var ignoredMediaTypes = [][]string{
	{"gif", "mp3", "mp4", "pdf", "oga", "ogg", "ogv", "wav", "webm"},
	{"svg", "gif", "pdf"},
	{"pdf", "tif", "svg", "djvu"},
	{"jpg", "webm"},
	{},
}

type docPreset struct {
	filePrefixes, imagePrefixesWritten, ignoredTemplates, trailingTemplates, ignoredParams, categories, categoriesWritten []string
}

var docPresets = []docPreset{
	{
		filePrefixes: []string{"file", "image", "media"}, imagePrefixesWritten: []string{"File", "Image", "file", "FILE"},
		categories: []string{"category"}, categoriesWritten: []string{"Category", "category"},
	},
	{
		filePrefixes: []string{"datei", "bild", "file", "image"}, imagePrefixesWritten: []string{"Datei", "Bild", "File", "datei"},
		ignoredTemplates: []string{"navi", "Siehe auch"}, trailingTemplates: []string{"exzellent", "Lesenswert"},
		ignoredParams: []string{"alt", "left", "rechts", "center", "hochkant", "upright", "link"},
		categories:    []string{"kategorie", "category"}, categoriesWritten: []string{"Kategorie", "Category", "KATEGORIE"},
	},
}

func (c docCase) apply() {
	docPresets[c.Preset%len(docPresets)].apply(c.Svg)
	cfg := config.Current
	cfg.IgnoredMediaTypes = ignoredMediaTypes[c.Media]
	if c.Pdf {
		cfg.CommandTemplatePdfToPng = "convert {INPUT} {OUTPUT}"
	}
	if c.Webp {
		cfg.CommandTemplateWebpToPng = "convert {INPUT} {OUTPUT}"
	}
}

func (p docPreset) apply(svg bool) {
	c := config.Current
	c.FilePrefixes, c.CategoryPrefixes = p.filePrefixes, p.categories
	c.IgnoredTemplates, c.TrailingTemplates, c.IgnoredImageParams = p.ignoredTemplates, p.trailingTemplates, p.ignoredParams
	c.CommandTemplateSvgToPng, c.CommandTemplatePdfToPng, c.CommandTemplateWebpToPng = "", "", ""
	if svg {
		c.CommandTemplateSvgToPng = "convert {INPUT} {OUTPUT}"
	}
}

type refGroup struct {
	count   int
	names   map[string]int
	pending map[int]string
}

// docR writes wikitext and expected HTML of a document, in source order.
type docR struct {
	p         docPreset
	c         docCase
	templates map[string]string
	trailing  []string
	trailW    int
	images    map[string]bool
	groups    map[string]*refGroup
	math      int
	feat      map[string]int
	maxDepth  int
	marks     bool // see mark
}

// mark puts a mark for the statistics into the expected HTML.
func (r *docR) mark(s string) string {
	if !r.marks {
		return ""
	}
	return "\x03" + s + "\x04"
}

func newDocR(c docCase) *docR {
	return &docR{p: docPresets[c.Preset%len(docPresets)], c: c, templates: map[string]string{}, images: map[string]bool{}, groups: map[string]*refGroup{}, feat: map[string]int{}}
}

func (r *docR) group(g string) *refGroup {
	if r.groups[g] == nil {
		r.groups[g] = &refGroup{names: map[string]int{}, pending: map[int]string{}}
	}
	return r.groups[g]
}

func (r *docR) f(k string) { r.feat[k]++ }

// inls writes a sequence of inline nodes; B of a node: no blank before it.
func (r *docR) inls(ns []Nd) (string, string) {
	var w, h strings.Builder
	for i, n := range ns {
		if i > 0 && !n.B {
			w.WriteByte(' ')
			h.WriteByte(' ')
		}
		a, b := r.inl(n)
		w.WriteString(a)
		h.WriteString(b)
	}
	return w.String(), h.String()
}

func escapeText(s string) string { return strings.NewReplacer("<", "&lt;", ">", "&gt;").Replace(s) }

func quoteAttr(style int, k, v string, last bool) string {
	if v == "" {
		return ""
	}
	eq := "="
	switch style / 64 % 8 {
	case 1:
		eq = " = "
	case 2:
		k = strings.ToUpper(k)
	case 3:
		k, eq = strings.ToUpper(k[:1])+k[1:], "= "
	}
	if style%2 == 1 && !strings.ContainsAny(v, " ") && !(last && strings.HasSuffix(v, "/")) {
		return " " + k + eq + v
	}
	if style/512%3 == 1 && !strings.Contains(v, "'") {
		return " " + k + eq + "'" + v + "'"
	}
	return " " + k + eq + `"` + v + `"`
}

func refAttrs(style int, name, group string) string {
	swap := style/4%2 == 1
	a := quoteAttr(style, "name", name, swap || group == "")
	b := quoteAttr(style/2, "group", group, !swap || name == "")
	if swap {
		a, b = b, a
	}
	return a + b
}

func (r *docR) inl(n Nd) (string, string) {
	switch n.K {
	case "t":
		return n.T, n.T
	case "b":
		return "[" + n.T + "]", "[" + n.T + "]"
	case "E":
		return n.T, n.T
	case "A":
		return n.S[0], n.S[1]
	case "f": // toggles {K:"q",I:apostrophes} and content
		r.f("fmt")
		var w, h strings.Builder
		bold, ital := false, false
		for _, c := range n.N {
			if c.K == "q" {
				w.WriteString(strings.Repeat("'", c.I))
				if c.I == 2 || c.I == 5 {
					ital = !ital
				}
				if c.I == 3 || c.I == 5 {
					bold = !bold
				}
				if c.I == 5 {
					r.f("fmt5")
				}
				continue
			}
			a, b := r.inl(c)
			if bold && ital {
				r.f("fmtboth")
			}
			w.WriteString(a)
			if bold {
				b = "<b>" + b + "</b>"
			}
			if ital {
				b = "<i>" + b + "</i>"
			}
			h.WriteString(b)
		}
		return w.String(), h.String()
	case "l":
		return r.ilink(n)
	case "e":
		r.f("elink")
		lw, lh := r.inls(n.N)
		sep := " "
		if n.J == 1 {
			r.f("elinkglued")
			sep = ""
		}
		if strings.HasPrefix(n.T, "http://") || strings.HasPrefix(n.T, "https://") {
			return "[" + n.T + sep + lw + "]", r.mark("E") + `<a href="` + n.T + `">` + lh + "</a>" + r.mark("/")
		}
		r.f("elinkother")
		return "[" + n.T + sep + lw + "]", r.mark("/") + lh + r.mark("/")
	case "r", "rb": // definition; "rb": within a references block
		r.f("refdef")
		g := r.group(n.U)
		no := g.count
		if n.T != "" {
			r.f("refname")
			if k, ok := g.names[n.T]; ok {
				no = k
			} else {
				g.names[n.T] = no
			}
		}
		if no == g.count {
			g.count++
		}
		cw, ch := r.refLines(n)
		g.pending[no] = ch
		tag := pickTag("ref", n.I)
		w := "<" + tag + refAttrs(n.I, n.T, n.U) + ">" + cw + "</" + pickTag("ref", n.I/2) + ">"
		if n.K == "rb" {
			return w, ""
		}
		if n.U != "" {
			r.f("refgroup")
		}
		return w, r.mark("U") + fmt.Sprintf("[%d]", no+1) + r.mark("/U")
	case "u":
		r.f("refuse")
		g := r.group(n.U)
		no, ok := g.names[n.T]
		if !ok {
			no = g.count
			g.names[n.T] = no
			g.count++
			r.f("refuseearly")
		}
		end := " />"
		if n.I/8%2 == 1 {
			end = "/>"
		}
		if n.I/16%4 == 1 {
			r.f("refuseempty")
			end = ">" + []string{"", " ", "\n", ""}[n.I/1024] + "</" + pickTag("ref", n.I/2) + ">"
		}
		return "<" + pickTag("ref", n.I) + refAttrs(n.I, n.T, n.U) + end, r.mark("U") + fmt.Sprintf("[%d]", no+1) + r.mark("/U")
	case "m":
		r.f("math")
		r.math++
		id := mathId(n.T)
		w, h, s := mathSizes(id)
		return "<math" + n.U + ">" + n.T + "</math>", fmt.Sprintf(`<img alt="image" src="./images/%s.png" style="width: %s; height: %s; %s;">`, id, w, h, s) + r.mark("M")
	case "n":
		r.f("nowiki")
		tag := pickTag("nowiki", n.I)
		return "<" + tag + ">" + n.T + "</" + pickTag("nowiki", n.I/2) + ">", r.mark("N") + escapeText(n.T) + r.mark("/N")
	case "i":
		r.f("inlineimg")
		return r.image(n, "[[")
	case "rep": // the same thing many times
		r.f("many")
		var w, h []string
		for i := 0; i < n.I; i++ {
			a, b := r.inls(n.N)
			w, h = append(w, a), append(h, b)
		}
		return strings.Join(w, " "), strings.Join(h, " ")
	case "w": // something broken within a cell or entry
		r.f("broken")
		return n.S[0] + n.T + n.S[1], wild + strings.TrimSpace(n.S[0]) + wild + strings.TrimSpace(n.S[1]) + wild
	case "h":
		if n.T == "nowiki" { // separates two things, nothing else
			return n.U, ""
		}
		if n.T == "br" {
			return n.U, "<br>"
		}
		lw, lh := r.inls(n.N)
		return "<" + n.T + n.U + ">" + lw + "</" + n.T + ">", "<" + n.T + n.U + ">" + lh + "</" + n.T + ">"
	case "c":
		r.f("comment")
		return "<!--" + n.T + "-->", ""
	case "k":
		r.f("category")
		return "[[" + n.U + ":" + n.T + "]]", ""
	case "z":
		return "__NOTOC__", ""
	case "g":
		r.f("ignoredtpl")
		return "{{" + n.T + "}}", ""
	case "x":
		body, h := r.template(n, func(ns []Nd) (string, string) { return r.inls(ns) })
		return body, h
	}
	panic("inline kind " + n.K)
}

func pickTag(s string, i int) string {
	if i/16%4 == 3 {
		return strings.ToUpper(s)
	}
	return s
}

// template writes a call; U is its name, the body N its expansion in which {K:"a",I:k} is the k-th argument.
func (r *docR) template(n Nd, body func([]Nd) (string, string)) (string, string) {
	r.f("template")
	call := "{{" + n.U
	var args [][2]string
	for _, a := range n.M {
		w, h := r.inls(a.N)
		args = append(args, [2]string{w, h})
		call += "|" + w
		for _, x := range a.N {
			if x.K == "x" {
				r.f("templatearg")
			}
		}
	}
	call += "}}"
	w, h := body(substArgs(n.N, args))
	// The body is written with the arguments put in; for the server they are parameters.
	for i := range args {
		w = strings.ReplaceAll(w, argMark(i), fmt.Sprintf("{{{%d}}}", i+1))
	}
	if old, ok := r.templates[n.U]; ok && old != w {
		panic("template name used twice: " + n.U)
	}
	r.templates[n.U] = w
	return call, h
}

func argMark(i int) string { return fmt.Sprintf("\x01ARG%d\x01", i) }

func substArgs(ns []Nd, args [][2]string) []Nd {
	out := make([]Nd, len(ns))
	for i, n := range ns {
		if n.K == "a" {
			if n.I < len(args) {
				out[i] = Nd{K: "A", S: []string{argMark(n.I), args[n.I][1]}, B: n.B}
			} else {
				out[i] = Nd{K: "t", T: "noarg", B: n.B}
			}
			continue
		}
		n.N, n.M = substArgs(n.N, args), substArgs(n.M, args)
		out[i] = n
	}
	return out
}

// ilink: I form; T target, U section, N label.
func (r *docR) ilink(n Nd) (string, string) {
	r.f("ilink")
	lw, lh := "", ""
	if n.I == 1 || n.I == 3 || n.I == 6 || n.I == 8 || n.I == 10 {
		lw, lh = r.inls(n.N)
	}
	st := func(s string) string {
		return r.mark("L" + s)
	}
	end := r.mark("/")
	switch n.I {
	case 1:
		return "[[" + n.T + "|" + lw + "]]", st(n.T) + lh + end
	case 2: // section without label: the title stays
		r.f("ilinksection")
		return "[[" + n.T + "#" + n.U + "]]", st(n.T) + n.T + end
	case 3:
		r.f("ilinksection")
		return "[[" + n.T + "#" + n.U + "|" + lw + "]]", st(n.T) + lh + end
	case 4:
		r.f("ilinksection")
		return "[[#" + n.U + "]]", r.mark("S") + "#" + n.U + end
	case 5: // link to a category page
		return "[[:" + n.U + ":" + n.T + "]]", st(":"+n.U+":"+n.T) + n.T + end
	case 6:
		return "[[:" + n.U + ":" + n.T + "|" + lw + "]]", st(":"+n.U+":"+n.T) + lh + end
	case 7: // allowed prefix
		r.f("ilinkprefix")
		return "[[" + n.U + ":" + n.T + "]]", st(n.U+":"+n.T) + n.U + ":" + n.T + end
	case 8:
		r.f("ilinkprefix")
		return "[[" + n.U + ":" + n.T + "|" + lw + "]]", st(n.U+":"+n.T) + lh + end
	case 9: // unwanted prefix
		r.f("ilinkforbidden")
		return "[[" + n.U + ":" + n.T + "]]", ""
	case 10:
		r.f("ilinkforbidden")
		return "[[" + n.U + ":" + n.T + "|" + lw + "]]", ""
	}
	return "[[" + n.T + "]]", st(n.T) + n.T + end
}

// fileTarget is the name of the file as it is used for the image.
func fileTarget(name string) string {
	// Blanks and underscores are the same, many are one, surrounding ones do not count.
	name = strings.Join(strings.Fields(strings.NewReplacer("_", " ", "%20", " ").Replace(name)), "_")
	rs := []rune(name)
	rs[0] = unicode.ToUpper(rs[0])
	return string(rs)
}

// media tells whether a file is ignored or converted to PNG. A type that is ignored and converted stays.
func (c docCase) media(name string) (ignored, converted bool) {
	ext := strings.ToLower(strings.TrimPrefix(filepath.Ext(strings.TrimSpace(name)), "."))
	for _, e := range ignoredMediaTypes[c.Media] {
		ignored = ignored || e == ext
	}
	converted = c.Svg && ext == "svg" || c.Pdf && ext == "pdf" || c.Webp && ext == "webp"
	return ignored && !converted, converted
}

// image: T file, U written prefix, S options before the caption ("thumb" and its forms, sizes, ignored ones), N caption.
func (r *docR) image(n Nd, open string) (string, string) {
	w := n.U
	if w != "" {
		w += ":"
	}
	w += n.T
	thumb := open != "[[" // galleries and maps: see the callers
	if open == "map" {
		thumb = false
	}
	x, y := -1, -1
	for _, o := range n.S {
		w += "|" + o
		o = strings.TrimSpace(o)
		switch {
		case strings.HasPrefix(o, "mini") || strings.HasPrefix(o, "thumb"):
			thumb = true
		case strings.HasSuffix(o, "px"):
			x, y = -1, -1
			a, b, _ := strings.Cut(strings.TrimSuffix(o, "px"), "x")
			if v, ok := atoi(a); ok {
				x = v
			}
			if v, ok := atoi(b); ok {
				y = v
			}
		}
	}
	capW, capH := "", ""
	if n.N != nil {
		capW, capH = r.inls(n.N)
		w += "|" + capW
	}
	if open == "[[" {
		w = "[[" + w + "]]"
	}
	ignored, converted := r.c.media(n.T)
	if ignored {
		r.f("imgignored")
		return w, ""
	}
	name := fileTarget(n.T)
	r.images[name] = true
	file := name
	if converted {
		file += ".png"
	}
	style := ""
	if x != -1 || y != -1 {
		r.f("imgsize")
		px := func(v int) string {
			if v == -1 {
				return "auto"
			}
			return fmt.Sprintf("%dpx", v)
		}
		style = fmt.Sprintf(` style="vertical-align: middle; width: %s; height: %s;"`, px(x), px(y))
	}
	src := "./images/" + url.QueryEscape(file)
	if !thumb && x < 100 && y < 50 {
		return w, fmt.Sprintf(`<img alt="image" class="inline" src="%s"%s>`, src, style) + r.mark("I")
	}
	if !thumb {
		capH = ""
	}
	if capH != "" {
		r.f("caption")
	}
	return w, fmt.Sprintf(`<div class="figure"><img alt="image" src="%s"%s>`+r.mark("I")+`<div class="caption">%s</div></div>`, src, style, capH)
}

func atoi(s string) (int, bool) {
	s = strings.TrimSpace(s)
	v := 0
	for _, c := range s {
		if c < '0' || c > '9' {
			return 0, false
		}
		v = v*10 + int(c-'0')
	}
	return v, s != ""
}

// exLine is a line of the expected document: text, a block of its own, or blank.
type exLine struct {
	kind byte // 'T', 'K', 'V'; 'W': blank, but only after tokenizing
	html string
}

func joinLines(ls []exLine) string {
	var sb strings.Builder
	prev, blank := byte('K'), false
	for _, l := range ls {
		switch l.kind {
		case 'V', 'W':
			blank = true
			continue
		case 'T':
			if prev == 'T' && blank {
				sb.WriteString("<br><br>\n")
			}
		}
		sb.WriteString(l.html + "\n")
		prev, blank = l.kind, false
	}
	return sb.String()
}

// blks writes blocks; J of a block: blank lines before it.
func (r *docR) blks(bs []Nd, depth int) ([]string, []exLine) {
	r.maxDepth = max(r.maxDepth, depth)
	var w []string
	var ex []exLine
	for i, b := range bs {
		if i > 0 {
			for j := 0; j < b.J; j++ {
				w = append(w, "")
				ex = append(ex, exLine{'V', ""})
			}
		}
		a, e := r.blk(b, depth)
		w = append(w, a...)
		ex = append(ex, e...)
	}
	return w, ex
}

// refLines is the content of a reference, in case of J on several lines.
func (r *docR) refLines(n Nd) (string, string) {
	if n.J == 0 || n.K != "r" {
		return r.inls(n.N)
	}
	plain := func(n Nd) bool { return n.K == "t" && len(n.T) > 0 && n.T[0] >= 'a' && n.T[0] <= 'z' }
	k := len(n.N)
	if n.J&4 != 0 && k > 1 && plain(n.N[1]) && n.N[0].K != "c" {
		k = 1
	}
	w, h := r.inls(n.N[:k])
	if k < len(n.N) {
		r.f("reflines")
		w2, h2 := r.inls(n.N[k:])
		w, h = w+"\n"+w2, h+"\n"+h2
	}
	if n.J&1 != 0 && plain(n.N[0]) {
		r.f("reflines")
		w = "\n" + w
	}
	if n.J&2 != 0 {
		r.f("reflines")
		w += "\n"
	}
	return w, h
}

func (r *docR) blk(b Nd, depth int) ([]string, []exLine) {
	one := func(k byte, w, h string) ([]string, []exLine) { return []string{w}, []exLine{{k, h}} }
	switch b.K {
	case "P":
		var w []string
		var ex []exLine
		for _, l := range b.N {
			a, h := r.inls(l.N)
			w = append(w, strings.Repeat(" ", l.I)+a)
			ex = append(ex, exLine{'T', h})
		}
		if len(b.N) > 1 {
			r.f("multiline")
		}
		return w, ex
	case "H":
		r.f("heading")
		a, h := r.inls(b.N)
		m := strings.Repeat("=", b.I)
		s := " "
		if b.B {
			s = ""
		}
		return one('K', m+s+a+s+m+strings.Repeat(" ", b.I%2), fmt.Sprintf("<h%d>%s</h%d>", b.I, h, b.I))
	case "Q":
		r.f("broken")
		return []string{"", b.S[0] + b.T + b.S[1], ""}, []exLine{{'V', ""}, {'T', wild + strings.TrimSpace(b.S[0]) + wild + strings.TrimSpace(b.S[1]) + wild}, {'V', ""}}
	case "S":
		r.f("semi")
		return one('T', "'''"+b.T+"'''", "<b>"+b.T+"</b>")
	case "L":
		r.f("list")
		var w []string
		var items []listLine
		for _, it := range b.N {
			if it.K == "junk" {
				r.f("listjunk")
				w = append(w, it.T)
				continue
			}
			a, h := r.inls(it.N)
			l := listLine{prefix: it.T, html: h}
			a = strings.Repeat(" ", it.I%2) + a
			if len(it.M) > 0 {
				r.f("listdef")
				a2, h2 := r.inls(it.M)
				a += ":" + strings.Repeat(" ", it.I/2%2) + a2
				l.def, l.hasDef = h2, true
			}
			if len(it.T) > 1 {
				r.f("sublist")
			}
			w = append(w, it.T+a)
			items = append(items, l)
		}
		var ex []exLine
		for _, h := range buildLists(items) {
			ex = append(ex, exLine{'K', h})
		}
		return w, ex
	case "T":
		return r.table(b, depth)
	case "F":
		r.f("figure")
		a, h := r.image(b, "[[")
		k := byte('K')
		if h == "" {
			k = 'W'
		} else if strings.HasPrefix(h, "<img") {
			k = 'T'
		}
		return one(k, a, h)
	case "G":
		r.f("gallery")
		w := []string{"<" + pickTag("gallery", b.I) + b.T + ">"}
		var ex []exLine
		for i, im := range b.N {
			a, h := r.image(im, "gallery")
			if i == 0 && b.B {
				w[0] += a
			} else {
				w = append(w, a)
			}
			if h == "" {
				ex = append(ex, exLine{'W', ""})
			} else {
				ex = append(ex, exLine{'K', h})
			}
		}
		return append(w, "</"+pickTag("gallery", b.I/4)+">"), ex
	case "I":
		r.f("imagemap")
		a, h := r.image(b.N[0], "map")
		w := []string{"<" + pickTag("imagemap", b.I) + ">", a}
		if b.B {
			w = []string{w[0] + a}
		}
		w = append(w, b.S...)
		w = append(w, "</imagemap>")
		k := byte('K')
		if h == "" {
			k = 'W'
		} else if strings.HasPrefix(h, "<img") {
			k = 'T'
		}
		return w, []exLine{{k, h}}
	case "R":
		return r.references(b)
	case "X":
		var ex []exLine
		call, _ := r.template(b, func(ns []Nd) (string, string) {
			w, e := r.blks(ns, depth+1)
			ex = e
			return strings.Join(w, "\n") + strings.Repeat("\n", b.I), ""
		})
		r.f("blocktemplate")
		return []string{call}, ex
	case "C":
		r.f("comment")
		w := strings.Repeat(" ", b.I) + "<!--" + b.T + "-->"
		for i := 0; i+1 < len(b.S); i += 2 {
			w += b.S[i] + "<!--" + b.S[i+1] + "-->"
		}
		return strings.Split(w, "\n"), nil
	case "V": // a line of which nothing is left
		a, _ := r.inls(b.N)
		return one('V', a, "")
	case "Y":
		r.f("trailing")
		name := "{{" + b.U + b.T
		for _, a := range b.M {
			w, _ := r.inls(a.N)
			name += "|" + w
		}
		body, h := r.inls(b.N)
		r.templates[b.U] = body
		r.trailing = append(r.trailing, h)
		return one('V', name+"}}", "")
	}
	panic("block kind " + b.K)
}

func (r *docR) references(b Nd) ([]string, []exLine) {
	g := r.group(b.U)
	if len(g.pending) == 0 && len(b.N) == 0 {
		return []string{"norefs"}, []exLine{{'T', "norefs"}}
	}
	r.f("references")
	attr := quoteAttr(b.I, "group", b.U, true)
	tag := pickTag("references", b.I)
	var w []string
	if len(b.N) == 0 && b.I%2 == 0 {
		w = []string{"<" + tag + attr + " />"}
	} else {
		r.f("refblock")
		w = []string{"<" + tag + attr + ">"}
		for _, d := range b.N {
			d.K, d.U = "rb", b.U
			a, _ := r.inl(d)
			w = append(w, a)
		}
		w = append(w, "</"+tag+[]string{"", "", " "}[b.I/32%3]+">")
	}
	var nos []int
	for no := range g.pending {
		nos = append(nos, no)
	}
	sort.Ints(nos)
	var ex []exLine
	for _, no := range nos {
		ex = append(ex, exLine{'K', r.mark("D") + fmt.Sprintf("[%d] ", no+1) + r.mark("/D") + g.pending[no] + "<br>"})
	}
	g.pending = map[int]string{}
	return w, ex
}

// table: U indentation, T attributes, S[0] attributes of the caption, M caption; rows N: T attributes, B explicit row
// start; cells N of a row: K td/th, T attributes, B on the line of the previous cell, N first line, M further blocks.
func (r *docR) table(b Nd, depth int) ([]string, []exLine) {
	r.f("table")
	if depth > 0 {
		r.f("nestedtable")
	}
	w := []string{b.U + "{|" + b.T}
	capH := ""
	if b.M != nil {
		r.f("tablecaption")
		a, h := r.inls(b.M)
		c := "|+"
		if len(b.S) > 0 {
			c += b.S[0] + "|"
		}
		w = append(w, c+" "+a)
		capH = `<div class="caption">` + h + "</div>"
	}
	var rows strings.Builder
	tail, tailH := "|}", ""
	for _, row := range b.N {
		if row.K == "tail" {
			r.f("tabletail")
			a, h := r.inls(row.N)
			if row.B {
				tail += " "
			}
			tail, tailH = tail+a, h
			continue
		}
		if row.B {
			w = append(w, "|-"+row.T)
		}
		rows.WriteString("<tr>")
		for i, c := range row.N {
			sep, tag := "|", "td"
			if c.K == "th" {
				sep, tag = "!", "th"
				r.f("th")
			}
			a, h := r.inls(c.N)
			cell := ""
			if c.T != "" {
				r.f("cellattr")
				cell = " " + c.T + " |"
			}
			if a != "" {
				glued := strings.HasPrefix(a, "!") && (tag == "td" || cell != "") || strings.HasPrefix(a, "-") && c.B && i > 0
				if !glued {
					cell += " "
				}
				cell += a
			}
			if c.B && i > 0 {
				r.f("inlinecell")
				s := sep + sep
				if tag == "th" && c.I%2 == 1 {
					s = "||"
				}
				w[len(w)-1] += " " + s + cell
			} else {
				w = append(w, sep+cell)
			}
			first := exLine{'T', h}
			if a == "" {
				first.kind = 'V'
			}
			mw, mex := r.blks(c.M, depth+1)
			if len(c.M) > 0 {
				r.f("blockcell")
				for j := 0; j < c.J; j++ {
					w = append(w, "")
					mex = append([]exLine{{'V', ""}}, mex...)
				}
			}
			w = append(w, mw...)
			rows.WriteString("<" + tag + cellAttrs(c.T) + ">" + joinLines(append([]exLine{first}, mex...)) + "</" + tag + ">")
		}
		rows.WriteString("</tr>")
	}
	w = append(w, tail)
	h := `<div class="figure"><table>` + rows.String() + "</table>" + capH + "</div>"
	for range b.U {
		r.f("indenttable")
		h = `<div class="description-list"><div class="dd">` + h + "</div></div>"
	}
	if tailH != "" {
		return w, []exLine{{'K', h}, {'T', tailH}}
	}
	return w, []exLine{{'K', h}}
}

// cellAttrs are the attributes of a cell that matter for a book: spans and the alignment of the text.
func cellAttrs(a string) string {
	a = strings.NewReplacer("'", `"`, " ", "", "\t", "").Replace(strings.ToLower(a))
	out := ""
	for _, k := range []string{"colspan", "rowspan"} {
		if i := strings.Index(a, k+"="); i >= 0 {
			v := strings.TrimPrefix(a[i+len(k)+1:], `"`)
			j := 0
			for j < len(v) && v[j] >= '0' && v[j] <= '9' {
				j++
			}
			out += " " + k + `="` + v[:j] + `"`
		}
	}
	if i := strings.Index(a, "text-align:"); i >= 0 {
		v := a[i:]
		if j := strings.IndexAny(v, `;"`); j >= 0 {
			v = v[:j]
		}
		out += ` style="` + v + `"`
	}
	return out
}

type listLine struct {
	prefix, html, def string
	hasDef            bool
}

// buildLists turns lines with list prefixes into lists; a line with a longer prefix starts lists within the item before.
func buildLists(ls []listLine) []string {
	var out []string
	for i := 0; i < len(ls); {
		p := ls[i].prefix[0]
		j := i
		same := func(c byte) bool {
			if p == ';' {
				return c == ';' || c == ':'
			}
			return c == p
		}
		for j < len(ls) && same(ls[j].prefix[0]) {
			j++
		}
		out = append(out, buildList(p, ls[i:j]))
		i = j
	}
	return out
}

func buildList(p byte, ls []listLine) string {
	type item struct{ open, body, close string }
	var items []item
	add := func(c byte, html string) {
		it := item{"<li>", html, "</li>"}
		switch c {
		case ';':
			it = item{`<div class="dt">`, html, "</div>"}
		case ':':
			it = item{`<div class="dd">`, html, "</div>"}
		}
		if c == '#' && strings.HasPrefix(html, "<li") { // explicit number
			it.open = ""
		}
		items = append(items, it)
	}
	for i := 0; i < len(ls); {
		if len(ls[i].prefix) == 1 {
			add(ls[i].prefix[0], ls[i].html)
			if ls[i].hasDef {
				add(':', ls[i].def)
			}
			i++
			continue
		}
		j := i
		q := ls[i].prefix[1]
		var sub []listLine
		for j < len(ls) && len(ls[j].prefix) > 1 && (ls[j].prefix[1] == q || q == ';' && ls[j].prefix[1] == ':') {
			l := ls[j]
			l.prefix = l.prefix[1:]
			sub = append(sub, l)
			j++
		}
		if len(items) == 0 {
			add(p, "")
		}
		items[len(items)-1].body += buildList(q, sub)
		i = j
	}
	open, cl := "<ul>", "</ul>"
	switch p {
	case '#':
		open, cl = "<ol>", "</ol>"
	case ';', ':':
		open, cl = `<div class="description-list">`, "</div>"
	}
	s := open
	for _, it := range items {
		s += it.open + it.body + it.close
	}
	return s + cl
}

// sections applies the rule for headings: a section that is empty and not structured by subsections disappears.
func sections(bs []Nd, ex [][]exLine, more bool) [][]exLine {
	out := make([][]exLine, len(bs))
	copy(out, ex)
	for i, b := range bs {
		if b.K != "H" {
			continue
		}
		empty, sub := true, false
		j := i + 1
		for ; j < len(bs) && bs[j].K != "H" && bs[j].K != "S"; j++ {
			for _, l := range ex[j] {
				if l.kind != 'V' {
					empty = false
				}
			}
		}
		if j < len(bs) {
			sub = bs[j].K == "S" || bs[j].I > b.I
		} else if more {
			empty = false
		}
		if empty && !sub {
			out[i] = []exLine{{'V', ""}}
		}
	}
	return out
}

// document writes the whole document: wikitext and expected HTML.
func (r *docR) document(bs []Nd) (string, string) {
	var w []string
	ex := make([][]exLine, len(bs))
	blanks := make([]int, len(bs))
	for i, b := range bs {
		if i > 0 && bs[i-1].K == "X" && bs[i-1].I > 0 { // the line breaks are part of the template
			r.f("gluedtemplate")
			blanks[i] = bs[i-1].I - 1
			a, e := r.blk(b, 0)
			w[len(w)-1] += a[0]
			w = append(w, a[1:]...)
			ex[i] = e
			continue
		}
		if i > 0 {
			blanks[i] = b.J
			for j := 0; j < b.J; j++ {
				w = append(w, "")
			}
		}
		a, e := r.blk(b, 0)
		w = append(w, a...)
		ex[i] = e
	}
	kept := sections(bs, ex, len(r.trailing) > 0)
	var all []exLine
	for i := range bs {
		for j := 0; j < blanks[i]; j++ {
			all = append(all, exLine{'V', ""})
		}
		if bs[i].K == "H" && len(kept[i]) == 1 && kept[i][0].kind == 'V' {
			r.f("emptysection")
			continue // heading and the blank lines of its section are gone
		}
		all = append(all, kept[i]...)
	}
	if len(bs) > 0 && bs[len(bs)-1].I > 1 && bs[len(bs)-1].K == "X" {
		all = append(all, exLine{'V', ""})
	}
	for _, t := range r.trailing {
		all = append(all, exLine{'T', t})
	}
	return strings.Join(w, "\n"), joinLines(all)
}

// runDoc renders the case with the real code and compares.
func runDoc(env *Env, c docCase, features []string, both bool) Result {
	resetWorld(env.Dir)
	r := newDocR(c)
	c.apply()
	text, want := r.document(c.Blocks)
	title := "Generated article"
	o, err := renderDoc(text, title, r.templates)
	if err != nil {
		return fail("%v\nwikitext:\n%s", err, text)
	}
	body, problem := docBody(o.html, title)
	if problem != "" {
		return fail("%s\nwikitext:\n%s", problem, text)
	}
	if m := leakRegex.FindString(body); m != "" {
		return fail("internal marker %q in the result\nwikitext:\n%s", m, text)
	}
	wantN, problem := normalHtml(want)
	if problem != "" {
		return infra("expected HTML: %s\n%s", problem, want)
	}
	gotN, problem := normalHtml(body)
	if !matchesWild(gotN, wantN) {
		return fail("%s\nwikitext:\n%s\nexpected (normal form):\n%s\ngot:\n%s", diffAt(wantN, gotN), text, wantN, gotN)
	}
	if problem != "" && r.feat["broken"] == 0 {
		return fail("%s\nwikitext:\n%s\nHTML:\n%s", problem, text, body)
	}
	got := map[string]bool{}
	for _, i := range o.images {
		_, n, _ := strings.Cut(i, ":")
		got[n] = true
	}
	if d := diffSets(got, r.images); d != "" {
		return fail("images to download: %s\nwikitext:\n%s", d, text)
	}
	if both {
		resetWorld(env.Dir)
		c.apply()
		o2, err := renderDoc(text, title, r.templates)
		if err != nil || o2.html != o.html {
			return fail("a second rendering differs (%v)\nwikitext:\n%s", err, text)
		}
	}
	res := Result{}
	n := 0
	for _, f := range features {
		if r.feat[f] > 0 {
			n++
			res.Classes = append(res.Classes, f)
		}
	}
	res.NonTrivial = n >= 1
	if both {
		res.NonTrivial = len(r.feat) >= 6
	}
	return res
}

const wild = "\x02" // stands for anything in the expected normal form

func matchesWild(s, pattern string) bool {
	parts := strings.Split(pattern, wild)
	if len(parts) == 1 {
		return s == pattern
	}
	if !strings.HasPrefix(s, parts[0]) {
		return false
	}
	s = s[len(parts[0]):]
	last := parts[len(parts)-1]
	for _, p := range parts[1 : len(parts)-1] {
		i := strings.Index(s, p)
		if i < 0 {
			return false
		}
		s = s[i+len(p):]
	}
	return strings.HasSuffix(s, last)
}

func diffSets(got, want map[string]bool) string {
	var ks []string
	for k := range got {
		if !want[k] {
			ks = append(ks, "unexpected "+k)
		}
	}
	for k := range want {
		if !got[k] {
			ks = append(ks, "missing "+k)
		}
	}
	sort.Strings(ks)
	return strings.Join(ks, ", ")
}
