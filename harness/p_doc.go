package main

import (
	"fmt"
	"strings"
	"time"
	"unicode/utf8"

	"pgregory.net/rapid"
)

// dgen generates documents. weights: kind -> weight, for blocks (upper case) and inline nodes (lower case).
type dgen struct {
	t      *rapid.T
	preset int
	p      docPreset
	wb     map[string]int
	wi     map[string]int
	n      int                 // counter for names
	names  map[string][]string // ref names per group
	fn     int
	noSpan bool
	broken int // which brokenFragments
	// what was generated before, to be repeated at another place of the same article
	oldNodes  []oldNode
	oldBlocks []oldBlock
	oldTpls   []oldNode
}

type oldNode struct {
	c dctx
	d Nd
}

type oldBlock struct {
	c bctx
	b []Nd
}

// repeatable: may be written twice in an article without changing its meaning.
func repeatable(ds ...Nd) bool {
	for _, d := range ds {
		if d.K == "r" && d.T != "" || d.K == "R" || d.K == "Y" || d.K == "a" || !repeatable(d.N...) || !repeatable(d.M...) {
			return false
		}
	}
	return true
}

// dctx restricts what may appear at a place.
type dctx struct {
	depth   int  // nesting of inline nodes
	noPipe  bool // pipes separate something here
	noColon bool // a colon separates something here
	noEq    bool
	noBrack bool // within brackets
	noRef   bool
	noImg   bool
	noFmt   bool
	noTpl   bool
	line    bool // everything stands on one line
	noElink bool
	plain   bool // only words and formatting
	arg     bool // argument of a template
	body    int  // number of arguments available (within a template body)
}

const wordLetters = "abcdefghijkl"

func (g *dgen) letters(n int) string {
	var sb strings.Builder
	for i := 0; i < n; i++ {
		sb.WriteByte(wordLetters[uni(g.t, len(wordLetters))])
	}
	return sb.String()
}

var interior = []string{"'", "-", ".", ",", "+", "/", "&", "%", "~", "_", "\"", "$", "$$", "!", "*", "#", ";", "é", "ß", "漢", "😀", "…", "(", ")", "=", ":", "|", "{", "}", "]", "\\", "^", "@", "–", "’", "10"}
var trailingChars = []string{",", ".", ":", ";", "!", "?", ")"}

func (g *dgen) word(c dctx) string {
	w := g.letters(1 + uni(g.t, 4))
	ok := func(s string) bool {
		switch s {
		case "|":
			return !c.noPipe
		case ":":
			return !c.noColon
		case "=":
			return !c.noEq && !c.arg
		case "]", "}", "{":
			return !c.noBrack && !c.arg && c.body == 0 && !c.noPipe
		}
		return true
	}
	if oneIn(g.t, 4) {
		if s := pick(g.t, interior); ok(s) {
			w += s + g.letters(1+uni(g.t, 2))
		}
	}
	if oneIn(g.t, 6) {
		if s := pick(g.t, trailingChars); ok(s) {
			w += s
		}
	}
	return w
}

func (g *dgen) words(c dctx, max int) string {
	ws := []string{g.word(c)}
	for len(ws) < max && oneIn(g.t, 2) {
		if s := pick(g.t, signs); oneIn(g.t, 8) && (s != "=" || !c.noEq && !c.arg) {
			ws = append(ws, s)
			continue
		}
		ws = append(ws, g.word(c))
	}
	return strings.Join(ws, " ")
}

// signs are words without letters.
var signs = []string{"-", "--", "---", "----", "...", "_", "____", "__X__", "~~~~", "=", "&", "+", "/", "*", "#", "\"", "$", "$$", "\\", "!", "?", "<5", ">", "€", "½"}

func (g *dgen) text(c dctx) Nd { return Nd{K: "t", T: g.words(c, 3)} }

// plainWords are words without any special character, e.g. for titles.
func (g *dgen) plainWords(max int) string {
	ws := []string{g.letters(1 + uni(g.t, 4))}
	for len(ws) < max && oneIn(g.t, 2) {
		ws = append(ws, g.letters(1+uni(g.t, 3)))
	}
	return strings.Join(ws, " ")
}

func (g *dgen) choose(w map[string]int, order []string) string {
	sum := 0
	for _, k := range order {
		sum += w[k]
	}
	if sum == 0 {
		return ""
	}
	v := uni(g.t, sum)
	for _, k := range order {
		if v < w[k] {
			return k
		}
		v -= w[k]
	}
	return ""
}

var inlineOrder = []string{"t", "f", "l", "e", "r", "u", "m", "n", "i", "h", "E", "b", "c", "k", "z", "g", "x"}

// inline generates a line of text with at least one piece that stays visible.
func (g *dgen) inline(c dctx, max int) []Nd {
	var out []Nd
	n := 1 + uni(g.t, max)
	for i := 0; i < n; i++ {
		d := g.node(c)
		if i > 0 && oneIn(g.t, 4) && glues(out[len(out)-1], d) {
			d.B = true
		}
		out = append(out, d)
	}
	visible := false
	for _, d := range out {
		visible = visible || d.K == "t"
	}
	if !visible || out[0].K == "f" && (out[len(out)-1].K == "f") || vanishes(out[len(out)-1]) || vanishes(out[0]) && len(out) == 1 {
		out = append(out, g.text(c))
	}
	if vanishes(out[0]) {
		out = append([]Nd{g.text(c)}, out...)
	}
	return out
}

func vanishes(d Nd) bool {
	return d.K == "c" || d.K == "h" && d.T == "nowiki" || d.K == "k" || d.K == "z" || d.K == "g" || d.K == "l" && (d.I == 9 || d.I == 10)
}

// glues: both may stand next to each other without a blank.
func glues(a, b Nd) bool {
	return (a.K == "t" || b.K == "t") && a.K != "a" && b.K != "a"
}

func (g *dgen) node(c dctx) Nd {
	if len(g.oldNodes) > 0 && oneIn(g.t, 16) {
		if o := pick(g.t, g.oldNodes); o.c == c {
			return o.d
		}
	}
	d := g.newNode(c)
	if repeatable(d) {
		g.oldNodes = append(g.oldNodes, oldNode{c, d})
	}
	return d
}

func (g *dgen) newNode(c dctx) Nd {
	if c.body > 0 && oneIn(g.t, 4) {
		return Nd{K: "a", I: uni(g.t, c.body)}
	}
	k := g.choose(g.wi, inlineOrder)
	inner := c
	inner.depth++
	if c.depth >= 3 {
		return g.text(c)
	}
	if c.plain && k != "f" {
		return g.text(c)
	}
	if c.arg && k != "f" && k != "x" {
		return g.text(c)
	}
	switch k {
	case "f":
		if c.noFmt {
			return g.text(c)
		}
		inner.noFmt, inner.body = true, 0
		return g.format(inner)
	case "l":
		if c.noBrack {
			return g.text(c)
		}
		return g.link(inner)
	case "e":
		if c.noBrack || c.noElink {
			return g.text(c)
		}
		inner.noBrack, inner.noRef, inner.noImg, inner.noTpl = true, true, true, true
		d := Nd{K: "e", T: pick(g.t, []string{"http://", "https://", "https://", "ftp://", "irc://"}) + g.letters(3) + "." + g.letters(2)}
		if oneIn(g.t, 2) {
			d.T += "/" + pick(g.t, []string{g.letters(2), g.letters(2) + "?a=" + g.letters(2) + "&b=c", "%C3%A4#" + g.letters(2), g.letters(1) + "(" + g.letters(1) + ")", g.letters(1) + ":" + g.letters(1)})
		}
		if c.noPipe {
			inner.noPipe = true
		}
		d.N = g.inline(inner, 2)
		if d.N[0].K == "f" && oneIn(g.t, 2) {
			d.J = 1 // no blank between URL and text
			d.N = append(d.N, Nd{K: "t", T: " " + g.letters(2)})
		}
		return d
	case "r":
		if c.noRef {
			return g.text(c)
		}
		inner.noRef, inner.noImg = true, true
		group := g.refGroup()
		d := Nd{K: "r", U: group, I: uni(g.t, 4096), N: g.inline(inner, 3)}
		if oneIn(g.t, 2) {
			d.T = g.newRefName(group)
		}
		if !c.line && oneIn(g.t, 5) {
			d.J = 1 + uni(g.t, 7)
		}
		return d
	case "u":
		if c.noRef {
			return g.text(c)
		}
		group := g.refGroup()
		d := Nd{K: "u", U: group, I: uni(g.t, 4096)}
		if c.line && d.I >= 2048 { // no line break, see inl
			d.I -= 2048
		}
		if ns := g.names[group]; len(ns) > 0 && !oneIn(g.t, 4) {
			d.T = pick(g.t, ns)
		} else {
			g.n++
			d.T = fmt.Sprintf("%s%d", g.letters(2), g.n) // never defined or later: see laterDef
			if oneIn(g.t, 2) {
				g.names["later/"+group] = append(g.names["later/"+group], d.T)
			}
			g.names[group] = append(g.names[group], d.T)
		}
		return d
	case "m":
		return Nd{K: "m", U: pick(g.t, []string{"", "", ` display="block"`, ` chem`, ` display="inline" class="abcdefgh" style="color: red; width: 12em"`, ` id=a `}), T: g.tex()}
	case "n":
		return Nd{K: "n", I: uni(g.t, 64), T: g.raw()}
	case "i":
		if c.noImg || c.noBrack {
			return g.text(c)
		}
		d := g.imageNode(inner, false)
		return d
	case "h":
		if oneIn(g.t, 6) {
			return Nd{K: "h", T: "nowiki", U: pick(g.t, []string{"<nowiki/>", "<nowiki />", "<NOWIKI/>"})}
		}
		if oneIn(g.t, 4) {
			return Nd{K: "h", T: "br", U: pick(g.t, []string{"<br>", "<br />", "<br/>"})}
		}
		return Nd{K: "h", T: pick(g.t, []string{"sub", "sup", "small", "span", "u", "s", "code"}), U: pick(g.t, []string{"", "", ` class="ab"`}), N: g.inline(inner, 2)}
	case "E":
		return Nd{K: "E", T: pick(g.t, []string{"&nbsp;", "&amp;", "&lt;", "&gt;", "&#91;", "&ndash;", "&#x27;"})}
	case "b":
		if c.noBrack {
			return g.text(c)
		}
		cc := c
		cc.noBrack = true
		return Nd{K: "b", T: g.words(cc, 3)}
	case "c":
		ct := g.commentText(false)
		if oneIn(g.t, 4) { // directly followed by another one
			ct += "--><!--" + g.commentText(false)
		}
		return Nd{K: "c", T: ct}
	case "k":
		if c.noBrack {
			return g.text(c)
		}
		return Nd{K: "k", U: pick(g.t, g.p.categoriesWritten), T: g.plainWords(2) + pick(g.t, []string{"", "", "|" + g.letters(2), "| ", ":" + g.letters(2)})}
	case "z":
		return Nd{K: "z"}
	case "g":
		if len(g.p.ignoredTemplates) == 0 || c.noTpl || c.noBrack {
			return g.text(c)
		}
		return Nd{K: "g", T: g.ignoredCall()}
	case "x":
		if c.noTpl || c.body > 0 {
			return g.text(c)
		}
		return g.templateCall(inner)
	}
	return g.text(c)
}

func (g *dgen) ignoredCall() string {
	name := pick(g.t, g.p.ignoredTemplates)
	switch uni(g.t, 3) {
	case 1:
		name = strings.ToUpper(name)
	case 2:
		name = " " + name + " "
	}
	if oneIn(g.t, 4) {
		name += pick(g.t, []string{" ", "\n"})
	}
	switch uni(g.t, 4) {
	case 1:
		name += "|" + g.letters(3)
	case 2:
		name += "|a={{" + g.letters(3) + "|b}}|[[" + g.letters(2) + "]]"
	case 3:
		name += "\n| a = " + g.letters(2) + "\n"
	}
	return name
}

func (g *dgen) templateCall(c dctx) Nd {
	if oneIn(g.t, 6) { // a call that also appears in formulas (texParts) and nowiki (rawParts)
		name := pick(g.t, []string{"b", "f"})
		return Nd{K: "x", U: name, N: []Nd{{K: "t", T: "shown" + name}}}
	}
	g.n++
	if len(g.oldTpls) > 0 && oneIn(g.t, 4) { // the same template with other arguments
		if o := pick(g.t, g.oldTpls); o.c == c {
			d := o.d
			d.M = make([]Nd, len(d.M))
			for i, a := range o.d.M {
				d.M[i] = Nd{K: "arg", N: append([]Nd(nil), a.N...)}
				for j, n := range a.N {
					if n.K == "t" {
						d.M[i].N[j].T = pick(g.t, []string{strings.ToUpper(n.T), n.T + "x", n.T, strings.ToUpper(n.T[:1]) + n.T[1:]})
					}
				}
			}
			return d
		}
	}
	d := Nd{K: "x", U: fmt.Sprintf("t%s%d", g.letters(1), g.n)}
	if oneIn(g.t, 3) {
		d.U = pick(g.t, []string{"T", "t é", "t-", "t (a) ", "t/", "t.", "t_", "漢", "1"}) + fmt.Sprintf("%d", g.n)
	} else if ts := docPresets[g.preset].trailingTemplates; len(ts) > 0 && oneIn(g.t, 6) {
		d.U = pick(g.t, ts) + pick(g.t, []string{"", "er", " "}) + fmt.Sprintf("%d", g.n)
	}
	na := uni(g.t, 3)
	ac := c
	ac.arg, ac.noPipe, ac.noBrack, ac.noColon = true, true, true, true
	ac.body = 0
	for i := 0; i < na; i++ {
		d.M = append(d.M, Nd{K: "arg", N: g.inline(ac, 2)})
	}
	bc := c
	bc.body, bc.noTpl = na, true
	d.N = g.inline(bc, 3)
	if repeatable(d) {
		g.oldTpls = append(g.oldTpls, oldNode{c, d})
	}
	return d
}

func (g *dgen) format(c dctx) Nd {
	d := Nd{K: "f"}
	bold, ital := false, false
	n := 1 + uni(g.t, 3)
	cc := c
	toggle := func(q int) {
		d.N = append(d.N, Nd{K: "q", I: q})
		if q != 3 {
			ital = !ital
		}
		if q != 2 {
			bold = !bold
		}
	}
	content := func() {
		x := g.node(cc)
		for vanishes(x) || x.K == "a" || x.K == "f" {
			x = g.text(cc)
		}
		d.N = append(d.N, x)
	}
	toggle(pick(g.t, []int{2, 3, 5}))
	for i := 0; i < n; i++ {
		content()
		if i < n-1 {
			toggle(pick(g.t, []int{2, 3, 5}))
		}
	}
	for bold || ital {
		if d.N[len(d.N)-1].K == "q" {
			content()
		}
		switch {
		case bold && ital:
			toggle(pick(g.t, []int{5, 2, 3}))
		case bold:
			toggle(3)
		default:
			toggle(2)
		}
	}
	return d
}

func (g *dgen) link(c dctx) Nd {
	d := Nd{K: "l", I: uni(g.t, 11), T: g.plainWords(2), U: g.plainWords(2)}
	if oneIn(g.t, 3) {
		d.T += pick(g.t, []string{" (ab)", "/b", ", b", ".", "'s b", " & b", "é", "–b", "!", " 2", "漢", "\"b\"", "*", "-", "=b"})
	}
	if oneIn(g.t, 3) && !c.noColon {
		d.U += pick(g.t, []string{":b", ": b c", "/b", " (b)", ".", "'s", "&b", "é", "!", "?", ":de:b", "#c"})
	}
	switch d.I {
	case 5, 6:
		d.U = pick(g.t, g.p.categoriesWritten)
	case 7, 8:
		d.U = pick(g.t, []string{"doi", "arxiv", "DOI", "doi:arxiv"})
		d.T = "10." + g.letters(2)
	case 9, 10:
		d.U = pick(g.t, []string{"fr", "FR", "wikt", "help", "User", "User talk", "wikt:fr", "fr:doi", "doi:fr", "arxiv:doi:help", "doi:" + pick(g.t, g.p.categoriesWritten), "zh-min-nan"})
	}
	if pf := g.p.filePrefixes; oneIn(g.t, 10) { // words that begin like the prefix of a file
		w := pick(g.t, pf)
		if oneIn(g.t, 2) {
			w = strings.ToUpper(w[:1]) + w[1:]
		}
		w += pick(g.t, []string{"s", "ry", "s of", "-b", " b", "d", "é"})
		if d.I <= 3 {
			d.T = w
		} else if d.I >= 9 {
			d.U = w
		}
	}
	if c.noColon && d.I >= 4 {
		d.I = 1
	}
	c.noBrack, c.noImg, c.noElink = true, true, true
	c.noRef = true
	if d.I >= 9 { // of a link that disappears nothing counts, e.g. no reference
		c.plain = true
	}
	d.N = g.inline(c, 2)
	return d
}

func (g *dgen) refGroup() string { return pick(g.t, []string{"", "", "", "ga", "g b"}) }

func (g *dgen) newRefName(group string) string {
	later := "later/" + group
	if ns := g.names[later]; len(ns) > 0 && oneIn(g.t, 2) {
		g.names[later] = ns[1:]
		return ns[0]
	}
	g.n++
	n := fmt.Sprintf("%s%s%d", g.letters(2), pick(g.t, []string{"", " ", "-", "é", "/", "'"}), g.n)
	if ns := g.names[group]; len(ns) > 0 && oneIn(g.t, 3) {
		// a name that is nearly the one of another reference
		n = pick(g.t, ns)
		old := n
		switch uni(g.t, 4) {
		case 0:
			n = strings.ToUpper(n)
		case 1:
			n = strings.ToUpper(n[:1]) + n[1:]
		case 2:
			n += pick(g.t, []string{"x", ".", "_", "-", "/", "/"})
		default:
			n = n[:len(n)-1]
		}
		for _, other := range append(append([]string{old, ""}, ns...), g.names[later]...) {
			if n == other || n == strings.TrimSpace(other) || n != strings.TrimSpace(n) || !utf8.ValidString(n) {
				n = fmt.Sprintf("%s%d", g.letters(2), g.n)
				break
			}
		}
	}
	g.names[group] = append(g.names[group], n)
	return n
}

var texParts = []string{"a", "b+c", "=", "f''(x)", "'''", "[a]", "[[b]]", "|c|", "||", "{a}", "{{b}}", "{{c}_d}", `\frac{a}{b}`, "<", ">", "#", "*", ":", "http://x.y z", "&", "\\\\", "%", "[[File:a.jpg]]", "[[fr:b]]", "$", "$$", "äö", "{|", "|}", "==", "__NOTOC__"}

func (g *dgen) tex() string {
	n := 1 + uni(g.t, 4)
	var ps []string
	for i := 0; i < n; i++ {
		ps = append(ps, pick(g.t, texParts[:len(texParts)-1]))
	}
	if ps[0] == "<" {
		ps[0] = "x<"
	}
	return strings.Join(ps, " ")
}

var rawParts = []string{"a", "''b''", "'''", "[[c]]", "[[Category:d]]", "[[fr:e]]", "[http://a b]", "{{f}}", "{{", "}}", "<b>", "</i>", "<ref>", "</ref>", "<br>", "<math>", "* g", "== h ==", "|", "||", "{|", "&lt;", "&amp;", "$$", "#", ":", "[[File:i.jpg]]", "<references />", "<gallery>", "!!"}

func (g *dgen) raw() string {
	n := 1 + uni(g.t, 4)
	var ps []string
	for i := 0; i < n; i++ {
		ps = append(ps, pick(g.t, rawParts))
	}
	s := strings.Join(ps, pick(g.t, []string{" ", ""}))
	if oneIn(g.t, 4) { // the spaces separate words
		s = pick(g.t, []string{" ", "", "  "}) + s + pick(g.t, []string{" ", ""})
	}
	return s
}

func (g *dgen) commentText(multi bool) string {
	parts := []string{"a", "''b", "[[c", "]]", "{{d", "}}", "<ref>", "== e ==", "* f", "<!--", "|", "-", "<nowiki>", "{|", "<gallery>"}
	n := uni(g.t, 4)
	var ps []string
	for i := 0; i < n; i++ {
		ps = append(ps, pick(g.t, parts))
	}
	sep := " "
	if multi && oneIn(g.t, 2) {
		sep = "\n"
	}
	return " " + strings.Join(ps, sep) + " "
}

// ---- images ----

func (g *dgen) fileName() string {
	g.fn++
	n := g.letters(1+uni(g.t, 3)) + pick(g.t, []string{"", " ", "_", "-", "é", "(a)", "&", "+", "'", ".", "漢", ","}) + fmt.Sprintf("%d", g.fn)
	if oneIn(g.t, 6) {
		n = pick(g.t, []string{"É", "é", "漢", "4"}) + n
	}
	return n + pick(g.t, []string{".jpg", ".jpg", ".png", ".JPG", ".svg", ".SVG", ".svg", ".tif", ".djvu", ".webp", ".WEBP", ".pdf", ".Pdf", ".webm", ".ogg", ".gif", ".GIF"})
}

// imageNode: an image of the text flow or (figure) one that stands alone.
func (g *dgen) imageNode(c dctx, figure bool) Nd {
	d := Nd{K: "i", T: g.fileName(), U: pick(g.t, g.p.imagePrefixesWritten)}
	if oneIn(g.t, 6) {
		d.T = pick(g.t, []string{" ", " ", "_", "  ", " _"}) + strings.Replace(d.T, " ", pick(g.t, []string{" ", "  ", "%20", "_ "}), 1) + " "
	}
	if oneIn(g.t, 10) {
		d.T = strings.Replace(d.T, "_", "__", 1)
	}
	if c.noColon {
		// the colon of the prefix is no problem, images are found before
		d.T = strings.TrimSpace(d.T)
	}
	thumb := figure && !oneIn(g.t, 4)
	var opts []string
	if thumb {
		opts = append(opts, pick(g.t, []string{"mini", "thumb", "miniatur", "thumbnail", "mini=a.jpg", " thumb "}))
	}
	if oneIn(g.t, 2) {
		big := figure && oneIn(g.t, 2)
		size := ""
		switch x, y := 1+uni(g.t, 99), 1+uni(g.t, 49); uni(g.t, 3) {
		case 0:
			if big {
				x += 99
			}
			size = fmt.Sprintf("%dpx", x)
		case 1:
			if big {
				y += 49
			}
			size = fmt.Sprintf("x%dpx", y)
		default:
			if big {
				if y += 49; oneIn(g.t, 2) {
					x += 99
				} else if oneIn(g.t, 2) {
					x, y = x+99, y-49
				}
			}
			size = fmt.Sprintf("%dx%dpx", x, y)
		}
		if oneIn(g.t, 8) {
			size = strings.Replace(size, "px", " px", 1)
		}
		opts = append(opts, size)
	}
	if len(g.p.ignoredParams) > 0 {
		for i := uni(g.t, 3); i > 0; i-- {
			p := pick(g.t, g.p.ignoredParams)
			opts = append(opts, pick(g.t, []string{p, p + "=" + g.plainWords(2), p + " 1.2", p + "=1.2", " " + p + " "}))
		}
	}
	d.S = rapid.Permutation(opts).Draw(g.t, "o")
	if thumb && !oneIn(g.t, 4) || !thumb && oneIn(g.t, 4) {
		cc := c
		cc.noPipe, cc.noBrack, cc.noImg = true, false, true
		cc.depth = max(cc.depth, 1)
		if !thumb { // ignored, so nothing may count in there
			cc.plain = true
		}
		cc.noElink = true
		cc.noColon = false
		d.N = g.inline(cc, 3)
	} else if !figure || len(d.S) > 0 {
		d.N = nil
	}
	return d
}

// ---- blocks ----

var blockOrder = []string{"P", "H", "S", "L", "T", "F", "G", "I", "R", "X", "C", "V", "Y", "Q"}

type bctx struct {
	depth int
	cell  bool
	tpl   bool
	c     dctx
}

// brokenFragments are opened and not closed or closed and not opened. What the wiki itself lets swallow the rest of the
// article (comments, tables) is not part of it.
var brokenFragments = [][]string{ // nothing of one line may close anything of the other
	{"''", "'''", "'''''", "'''a''", "[[", "[[a", "[[a|b", "[[File:a.jpg", "[[File:a.jpg|mini|x", "[[Category:x", "[http://x.y", "[http://x.y z", "[", "{{", "{{{", "{{t|a", "{{t|[[a", "==", "= ", "[[a]"},
	{"''", "'''", "'''''", "'''a''", "]]", "]", "}}", "}}}", "|}", "||", "|", "</ref>", "</nowiki>", "</math>", "</gallery>", "-->", "==", "= ", "[http://x.y z]]"},
}

// brokenNode is something broken that belongs to a cell or entry.
func (g *dgen) brokenNode() []Nd {
	g.n++
	d := Nd{K: "w", T: pick(g.t, brokenFragments[g.broken]), S: []string{fmt.Sprintf("before%dx ", g.n), fmt.Sprintf(" after%dx", g.n)}}
	for strings.Contains(d.T, "|") {
		d.T = pick(g.t, brokenFragments[g.broken])
	}
	return []Nd{d}
}

// merges: two such blocks must be separated by a blank line.
func merges(k string) bool {
	return k == "L" || k == "X" || k == "T" || k == "C" || k == "V" || k == "Y"
}

func (g *dgen) blocks(c bctx, min, maxN int) []Nd {
	var out []Nd
	n := min + uni(g.t, maxN-min+1)
	for i := 0; i < n; i++ {
		bs := g.block(c)
		for j := range bs {
			b := bs[j]
			if j == 0 {
				b.J = pick(g.t, []int{1, 1, 0, 2})
				if len(out) > 0 && merges(out[len(out)-1].K) && merges(b.K) && !(out[len(out)-1].K == "L" && b.K == "T") && b.J == 0 {
					b.J = 1
				}
			}
			out = append(out, b)
		}
	}
	return out
}

func (g *dgen) para(c dctx) Nd {
	b := Nd{K: "P"}
	if g.wb["Q"] == 0 && g.wi["f"] > 0 && !c.noFmt && !c.plain && !c.arg && !c.line && c.body == 0 && oneIn(g.t, 20) {
		// bold or italic text over several lines
		q := pick(g.t, []int{2, 3, 5})
		f := Nd{K: "f", N: []Nd{{K: "q", I: q}, {K: "t", T: g.letters(2)}}}
		for i := 1 + uni(g.t, 3); i > 0; i-- {
			l := g.letters(2)
			if oneIn(g.t, 3) {
				l += pick(g.t, []string{" a", ", b", "'c", "."})
			}
			f.N = append(f.N, Nd{K: "A", S: []string{"\n" + l, " " + l}})
		}
		f.N = append(f.N, Nd{K: "q", I: q})
		b.N = []Nd{{K: "ln", N: []Nd{{K: "t", T: g.letters(1) + " "}, f, {K: "t", T: " " + g.letters(2)}}}}
		return b
	}
	for i := 1 + uni(g.t, 2); i > 0; i-- {
		l := Nd{K: "ln", N: g.inline(c, 5)}
		if !c.arg && c.body == 0 && oneIn(g.t, 60) {
			if ns := g.inline(c, 2); repeatable(ns...) {
				l.N = append(l.N, Nd{K: "rep", I: 10 + uni(g.t, 110), N: ns})
			}
		}
		if oneIn(g.t, 12) {
			l.I = 1
		}
		b.N = append(b.N, l)
	}
	if len(b.N) > 1 && !c.arg && !c.noBrack && !c.noElink && !c.noPipe && c.body == 0 && oneIn(g.t, 12) {
		// an external link ends on its line, so this is none
		b.N[0].N = append(b.N[0].N, Nd{K: "t", T: pick(g.t, []string{"[http://", "[https://", "[ftp://"}) + g.letters(2) + "." + g.letters(2) + " " + g.letters(2)})
		b.N[1].N = append([]Nd{{K: "t", T: g.letters(2) + "] " + g.letters(1)}}, b.N[1].N...)
	}
	if len(b.N) > 1 && g.wi["c"] > 0 && oneIn(g.t, 4) { // comments in front of the text of a line
		for i := uni(g.t, 3); i >= 0; i-- {
			b.N[1].N = append([]Nd{{K: "c", T: g.commentText(oneIn(g.t, 3))}}, b.N[1].N...)
		}
	}
	if oneIn(g.t, 6) { // a line that is nothing but a link, reference, formula, ...
		if d := g.newNode(c); strings.Contains("l e r u m n", d.K) && !vanishes(d) {
			l := Nd{K: "ln", N: []Nd{d}}
			if oneIn(g.t, 2) {
				b.N = append(b.N, l)
			} else {
				b.N = []Nd{l}
			}
		}
	}
	return b
}

func (g *dgen) block(c bctx) []Nd {
	if len(g.oldBlocks) > 0 && oneIn(g.t, 12) {
		if o := pick(g.t, g.oldBlocks); o.c == c {
			return append([]Nd(nil), o.b...)
		}
	}
	b := g.newBlock(c)
	if repeatable(b...) {
		g.oldBlocks = append(g.oldBlocks, oldBlock{c, append([]Nd(nil), b...)})
	}
	return b
}

func (g *dgen) newBlock(c bctx) []Nd {
	k := g.choose(g.wb, blockOrder)
	switch k {
	case "H":
		if c.depth > 0 {
			break
		}
		cc := c.c
		cc.noEq, cc.noImg, cc.line = true, true, true
		h := Nd{K: "H", I: 1 + (uni(g.t, 6)+1)%6, B: oneIn(g.t, 3), N: g.inline(cc, 3)}
		if oneIn(g.t, 8) {
			h.N = append([]Nd{{K: "t", T: pick(g.t, []string{"#1", "*a", "# a", ":", "=a", "= a", "-", "1.", ";a:b"})}}, h.N...)
			h.N[1].B = false
			h.B = false
		}
		if g.wb["Q"] > 0 && oneIn(g.t, 3) {
			h.N = g.brokenNode()
			for strings.Contains(h.N[0].T, "=") {
				h.N = g.brokenNode()
			}
		} else if oneIn(g.t, 8) {
			h.N = append(h.N, Nd{K: "t", T: pick(g.t, []string{"a=", "a =", "=", "#", ":"})})
			h.B = false
		}
		return []Nd{h}
	case "S":
		if c.depth > 0 {
			break
		}
		p := g.para(c.c)
		return []Nd{{K: "S", T: g.plainWords(2)}, p}
	case "L":
		return []Nd{g.list(c)}
	case "T":
		if c.depth >= 2 {
			break
		}
		return []Nd{g.tableNode(c)}
	case "F":
		d := g.imageNode(c.c, true)
		d.K = "F"
		return []Nd{d}
	case "G":
		b := Nd{K: "G", I: uni(g.t, 64), T: pick(g.t, []string{"", ` mode="packed"`, ` heights=200px`}), B: oneIn(g.t, 4)}
		for i := 1 + uni(g.t, 3); i > 0; i-- {
			im := g.imageNode(c.c, true)
			im.T = strings.TrimSpace(im.T)
			if oneIn(g.t, 2) {
				im.U = ""
			}
			if im.N == nil && len(im.S) > 0 {
				im.S = nil
			}
			b.N = append(b.N, im)
		}
		if c.c.noPipe { // within a table the pipes of the lines would be separators
			break
		}
		return []Nd{b}
	case "I":
		if c.c.noPipe {
			break
		}
		im := g.imageNode(c.c, true)
		im.T = strings.TrimSpace(im.T)
		b := Nd{K: "I", I: uni(g.t, 64), B: oneIn(g.t, 4), N: []Nd{im}}
		for i := uni(g.t, 3); i > 0; i-- {
			b.S = append(b.S, pick(g.t, []string{"rect 1 2 3 4 [[a b|c]]", "poly 1 2 3 4 5 6 [http://a.b c]", "desc bottom-left", "# d", "* e", "", "default [[a]]", "circle 1 2 3 [[b]]"}))
		}
		return []Nd{b}
	case "R":
		if c.c.noRef {
			break
		}
		b := Nd{K: "R", U: g.refGroup(), I: uni(g.t, 4096)}
		if oneIn(g.t, 2) {
			cc := c.c
			cc.noRef, cc.noImg = true, true
			cc.depth++
			for i := 1 + uni(g.t, 2); i > 0; i-- {
				b.N = append(b.N, Nd{K: "r", T: g.newRefName(b.U), I: uni(g.t, 4096), N: g.inline(cc, 3)})
			}
		}
		return []Nd{b}
	case "X":
		if c.depth > 0 {
			break
		}
		g.n++
		b := Nd{K: "X", U: fmt.Sprintf("b%s%d", g.letters(1), g.n)}
		na := uni(g.t, 3)
		ac := c.c
		ac.arg, ac.noPipe, ac.noBrack, ac.noColon = true, true, true, true
		for i := 0; i < na; i++ {
			b.M = append(b.M, Nd{K: "arg", N: g.inline(ac, 2)})
		}
		cc := c
		cc.tpl, cc.depth = true, c.depth+1
		cc.c.noTpl, cc.c.body = true, na
		b.N = g.blocks(cc, 1, 3)
		if c.depth == 0 && oneIn(g.t, 3) {
			b.I = 2 + uni(g.t, 2)
		}
		return []Nd{b}
	case "C":
		d := Nd{K: "C", I: uni(g.t, 4) / 3, T: g.commentText(true)}
		for oneIn(g.t, 4) {
			d.S = append(d.S, pick(g.t, []string{"", "", " "}), g.commentText(true))
		}
		return []Nd{d}
	case "V":
		if c.depth > 0 {
			break
		}
		d := Nd{K: "k", U: pick(g.t, g.p.categoriesWritten), T: g.plainWords(2)}
		if len(g.p.ignoredTemplates) > 0 && oneIn(g.t, 2) {
			d = Nd{K: "g", T: g.ignoredCall()}
		}
		return []Nd{{K: "V", N: []Nd{d}}}
	case "Q":
		if c.depth > 0 {
			break
		}
		g.n++
		return []Nd{{K: "Q", T: pick(g.t, brokenFragments[g.broken]), S: []string{fmt.Sprintf("before%dx ", g.n), fmt.Sprintf(" after%dx", g.n)}}}
	case "Y":
		if len(g.p.trailingTemplates) == 0 || c.depth > 0 {
			break
		}
		g.n++
		name := g.p.trailingTemplates[0]
		g.p.trailingTemplates = g.p.trailingTemplates[1:]
		b := Nd{K: "Y", U: name, T: pick(g.t, []string{"", "", " ", "\n", "  "}), N: []Nd{g.text(dctx{})}}
		if oneIn(g.t, 2) {
			b.M = []Nd{{K: "arg", N: []Nd{g.text(dctx{arg: true, noPipe: true})}}}
		}
		return []Nd{b}
	}
	return []Nd{g.para(c.c)}
}

func (g *dgen) list(c bctx) Nd {
	b := Nd{K: "L"}
	n := 1 + uni(g.t, 5)
	if oneIn(g.t, 40) {
		n += 8 + uni(g.t, 20)
	}
	prev := ""
	prevHead := false
	for i := 0; i < n; i++ {
		if i > 0 && oneIn(g.t, 8) {
			b.N = append(b.N, Nd{K: "junk", T: pick(g.t, []string{"*", "**", "#", "*#", ": :", ";", "****", "#####", "*#*#*", ":::: "})})
			if b.N[len(b.N)-1].T == ": :" {
				b.N[len(b.N)-1].T = "::"
			}
		}
		chars := "**##:;"
		p := ""
		// continue the prefix before, or jump somewhere
		keep := 0
		if prev != "" && !oneIn(g.t, 5) {
			keep = uni(g.t, len(prev)+1)
		}
		p = prev[:keep]
		for len(p) == 0 || len(p) < 3 && oneIn(g.t, 3) {
			p += string(chars[uni(g.t, len(chars))])
		}
		// Lists below the head of a description are left out: which element they belong to is not defined.
		for bad := true; bad; {
			bad = strings.Contains(p[:len(p)-1], ";")
			if bad {
				p = strings.Replace(p, ";", ":", 1)
			}
		}
		if len(p) > 1 && p[len(p)-2] == ':' && prevHead && len(prev) < len(p) {
			p = p[:len(p)-1]
		}
		if i == 0 && oneIn(g.t, 12) { // a list as the head of a description
			p = ";" + pick(g.t, []string{"*", "#"})
		}
		head := p[len(p)-1] == ';'
		cc := c.c
		it := Nd{K: "it", T: p, I: uni(g.t, 4)}
		if oneIn(g.t, 12) {
			it.N = []Nd{{K: "t", T: pick(g.t, []string{"-", "--", "----", "=", "==", "=a=", "!", "+", "&", "…", "\"", "'", "_"})}}
		} else if g.wb["Q"] > 0 && !head && oneIn(g.t, 4) {
			it.N = g.brokenNode()
		} else if head {
			cc.noColon = true
			it.N = g.inline(cc, 3)
			if oneIn(g.t, 2) {
				it.M = g.inline(c.c, 3)
			}
		} else {
			it.N = g.inline(cc, 3)
			if p == "#" && oneIn(g.t, 8) {
				it.N = append([]Nd{{K: "t", T: "<li value=4>"}}, it.N...)
			}
		}
		prevHead = head && len(it.M) == 0
		prev = p
		if len(p) == 2 && p[0] == ';' {
			prev, prevHead = "", true
		}
		b.N = append(b.N, it)
	}
	return b
}

func (g *dgen) attr() string {
	if !oneIn(g.t, 3) {
		return ""
	}
	var as []string
	if !g.noSpan && oneIn(g.t, 2) {
		as = append(as, pick(g.t, []string{`colspan="2"`, `colspan=3`, `colspan='4'`, `colspan = "5"`, `ColSpan="6"`, `colspan="120"`, `COLSPAN=" 7 "`, `colspan= 8`, "colspan\t=\t\"9\"", "colspan\t=2"}))
	}
	if !g.noSpan && oneIn(g.t, 3) {
		as = append(as, pick(g.t, []string{`rowspan="2"`, `rowspan=12`, `rowspan="100"`, `rowspan='3'`, `rowspan ="4"`, "rowspan=\t'6'", `RowSpan=5`}))
	}
	if oneIn(g.t, 2) {
		as = append(as, pick(g.t, []string{`style="text-align:center;"`, `style="color:red; text-align:right; width:3em"`, `style="text-align:left"`, `style='text-align:right'`, `STYLE="Text-Align : center"`, `style = "text-align: left;"`}))
	}
	if len(as) == 0 || oneIn(g.t, 3) {
		as = append(as, pick(g.t, []string{`class="abc"`, `scope="col"`, `bgcolor=#ffeeaa`, `align="center"`, `nowrap`}))
	}
	return strings.Join(as, " ")
}

func (g *dgen) tableNode(c bctx) Nd {
	b := Nd{K: "T", T: pick(g.t, []string{"", ` class="wikitable"`, ` border=1 style="float:right"`})}
	if oneIn(g.t, 4) {
		b.U = pick(g.t, []string{":", ":", "::"})
	}
	cc := c.c
	cc.noPipe = true
	if oneIn(g.t, 3) {
		capC := cc
		if oneIn(g.t, 3) {
			capC.noPipe = false
			b.S = []string{`style="color:red"`}
		}
		b.M = g.inline(capC, 3)
	}
	nr := 1 + uni(g.t, 3)
	if oneIn(g.t, 40) {
		nr += 8 + uni(g.t, 10)
	}
	for i := 0; i < nr; i++ {
		row := Nd{K: "row", B: i > 0 || oneIn(g.t, 2), T: pick(g.t, []string{"", "", ` class="abc"`, "--", ` style="color:red"`})}
		if i > 0 && oneIn(g.t, 10) { // empty row
			b.N = append(b.N, row)
			continue
		}
		nc := 1 + uni(g.t, 3)
		var prevBlocks, prevTh bool
		for j := 0; j < nc; j++ {
			cell := Nd{K: "td", T: g.attr(), I: uni(g.t, 2)}
			if oneIn(g.t, 3) {
				cell.K = "th"
			}
			if j > 0 && !prevBlocks && oneIn(g.t, 2) {
				cell.B = true
				cell.K = "td"
				if prevTh {
					cell.K = "th"
				}
			}
			ic := cc
			ic.noPipe = cell.T == ""
			if cell.K == "th" {
				ic.noPipe = true
			}
			switch {
			case g.wb["Q"] > 0 && oneIn(g.t, 4): // alone on its line, because formatting is a matter of lines
				cell.N = g.brokenNode()
				cell.T, cell.B = "", false
			case oneIn(g.t, 8):
				cell.N = nil
				cell.T = ""
			case oneIn(g.t, 10):
				cell.N = []Nd{{K: "t", T: pick(g.t, []string{"-5", "-5", "-", "+", "}", "=", "==", "--", "!a", "!", "&", "…", "_"})}}
				if cell.N[0].T == "=" || cell.N[0].T == "==" || cell.N[0].T == "!" {
					cell.T = ""
				}
			default:
				cell.N = g.inline(ic, 3)
			}
			if oneIn(g.t, 5) {
				cell.J = uni(g.t, 3)
				cell.M = g.blocks(bctx{depth: c.depth + 1, cell: true, tpl: c.tpl, c: cc}, 1, 2)
			}
			prevBlocks = len(cell.M) > 0 || len(cell.N) > 0 && cell.N[0].K == "w"
			prevTh = cell.K == "th"
			row.N = append(row.N, cell)
		}
		b.N = append(b.N, row)
	}
	if oneIn(g.t, 8) && b.U == "" {
		tail := Nd{K: "tail", B: oneIn(g.t, 2), N: g.inline(cc, 2)}
		if !c.tpl && oneIn(g.t, 4) {
			tail.N = append(tail.N, Nd{K: "t", T: g.letters(1) + "}"})
		}
		b.N = append(b.N, tail)
	}
	return b
}

// lengthen repeats the rows, entries or lines of a block.
func lengthen(b Nd, times int) Nd {
	if !repeatable(b) || len(b.N) == 0 {
		return b
	}
	switch b.K {
	case "L":
		if last := b.N[len(b.N)-1]; last.K == "junk" || strings.HasSuffix(last.T, ";") {
			return b
		}
	case "T":
		if b.N[len(b.N)-1].K == "tail" {
			return b
		}
	case "P":
	default:
		return b
	}
	all := append([]Nd(nil), b.N...)
	for i := 1; i < times && len(all) < 2000; i++ {
		for _, n := range b.N {
			if b.K == "T" {
				n.B = true
			}
			all = append(all, n)
		}
	}
	b.N = all
	return b
}

// genDoc generates a document.
func genDoc(wb, wi map[string]int, minBlocks, maxBlocks int) func(t *rapid.T) docCase {
	return func(t *rapid.T) docCase {
		c := docCase{Preset: uni(t, len(docPresets)), Svg: oneIn(t, 3)}
		g := &dgen{t: t, preset: c.Preset, p: docPresets[c.Preset], wb: wb, wi: wi, names: map[string][]string{}}
		if wb["Q"] > 0 {
			g.broken = uni(t, 2)
		}
		if oneIn(t, 3) {
			c.Webp, c.Pdf, c.Media = oneIn(t, 2), oneIn(t, 2), uni(t, len(ignoredMediaTypes))
		}
		c.Blocks = g.article(minBlocks, maxBlocks)
		return c
	}
}

// article generates blocks whose headings never start a section that consists of empty subsections only.
func (g *dgen) article(minBlocks, maxBlocks int) []Nd {
	g.names = map[string][]string{}
	g.oldNodes, g.oldBlocks, g.oldTpls = nil, nil, nil
	blocks := g.blocks(bctx{}, minBlocks, maxBlocks)
	var out []Nd
	for i, b := range blocks {
		if b.K == "H" && oneIn(g.t, 3) || b.K == "H" && emptyAfter(blocks[i:]) {
			b.N = []Nd{{K: "t", T: g.words(dctx{noEq: true}, 3)}} // nothing that counts may disappear
		}
		out = append(out, b)
		if b.K == "H" && ambiguousSection(blocks[i:]) {
			out = append(out, Nd{K: "P", N: []Nd{{K: "ln", N: []Nd{{K: "t", T: "content"}}}}})
		}
	}
	if g.wi["r"] > 0 && !oneIn(g.t, 4) {
		out = append(out, Nd{K: "P", J: 1, N: []Nd{{K: "ln", N: []Nd{{K: "t", T: "end"}}}}})
		for _, gr := range []string{"", "ga", "g b"} {
			out = append(out, Nd{K: "R", U: gr, J: 1})
		}
	}
	if last := len(out) - 1; g.wi["n"] > 0 && out[last].K == "P" && oneIn(g.t, 4) {
		l := &out[last].N[len(out[last].N)-1]
		l.N = append(append([]Nd(nil), l.N...), Nd{K: "h", T: "nowiki", U: "<nowiki></nowiki>"})
	}
	return out
}

// leavesNothing: a template whose result consists of comments only.
func leavesNothing(b Nd) bool {
	for _, n := range b.N {
		if n.K != "C" {
			return false
		}
	}
	return b.K == "X"
}

// emptyAfter: nothing (that is sure to stay) follows up to the next heading.
func emptyAfter(bs []Nd) bool {
	for _, b := range bs[1:] {
		switch b.K {
		case "H", "S":
			return true
		case "C", "V", "Y":
		default:
			if !leavesNothing(b) {
				return false
			}
		}
	}
	return true
}

// ambiguousSection: the section has subsections, but nothing else in it and them.
func ambiguousSection(bs []Nd) bool {
	sub := false
	for _, b := range bs[1:] {
		switch b.K {
		case "H":
			if b.I <= bs[0].I {
				return sub
			}
			sub = true
		case "C", "V", "Y":
		default:
			if !leavesNothing(b) {
				return false
			}
		}
	}
	return sub
}

func weights(base map[string]int, more ...any) map[string]int {
	out := map[string]int{}
	for k, v := range base {
		out[k] = v
	}
	for i := 0; i+1 < len(more); i += 2 {
		out[more[i].(string)] = more[i+1].(int)
	}
	return out
}

func docProp(id string, quick, thorough int, rule string, features []string, wb, wi map[string]int, minB, maxB int, both bool, assumptions ...string) {
	register(&Prop{ID: id, Quick: quick, Thorough: thorough, Rule: rule, Assumptions: assumptions},
		genDoc(wb, wi, minB, maxB),
		func(env *Env, c docCase) Result { return runDoc(env, c, features, both) })
}

func init() {
	bb := map[string]int{"P": 10}
	bi := map[string]int{"t": 10}
	docProp("C15", 24000, 300000, "paragraphs of one or more lines with special characters, HTML, entities, comments and things that disappear; non-trivial = several lines, comment or category",
		[]string{"multiline", "comment", "category", "ignoredtpl"}, weights(bb, "C", 4, "V", 2), weights(bi, "b", 2, "h", 3, "E", 2, "c", 3, "k", 2, "z", 1, "g", 2, "l", 1, "e", 1, "m", 1, "n", 1, "r", 1), 1, 6, false)
	docProp("C16", 24000, 300000, "links of all forms in paragraphs, headings, lists and tables; non-trivial = a link",
		[]string{"ilink", "elink", "ilinksection", "ilinkprefix", "ilinkforbidden", "elinkother"}, weights(bb, "H", 1, "L", 2, "T", 1), weights(bi, "l", 8, "e", 5, "f", 1, "b", 1, "k", 1), 1, 4, false)
	docProp("C17", 24000, 300000, "inline and block templates with arguments (also nested ones) whose results are parts of documents, ignored and trailing templates; non-trivial = a template",
		[]string{"template", "templatearg", "blocktemplate", "ignoredtpl", "trailing"}, weights(bb, "X", 6, "L", 2, "T", 1, "H", 1, "V", 2, "Y", 3), weights(bi, "x", 6, "g", 2, "f", 2, "l", 2, "r", 1), 1, 5, false)
	docProp("C18", 24000, 300000, "headings of all depths with empty and non-empty sections; non-trivial = a heading",
		[]string{"heading", "semi", "emptysection"}, weights(bb, "P", 4, "H", 8, "S", 2, "C", 2, "V", 2, "L", 1, "T", 1, "R", 1, "Y", 1), weights(bi, "f", 2, "l", 2, "r", 1, "c", 1, "m", 1, "x", 1), 1, 7, false)
	docProp("C19", 24000, 300000, "lists of all kinds, nested up to three levels with jumps, in text, tables and templates; non-trivial = a list",
		[]string{"list", "sublist", "listdef", "listjunk"}, weights(bb, "P", 4, "L", 10, "T", 1, "X", 1, "C", 1), weights(bi, "f", 2, "l", 2, "r", 1, "m", 1, "i", 1, "c", 1), 1, 4, false)
	docProp("C20", 24000, 300000, "tables with captions, headings, attributes, cells in one or several lines, lists, paragraphs and tables within cells; non-trivial = a table",
		[]string{"table", "nestedtable", "tablecaption", "th", "cellattr", "inlinecell", "blockcell", "indenttable"}, weights(bb, "P", 3, "T", 10, "L", 2, "F", 1), weights(bi, "f", 2, "l", 2, "e", 1, "r", 1, "i", 1, "m", 1, "n", 1, "c", 1), 1, 3, false)
	docProp("C21", 24000, 300000, "reference definitions and usages, named, grouped, used before their definition, in all kinds of blocks, with one or several lists of references; non-trivial = a reference",
		[]string{"refdef", "refuse", "refname", "refgroup", "refuseearly", "refblock", "references"}, weights(bb, "P", 8, "H", 1, "L", 2, "T", 1, "F", 1, "R", 4, "X", 1), weights(bi, "t", 6, "r", 6, "u", 4, "f", 1, "l", 1), 1, 6, false)
	docProp("C22", 24000, 300000, "bold, italic and both, opened and closed in any order, in all kinds of blocks; non-trivial = formatted text",
		[]string{"fmt", "fmt5", "fmtboth"}, weights(bb, "L", 2, "T", 1, "H", 1, "F", 1, "S", 1), weights(bi, "f", 12, "l", 3, "r", 1, "m", 1, "n", 1, "h", 1, "x", 1), 1, 4, false)
	docProp("C23", 24000, 300000, "images in the text, figures, galleries and image maps with sizes, parameters and captions; non-trivial = an image",
		[]string{"figure", "inlineimg", "gallery", "imagemap", "caption", "imgsize", "imgignored"}, weights(bb, "P", 4, "F", 6, "G", 4, "I", 3, "L", 1, "T", 1, "X", 1), weights(bi, "i", 4, "f", 1, "l", 1, "r", 1), 1, 5, false)
	docProp("C24", 24000, 300000, "formulas and nowiki elements whose content looks like wikitext, in all kinds of blocks; non-trivial = one of them",
		[]string{"math", "nowiki"}, weights(bb, "L", 2, "T", 2, "H", 1, "F", 1), weights(bi, "m", 6, "n", 6, "f", 1, "l", 1, "r", 1, "x", 3, "h", 2), 1, 4, false)
	all := weights(bi, "f", 3, "l", 3, "e", 2, "r", 2, "u", 1, "m", 1, "n", 1, "i", 1, "h", 1, "E", 1, "b", 1, "c", 1, "k", 1, "z", 1, "g", 1, "x", 2)
	docProp("C25", 24000, 400000, "documents with everything nested in everything, rendered twice; non-trivial = at least six different features",
		[]string{"list", "table", "figure", "gallery", "template", "refdef", "math", "nowiki", "nestedtable", "blockcell"}, weights(bb, "H", 3, "S", 1, "L", 4, "T", 4, "F", 2, "G", 1, "I", 1, "R", 2, "X", 2, "C", 1, "V", 1, "Y", 1), all, 2, 10, true)
	register(&Prop{ID: "C36", Quick: 320, Thorough: 4000, Cpu: 60 * time.Second,
		Rule: "documents of 60 to 800 blocks, or with blocks of up to 2000 rows, entries or lines, everything nested in everything; non-trivial = more than 20000 bytes of wikitext"},
		func(t *rapid.T) docCase {
			wb := weights(bb, "P", 10, "H", 4, "S", 1, "L", 4, "T", 3, "F", 3, "G", 1, "I", 1, "R", 1, "X", 3, "C", 1, "V", 1)
			if oneIn(t, 3) { // few, but very long blocks
				c := genDoc(wb, all, 5, 60)(t)
				for i := range c.Blocks {
					if oneIn(t, 3) {
						c.Blocks[i] = lengthen(c.Blocks[i], 2+uni(t, 60))
					}
				}
				return c
			}
			return genDoc(wb, all, 60, 800)(t)
		},
		func(env *Env, c docCase) Result {
			res := runDoc(env, c, nil, false)
			text, _ := newDocR(c).document(c.Blocks)
			res.NonTrivial = len(text) > 20000
			res.Classes = append(res.Classes, fmt.Sprintf("%dkB", len(text)/20000*20))
			return res
		})
	docProp("C27", 24000, 300000, "documents with paragraphs in which something is opened and not closed, or closed and not opened; non-trivial = such a paragraph",
		[]string{"broken"}, weights(bb, "P", 6, "H", 2, "L", 2, "T", 2, "F", 1, "C", 1, "Q", 12), all, 2, 6, false)
}
