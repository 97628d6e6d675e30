package main

import (
	"archive/zip"
	"bytes"
	"encoding/xml"
	"fmt"
	"io"
	"net/url"
	"os"
	"path"
	"path/filepath"
	"strings"
	"unicode"

	"golang.org/x/net/html"
	"pgregory.net/rapid"
)

// ---- C32: EPUB files of the real pandoc and the internal driver ------------------------------------------------------

type epubCase struct {
	Book   bookCase
	Driver string
	Meta   [5]string // title, author, license, language, date
	Toc    int
	Css    bool
	Cover  bool
	Fonts  []string
	Where  int // how CSS, cover and fonts are configured: 0 config file, 1 project file, 2 command line
}

func genEpub(t *rapid.T) epubCase {
	c := epubCase{Driver: pick(t, []string{"pandoc", "pandoc", "internal"})}
	c.Book = genBook(func(t *rapid.T) []bookStep { return nil }, 4)(t)
	c.Book.Cmd = "project"
	words := []string{"Foo", "bar", "A & B", "<x>", "\"q\"", "it's", "a=b", "Ü 漢", "100%", "--", "*x*", "_y_", "$z$", "[a](b)", "#", "a:b", "\\n", "yes", "2024", "-x", "é–…", "{{x}}", "`c`", "@d", "'''"}
	text := func(n int) string {
		var ws []string
		for i := 1 + uni(t, n); i > 0; i-- {
			ws = append(ws, pick(t, words))
		}
		return strings.Join(ws, " ")
	}
	c.Meta = [5]string{text(4), text(3), text(3), pick(t, []string{"de", "en", "en-US", "fr", "zh-Hans"}), pick(t, []string{"2024-02-29", "1999-12-31", "2021-01"})}
	for i := range c.Meta {
		if oneIn(t, 8) {
			c.Meta[i] = ""
		}
	}
	c.Toc = pick(t, []int{2, 1, 3, 4, 6, 0})
	c.Css, c.Cover = oneIn(t, 2), oneIn(t, 2)
	for i := uni(t, 3); i > 0; i-- {
		c.Fonts = append(c.Fonts, pick(t, []string{"a.ttf", "b c.otf", "d.ttf", "Ü.woff"}))
	}
	c.Where = uni(t, 3)
	return c
}

// epubFile is the content of an EPUB as a reader sees it.
type epubFile struct {
	files    map[string]string
	meta     map[string][]string
	docs     []string // paths of the content documents in reading order
	cover    string   // path of the cover image
	toc      []string
	manifest map[string]string // path -> media type
}

type opfPackage struct {
	Metadata struct {
		Any []struct {
			XMLName xml.Name
			Text    string     `xml:",chardata"`
			Attrs   []xml.Attr `xml:",any,attr"`
		} `xml:",any"`
	} `xml:"metadata"`
	Manifest []struct {
		ID    string `xml:"id,attr"`
		Href  string `xml:"href,attr"`
		Type  string `xml:"media-type,attr"`
		Props string `xml:"properties,attr"`
	} `xml:"manifest>item"`
	Spine struct {
		Toc  string `xml:"toc,attr"`
		Refs []struct {
			ID string `xml:"idref,attr"`
		} `xml:"itemref"`
	} `xml:"spine"`
}

func squeeze(s string) string {
	return strings.Map(func(r rune) rune {
		if unicode.IsSpace(r) || r == '\u200b' {
			return -1
		}
		return r
	}, s)
}

// htmlText gives the text of the body without any white space, and the images.
func htmlText(s string) (text string, images []string) {
	z := html.NewTokenizer(strings.NewReader(s))
	var sb strings.Builder
	head := 0
	for {
		tt := z.Next()
		if tt == html.ErrorToken {
			break
		}
		tok := z.Token()
		switch tt {
		case html.TextToken:
			if head == 0 {
				sb.WriteString(tok.Data)
			}
		case html.StartTagToken, html.SelfClosingTagToken:
			if tok.Data == "head" && tt == html.StartTagToken {
				head++
			}
			if tok.Data == "img" || tok.Data == "image" {
				for _, a := range tok.Attr {
					if a.Key == "src" || a.Key == "xlink:href" || a.Key == "href" {
						images = append(images, a.Val)
					}
				}
			}
		case html.EndTagToken:
			if tok.Data == "head" {
				head--
			}
		}
	}
	return squeeze(sb.String()), images
}

func readEpub(b []byte) (*epubFile, error) {
	zr, err := zip.NewReader(bytes.NewReader(b), int64(len(b)))
	if err != nil {
		return nil, err
	}
	e := &epubFile{files: map[string]string{}, meta: map[string][]string{}, manifest: map[string]string{}}
	for i, f := range zr.File {
		r, err := f.Open()
		if err != nil {
			return nil, err
		}
		c, err := io.ReadAll(r)
		if err != nil {
			return nil, fmt.Errorf("%s: %w", f.Name, err)
		}
		if _, dup := e.files[f.Name]; dup {
			return nil, fmt.Errorf("%s exists twice", f.Name)
		}
		e.files[f.Name] = string(c)
		if i == 0 && (f.Name != "mimetype" || string(c) != "application/epub+zip" || f.Method != zip.Store) {
			return nil, fmt.Errorf("the first file is not the MIME type")
		}
	}
	var cont struct {
		Roots []struct {
			Path string `xml:"full-path,attr"`
		} `xml:"rootfiles>rootfile"`
	}
	if err := xml.Unmarshal([]byte(e.files["META-INF/container.xml"]), &cont); err != nil || len(cont.Roots) != 1 {
		return nil, fmt.Errorf("container.xml: %v", err)
	}
	opf := cont.Roots[0].Path
	var p opfPackage
	if err := xml.Unmarshal([]byte(e.files[opf]), &p); err != nil {
		return nil, fmt.Errorf("%s: %w", opf, err)
	}
	base := path.Dir(opf)
	paths := map[string]string{}
	coverId, nav, ncx := "", "", ""
	for _, m := range p.Metadata.Any {
		e.meta[m.XMLName.Local] = append(e.meta[m.XMLName.Local], strings.TrimSpace(m.Text))
		if m.XMLName.Local == "meta" {
			name, content := "", ""
			for _, a := range m.Attrs {
				if a.Name.Local == "name" {
					name = a.Value
				}
				if a.Name.Local == "content" {
					content = a.Value
				}
			}
			if name == "cover" {
				coverId = content
			}
		}
	}
	for _, it := range p.Manifest {
		href, err := url.PathUnescape(it.Href)
		if err != nil {
			return nil, fmt.Errorf("manifest: %q", it.Href)
		}
		f := path.Join(base, href)
		if _, ok := e.files[f]; !ok {
			return nil, fmt.Errorf("%s is in the manifest but does not exist", f)
		}
		paths[it.ID] = f
		e.manifest[f] = it.Type
		if strings.Contains(" "+it.Props+" ", " cover-image ") {
			e.cover = f
		}
		if strings.Contains(" "+it.Props+" ", " nav ") {
			nav = f
		}
		if it.Type == "application/x-dtbncx+xml" {
			ncx = f
		}
	}
	if e.cover == "" {
		e.cover = paths[coverId]
	}
	for _, r := range p.Spine.Refs {
		f, ok := paths[r.ID]
		if !ok {
			return nil, fmt.Errorf("%s is in the spine but not in the manifest", r.ID)
		}
		e.docs = append(e.docs, f)
	}
	if nav != "" {
		e.toc = navEntries(e.files[nav])
	} else {
		e.toc = ncxEntries(e.files[ncx])
	}
	return e, nil
}

// navEntries are the texts of the links of the table of contents.
func navEntries(s string) []string {
	z := html.NewTokenizer(strings.NewReader(s))
	var out []string
	in, link := false, false
	cur := ""
	for {
		tt := z.Next()
		if tt == html.ErrorToken {
			return out
		}
		tok := z.Token()
		switch {
		case tt == html.StartTagToken && tok.Data == "nav":
			for _, a := range tok.Attr {
				if a.Key == "epub:type" {
					in = a.Val == "toc"
				}
			}
		case tt == html.EndTagToken && tok.Data == "nav":
			in = false
		case in && tt == html.StartTagToken && tok.Data == "a":
			link, cur = true, ""
		case in && tt == html.EndTagToken && tok.Data == "a":
			link = false
			out = append(out, squeeze(cur))
		case link && tt == html.TextToken:
			cur += tok.Data
		}
	}
}

func ncxEntries(s string) []string {
	d := xml.NewDecoder(strings.NewReader(s))
	var out []string
	in, text := 0, false
	cur := ""
	for {
		tok, err := d.Token()
		if err != nil {
			return out
		}
		switch x := tok.(type) {
		case xml.StartElement:
			if x.Name.Local == "navPoint" {
				in++
			}
			if x.Name.Local == "text" && in > 0 {
				text, cur = true, ""
			}
		case xml.EndElement:
			if x.Name.Local == "navPoint" {
				in--
			}
			if x.Name.Local == "text" && text {
				text = false
				out = append(out, squeeze(cur))
			}
		case xml.CharData:
			if text {
				cur += string(x)
			}
		}
	}
}

// headings of the normal form of a page up to a level.
func headings(s string, depth int) []string {
	z := html.NewTokenizer(strings.NewReader(s))
	var out []string
	cur, in := "", false
	for {
		tt := z.Next()
		if tt == html.ErrorToken {
			return out
		}
		tok := z.Token()
		isH := len(tok.Data) == 2 && tok.Data[0] == 'h' && tok.Data[1] >= '1' && tok.Data[1] <= '6'
		switch {
		case tt == html.StartTagToken && isH && int(tok.Data[1]-'0') <= depth:
			in, cur = true, ""
		case tt == html.EndTagToken && isH && in:
			in = false
			out = append(out, squeeze(cur))
		case tt == html.TextToken && in:
			cur += tok.Data
		}
	}
}

var styleMarkRegex = strings.NewReplacer("«»", "", "«B»", "", "«I»", "", "«BI»", "")

const tinyPng = "\x89PNG\r\n\x1a\n\x00\x00\x00\rIHDR\x00\x00\x00\x01\x00\x00\x00\x01\x08\x06\x00\x00\x00\x1f\x15\xc4\x89\x00\x00\x00\rIDATx\x9cc\xf8\xcf\xc0\xf0\x1f\x00\x05\x00\x01\xff\x89\x99=\x1d\x00\x00\x00\x00IEND\xaeB`\x82"

func runEpub(env *Env, c epubCase) Result {
	c.Book.Cmd = "project"
	c.Book.Type = "epub3"
	if c.Driver == "pandoc" && c.Book.Delay%2 == 0 {
		c.Book.Type = "epub2"
	}
	w, problem := newBookWorld(c.Book)
	if problem != "" {
		return infra("expected HTML: %s", problem)
	}
	w.agent = "epub"
	dirs := [3]string{mkdir(env.Dir, "conf"), mkdir(env.Dir, "prj"), mkdir(env.Dir, "cwd")}
	cacheDir, outFile := c.Book.cacheDir(env), filepath.Join(env.Dir, "out", "book.epub")
	p := docPresets[c.Book.Preset%len(docPresets)]
	cfg := w.config(cacheDir)
	cfg["output-driver"], cfg["pandoc-executable"] = c.Driver, "pandoc"
	cfg["toc-depth"] = float64(c.Toc)
	_ = p
	project := map[string]any{"metadata": map[string]any{"title": c.Meta[0], "author": c.Meta[1], "license": c.Meta[2], "language": c.Meta[3], "date": c.Meta[4]}, "articles": w.titles(), "output-file": "../out/book.epub"}
	var args []string
	res := dirs[c.Where]
	level := [3]map[string]any{cfg, project, {}}[c.Where]
	css := "body { color: #123456; } /* € */"
	if c.Css {
		must(os.WriteFile(filepath.Join(res, "my style.css"), []byte(css), 0o644))
		level["style-file"] = "my style.css"
	}
	cover := tinyPng
	if c.Cover {
		must(os.WriteFile(filepath.Join(res, "my cover.png"), []byte(cover), 0o644))
		level["cover-image"] = "my cover.png"
	}
	fonts := map[string]string{}
	var fl []any
	for _, f := range c.Fonts {
		if _, ok := fonts[f]; !ok {
			fonts[f] = "font " + f
			must(os.WriteFile(filepath.Join(res, f), []byte(fonts[f]), 0o644))
			fl = append(fl, f)
		}
	}
	if len(fl) > 0 {
		level["font-files"] = fl
	}
	if c.Where == 2 {
		args = cliFlags(env, level)
	}
	cfgFile := filepath.Join(dirs[0], "config.json")
	writeJson(env, cfgFile, cfg)
	writeJson(env, filepath.Join(dirs[1], "project.json"), project)
	web := getWeb(env.Root)
	web.set(w.serve)
	defer web.set(nil)
	args = append(args, "-c", cfgFile, "--user-agent-template=epub", "project", filepath.Join("..", "prj", "project.json"))
	env.Log = c.Book.Log
	r := runCli(env, dirs[2], []string{"LC_ALL=C.UTF-8"}, nil, args...)
	if r.TimedOut {
		return fail("wiki2book did not end\n%s", lastLines(r.Out, 30))
	}
	if r.Code != 0 || r.Signaled || !strings.Contains(r.Out, "Successfully created") {
		return fail("wiki2book fails (exit code %d)\n%s", r.Code, lastLines(r.Out, 40))
	}
	if w.bad != "" {
		return fail("wiki2book asked for something that no article needs: %s", w.bad)
	}
	b, err := os.ReadFile(outFile)
	if err != nil {
		return fail("no output file: %v\n%s", err, lastLines(r.Out, 20))
	}
	e, err := readEpub(b)
	if err != nil {
		return fail("the EPUB cannot be read: %v", err)
	}
	if d := w.checkEpub(e, c, css, cover, fonts); d != "" {
		return fail("%s", d)
	}
	out := Result{NonTrivial: len(c.Book.Order) > 1, Classes: []string{c.Driver + "-" + c.Book.Type}}
	if len(w.images) > 0 {
		out.Classes = append(out.Classes, "images")
	}
	if c.Cover {
		out.Classes = append(out.Classes, "cover")
	}
	if c.Css {
		out.Classes = append(out.Classes, "css")
	}
	if len(fonts) > 0 {
		out.Classes = append(out.Classes, "fonts")
	}
	return out
}

func (w *bookWorld) checkEpub(e *epubFile, c epubCase, css, cover string, fonts map[string]string) string {
	pandoc := c.Driver == "pandoc"
	// metadata
	keys := []string{"title", "creator", "rights", "language", "date"}
	for i, k := range keys {
		if c.Meta[i] == "" || !pandoc && (k == "rights" || k == "date") {
			continue
		}
		found := false
		for _, v := range e.meta[k] {
			found = found || v == c.Meta[i]
		}
		if !found {
			return fmt.Sprintf("metadata %s is %q instead of %q", k, e.meta[k], c.Meta[i])
		}
	}
	// text and images
	var content []string
	for _, d := range e.docs {
		n := path.Base(d)
		if strings.HasPrefix(n, "nav") || strings.HasPrefix(n, "title_page") || strings.HasPrefix(n, "cover") || strings.HasPrefix(n, "toc") {
			continue
		}
		content = append(content, d)
	}
	text := ""
	var imgs []string
	for _, d := range content {
		t, is := htmlText(e.files[d])
		text += t
		for _, i := range is {
			u, err := url.PathUnescape(i)
			if err != nil {
				return fmt.Sprintf("image address %q in %s", i, d)
			}
			f := path.Join(path.Dir(d), u)
			c, ok := e.files[f]
			if !ok {
				return fmt.Sprintf("image %q of %s is not part of the EPUB", i, d)
			}
			if _, ok := e.manifest[f]; !ok {
				return fmt.Sprintf("image %q of %s is not in the manifest", i, d)
			}
			imgs = append(imgs, c)
		}
		if c.Css {
			found := false
			for _, l := range hrefs(e.files[d], "link") {
				found = found || e.files[path.Join(path.Dir(d), l)] == css
			}
			if !found && pandoc {
				return fmt.Sprintf("%s does not use the style file", d)
			}
		}
	}
	wantText := ""
	var wantImgs []string
	files := w.wantImages()
	var toc []string
	for _, i := range w.c.Order {
		page := styleMarkRegex.Replace(w.want[w.content(i)])
		t, is := htmlText(page)
		wantText += squeeze(w.c.Arts[i].Title) + t
		for _, s := range is {
			n := unescapeName(strings.TrimPrefix(s, "./images/"))
			switch id := strings.TrimSuffix(strings.TrimSuffix(n, ".png"), ".svg"); {
			case w.formulas[id]:
				shown := "png " + id
				switch w.c.Math {
				case "none":
					shown = mathSvg(id)
				case "template":
					shown = "math(" + mathSvg(id) + ")"
				}
				wantImgs = append(wantImgs, shown)
			default:
				wantImgs = append(wantImgs, files[n])
			}
		}
		toc = append(toc, squeeze(w.c.Arts[i].Title))
		if pandoc {
			toc = append(toc, headings(page, c.Toc)...)
		}
	}
	if text != wantText {
		return "text: " + diffAt(wantText, text)
	}
	if fmt.Sprint(len(imgs)) != fmt.Sprint(len(wantImgs)) {
		return fmt.Sprintf("the book shows %d images instead of %d", len(imgs), len(wantImgs))
	}
	for i := range imgs {
		if imgs[i] != wantImgs[i] {
			return fmt.Sprintf("image %d is %q instead of %q", i, trunc(imgs[i], 80), trunc(wantImgs[i], 80))
		}
	}
	if len(e.toc) == len(toc)+1 && e.toc[0] == squeeze(c.Meta[0]) { // the title page
		e.toc = e.toc[1:]
	}
	if c.Toc > 0 {
		// instead of formulas there may be their alternative text
		if a, b := strings.ReplaceAll(strings.Join(e.toc, "\n"), "image", ""), strings.Join(toc, "\n"); a != b {
			return fmt.Sprintf("table of contents: %s", diffAt(b, a))
		}
	}
	if c.Cover && (e.cover == "" || e.files[e.cover] != cover) {
		return fmt.Sprintf("cover image: %q", e.cover)
	}
	if c.Css {
		found := false
		for f, v := range e.files {
			found = found || v == css && e.manifest[f] != ""
		}
		if !found {
			return "the style file is not part of the EPUB"
		}
	}
	for n, v := range fonts {
		found := false
		for f, x := range e.files {
			found = found || x == v && path.Base(f) == n && e.manifest[f] != ""
		}
		if !found {
			return fmt.Sprintf("font %q is not part of the EPUB", n)
		}
	}
	return ""
}

func hrefs(s, tag string) []string {
	z := html.NewTokenizer(strings.NewReader(s))
	var out []string
	for {
		tt := z.Next()
		if tt == html.ErrorToken {
			return out
		}
		tok := z.Token()
		if tok.Data == tag {
			for _, a := range tok.Attr {
				if a.Key == "href" {
					out = append(out, a.Val)
				}
			}
		}
	}
}

func init() {
	register(&Prop{ID: "C32", Quick: 140, Thorough: 5000, Rule: "EPUB files of the real pandoc and of the internal driver with metadata, style, cover, fonts and table of contents; non-trivial = several articles"}, genEpub, runEpub)
}
