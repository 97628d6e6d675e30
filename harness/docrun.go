package main

import (
	"crypto/sha1"
	"encoding/hex"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"wiki2book/cache"
	"wiki2book/config"
	"wiki2book/generator"
	"wiki2book/parser"
	"wiki2book/wikipedia"

	"golang.org/x/net/html"
)

// docService is what the tokenizer and the generator see as Wikipedia.
type docService struct {
	templates map[string]string // name -> result, {{{1}}} etc. stand for the arguments
	asked     []string
	math      []string
	fallback  func(template string) string // result of templates that are not in the map
}

func (s *docService) DownloadArticle(string, string) (*wikipedia.WikiArticleDto, error) {
	return nil, fmt.Errorf("unexpected article request")
}
func (s *docService) DownloadImages([]string) error { return nil }

func (s *docService) EvaluateTemplate(template string, key string) (string, error) {
	s.asked = append(s.asked, template)
	if !strings.HasPrefix(template, "{{") || !strings.HasSuffix(template, "}}") {
		return "", fmt.Errorf("not a template: %q", template)
	}
	args := strings.Split(template[2:len(template)-2], "|")
	res, ok := s.templates[strings.TrimSpace(args[0])]
	if !ok && s.fallback != nil {
		return s.fallback(template), nil
	}
	if !ok {
		return "", fmt.Errorf("unexpected template: %q", template)
	}
	for i := 1; i < len(args); i++ {
		res = strings.ReplaceAll(res, fmt.Sprintf("{{{%d}}}", i), args[i])
	}
	return res, nil
}

func mathId(s string) string { h := sha1.Sum([]byte(s)); return hex.EncodeToString(h[:]) }

func mathSizes(id string) (string, string, string) {
	return fmt.Sprintf("%d.%dex", 1+int(id[0])%9, int(id[1])%10), fmt.Sprintf("%d.%dex", 1+int(id[2])%9, int(id[3])%10), fmt.Sprintf("vertical-align: -%d.5ex", int(id[4])%4)
}

func (s *docService) RenderMath(m string) (string, string, error) {
	s.math = append(s.math, m)
	id := mathId(m)
	w, h, st := mathSizes(id)
	dir := filepath.Join(config.Current.CacheDir, cache.ImageCacheDirName)
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return "", "", err
	}
	svg := filepath.Join(dir, id+".svg")
	err := os.WriteFile(svg, []byte(fmt.Sprintf(`<svg width="%s" height="%s" style="%s;" viewBox="0 0 10 10"></svg>`, w, h, st)), 0o644)
	return svg, filepath.Join(dir, id+".png"), err
}

type docOut struct {
	html   string
	images []string
	svc    *docService
	art    *parser.Article
}

// renderDoc runs the real tokenizer and generator.
func renderDoc(content, title string, templates map[string]string) (docOut, error) {
	return renderWith(&docService{templates: templates}, content, title)
}

func renderWith(svc *docService, content, title string) (docOut, error) {
	o := docOut{svc: svc}
	tok := parser.NewTokenizer(svc)
	art, err := tok.Tokenize(content, title)
	if err != nil {
		return o, fmt.Errorf("tokenizer: %w", err)
	}
	o.images, o.art = art.Images, art
	gen := generator.HtmlGenerator{TokenMap: art.TokenMap, WikipediaService: svc}
	f, err := gen.Generate(art)
	if err != nil {
		return o, fmt.Errorf("generator: %w", err)
	}
	b, err := os.ReadFile(f)
	if err != nil {
		return o, fmt.Errorf("generated file: %w", err)
	}
	o.html = string(b)
	return o, nil
}

// docBody cuts the document around the article text.
func docBody(page, title string) (string, string) {
	head := "\n<h1>" + title + "</h1>\n"
	i := strings.Index(page, head)
	if i < 0 {
		return "", "no title heading"
	}
	if !strings.Contains(page[:i], "<body") || strings.Contains(page[:i], "<h1") {
		return "", "title heading is not at the start of the body"
	}
	body := page[i+len(head):]
	j := strings.LastIndex(body, "</body>")
	if j < 0 || strings.TrimSpace(body[j:]) != "</body>\n</html>" {
		return "", "page is not closed"
	}
	return body[:j], ""
}

var blockTags = map[string]bool{"div": true, "table": true, "tr": true, "td": true, "th": true, "ul": true, "ol": true, "li": true, "h1": true, "h2": true, "h3": true, "h4": true, "h5": true, "h6": true, "h7": true, "br": true, "p": true, "blockquote": true, "center": true, "body": true, "html": true, "head": true}
var voidTags = map[string]bool{"br": true, "img": true, "hr": true, "meta": true, "link": true}

// normalHtml brings HTML into a form in which only what a reader sees is left: text with its formatting, elements with
// their attributes in a fixed order, one blank for any white space and none next to blocks.
func normalHtml(s string) (string, string) {
	z := html.NewTokenizer(strings.NewReader(s))
	var sb strings.Builder
	var stack []string
	bold, italic := 0, 0
	last := "" // style of the last character written
	space, edge := false, true
	problem := ""
	flush := func() {
		if space && !edge {
			sb.WriteByte(' ')
		}
		space = false
	}
	for {
		tt := z.Next()
		if tt == html.ErrorToken {
			break
		}
		tok := z.Token()
		switch tt {
		case html.TextToken:
			for _, r := range tok.Data {
				if r == ' ' || r == '\n' || r == '\t' || r == '\r' {
					space = true
					continue
				}
				st := ""
				if bold > 0 {
					st += "B"
				}
				if italic > 0 {
					st += "I"
				}
				flush()
				if st != last {
					sb.WriteString("«" + st + "»")
					last = st
				}
				sb.WriteRune(r)
				edge = false
			}
		case html.StartTagToken, html.SelfClosingTagToken:
			n := tok.Data
			if n == "nowiki" && tt == html.SelfClosingTagToken {
				continue // nothing to see
			}
			if !voidTags[n] && tt == html.StartTagToken {
				stack = append(stack, n)
			}
			if n == "b" {
				bold++
				continue
			}
			if n == "i" {
				italic++
				continue
			}
			if blockTags[n] {
				space, edge, last = false, true, ""
				sb.WriteByte('\n')
			} else {
				flush()
			}
			sb.WriteString("<" + n + normalAttrs(tok.Attr) + ">")
			if !blockTags[n] {
				edge = false
			}
		case html.EndTagToken:
			n := tok.Data
			if voidTags[n] {
				continue
			}
			if len(stack) == 0 || stack[len(stack)-1] != n {
				if problem == "" {
					problem = fmt.Sprintf("</%s> closes nothing or the wrong element (open: %v)", n, stack)
				}
			} else {
				stack = stack[:len(stack)-1]
			}
			if n == "b" {
				bold--
				continue
			}
			if n == "i" {
				italic--
				continue
			}
			if blockTags[n] {
				space, edge, last = false, true, ""
			} else {
				flush()
			}
			sb.WriteString("</" + n + ">")
		case html.CommentToken:
			flush()
			sb.WriteString("<!--" + tok.Data + "-->")
		}
	}
	if len(stack) > 0 && problem == "" {
		problem = fmt.Sprintf("elements are not closed: %v", stack)
	}
	out := sb.String()
	for {
		n := strings.ReplaceAll(strings.ReplaceAll(out, "\n<tr></tr>", ""), "\n<div class=\"caption\"></div>", "")
		if n == out {
			break
		}
		out = n
	}
	return out, problem
}

func normalAttrs(attrs []html.Attribute) string {
	var as []string
	for _, a := range attrs {
		v := a.Val
		switch a.Key {
		case "style":
			var ps []string
			for _, p := range strings.Split(v, ";") {
				if p = strings.Join(strings.Fields(p), " "); p != "" {
					if k, v, ok := strings.Cut(p, ":"); ok {
						p = strings.ToLower(strings.TrimSpace(k)) + ":" + strings.TrimSpace(v)
					}
					ps = append(ps, p)
				}
			}
			v = strings.ToLower(strings.Join(ps, ";"))
		case "src":
			v = unescapeName(v)
		}
		as = append(as, fmt.Sprintf(" %s=%q", a.Key, v))
	}
	sort.Strings(as)
	return strings.Join(as, "")
}

var leakRegex = regexp.MustCompile(`\$\$(TOKEN|MARKER|TEMPLATE)_[A-Z0-9_a-f]*|TEMPLATE_PLACEHOLDER`)

// diffAt shows where two normal forms differ.
func diffAt(want, got string) string {
	i := 0
	for i < len(want) && i < len(got) && want[i] == got[i] {
		i++
	}
	cut := func(s string) string {
		a, b := max(0, i-60), min(len(s), i+80)
		return s[a:b]
	}
	return fmt.Sprintf("expected …%q…, got …%q…", cut(want), cut(got))
}

// docMain: debugging aid, renders wikitext from stdin.
func docMain() int {
	dir, err := os.MkdirTemp("", "vhdoc")
	must(err)
	defer os.RemoveAll(dir)
	resetWorld(dir)
	b, err := os.ReadFile("/dev/stdin")
	must(err)
	o, err := renderDoc(string(b), "T", map[string]string{"t": "TTT"})
	if err != nil {
		fmt.Println("ERROR", err)
		return 1
	}
	body, p := docBody(o.html, "T")
	fmt.Println(body, p, o.images)
	n, p := normalHtml(body)
	fmt.Println("--\n"+n, p)
	return 0
}
