package main

import (
	"encoding/xml"
	"io"
	"os"
	"path/filepath"
	"strconv"
	"strings"

	"wiki2book/cache"
	"wiki2book/config"

	"pgregory.net/rapid"
)

// ---- C12: sizes of SVG images ---------------------------------------------------------------------------------------

type svgCase struct {
	W, H     string // size attributes, "" = absent
	ViewBox  string // "" = absent
	Attrs    []string
	Order    []int
	Pre      string
	Inner    string
	Broken   bool
	Name     string
	On       bool
	Conv     bool   `json:",omitempty"` // converted to PNG as well
	VBW, VBH string // width and height of the view box, "" when it is not usable
}

func genNum(t *rapid.T) string {
	v := strconv.Itoa(1 + uni(t, 2000))
	if oneIn(t, 3) {
		v += "." + strconv.Itoa(1+uni(t, 99))
	}
	return v
}

func genSize(t *rapid.T) string {
	switch uni(t, 6) {
	case 0:
		return ""
	case 1, 2:
		return pick(t, []string{"100%", "50%", "33.3%"})
	}
	return genNum(t) + pick(t, []string{"", "px", "pt", "mm", "ex"})
}

func genSvg(t *rapid.T) svgCase {
	c := svgCase{W: genSize(t), H: genSize(t), On: !oneIn(t, 6)}
	c.VBW, c.VBH = genNum(t), genNum(t)
	x, y := pick(t, []string{"0", "-5", "1.5"}), pick(t, []string{"0", "-5", "1.5"})
	switch uni(t, 10) {
	case 8:
		c.ViewBox = strings.Join([]string{x, y, c.VBW, c.VBH}, ", ")
	case 9:
		c.ViewBox = " " + strings.Join([]string{x, y, c.VBW, c.VBH}, pick(t, []string{"  ", "\n", "\t", " , "})) + pick(t, []string{"", " "})
	case 0:
		c.VBW, c.VBH = "", ""
	case 1:
		c.ViewBox = strings.Join([]string{x, y, c.VBW, c.VBH}, ",")
	case 2:
		c.ViewBox = pick(t, []string{"0 0 10", "0,0,1", "7"})
		c.VBW, c.VBH = "", ""
	default:
		c.ViewBox = strings.Join([]string{x, y, c.VBW, c.VBH}, " ")
	}
	n := uni(t, 4)
	for i := 0; i < n; i++ {
		c.Attrs = append(c.Attrs, pick(t, []string{`xmlns="http://www.w3.org/2000/svg"`, `xmlns="&ns_svg;"`, `version="1.1"`, `id="a"`, `xmlns:xlink="http://www.w3.org/1999/xlink"`, `style="fill:none"`, `data-w="12"`,
			`stroke-width="50%"`, `stroke-width="100%"`, `data-height="100%"`, `data-width='33.3%'`, `desc=' width="50%" viewBox="0 0 1 2"'`, `desc="a > b"`})+"")
	}
	// every attribute once
	seen := map[string]bool{}
	var as []string
	for _, a := range c.Attrs {
		name := strings.SplitN(a, "=", 2)[0]
		if !seen[name] {
			seen[name] = true
			as = append(as, a)
		}
	}
	c.Attrs = as
	k := len(as)
	quoted := func(name string, value string) string {
		switch uni(t, 5) {
		case 0:
			return name + "='" + value + "'"
		case 1:
			return name + ` = "` + value + `"`
		}
		return name + `="` + value + `"`
	}
	if c.W != "" {
		c.Attrs = append(c.Attrs, quoted("width", c.W))
		k++
	}
	if c.H != "" {
		c.Attrs = append(c.Attrs, quoted("height", c.H))
		k++
	}
	if c.ViewBox != "" {
		c.Attrs = append(c.Attrs, quoted("viewBox", c.ViewBox))
		k++
	}
	idx := []int{}
	for i := 0; i < k; i++ {
		idx = append(idx, i)
	}
	if k > 1 {
		idx = rapid.Permutation(idx).Draw(t, "order")
	}
	c.Order = idx
	c.Pre = pick(t, []string{"", `<?xml version="1.0" encoding="UTF-8"?>` + "\n", "<!-- made by hand -->\n", `<?xml version="1.0" encoding="UTF-8" standalone="no"?>` + "\n<!-- x -->\n",
		`<!-- <svg width="50%" height="100%" viewBox="0 0 3 4"> -->`, `<!DOCTYPE svg PUBLIC "-//W3C//DTD SVG 1.1//EN" "http://www.w3.org/Graphics/SVG/1.1/DTD/svg11.dtd" [` + "\n" + `<!ENTITY ns_svg "http://www.w3.org/2000/svg">` + "\n]>\n", `<?xml version="1.0" encoding="iso-8859-1"?>` + "\n"})
	c.Inner = pick(t, []string{"", `<rect width="100%" height="100%"/>`, "\n  <g><path d=\"M0 0\"/></g>\n", `<text>ä &amp; &lt;b&gt;</text>`, `<rect width="50%" height="20" x="1"/><svg width="33.3%" height="50%"/>`})
	c.Broken = oneIn(t, 10)
	c.Conv = oneIn(t, 16)
	c.Name = pick(t, []string{"A.svg", "A.svg", "A.SVG", "A.b.Svg", "A.svg.png"})
	return c
}

type svgTok struct {
	kind string
	text string
	attr []xml.Attr
}

func svgTokens(s string) ([]svgTok, error) {
	d := xml.NewDecoder(strings.NewReader(s))
	d.Strict = false
	d.CharsetReader = func(_ string, r io.Reader) (io.Reader, error) { return r, nil }
	var out []svgTok
	for {
		tk, err := d.RawToken()
		if err == io.EOF {
			return out, nil
		}
		if err != nil {
			return nil, err
		}
		switch x := tk.(type) {
		case xml.StartElement:
			out = append(out, svgTok{"start", x.Name.Space + ":" + x.Name.Local, x.Copy().Attr})
		case xml.EndElement:
			out = append(out, svgTok{"end", x.Name.Local, nil})
		case xml.CharData:
			out = append(out, svgTok{"text", string(x), nil})
		case xml.Comment:
			out = append(out, svgTok{"comment", string(x), nil})
		case xml.ProcInst:
			out = append(out, svgTok{"pi", x.Target + string(x.Inst), nil})
		}
	}
}

func runSvg(env *Env, c svgCase) Result {
	var sb strings.Builder
	sb.WriteString(c.Pre + "<svg")
	for _, i := range c.Order {
		sb.WriteString(" " + c.Attrs[i])
	}
	sb.WriteString(">" + c.Inner)
	if !c.Broken {
		sb.WriteString("</svg>\n")
	}
	src := sb.String()
	resetWorld(env.Dir)
	config.Current.SvgSizeToViewbox = c.On
	config.Current.CommandTemplateImageProcessing = ""
	config.Current.CommandTemplateSvgToPng = ""
	if c.Conv {
		config.Current.CommandTemplateSvgToPng = filepath.Join(os.Getenv("VH_BIN"), "stub-convert") + " svg {INPUT} {OUTPUT}"
	}
	installTransport(func(r fakeReq) fakeResp {
		if strings.Contains(r.URL, "api.php") {
			return okResp(articleJson("File:"+c.Name, "x"))
		}
		return okResp(src)
	})
	svc := newService("en", "wikipedia.org", []string{"commons.wikimedia.org"}, "upload.wikimedia.org", "https://math")
	if err := svc.DownloadImages([]string{"File:" + c.Name}); err != nil {
		return fail("%q: %v", src, err)
	}
	b, err := os.ReadFile(filepath.Join(env.Dir, "cache", cache.ImageCacheDirName, c.Name))
	if err != nil {
		return fail("%q: %v", src, err)
	}
	got := string(b)
	isSvg := strings.HasSuffix(strings.ToLower(c.Name), ".svg")
	if c.Conv && isSvg {
		png, err := os.ReadFile(filepath.Join(env.Dir, "cache", cache.ImageCacheDirName, c.Name+".png"))
		if err != nil {
			return fail("%s %q: no converted picture: %v", c.Name, src, err)
		}
		if string(png) != "svg("+got+")" {
			return fail("%s: the picture is not made of the final SVG file %q: %q", c.Name, got, png)
		}
	}
	rel := func(s string) bool { return s == "" || strings.HasSuffix(s, "%") }
	relative := rel(c.W) || rel(c.H)
	mayChange := c.On && isSvg && !c.Broken && c.VBW != ""
	if !mayChange {
		if got != src {
			return fail("%s %q (setting on: %v): changed to %q although there is nothing to derive a size from", c.Name, src, c.On, got)
		}
		return Result{Classes: []string{"unchanged"}}
	}
	if got == src && !relative {
		return Result{Classes: []string{"absolute-kept"}}
	}
	a, e1 := svgTokens(src)
	z, e2 := svgTokens(got)
	must(e1)
	if e2 != nil {
		return fail("%s %q: result is no XML any more: %v: %q", c.Name, src, e2, got)
	}
	if len(a) != len(z) {
		return fail("%s %q: structure changed: %q", c.Name, src, got)
	}
	root := true
	for i := range a {
		if a[i].kind == "start" && root {
			root = false
			size := map[string]string{}
			split := func(as []xml.Attr) (rest []xml.Attr) {
				for _, x := range as {
					if x.Name.Space == "" && (x.Name.Local == "width" || x.Name.Local == "height") {
						size[x.Name.Local] += "|" + x.Value
					} else {
						rest = append(rest, x)
					}
				}
				return rest
			}
			a[i].attr = split(a[i].attr)
			size = map[string]string{}
			z[i].attr = split(z[i].attr)
			if size["width"] != "|"+c.VBW+"pt" || size["height"] != "|"+c.VBH+"pt" {
				return fail("%s %q: sizes became %v instead of %s x %s: %q", c.Name, src, size, c.VBW, c.VBH, got)
			}
		}
		if a[i].kind != z[i].kind || a[i].text != z[i].text || len(a[i].attr) != len(z[i].attr) {
			return fail("%s %q: something else than the size changed: %q", c.Name, src, got)
		}
		for j := range a[i].attr {
			if a[i].attr[j] != z[i].attr[j] {
				return fail("%s %q: attribute %v became %v", c.Name, src, a[i].attr[j], z[i].attr[j])
			}
		}
	}
	r := Result{NonTrivial: relative, Classes: []string{"changed"}}
	return r
}

func init() {
	register(&Prop{
		ID: "C12", Quick: 12000, Thorough: 300000,
		Rule:        "generated SVG files (absolute, relative and missing sizes, view boxes of both separators, unusable ones, nested elements with sizes, broken files) downloaded with the setting on and off; non-trivial = a relative size was made absolute",
		Assumptions: []string{"files whose sizes are both absolute may be kept or set to the view box (the documentation says both)"},
	}, genSvg, runSvg)
}
