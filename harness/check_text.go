package main

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"
)

// C09: text fidelity. Generated packages and definition files full of hostile
// text are imported through the real manager; the published index, read by an
// independent parser, must carry every value.

func init() {
	register(&Check{ID: "C09", Level: "exploration",
		Rule:   "an execution is one repository built from generated packages and definitions whose published index is compared value by value with the sources; distinct by the SHA-1 of its index",
		Assume: []string{"characters the XML 1.0 production Char excludes cannot occur in a well-formed source", "the text of package summaries and descriptions is compared without surrounding white space, and the first of a list of localised texts may be labelled 'en' when unlabelled"},
		Run:    runC09})
}

// textGen makes hostile strings.
type textGen struct {
	r *rand.Rand
}

var textPools = []func(r *rand.Rand) string{
	func(r *rand.Rand) string { return string(rune('a' + r.Intn(26))) },
	func(r *rand.Rand) string {
		return []string{"<", ">", "&", "\"", "'", "]]>", "<![CDATA[", "-->", "&amp;", "&#xAD;", "&lt;", "%s", "\\", "&#", "&#x;"}[r.Intn(15)]
	},
	func(r *rand.Rand) string { // symbols, emoji
		return pickRune(r, "©®™±×÷€$+<=>^`|~¬°´¨🙂😀🚀👩‍💻🏳️‍🌈←↑→↓∀∂∃∅")
	},
	func(r *rand.Rand) string { // format, private use, spaces
		return pickRune(r, "\u00ad\u200b\u200c\u200d\u200e\u2060\ufeff\ue0a0\ue0b0\uf8ff\U000f0000\U0010fffd\u00a0\u2003\u2028\u2029\u3000\u1680\u0085\u0600\u070f\u180e\U000e0001")
	},
	func(r *rand.Rand) string { return pickRune(r, "Łukaszéèüñßøæčřžşğ") },
	func(r *rand.Rand) string {
		return pickRune(r, "日本語中文한국어ไทยहिन्दीعربىעברית")
	},
	func(r *rand.Rand) string { // any assigned-or-not scalar value XML allows
		for {
			c := rune(r.Intn(0x110000))
			if c >= 0xd800 && c < 0xe000 || c == 0xfffe || c == 0xffff || c < 0x20 {
				continue
			}
			return string(c)
		}
	},
	func(r *rand.Rand) string {
		return []string{"\n", "\t", " ", "  ", "\r", "\r\n", "\u007f", "\u0080", "\ufffd"}[r.Intn(9)]
	},
}

func pickRune(r *rand.Rand, s string) string { l := []rune(s); return string(l[r.Intn(len(l))]) }

func (g *textGen) str(n int) string {
	var b strings.Builder
	mode := g.r.Intn(len(textPools) + 2)
	for i := 0; i < n; i++ {
		p := mode
		if mode >= len(textPools) {
			p = g.r.Intn(len(textPools))
		}
		b.WriteString(textPools[p](g.r))
	}
	return b.String()
}

func (g *textGen) text() string {
	var n int
	switch g.r.Intn(12) {
	case 0:
		n = 1
	case 1:
		n = 2000 + g.r.Intn(4000)
	case 2:
		n = 300 + g.r.Intn(900)
	default:
		n = 1 + g.r.Intn(60)
	}
	s := g.str(n)
	if strings.TrimSpace(s) == "" {
		s = "x" + s + "y"
	}
	if g.r.Intn(4) > 0 {
		s = "t" + s + "t"
	}
	return s
}

// short is text for names and identifiers: nothing invisible at the ends.
func (g *textGen) short() string { return "n" + g.str(1+g.r.Intn(12)) + "n" }

// enc encodes text as XML content in one of several equivalent ways.
func (g *textGen) enc(s string) string {
	var b strings.Builder
	style := g.r.Intn(4)
	if style == 3 && !strings.Contains(s, "\r") {
		return "<![CDATA[" + strings.ReplaceAll(s, "]]>", "]]]]><![CDATA[>") + "]]>"
	}
	for i, c := range s {
		switch {
		case c == '<':
			b.WriteString("&lt;")
		case c == '&':
			b.WriteString("&amp;")
		case c == '>':
			b.WriteString("&gt;")
		case c == '"':
			b.WriteString("&quot;")
		case c == '\r' || style == 1 && c > 127 || style == 2 && g.r.Intn(3) == 0:
			if g.r.Intn(2) == 0 {
				fmt.Fprintf(&b, "&#x%x;", c)
			} else {
				fmt.Fprintf(&b, "&#%d;", c)
			}
		default:
			b.WriteRune(c)
		}
		if i > 0 && style == 2 && g.r.Intn(40) == 0 {
			b.WriteString("<!-- c -->")
		}
	}
	return b.String()
}

func (g *textGen) attr(s string) string {
	var b strings.Builder
	for _, c := range s {
		switch {
		case strings.ContainsRune("<&>\"", c) || c < 32:
			fmt.Fprintf(&b, "&#%d;", c)
		case c > 127 && g.r.Intn(2) == 0:
			fmt.Fprintf(&b, "&#x%X;", c)
		default:
			b.WriteRune(c)
		}
	}
	return b.String()
}

func (g *textGen) el(b *strings.Builder, tag, text string, attrs ...string) {
	b.WriteString("<" + tag)
	for i := 0; i+1 < len(attrs); i += 2 {
		fmt.Fprintf(b, " %s=\"%s\"", attrs[i], g.attr(attrs[i+1]))
	}
	b.WriteString(">" + g.enc(text) + "</" + tag + ">")
	if g.r.Intn(3) == 0 {
		b.WriteString("\n  ")
	}
}

var langPool = []string{"en", "de", "zh_CN", "sr@latin", "pt-BR", "x-ü", "fr", "ja", "en_GB"}

func (g *textGen) locs(b *strings.Builder, tag string) {
	n := 1 + g.r.Intn(4)
	for i := 0; i < n; i++ {
		if g.r.Intn(4) == 0 {
			g.el(b, tag, g.text())
		} else {
			g.el(b, tag, g.text(), "xml:lang", langPool[g.r.Intn(len(langPool))])
		}
	}
}

// metadata builds a metadata.xml with every element ferryd knows.
func (g *textGen) metadata(name string, rel int) string {
	r := g.r
	b := &strings.Builder{}
	b.WriteString("<?xml version=\"1.0\" encoding=\"utf-8\"?>\n<PISI>\n")
	sb := &strings.Builder{}
	sb.WriteString("<Source>")
	g.el(sb, "Name", "src"+strconv.Itoa(r.Intn(100))+strings.ReplaceAll(g.str(3), "/", "_"))
	if r.Intn(4) > 0 {
		g.el(sb, "Homepage", "https://x/?a=1&b="+g.short())
	}
	sb.WriteString("<Packager>")
	g.el(sb, "Name", g.text())
	g.el(sb, "Email", g.short())
	sb.WriteString("</Packager></Source>")
	b.WriteString(sb.String() + "\n<Package>")
	g.el(b, "Name", name)
	g.locs(b, "Summary")
	g.locs(b, "Description")
	if r.Intn(3) > 0 {
		g.el(b, "IsA", g.short())
	}
	if r.Intn(5) > 0 {
		g.el(b, "PartOf", g.short())
	}
	for i := 1 + r.Intn(3); i > 0; i-- {
		g.el(b, "License", g.short())
	}
	if r.Intn(3) > 0 {
		b.WriteString("<RuntimeDependencies>")
		for i := 1 + r.Intn(5); i > 0; i-- {
			var at []string
			for _, a := range []string{"releaseFrom", "releaseTo", "release"} {
				if r.Intn(4) == 0 {
					at = append(at, a, strconv.Itoa(1+r.Intn(100000)))
				}
			}
			for _, a := range []string{"versionFrom", "versionTo", "version"} {
				if r.Intn(4) == 0 {
					at = append(at, a, g.short())
				}
			}
			g.el(b, "Dependency", g.short(), at...)
		}
		b.WriteString("</RuntimeDependencies>")
	}
	list := func(outer string) {
		if r.Intn(2) == 0 {
			return
		}
		b.WriteString("<" + outer + ">")
		for i := 1 + r.Intn(3); i > 0; i-- {
			g.el(b, "Package", g.short())
		}
		b.WriteString("</" + outer + ">")
	}
	list("Conflicts")
	list("Replaces")
	if r.Intn(3) > 0 {
		b.WriteString("<Provides>")
		for i := r.Intn(3); i > 0; i-- {
			if r.Intn(2) == 0 {
				g.el(b, "COMAR", g.short(), "script", g.short())
			} else {
				g.el(b, "COMAR", g.short())
			}
		}
		for i := r.Intn(3); i > 0; i-- {
			g.el(b, "PkgConfig", g.short())
		}
		for i := r.Intn(3); i > 0; i-- {
			g.el(b, "PkgConfig32", g.short())
		}
		b.WriteString("</Provides>")
	}
	b.WriteString("<History>")
	for i, n := 0, 1+r.Intn(5); i < n; i++ {
		fmt.Fprintf(b, "<Update release=\"%d\"", rel-i)
		if r.Intn(3) == 0 {
			fmt.Fprintf(b, " type=\"%s\"", g.attr(g.short()))
		}
		b.WriteString(">")
		g.el(b, "Date", "2024-01-0"+strconv.Itoa(i+1))
		g.el(b, "Version", g.short())
		g.el(b, "Comment", g.text())
		g.el(b, "Name", g.text())
		g.el(b, "Email", g.short())
		if r.Intn(3) == 0 {
			b.WriteString("<Requires>")
			for k := 1 + r.Intn(2); k > 0; k-- {
				if r.Intn(2) == 0 {
					g.el(b, "Action", g.short(), "package", g.short())
				} else {
					g.el(b, "Action", g.short())
				}
			}
			b.WriteString("</Requires>")
		}
		b.WriteString("</Update>")
	}
	b.WriteString("</History>")
	g.el(b, "BuildHost", g.short())
	g.el(b, "Distribution", g.short())
	g.el(b, "DistributionRelease", strconv.Itoa(1+r.Intn(3)))
	g.el(b, "Architecture", "x86_64")
	g.el(b, "InstalledSize", strconv.FormatInt(r.Int63(), 10))
	g.el(b, "PackageFormat", []string{"1.2", g.short()}[r.Intn(2)])
	b.WriteString(sb.String() + "</Package>\n</PISI>\n")
	return b.String()
}

func (g *textGen) components(n int) string {
	b := &strings.Builder{}
	b.WriteString("<?xml version=\"1.0\" encoding=\"utf-8\"?>\n<PISI><Components>")
	for i := 0; i < n; i++ {
		b.WriteString("<Component>")
		g.el(b, "Name", fmt.Sprintf("c%d%s", i, g.short()))
		g.locs(b, "LocalName")
		g.locs(b, "Summary")
		g.locs(b, "Description")
		g.el(b, "Group", g.short())
		b.WriteString("<Maintainer>")
		g.el(b, "Name", g.text())
		g.el(b, "Email", g.short())
		b.WriteString("</Maintainer></Component>")
	}
	b.WriteString("</Components></PISI>")
	return b.String()
}

func (g *textGen) groups(n int) string {
	b := &strings.Builder{}
	b.WriteString("<PISI><Groups>")
	for i := 0; i < n; i++ {
		b.WriteString("<Group>")
		g.el(b, "Name", fmt.Sprintf("g%d%s", i, g.short()))
		g.locs(b, "LocalName")
		g.el(b, "Icon", g.short())
		b.WriteString("</Group>")
	}
	b.WriteString("</Groups></PISI>")
	return b.String()
}

func (g *textGen) distribution() string {
	b := &strings.Builder{}
	b.WriteString("<PISI>")
	g.el(b, "SourceName", g.short())
	g.locs(b, "Description")
	g.el(b, "Version", g.short())
	g.el(b, "Type", g.short())
	g.el(b, "BinaryName", g.short())
	b.WriteString("<Obsoletes>")
	for i := g.r.Intn(5); i > 0; i-- {
		g.el(b, "Package", "obs"+g.short())
	}
	b.WriteString("</Obsoletes></PISI>")
	return b.String()
}

var numRef = regexp.MustCompile(`&#(x[0-9A-Fa-f]+|[0-9]+);`)

// decRefs decodes numeric character references left in parsed text (the index
// writer also emits them inside CDATA sections).
func decRefs(s string) string {
	return numRef.ReplaceAllStringFunc(s, func(m string) string {
		v := m[2 : len(m)-1]
		var n int64
		var err error
		if v[0] == 'x' {
			n, err = strconv.ParseInt(v[1:], 16, 32)
		} else {
			n, err = strconv.ParseInt(v, 10, 32)
		}
		if err != nil {
			return m
		}
		return string(rune(n))
	})
}

type textCmp struct {
	n     int64
	diffs []string
	runes map[rune]bool
}

func (t *textCmp) bad(path, f string, a ...interface{}) {
	if len(t.diffs) < 5 {
		t.diffs = append(t.diffs, path+": "+fmt.Sprintf(f, a...))
	}
}

func emptyNode(n *XNode) bool {
	return len(n.Kids) == 0 && len(n.Attrs) == 0 && strings.TrimSpace(n.Text) == ""
}

func diffAt(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	lo := i - 12
	if lo < 0 {
		lo = 0
	}
	w := func(s string) string {
		hi := i + 24
		if hi > len(s) {
			hi = len(s)
		}
		if lo > hi {
			return ""
		}
		return s[lo:hi]
	}
	return fmt.Sprintf("at byte %d of %d: %q became %q (of %d)", i, len(a), w(a), w(b), len(b))
}

// cmp requires dst to carry everything of src. extras names children only dst has.
func (t *textCmp) cmp(src, dst *XNode, path string, extras map[string]bool, trim map[string]bool, fixLang bool) {
	p := path + "/" + src.Name
	t.n++
	if len(src.Kids) == 0 {
		a, b := decRefs(src.Text), decRefs(dst.Text)
		if trim[src.Name] {
			a, b = strings.TrimSpace(a), strings.TrimSpace(b)
		}
		for _, r := range a {
			if r > 127 {
				t.runes[r] = true
			}
		}
		if a != b {
			t.bad(p, "text %s", diffAt(a, b))
		}
		if len(dst.Kids) > 0 {
			t.bad(p, "gained children")
		}
	}
	for _, a := range src.Attrs {
		found := false
		for _, d := range dst.Attrs {
			if d.Name == a.Name {
				found = true
				if decRefs(d.Value) != decRefs(a.Value) {
					t.bad(p, "attribute %s=%q became %q", a.Name, a.Value, d.Value)
				}
			}
		}
		if !found {
			t.bad(p, "attribute %s=%q is missing, index has %v", a.Name, a.Value, dst.Attrs)
		}
	}
	for _, d := range dst.Attrs {
		if len(src.Attrs) == 0 && d.Name == "xml:lang" && d.Value == "en" && fixLang {
			continue
		}
		ok := false
		for _, a := range src.Attrs {
			ok = ok || a.Name == d.Name
		}
		if !ok {
			t.bad(p, "attribute %s=%q was added", d.Name, d.Value)
		}
	}
	by := func(n *XNode) map[string][]*XNode {
		m := map[string][]*XNode{}
		for _, k := range n.Kids {
			if !emptyNode(k) {
				m[k.Name] = append(m[k.Name], k)
			}
		}
		return m
	}
	sm, dm := by(src), by(dst)
	for tag, l := range sm {
		d := dm[tag]
		if len(d) != len(l) {
			t.bad(p, "%d <%s> became %d", len(l), tag, len(d))
			continue
		}
		for i := range l {
			t.cmp(l[i], d[i], p, nil, trim, i == 0)
		}
	}
	for tag := range dm {
		if sm[tag] == nil && !extras[tag] {
			t.bad(p, "<%s> was added", tag)
		}
	}
}

var pkgExtras = map[string]bool{"PackageSize": true, "PackageHash": true, "PackageURI": true, "DeltaPackages": true}
var pkgTrim = map[string]bool{"Summary": true, "Description": true}

func runC09(c *Ctx) {
	n := c.N(160, 6000)
	c.Each(n, 0, func(i int) {
		g := &textGen{c.Rng("text", i)}
		dir := c.TempDir("t")
		defer os.RemoveAll(dir)
		w := newWorld(dir, nil)
		defer w.M.Close()
		must(w.M.CreateRepo("r"))
		src := map[string]*XNode{} // package name -> metadata root
		raw := map[string]string{}
		var paths []string
		np := 1 + g.r.Intn(10)
		for k := 0; k < np; k++ {
			name := fmt.Sprintf("p%d", k)
			if g.r.Intn(3) == 0 {
				name += strings.NewReplacer("/", "_", "\x00", "_").Replace(g.short())
			}
			md := g.metadata(name, 5+g.r.Intn(50))
			root, err := parseXML([]byte(md))
			must(err)
			name = root.Kid("Package").T("Name")
			src[name] = root
			raw[name] = md
			p := filepath.Join(w.Stage, fmt.Sprintf("p%d-1-1-1-x86_64.eopkg", k))
			writeZip(p, []zent{{"metadata.xml", []byte(md)}, {"files.xml", []byte("<Files></Files>")}, {"install.tar.xz", []byte("x")}})
			paths = append(paths, p)
		}
		assets := map[string]string{}
		if g.r.Intn(4) > 0 {
			assets["components.xml"] = g.components(1 + g.r.Intn(4))
		}
		if g.r.Intn(4) > 0 {
			assets["groups.xml"] = g.groups(1 + g.r.Intn(4))
		}
		if g.r.Intn(4) > 0 {
			assets["distribution.xml"] = g.distribution()
		}
		ad := filepath.Join(w.Dir, "assets", "r")
		setAssets(ad, assets)
		replay := func() interface{} { return map[string]interface{}{"case": i, "metadata": raw, "assets": assets} }
		if err := w.M.AddPackages("r", paths, false); err != nil {
			c.Violate("refused", fmt.Sprintf("well-formed packages and definitions were refused: %v", err), replay())
			c.Eval("")
			return
		}
		if i%3 == 0 { // through the database again
			w.M.Close()
			w.open()
			if err := w.M.Index("r"); err != nil {
				c.Violate("refused-index", fmt.Sprintf("indexing failed: %v", err), replay())
				return
			}
		}
		ib, err := os.ReadFile(filepath.Join(w.Dir, "repo", "r", "eopkg-index.xml"))
		must(err)
		if !utf8.Valid(ib) {
			c.Violate("utf8", "the index is not valid UTF-8", replay())
			return
		}
		root, err := parseXML(ib)
		if err != nil {
			c.Violate("malformed", fmt.Sprintf("the index is not well-formed: %v", err), replay())
			return
		}
		t := &textCmp{runes: map[rune]bool{}}
		byName := map[string]*XNode{}
		for _, p := range root.All("Package") {
			byName[decRefs(p.T("Name"))] = p
		}
		for name, s := range src {
			p := byName[decRefs(name)]
			if p == nil {
				t.bad("/PISI", "package %q is not in the index", name)
				continue
			}
			t.cmp(s.Kid("Package"), p, "", pkgExtras, pkgTrim, true)
		}
		if len(byName) != len(src) {
			t.bad("/PISI", "%d packages became %d", len(src), len(byName))
		}
		named := func(f, outer, item string) {
			var want []*XNode
			if a, ok := assets[f]; ok {
				x, err := parseXML([]byte(a))
				must(err)
				want = x.Kid(outer).All(item)
			}
			got := root.All(item)
			if len(want) != len(got) {
				t.bad("/PISI", "%d <%s> became %d", len(want), item, len(got))
				return
			}
			m := map[string]*XNode{}
			for _, k := range got {
				m[decRefs(k.T("Name"))] = k
			}
			for _, k := range want {
				if d := m[decRefs(k.T("Name"))]; d != nil {
					t.cmp(k, d, "", nil, nil, true)
				} else {
					t.bad("/PISI", "<%s> %q is missing", item, k.T("Name"))
				}
			}
		}
		named("components.xml", "Components", "Component")
		named("groups.xml", "Groups", "Group")
		if a, ok := assets["distribution.xml"]; ok {
			x, err := parseXML([]byte(a))
			must(err)
			x.Name = "Distribution"
			if d := root.Kid("Distribution"); d == nil {
				t.bad("/PISI", "Distribution is missing")
			} else {
				t.cmp(x, d, "", nil, nil, true)
			}
		}
		if len(t.diffs) > 0 {
			sort.Strings(t.diffs)
			c.Violate("text:"+strings.SplitN(t.diffs[0], ":", 2)[0], strings.Join(t.diffs, "; "), replay())
		}
		c.Count("values_compared", t.n)
		c.Count("index_bytes", int64(len(ib)))
		for r := range t.runes {
			c.State(string(r))
		}
		c.Eval(sha1hex(ib))
		if i < 3 {
			c.Sample(map[string]interface{}{"packages": np, "values": t.n, "index_bytes": len(ib)})
		}
	})
	c.Extra("distinct_non_ascii_characters", c.NStates())
}
