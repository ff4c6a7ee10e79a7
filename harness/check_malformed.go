package main

// C18: malformed packages, manifests, definition files and requests are
// refused without any harm.

import (
	"archive/zip"
	"bytes"
	"encoding/binary"
	"encoding/xml"
	"fmt"
	"io"
	"math/rand"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"strings"
	"syscall"
	"time"

	"github.com/getsolus/ferryd/src/ferryd/jobs"
)

func init() {
	register(&Check{ID: "C18", Level: "exploration",
		Rule:   "one case = one malformed package, manifest, definition file, path or request handed to the real code, with the whole state compared before and after; distinct by kind and content",
		Assume: []string{"inputs expand to at most a few megabytes", "an input that is accepted counts as valid for the repository it names; it must then do no harm beyond that repository"},
		Run:    runC18})
}

// ---------- generators ----------

var hostileText = []string{"", " ", "-1", "0", "99999999999999999999999", "1e9", "0x10", "NaN", "&bogus;", "&#0;", "&#xD800;", "<x>", "]]>", "\x00", "\xff\xfe\xfd", "\u202e\u0000", "😀😀", "2147483648", "-2147483649", "1 2", "\n\n", strings.Repeat("A", 5000), strings.Repeat("é", 3000), "<!--", "<![CDATA[", "%s%d%n", "../../../x", "\\", "'\"", "１２"}

func cutRand(r *rand.Rand, b []byte) []byte {
	if len(b) == 0 {
		return b
	}
	return append([]byte{}, b[:r.Intn(len(b))]...)
}

func flipRand(r *rand.Rand, b []byte, n int) []byte {
	o := append([]byte{}, b...)
	for ; n > 0 && len(o) > 0; n-- {
		o[r.Intn(len(o))] ^= 1 << uint(r.Intn(8))
	}
	return o
}

func spliceRand(r *rand.Rand, b []byte) []byte {
	if len(b) < 2 {
		return b
	}
	i := r.Intn(len(b))
	n := r.Intn(min(64, len(b)-i) + 1)
	x := make([]byte, r.Intn(64))
	r.Read(x)
	return append(append(append([]byte{}, b[:i]...), x...), b[i+n:]...)
}

var elemRe = regexp.MustCompile(`<([A-Za-z]+)( [^<>]*)?>([^<>]*)</([A-Za-z]+)>`)
var attrRe = regexp.MustCompile(` ([a-zA-Z:]+)="([^"]*)"`)
var tagRe = regexp.MustCompile(`</?[A-Za-z]+[^<>]*>`)

// brokenXML: the document is not well-formed up to the end of its root element.
func brokenXML(b []byte) bool {
	dec := xml.NewDecoder(bytes.NewReader(b))
	for depth := 0; ; {
		t, err := dec.Token()
		if err != nil {
			return true
		}
		switch t.(type) {
		case xml.StartElement:
			depth++
		case xml.EndElement:
			if depth--; depth == 0 {
				return false
			}
		}
	}
}

// mangleXML damages an XML document.
func mangleXML(r *rand.Rand, b []byte) (kind string, out []byte) {
	s := string(b)
	switch r.Intn(16) {
	case 0:
		return "xml-cut", cutRand(r, b)
	case 1:
		return "xml-flip", flipRand(r, b, 1+r.Intn(4))
	case 2:
		return "xml-splice", spliceRand(r, b)
	case 3, 4, 5: // the text of one element
		l := elemRe.FindAllStringSubmatchIndex(s, -1)
		if len(l) == 0 {
			break
		}
		m := l[r.Intn(len(l))]
		return "xml-text:" + s[m[2]:m[3]], []byte(s[:m[6]] + hostileText[r.Intn(len(hostileText))] + s[m[7]:])
	case 6, 7: // one element away or twice
		l := elemRe.FindAllStringSubmatchIndex(s, -1)
		if len(l) == 0 {
			break
		}
		m := l[r.Intn(len(l))]
		if r.Intn(2) == 0 {
			return "xml-without:" + s[m[2]:m[3]], []byte(s[:m[0]] + s[m[1]:])
		}
		return "xml-twice:" + s[m[2]:m[3]], []byte(s[:m[1]] + strings.Repeat(s[m[0]:m[1]], 1+r.Intn(3)) + s[m[1]:])
	case 8: // attributes
		l := attrRe.FindAllStringSubmatchIndex(s, -1)
		if len(l) == 0 {
			break
		}
		m := l[r.Intn(len(l))]
		if r.Intn(3) == 0 {
			return "xml-without-attr", []byte(s[:m[0]] + s[m[1]:])
		}
		return "xml-attr", []byte(s[:m[4]] + hostileText[r.Intn(len(hostileText))] + s[m[5]:])
	case 9: // one tag away, or another one
		l := tagRe.FindAllStringIndex(s, -1)
		if len(l) == 0 {
			break
		}
		m := l[r.Intn(len(l))]
		repl := []string{"", "<a>", "</a>", "<a/>", "<PISI>", "</Package>", "<Update>"}[r.Intn(7)]
		return "xml-tag", []byte(s[:m[0]] + repl + s[m[1]:])
	case 10: // a section away: from one opening tag to the matching end
		for _, t := range []string{"History", "Package", "Source", "Update"}[r.Intn(4):] {
			i, j := strings.Index(s, "<"+t), strings.Index(s, "</"+t+">")
			if i >= 0 && j > i {
				return "xml-section:" + t, []byte(s[:i] + s[j+len(t)+3:])
			}
		}
	case 11:
		n := []int{100, 9999, 10001, 30000}[r.Intn(4)]
		i := strings.Index(s, "<Name>")
		if i < 0 {
			break
		}
		return "xml-deep", []byte(s[:i] + strings.Repeat("<x>", n) + strings.Repeat("</x>", n) + s[i:])
	case 12:
		enc := []string{"ISO-8859-1", "utf-16", "UTF-7", "bogus", ""}[r.Intn(5)]
		return "xml-encoding", []byte(strings.Replace(s, "utf-8", enc, 1))
	case 13:
		return "xml-doctype", []byte(strings.Replace(s, "?>", "?><!DOCTYPE x [<!ENTITY a \"aaaaaaaaaa\"><!ENTITY b \"&a;&a;&a;&a;&a;&a;&a;&a;\"><!ENTITY c SYSTEM \"file:///etc/passwd\">]>", 1) + "&c;")
	case 14:
		return "xml-other", []byte([]string{"", "\n", "<?xml version=\"1.0\"?>", "<html></html>", "{}", "\xef\xbb\xbf" + s, s + s, "<PISI/>", "<PISI></PISI>", "<Package/>", "<PISI><Package/></PISI>", "<PISI><Package><History/></Package></PISI>", "<PISI><Package><Name>x</Name><History><Update/></History></Package></PISI>"}[r.Intn(13)])
	case 15:
		return "xml-shouted", []byte(strings.ToUpper(s))
	}
	return "xml-cut", cutRand(r, b)
}

// mangleZip damages the container.
func mangleZip(r *rand.Rand, b []byte) (string, []byte) {
	sig := []byte("PK\x01\x02")
	switch r.Intn(12) {
	case 0:
		return "zip-cut", cutRand(r, b)
	case 1:
		return "zip-flip", flipRand(r, b, 1+r.Intn(6))
	case 2:
		return "zip-splice", spliceRand(r, b)
	case 3:
		x := make([]byte, r.Intn(4000))
		r.Read(x)
		return "zip-random", x
	case 4:
		return "zip-zero", make([]byte, r.Intn(3000))
	case 5:
		x := make([]byte, 1+r.Intn(300))
		r.Read(x)
		return "zip-tail", append(append([]byte{}, b...), x...)
	case 6:
		x := make([]byte, 1+r.Intn(300))
		r.Read(x)
		return "zip-head", append(x, b...)
	case 7, 8, 9: // one field of one directory entry
		var at []int
		for i := 0; ; {
			k := bytes.Index(b[i:], sig)
			if k < 0 {
				break
			}
			at = append(at, i+k)
			i += k + 4
		}
		if len(at) == 0 {
			break
		}
		o := append([]byte{}, b...)
		p := at[r.Intn(len(at))]
		f := []struct{ off, n int }{{8, 2}, {10, 2}, {16, 4}, {20, 4}, {24, 4}, {28, 2}, {30, 2}, {32, 2}, {38, 4}, {42, 4}}[r.Intn(10)]
		v := []uint32{0, 1, 0xffffffff, 0x7fffffff, 99, uint32(r.Int63())}[r.Intn(6)]
		if p+f.off+f.n > len(o) {
			break
		}
		if f.n == 2 {
			binary.LittleEndian.PutUint16(o[p+f.off:], uint16(v))
		} else {
			binary.LittleEndian.PutUint32(o[p+f.off:], v)
		}
		return fmt.Sprintf("zip-field%d", f.off), o
	case 10: // the end record
		o := append([]byte{}, b...)
		if len(o) > 22 {
			p := len(o) - 22
			v := []uint32{0, 1, 0xffffffff, uint32(r.Int63())}[r.Intn(4)]
			if r.Intn(2) == 0 {
				binary.LittleEndian.PutUint16(o[p+8+2*r.Intn(2):], uint16(v))
			} else {
				binary.LittleEndian.PutUint32(o[p+12+4*r.Intn(2):], v)
			}
		}
		return "zip-end", o
	}
	var w bytes.Buffer
	zw := zip.NewWriter(&w)
	for i := r.Intn(3); i > 0; i-- {
		zw.Create([]string{"metadata.xml/", "x", "../metadata.xml", "METADATA.XML", "metadata.xml\x00", ""}[r.Intn(6)])
	}
	zw.Close()
	return "zip-poor", w.Bytes()
}

func mangleTar(r *rand.Rand, s *PkgSpec) (string, []byte) {
	t := s.Tarball()
	switch r.Intn(9) {
	case 0:
		return "tar-cut", xzBytes(cutRand(r, t))
	case 1:
		return "tar-flip", xzBytes(flipRand(r, t, 1+r.Intn(8)))
	case 2:
		return "xz-cut", cutRand(r, xzBytes(t))
	case 3:
		return "xz-flip", flipRand(r, xzBytes(t), 1+r.Intn(4))
	case 4:
		x := make([]byte, r.Intn(2000))
		r.Read(x)
		return "xz-random", x
	case 5:
		return "xz-empty", nil
	case 6:
		return "tar-empty", xzBytes(nil)
	case 7: // one header field
		o := append([]byte{}, t...)
		p := 512 * r.Intn(len(o)/512)
		f := []struct{ off, n int }{{0, 100}, {100, 8}, {124, 12}, {148, 8}, {156, 1}, {157, 100}, {257, 8}}[r.Intn(7)]
		for k := 0; k < f.n; k++ {
			o[p+f.off+k] = []byte("7\x00xSLKg1\xff")[r.Intn(9)]
		}
		if r.Intn(2) == 0 { // with a sum that fits
			sum := 0
			for k := 0; k < 512; k++ {
				if k >= 148 && k < 156 {
					sum += 32
				} else {
					sum += int(o[p+k])
				}
			}
			copy(o[p+148:], fmt.Sprintf("%06o\x00 ", sum))
		}
		return "tar-header", xzBytes(o)
	}
	x := make([]byte, 512*(1+r.Intn(6)))
	r.Read(x)
	return "tar-random", xzBytes(x)
}

func zipOf(ents []zent) []byte {
	var b bytes.Buffer
	zw := zip.NewWriter(&b)
	for _, e := range ents {
		w, err := zw.CreateHeader(&zip.FileHeader{Name: e.name, Method: zip.Deflate})
		must(err)
		_, err = w.Write(e.data)
		must(err)
	}
	must(zw.Close())
	return b.Bytes()
}

func evilSpec(name string, rel int) *PkgSpec {
	s := &PkgSpec{Name: name, Source: name, Release: rel, Version: fmt.Sprintf("1.%d", rel)}
	s.Files = []FileSpec{{Path: "usr", Dir: true}, {Path: "usr/same-" + name, Content: "kept " + name}, {Path: "usr/rel-" + name, Content: fmt.Sprint("rel ", rel)},
		{Path: "usr/link-" + name, Link: "same-" + name}}
	s.norm()
	return s
}

// noDelta: the files or the content of a package are damaged so that it cannot
// be read in full.
func noDelta(kind string, data []byte) bool {
	switch kind {
	case "content:xz-cut", "content:xz-random":
		return true
	}
	if !strings.HasPrefix(kind, "files:") {
		return false
	}
	zr, err := zip.NewReader(bytes.NewReader(data), int64(len(data)))
	must(err)
	for _, f := range zr.File {
		if f.Name == "files.xml" {
			rd, err := f.Open()
			must(err)
			b, err := io.ReadAll(rd)
			must(err)
			return brokenXML(b)
		}
	}
	return false
}

// evilPackage builds a damaged variant of the package. refuse: it cannot be valid.
func evilPackage(r *rand.Rand, s *PkgSpec) (kind string, data []byte, refuse bool) {
	ents := []zent{{"metadata.xml", []byte(s.MetadataXML())}, {"files.xml", []byte(s.FilesXML())}, {"install.tar.xz", xzBytes(s.Tarball())}}
	switch r.Intn(10) {
	case 0, 1, 2, 3:
		k, x := mangleXML(r, ents[0].data)
		ents[0].data = x
		return "metadata:" + k, zipOf(ents), brokenXML(x)
	case 4:
		k, x := mangleXML(r, ents[1].data)
		ents[1].data = x
		return "files:" + k, zipOf(ents), false
	case 5:
		k, x := mangleTar(r, s)
		ents[2].data = x
		return "content:" + k, zipOf(ents), false
	case 6:
		k := r.Intn(3)
		n := ents[k].name
		ents = append(ents[:k], ents[k+1:]...)
		return "without:" + n, zipOf(ents), n == "metadata.xml"
	case 7:
		k := r.Intn(3)
		_, x := mangleXML(r, ents[0].data)
		ents = append(ents, zent{ents[k].name, x})
		r.Shuffle(len(ents), func(a, b int) { ents[a], ents[b] = ents[b], ents[a] })
		return "duplicate:" + ents[k].name, zipOf(ents), false
	}
	k, x := mangleZip(r, zipOf(ents))
	return k, x, k == "zip-zero" || k == "zip-random" || k == "zip-poor"
}

func mangleText(r *rand.Rand, s string) (string, string) {
	lines := strings.SplitAfter(s, "\n")
	switch r.Intn(10) {
	case 0:
		return "cut", string(cutRand(r, []byte(s)))
	case 1:
		return "flip", string(flipRand(r, []byte(s), 1+r.Intn(4)))
	case 2:
		return "splice", string(spliceRand(r, []byte(s)))
	case 3:
		k := r.Intn(len(lines))
		return "line-away", strings.Join(append(append([]string{}, lines[:k]...), lines[k+1:]...), "")
	case 4:
		k := r.Intn(len(lines))
		return "line-twice", strings.Join(append(append([]string{}, lines[:k+1]...), lines[k:]...), "")
	case 5: // a value
		k := r.Intn(len(lines))
		if i := strings.Index(lines[k], "="); i > 0 {
			v := []string{"", "5", "[]", "{}", "true", "[[\"a\"]]", "1979-05-27T07:32:00Z", "\"\"\"", "\"" + strings.Repeat("x", 5000) + "\"", "\"\\u0000\"", "\"\\uD800\"", "\"a\\qb\"", "'", "nan", "0x", "1__0", "[1, \"a\"]"}[r.Intn(17)]
			lines[k] = lines[k][:i+1] + " " + v + "\n"
		}
		return "value", strings.Join(lines, "")
	case 6:
		return "key", strings.Replace(s, []string{"manifest", "version", "target", "file", "path", "sha256"}[r.Intn(6)], []string{"", "x", "manifest.manifest", "\"\"", "[", "a.b.c.d"}[r.Intn(6)], 1)
	case 7:
		x := make([]byte, r.Intn(500))
		r.Read(x)
		return "random", string(x)
	case 8:
		return "deep", "a = " + strings.Repeat("[", []int{50, 5000, 200000}[r.Intn(3)]) + "\n" + s
	}
	return "tables", strings.Repeat("[[file]]\n", 1+r.Intn(3000)) + s
}

// ---------- the driver ----------

type malWorld struct {
	c    *Ctx
	h    *Hist
	w    *World
	r    *rand.Rand
	acc  map[string]accepted
	log  []string
	dead bool
	key  string
}

func runC18(c *Ctx) {
	cat := newCatalog(filepath.Join(c.Dir, "w", "cat"), stdSpecs(false))
	c.Each(c.N(150, 6000), 0, func(i int) { malformedWorld(c, cat, i) })
	c.Each(c.N(10, 200), 5, func(i int) { malformedDaemon(c, cat, i) })
}

func (m *malWorld) bad(key, f string, a ...interface{}) {
	m.dead = true
	if m.c.ID == "C25" && !strings.HasPrefix(key, "open:") {
		m.c.Count("histories_stopped_by_other_property", 1)
		return
	}
	m.c.Violate(key, fmt.Sprintf(f, a...), map[string]interface{}{"operations": m.log})
}

// do runs one operation; a panic or a hang is a violation.
func (m *malWorld) do(what string, f func() error) error {
	m.log = append(m.log, what)
	type res struct {
		err error
		pan string
	}
	ch := make(chan res, 1)
	go func() {
		var x res
		defer func() {
			if p := recover(); p != nil {
				if he, ok := p.(harnessErr); ok {
					x.err = he
				} else {
					x.pan = fmt.Sprintf("panic: %v\n%s", p, debug.Stack())
				}
			}
			ch <- x
		}()
		x.err = f()
	}()
	select {
	case x := <-ch:
		if x.pan != "" {
			m.bad("panic:"+panicSite(x.pan), "%s: %s", what, cut(x.pan, 3000))
		} else if he, ok := x.err.(harnessErr); ok {
			panic(he)
		}
		if x.err != nil {
			m.log[len(m.log)-1] += " => " + cut(x.err.Error(), 200)
		}
		if m.c.ID == "C25" {
			m.c.Eval(fmt.Sprint("malformed|", cut(what, 60), "|", x.err != nil))
			m.c.Count("operations_on_malformed_input", 1)
			if l := openBelow(filepath.Dir(m.w.Dir)); len(l) > 0 {
				m.bad("open:"+openKind(l[0]), "%s: %v: afterwards still open or mapped: %v", what, x.err, l)
			}
		}
		return x.err
	case <-time.After(40 * time.Second):
		buf := make([]byte, 1<<18)
		buf = buf[:runtime.Stack(buf, true)]
		i := strings.Index(string(buf), "getsolus/ferryd/src")
		if i < 0 {
			i = 0
		}
		m.bad("hang", "%s: does not end: %s", what, cut(string(buf[max(0, i-600):]), 4000))
		return fmt.Errorf("hang")
	}
}

// untouched compares everything but the given repository ("" means all).
func (m *malWorld) untouched(what string, ob, o *Obs, before, after map[string]FileObs, but string) {
	if but == "" {
		if d := stateDiff(ob, o); d != "" {
			m.bad("changed:"+m.key, "%s: refused, but %s", what, d)
			return
		}
	}
	for rid, a := range ob.Repos {
		b := o.Repos[rid]
		if rid == but {
			continue
		}
		if b == nil {
			m.bad("repo-lost", "%s: repository %s is gone", what, rid)
			return
		}
		if d := setDiff(idSet(b.IDs()), idSet(a.IDs())); d != "" {
			m.bad("foreign-list", "%s: repository %s: %s", what, rid, d)
			return
		}
	}
	rm, ad, ch := treeDiff(before, after, "")
	for k, l := range [][]string{rm, ad, ch} {
		for _, f := range l {
			if strings.HasPrefix(f, "incoming/") || but != "" && (strings.HasPrefix(f, "repo/"+but+"/") || strings.HasPrefix(f, "pool/")) {
				continue
			}
			m.bad("files:"+m.key, "%s: %s %s", what, []string{"removed", "created", "changed"}[k], f)
			return
		}
	}
}

// consistent judges the quiescent state.
func (m *malWorld) consistent(what string, o *Obs) {
	for _, x := range checkInvariants(o, invOpts{Orphans: true, Accepted: m.acc, SharedCopy: true}) {
		m.bad(x.Key+":"+m.key, "%s: %s", what, x.Msg)
		return
	}
}

// emptyTrash replaces the repository that takes what is accepted.
func (m *malWorld) emptyTrash() {
	if m.dead {
		return
	}
	setAssets(filepath.Join(m.w.Dir, "assets", "trash"), nil)
	if err := m.do("delete trash", func() error { return viaJob(m.w.M, jobs.NewDeleteRepoJob("trash")) }); err != nil {
		m.bad("stuck-repo:"+m.key, "the repository that took the input cannot be deleted: %v", err)
		return
	}
	if err := m.do("create trash", func() error { return viaJob(m.w.M, jobs.NewCreateRepoJob("trash")) }); err != nil {
		m.bad("stuck-repo:"+m.key, "the repository that took the input cannot be made anew: %v", err)
	}
	m.acc = m.w.cat.Accepted()
}

func (m *malWorld) stage(name string, data []byte) string {
	m.w.nst++
	d := filepath.Join(m.w.Stage, fmt.Sprint("m", m.w.nst))
	must(os.MkdirAll(d, 0755))
	p := filepath.Join(d, name)
	must(os.WriteFile(p, data, 0644))
	return p
}

func pkgBytes(s *PkgSpec) []byte {
	s.norm()
	return zipOf([]zent{{"metadata.xml", []byte(s.MetadataXML())}, {"files.xml", []byte(s.FilesXML())}, {"install.tar.xz", xzBytes(s.Tarball())}})
}

func malformedWorld(c *Ctx, cat *Catalog, i int) {
	r := c.Rng("malformed", i)
	h := newHist(c, cat, "C18")
	defer h.close()
	m := &malWorld{c: c, h: h, w: h.w, r: r, acc: cat.Accepted()}
	defer func() {
		for _, p := range []string{"incoming", "assets"} { // unreadable ones
			filepath.Walk(filepath.Join(h.w.Dir, p), func(p string, fi os.FileInfo, err error) error {
				if fi != nil && fi.IsDir() {
					os.Chmod(p, 0755)
				}
				return nil
			})
		}
	}()
	valid := func(s Step) {
		if m.dead {
			return
		}
		var err error
		s.Job = true
		m.do(s.String(), func() error { _, _, err = h.w.exec(s); return err })
		if m.dead {
			return
		}
		oc := h.m.apply(s)
		o := h.observe()
		for _, x := range h.m.compare(o, s, oc) {
			m.bad("later-work:"+x.Key, "valid work after malformed input: %s", x.Msg)
			return
		}
		if (err != nil) != oc.Fail && (s.Op == "import" || s.Op == "index" || s.Op == "create") {
			m.bad("later-work:outcome", "valid work after malformed input: %s: error %v, expected %v", s, err, oc.Fail)
			return
		}
		m.consistent(s.String(), o)
		c.Count("valid_operations_between", 1)
	}
	for _, rid := range []string{"un", "other", "trash"} {
		valid(st("create", rid))
	}
	p := Profile{Repos: []string{"un", "other"}, Weights: map[string]int{"import": 10, "pull": 4, "copysrc": 4, "rmsrc": 3, "trim": 2, "index": 3}}
	gens := func() Step {
		for {
			s := gen(r, h.m, p)
			if s.Repo != "trash" && s.Target != "trash" {
				return s
			}
		}
	}
	valid(Step{Op: "import", Repo: "un", Pkgs: cat.IDs[:6]})
	valid(st("index", "other"))
	for k := 0; k < 9 && !m.dead; k++ {
		switch r.Intn(9) {
		case 0, 1, 2, 3:
			m.packages(k)
		case 4, 5:
			m.manifests(k)
		case 6, 7:
			m.definitions(k)
		case 8:
			m.paths(k)
		}
		if r.Intn(3) == 0 {
			valid(gens())
		}
	}
	for k := 0; k < 2; k++ {
		valid(gens())
	}
	valid(st("index", "un"))
	if !m.dead {
		o := h.observe()
		for _, x := range checkIndex(o, h.w.Dir, "un") {
			m.bad("later-work:"+x.Key, "the index after malformed input: %s", x.Msg)
		}
	}
	if i < 2 {
		c.Sample(m.log)
	}
}

func transitText(repo string, files map[string][]byte, order []string) string {
	t := fmt.Sprintf("[manifest]\nversion = \"1.0\"\ntarget = \"%s\"\n", repo)
	for _, f := range order {
		t += fmt.Sprintf("\n[[file]]\npath = \"%s\"\nsha256 = \"%s\"\n", f, sha256hex(files[f]))
	}
	return t
}

// packages hands over damaged packages, alone, among good ones or uploaded,
// and works with the ones that were accepted.
func (m *malWorld) packages(k int) {
	r := m.r
	name := fmt.Sprintf("evil%d", k)
	old, nw := evilSpec(name, 1), evilSpec(name, 2)
	kind, data, refuse := evilPackage(r, nw)
	m.key = kind
	id := nw.ID()
	m.c.State(kind)
	how := r.Intn(3)
	before, ob := tree(m.w.Dir), m.h.observe()
	var err error
	what := ""
	switch how {
	case 0: // alone
		p := m.stage(id, data)
		what = fmt.Sprintf("import of a damaged package (%s)", kind)
		err = m.do(what, func() error { return viaJob(m.w.M, jobs.NewBulkAddJob("trash", []string{p})) })
	case 1: // uploaded
		inc := filepath.Join(m.w.Dir, "incoming")
		must(os.WriteFile(filepath.Join(inc, id), data, 0644))
		tr := filepath.Join(inc, fmt.Sprintf("evil%d.tram", k))
		must(os.WriteFile(tr, []byte(transitText("trash", map[string][]byte{id: data}, []string{id})), 0644))
		what = fmt.Sprintf("upload of a damaged package (%s)", kind)
		err = m.do(what, func() error { return viaJob(m.w.M, transitJob(tr)) })
		if err != nil && !m.dead {
			for _, f := range []string{id, fmt.Sprintf("evil%d.tram", k)} {
				if !fileExists(filepath.Join(inc, f)) {
					m.bad("upload-removed", "%s was refused, but %s was removed", what, f)
				}
			}
		}
		os.Remove(filepath.Join(inc, id))
		os.Remove(tr)
	case 2: // among good ones
		var ps []string
		fr := evilSpec("friend", 1)
		fb := pkgBytes(fr)
		m.acc[fr.ID()] = accepted{int64(len(fb)), sha1hex(fb)}
		ps = append(ps, m.stage(id, data), m.stage(fr.ID(), fb))
		if r.Intn(2) == 0 {
			ps[0], ps[1] = ps[1], ps[0]
		}
		what = fmt.Sprintf("import of a damaged package (%s) and a good one", kind)
		err = m.do(what, func() error { return viaJob(m.w.M, jobs.NewBulkAddJob("trash", ps)) })
	}
	if m.dead {
		return
	}
	m.c.Eval(fmt.Sprint("pkg|", how, "|", kind, "|", sha1hex(data)))
	after, o := tree(m.w.Dir), m.h.observe()
	if err != nil {
		m.c.Count("packages_refused", 1)
		if err.Error() == "" {
			m.bad("no-reason", "%s: refused without a reason", what)
		}
		but := ""
		if how == 2 {
			but = "trash"
			for _, x := range o.Repos["trash"].IDs() {
				if !strings.HasPrefix(x, "friend-") {
					m.bad("refused-listed:"+kind, "%s: refused, but %s is listed", what, x)
				}
			}
		}
		m.untouched(what, ob, o, before, after, but)
		m.consistent(what, o)
		if how == 2 {
			m.emptyTrash()
		}
		return
	}
	m.c.Count("packages_accepted", 1)
	if refuse {
		m.bad("accepted:"+kind, "%s: accepted", what)
		return
	}
	for _, x := range o.Repos["trash"].IDs() {
		if !strings.HasPrefix(x, "friend-") {
			m.acc[x] = accepted{int64(len(data)), sha1hex(data)}
		}
	}
	m.untouched(what, ob, o, before, after, "trash")
	m.consistent(what, o)
	// now work with it
	if m.dead {
		return
	}
	fr, f2 := evilSpec("friend", 1), evilSpec("friend", 2)
	var ps []string
	for _, s := range []*PkgSpec{old, fr, f2} {
		b := pkgBytes(s)
		if how == 2 && s == fr {
			continue
		}
		m.acc[s.ID()] = accepted{int64(len(b)), sha1hex(b)}
		ps = append(ps, m.stage(s.ID(), b))
	}
	if err := m.do("import of good packages beside it", func() error { return viaJob(m.w.M, jobs.NewBulkAddJob("trash", ps)) }); err != nil {
		m.bad("later-work:import", "after a damaged package (%s) was accepted, good ones are not: %v", kind, err)
		return
	}
	derr := m.do("deltas", func() error { return m.w.deltaRepo("trash") })
	if m.dead {
		return
	}
	if derr == nil {
		m.c.Count("delta_jobs_on_damaged_done", 1)
	} else {
		m.c.Count("delta_jobs_on_damaged_refused", 1)
		if derr.Error() == "" {
			m.bad("no-reason", "a delta job failed without a reason")
		}
	}
	o = m.h.observe()
	if d := deltaName(fr, f2); !o.Repos["trash"].Deltas[d] {
		m.bad("later-work:delta", "the delta of a good package is missing beside a damaged one (%s): %v", kind, derr)
		return
	}
	if noDelta(kind, data) {
		m.c.Count("unreadable_content_offered_to_deltas", 1)
		if d := deltaName(old, nw); o.Repos["trash"].Deltas[d] {
			m.bad("delta-of-damaged:"+kind, "a delta was made although the new package cannot be read in full (%s)", kind)
			return
		}
	}
	for f := range tree(filepath.Join(m.w.Dir, "deltaBuilds")) {
		m.bad("delta-leftover:"+kind, "the delta jobs left deltaBuilds/%s", f)
		return
	}
	m.consistent("after the deltas", o)
	if err := m.do("index", func() error { return viaJob(m.w.M, jobs.NewIndexRepoJob("trash")) }); err != nil {
		m.bad("later-work:index", "after a damaged package (%s) was accepted, indexing fails: %v", kind, err)
		return
	}
	o = m.h.observe()
	for _, x := range checkIndex(o, m.w.Dir, "trash") {
		m.bad("index:"+x.Key+":"+kind, "after a damaged package (%s) was accepted: %s", kind, x.Msg)
		return
	}
	m.untouched("working with an accepted package", ob, o, before, tree(m.w.Dir), "trash")
	m.emptyTrash()
	if !m.dead {
		m.consistent("after the deletion", m.h.observe())
	}
}

// manifests damages the manifest of an upload that is fine otherwise.
func (m *malWorld) manifests(k int) {
	r := m.r
	inc := filepath.Join(m.w.Dir, "incoming")
	files := map[string][]byte{}
	var order []string
	for n := 1 + r.Intn(3); n > 0; n-- {
		s := evilSpec(fmt.Sprintf("up%d-%d", k, n), 1+r.Intn(3))
		b := pkgBytes(s)
		files[s.ID()] = b
		order = append(order, s.ID())
		m.acc[s.ID()] = accepted{int64(len(b)), sha1hex(b)}
		must(os.WriteFile(filepath.Join(inc, s.ID()), b, 0644))
	}
	kind, text := mangleText(r, transitText("trash", files, order))
	rule := ""
	if r.Intn(3) == 0 { // readable, but not what a manifest has to be
		text = transitText("trash", files, order)
		f := order[r.Intn(len(order))]
		sub := func(a, b string) { text = strings.Replace(text, a, b, 1) }
		switch r.Intn(9) {
		case 0:
			rule = "version"
			sub(`version = "1.0"`, []string{`version = "2.0"`, `version = "1"`, `version = ""`, ``, `version = "1.0.0"`, `version = "11.0"`}[r.Intn(6)])
		case 1:
			rule = "no-target"
			sub(`target = "trash"`, []string{``, `target = ""`, `target = "  "`}[r.Intn(3)])
		case 2:
			rule = "no-files"
			text = transitText("trash", nil, nil)
		case 3:
			rule = "no-sum"
			sub(`sha256 = "`+sha256hex(files[f])+`"`, []string{``, `sha256 = ""`, `sha256 = " "`}[r.Intn(3)])
		case 4:
			rule = "no-path"
			sub(`path = "`+f+`"`, []string{``, `path = ""`, `path = " "`}[r.Intn(3)])
		case 5:
			rule = "wrong-sum"
			h := sha256hex(files[f])
			sub(h, []string{h[:63], h[1:], h + "0", strings.ToUpper(h) + "x", sha256hex(nil), h[:32]}[r.Intn(6)])
		case 6:
			rule = "suffix"
			x := strings.TrimSuffix(f, ".eopkg") + []string{"", ".txt", ".eopkg.part", ".EOPKG", ".eopk", ".eopkg~"}[r.Intn(6)]
			must(os.WriteFile(filepath.Join(inc, x), files[f], 0644))
			sub(`path = "`+f+`"`, `path = "`+x+`"`)
		case 7:
			rule = "elsewhere"
			must(os.MkdirAll(filepath.Join(inc, "sub"), 0755))
			must(os.WriteFile(filepath.Join(inc, "sub", f), files[f], 0644))
			sub(`path = "`+f+`"`, `path = "sub/`+f+`"`)
		case 8:
			rule = "no-repo"
			sub(`target = "trash"`, `target = "nosuch"`)
		}
		kind = "rule-" + rule
	}
	m.key = "manifest-" + kind
	tr := filepath.Join(inc, fmt.Sprintf("m%d.tram", k))
	must(os.WriteFile(tr, []byte(text), 0644))
	before, ob := tree(m.w.Dir), m.h.observe()
	what := fmt.Sprintf("upload with a damaged manifest (%s)", kind)
	err := m.do(what, func() error { return viaJob(m.w.M, transitJob(tr)) })
	if m.dead {
		return
	}
	m.c.State(m.key)
	m.c.Eval("manifest|" + kind + "|" + sha1hex([]byte(text)))
	after, o := tree(m.w.Dir), m.h.observe()
	if err != nil {
		m.c.Count("manifests_refused", 1)
		if err.Error() == "" {
			m.bad("no-reason", "%s: refused without a reason", what)
		}
		m.untouched(what, ob, o, before, after, "")
		for f := range before {
			if _, ok := after[f]; !ok && strings.HasPrefix(f, "incoming/") {
				m.bad("upload-removed", "%s was refused, but %s was removed", what, f)
			}
		}
	} else {
		m.c.Count("manifests_accepted", 1)
		if rule != "" {
			m.bad("accepted:"+m.key, "%s: accepted: %q", what, cut(text, 300))
			return
		}
		m.untouched(what, ob, o, before, after, "trash")
	}
	m.consistent(what, o)
	filepath.Walk(inc, func(p string, fi os.FileInfo, err error) error {
		if fi != nil && !fi.IsDir() {
			os.Remove(p)
		}
		return nil
	})
	if err == nil {
		m.emptyTrash()
	}
}

// definitions damages one definition file of a repository that has an index.
func (m *malWorld) definitions(k int) {
	r := m.r
	rid := []string{"un", "trash"}[r.Intn(2)]
	adir := filepath.Join(m.w.Dir, "assets", rid)
	setAssets(adir, assetVariants[1+r.Intn(len(assetVariants)-1)])
	if rid == "trash" { // something to publish
		s := evilSpec("asset", 1)
		b := pkgBytes(s)
		m.acc[s.ID()] = accepted{int64(len(b)), sha1hex(b)}
		p := m.stage(s.ID(), b)
		if err := m.do("import", func() error { return viaJob(m.w.M, jobs.NewBulkAddJob("trash", []string{p})) }); err != nil {
			m.bad("later-work:import", "a good package is refused: %v", err)
			return
		}
	}
	if err := m.do("index", func() error { return viaJob(m.w.M, jobs.NewIndexRepoJob(rid)) }); err != nil {
		m.bad("later-work:index", "indexing with good definitions fails: %v", err)
		return
	}
	f := []string{"distribution.xml", "components.xml", "groups.xml"}[r.Intn(3)]
	fp := filepath.Join(adir, f)
	src, err := os.ReadFile(fp)
	if err != nil {
		src = []byte(assetVariants[1][f])
		if len(src) == 0 {
			src = []byte("<PISI></PISI>")
		}
	}
	kind := ""
	must(os.RemoveAll(fp))
	switch r.Intn(12) {
	case 0:
		kind = "directory"
		must(os.Mkdir(fp, 0755))
	case 1:
		kind = "unreadable"
		must(os.WriteFile(fp, src, 0))
	case 2:
		kind = "loop"
		must(os.Symlink(f, fp))
	case 3:
		kind = "pipe"
		must(syscall.Mkfifo(fp, 0644))
	default:
		var x []byte
		kind, x = mangleXML(r, src)
		must(os.WriteFile(fp, x, 0644))
	}
	m.key = f + ":" + kind
	m.c.State(m.key)
	before, ob := tree(m.w.Dir), m.h.observe()
	var acts []string
	for _, a := range []string{"index", "trimobs"} {
		if a == "trimobs" && (f != "distribution.xml" || r.Intn(2) == 0) {
			continue
		}
		what := fmt.Sprintf("%s with a damaged %s (%s)", a, f, kind)
		acts = append(acts, a)
		job := jobs.NewIndexRepoJob(rid)
		if a == "trimobs" {
			job = jobs.NewTrimObsoleteJob(rid)
		}
		err := m.do(what, func() error { return viaJob(m.w.M, job) })
		if m.dead {
			return
		}
		after, o := tree(m.w.Dir), m.h.observe()
		if err != nil {
			m.c.Count("definitions_refused", 1)
			if err.Error() == "" {
				m.bad("no-reason", "%s: refused without a reason", what)
			}
			m.untouched(what, ob, o, before, after, "")
		} else {
			m.c.Count("definitions_accepted", 1)
			if x, rerr := readReg(fp); kind != "loop" && (rerr != nil || brokenXML(x)) { // a link to nowhere is no file
				m.bad("accepted:definition", "%s: accepted, although it cannot be read", what)
				return
			}
			m.untouched(what, ob, o, before, after, rid)
			if b, err := os.ReadFile(filepath.Join(m.w.Dir, "repo", rid, "eopkg-index.xml")); err != nil {
				m.bad("index-missing:"+m.key, "%s: %v", what, err)
			} else if _, err := parseXML(b); err != nil {
				m.bad("index-malformed:"+m.key, "%s: the index is not well-formed: %v", what, err)
			}
			if a == "trimobs" {
				gone := setDiff(idSet(o.Repos[rid].IDs()), idSet(ob.Repos[rid].IDs()))
				m.h.m.Repos[rid].Fresh = false
				if gone != "" && rid == "un" {
					// whatever it took for obsolete: taken over into the model
					have := idSet(o.Repos[rid].IDs())
					for id := range m.h.m.Repos[rid].Pk {
						if !have[id] {
							m.h.m.remove(m.h.m.Repos[rid], id)
						}
					}
				}
			}
		}
		m.consistent(what, o)
		// the others can still be indexed
		if err := m.do("index other", func() error { return viaJob(m.w.M, jobs.NewIndexRepoJob("other")) }); err != nil {
			m.bad("later-work:index", "%s keeps another repository from being indexed: %v", what, err)
			return
		}
		before, ob = tree(m.w.Dir), m.h.observe()
	}
	m.c.Eval(fmt.Sprint("defs|", f, "|", kind, "|", acts))
	os.RemoveAll(fp)
	setAssets(adir, assetVariants[0])
	if rid == "trash" {
		m.emptyTrash()
		return
	}
	// and the cause removed, this one too
	m.h.m.apply(Step{Op: "assets", Repo: rid, N: 0})
	if err := m.do("index again", func() error { return viaJob(m.w.M, jobs.NewIndexRepoJob(rid)) }); err != nil {
		m.bad("later-work:index", "indexing fails after the damaged %s (%s) was replaced: %v", f, kind, err)
		return
	}
	m.h.m.apply(st("index", rid))
	for _, x := range checkIndex(m.h.observe(), m.w.Dir, rid) {
		m.bad("later-work:"+x.Key, "the index after a damaged %s (%s) was replaced: %s", f, kind, x.Msg)
		return
	}
}

// paths names things that are no packages at all.
func (m *malWorld) paths(k int) {
	r := m.r
	own := filepath.Join(m.w.Stage, fmt.Sprint("p", k))
	d := own
	must(os.MkdirAll(d, 0755))
	defer func() {
		filepath.Walk(own, func(p string, fi os.FileInfo, err error) error { os.Chmod(p, 0755); return nil })
		os.RemoveAll(own)
	}()
	inc := filepath.Join(m.w.Dir, "incoming")
	upload := r.Intn(2) == 0
	if upload {
		d = inc
	}
	name := fmt.Sprintf("path%d-1-1-1-x86_64.eopkg", k)
	p := filepath.Join(d, name)
	kinds := []string{"nothing", "directory", "pipe", "loop", "dangling", "null", "zero", "unreadable", "in-closed-dir", "long", "tty"}
	if !upload {
		kinds = append(kinds, "empty-name", "nul", "relative", "very-long")
	}
	kind := kinds[r.Intn(len(kinds))]
	switch kind {
	case "directory":
		must(os.Mkdir(p, 0755))
	case "pipe":
		must(syscall.Mkfifo(p, 0644))
	case "loop":
		must(os.Symlink(name, p))
	case "dangling":
		must(os.Symlink("nowhere", p))
	case "null", "zero", "tty":
		must(os.Symlink("/dev/"+kind, p))
	case "unreadable":
		must(os.WriteFile(p, pkgBytes(evilSpec("path", 1)), 0))
	case "in-closed-dir":
		if upload {
			kind = "nothing"
			break
		}
		must(os.Mkdir(filepath.Join(d, "closed"), 0755))
		p = filepath.Join(d, "closed", name)
		must(os.WriteFile(p, pkgBytes(evilSpec("path", 1)), 0644))
		must(os.Chmod(filepath.Join(d, "closed"), 0))
	case "long":
		name = strings.Repeat("n", 300) + ".eopkg"
		p = filepath.Join(d, name)
	case "very-long":
		p = filepath.Join(d, strings.Repeat("n/", 3000)+".eopkg")
	case "empty-name":
		p = ""
	case "nul":
		p += "\x00"
	case "relative":
		p = "no/such.eopkg"
	}
	m.key = "path:" + kind
	what := fmt.Sprintf("a path naming %s instead of a package (upload: %v)", kind, upload)
	m.c.State(m.key)
	ob := m.h.observe()
	dirs := []string{"repo", "pool", "assets"}
	snap := func() map[string]FileObs {
		x := map[string]FileObs{}
		for _, d := range dirs {
			for f, o := range tree(filepath.Join(m.w.Dir, d)) {
				x[d+"/"+f] = o
			}
		}
		return x
	}
	before := snap()
	var err error
	if upload {
		tr := filepath.Join(inc, fmt.Sprintf("p%d.tram", k))
		must(os.WriteFile(tr, []byte(transitText("trash", map[string][]byte{name: []byte("x")}, []string{name})), 0644))
		if r.Intn(3) == 0 { // or the manifest itself is no file
			must(os.Remove(tr))
			switch kind {
			case "directory":
				must(os.Mkdir(tr, 0755))
			case "pipe":
				must(syscall.Mkfifo(tr, 0644))
			case "null", "zero", "tty":
				must(os.Symlink("/dev/"+kind, tr))
			case "unreadable":
				must(os.WriteFile(tr, []byte("[manifest]"), 0))
			case "loop":
				must(os.Symlink(filepath.Base(tr), tr))
			}
			what += ", the manifest too"
		}
		err = m.do(what, func() error { return viaJob(m.w.M, transitJob(tr)) })
		os.RemoveAll(tr)
	} else {
		err = m.do(what, func() error { return viaJob(m.w.M, jobs.NewBulkAddJob("trash", []string{p})) })
	}
	if m.dead {
		return
	}
	if upload {
		os.RemoveAll(p)
	}
	if err == nil {
		m.bad("accepted:"+m.key, "%s: accepted", what)
		return
	}
	m.c.Count("paths_refused", 1)
	m.c.Eval(fmt.Sprint("path|", kind, "|", upload, "|", k))
	m.untouched(what, ob, m.h.observe(), before, snap(), "")
}
