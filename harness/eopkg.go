package main

import (
	"archive/tar"
	"archive/zip"
	"bytes"
	"crypto/sha1"
	"encoding/hex"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
)

// Synthetic .eopkg packages, written without any code of ferryd.

type Loc struct{ Lang, Text string }

type FileSpec struct {
	Path    string // relative, no leading slash
	Content string
	Dir     bool
	Link    string // symlink target
	Type    string
}

type DepSpec struct {
	Name string
	Attr string // "", releaseFrom, release, versionFrom, ...
	Val  string
}

type UpdSpec struct {
	Release             int
	Type, Date, Version string
	Comment, Name, Mail string
	Requires            []string
}

type PkgSpec struct {
	Name, Version, Source string
	Release               int
	Arch, DistRel, Dist   string
	Homepage              string
	PackagerName, Mail    string
	Summary, Description  []Loc
	PartOf, IsA           string
	License               []string
	Deps                  []DepSpec
	Conflicts, Replaces   []string
	PkgConfig             []string
	History               []UpdSpec // older entries after the current one
	Files                 []FileSpec
	Salt                  string // makes otherwise equal packages differ
	NoTar                 bool   // small constant tarball (content irrelevant)
	Extra                 string // verbatim extra elements inside <Package>
	Scripts               map[string]string
	BuildHost             string
}

func (p *PkgSpec) norm() {
	if p.Arch == "" {
		p.Arch = "x86_64"
	}
	if p.DistRel == "" {
		p.DistRel = "1"
	}
	if p.Dist == "" {
		p.Dist = "Solus"
	}
	if p.Version == "" {
		p.Version = fmt.Sprintf("1.%d", p.Release)
	}
	if p.Source == "" {
		p.Source = p.Name
	}
	if p.PackagerName == "" {
		p.PackagerName = "Builder One"
	}
	if p.Mail == "" {
		p.Mail = "builder@example.com"
	}
	if p.Summary == nil {
		p.Summary = []Loc{{"en", "Summary of " + p.Name}}
	}
	if p.Description == nil {
		p.Description = []Loc{{"en", "Description of " + p.Name + " release"}}
	}
	if p.PartOf == "" {
		p.PartOf = "system.base"
	}
	if p.License == nil {
		p.License = []string{"GPL-2.0"}
	}
	if p.BuildHost == "" {
		p.BuildHost = "build-host-1"
	}
}

func (p *PkgSpec) ID() string {
	v, a, d := p.Version, p.Arch, p.DistRel
	if v == "" {
		v = fmt.Sprintf("1.%d", p.Release)
	}
	if a == "" {
		a = "x86_64"
	}
	if d == "" {
		d = "1"
	}
	return fmt.Sprintf("%s-%s-%d-%s-%s.eopkg", p.Name, v, p.Release, d, a)
}

func xesc(s string) string {
	var b strings.Builder
	for _, r := range s {
		switch r {
		case '<':
			b.WriteString("&lt;")
		case '>':
			b.WriteString("&gt;")
		case '&':
			b.WriteString("&amp;")
		case '"':
			b.WriteString("&quot;")
		case '\r', '\n', '\t':
			fmt.Fprintf(&b, "&#%d;", r)
		default:
			b.WriteRune(r)
		}
	}
	return b.String()
}

func locs(b *strings.Builder, tag string, l []Loc) {
	for _, e := range l {
		if e.Lang == "" {
			fmt.Fprintf(b, "<%s>%s</%s>", tag, xesc(e.Text), tag)
		} else {
			fmt.Fprintf(b, "<%s xml:lang=\"%s\">%s</%s>", tag, xesc(e.Lang), xesc(e.Text), tag)
		}
	}
}

func (p *PkgSpec) MetadataXML() string {
	p.norm()
	b := &strings.Builder{}
	b.WriteString("<?xml version=\"1.0\" encoding=\"utf-8\"?>\n<PISI>")
	src := func() {
		fmt.Fprintf(b, "<Source><Name>%s</Name>", xesc(p.Source))
		if p.Homepage != "" {
			fmt.Fprintf(b, "<Homepage>%s</Homepage>", xesc(p.Homepage))
		}
		fmt.Fprintf(b, "<Packager><Name>%s</Name><Email>%s</Email></Packager></Source>", xesc(p.PackagerName), xesc(p.Mail))
	}
	src()
	b.WriteString("<Package>")
	fmt.Fprintf(b, "<Name>%s</Name>", xesc(p.Name))
	locs(b, "Summary", p.Summary)
	locs(b, "Description", p.Description)
	if p.IsA != "" {
		fmt.Fprintf(b, "<IsA>%s</IsA>", xesc(p.IsA))
	}
	fmt.Fprintf(b, "<PartOf>%s</PartOf>", xesc(p.PartOf))
	for _, l := range p.License {
		fmt.Fprintf(b, "<License>%s</License>", xesc(l))
	}
	if len(p.Deps) > 0 {
		b.WriteString("<RuntimeDependencies>")
		for _, d := range p.Deps {
			if d.Attr == "" {
				fmt.Fprintf(b, "<Dependency>%s</Dependency>", xesc(d.Name))
			} else {
				fmt.Fprintf(b, "<Dependency %s=\"%s\">%s</Dependency>", d.Attr, xesc(d.Val), xesc(d.Name))
			}
		}
		b.WriteString("</RuntimeDependencies>")
	}
	lst := func(outer string, l []string) {
		if len(l) == 0 {
			return
		}
		fmt.Fprintf(b, "<%s>", outer)
		for _, s := range l {
			fmt.Fprintf(b, "<Package>%s</Package>", xesc(s))
		}
		fmt.Fprintf(b, "</%s>", outer)
	}
	lst("Conflicts", p.Conflicts)
	lst("Replaces", p.Replaces)
	if len(p.PkgConfig) > 0 {
		b.WriteString("<Provides>")
		for _, s := range p.PkgConfig {
			fmt.Fprintf(b, "<PkgConfig>%s</PkgConfig>", xesc(s))
		}
		b.WriteString("</Provides>")
	}
	b.WriteString("<History>")
	upd := func(u UpdSpec) {
		fmt.Fprintf(b, "<Update release=\"%d\"", u.Release)
		if u.Type != "" {
			fmt.Fprintf(b, " type=\"%s\"", xesc(u.Type))
		}
		fmt.Fprintf(b, "><Date>%s</Date><Version>%s</Version><Comment>%s</Comment><Name>%s</Name><Email>%s</Email>",
			xesc(u.Date), xesc(u.Version), xesc(u.Comment), xesc(u.Name), xesc(u.Mail))
		if len(u.Requires) > 0 {
			b.WriteString("<Requires>")
			for _, r := range u.Requires {
				fmt.Fprintf(b, "<Action>%s</Action>", xesc(r))
			}
			b.WriteString("</Requires>")
		}
		b.WriteString("</Update>")
	}
	upd(UpdSpec{Release: p.Release, Date: "2024-01-02", Version: p.Version, Comment: "Update to " + p.Version, Name: p.PackagerName, Mail: p.Mail})
	for _, u := range p.History {
		upd(u)
	}
	b.WriteString("</History>")
	fmt.Fprintf(b, "<BuildHost>%s</BuildHost><Distribution>%s</Distribution><DistributionRelease>%s</DistributionRelease><Architecture>%s</Architecture>", xesc(p.BuildHost), xesc(p.Dist), xesc(p.DistRel), xesc(p.Arch))
	fmt.Fprintf(b, "<InstalledSize>%d</InstalledSize><PackageFormat>1.2</PackageFormat>", 1000+p.Release)
	b.WriteString(p.Extra)
	src()
	b.WriteString("</Package></PISI>\n")
	return b.String()
}

func sha1hex(b []byte) string { h := sha1.Sum(b); return hex.EncodeToString(h[:]) }

func (p *PkgSpec) FilesXML() string {
	b := &strings.Builder{}
	b.WriteString("<Files>\n")
	for _, f := range p.Files {
		typ := f.Type
		if typ == "" {
			typ = "data"
		}
		switch {
		case f.Dir:
			fmt.Fprintf(b, "<File><Path>%s</Path><Type>%s</Type><Uid>0</Uid><Gid>0</Gid><Mode>0755</Mode></File>\n", xesc(f.Path), typ)
		case f.Link != "":
			fmt.Fprintf(b, "<File><Path>%s</Path><Type>%s</Type><Size>%d</Size><Uid>0</Uid><Gid>0</Gid><Mode>0777</Mode><Hash>%s</Hash></File>\n", xesc(f.Path), typ, len(f.Link), sha1hex([]byte("link:"+f.Link)))
		default:
			fmt.Fprintf(b, "<File><Path>%s</Path><Type>%s</Type><Size>%d</Size><Uid>0</Uid><Gid>0</Gid><Mode>0644</Mode><Hash>%s</Hash></File>\n", xesc(f.Path), typ, len(f.Content), sha1hex([]byte(f.Content)))
		}
	}
	b.WriteString("</Files>\n")
	return b.String()
}

func (p *PkgSpec) Tarball() []byte {
	var tb bytes.Buffer
	tw := tar.NewWriter(&tb)
	for _, f := range p.Files {
		h := &tar.Header{Name: f.Path, Uid: 0, Gid: 0}
		switch {
		case f.Dir:
			h.Typeflag, h.Mode = tar.TypeDir, 0755
			h.Name = strings.TrimSuffix(f.Path, "/") + "/"
		case f.Link != "":
			h.Typeflag, h.Mode, h.Linkname = tar.TypeSymlink, 0777, f.Link
		default:
			h.Typeflag, h.Mode, h.Size = tar.TypeReg, 0644, int64(len(f.Content))
		}
		must(tw.WriteHeader(h))
		if h.Typeflag == tar.TypeReg {
			_, err := tw.Write([]byte(f.Content))
			must(err)
		}
	}
	must(tw.Close())
	return tb.Bytes()
}

var xzCache sync.Map

// xzBytes compresses with the xz tool (cached by content).
func xzBytes(in []byte) []byte {
	k := sha1hex(in)
	if v, ok := xzCache.Load(k); ok {
		return v.([]byte)
	}
	c := exec.Command("xz", "-0", "-c")
	c.Stdin = bytes.NewReader(in)
	out, err := c.Output()
	must(err)
	xzCache.Store(k, out)
	return out
}

func unxzBytes(in []byte) ([]byte, error) {
	c := exec.Command("xz", "-d", "-c")
	c.Stdin = bytes.NewReader(in)
	return c.Output()
}

func unzstdBytes(in []byte) ([]byte, error) {
	c := exec.Command("zstd", "-d", "-c", "-q")
	c.Stdin = bytes.NewReader(in)
	return c.Output()
}

type zent struct {
	name string
	data []byte
}

func writeZip(path string, ents []zent) {
	var b bytes.Buffer
	zw := zip.NewWriter(&b)
	for _, e := range ents {
		w, err := zw.CreateHeader(&zip.FileHeader{Name: e.name, Method: zip.Deflate})
		must(err)
		_, err = w.Write(e.data)
		must(err)
	}
	must(zw.Close())
	must(os.WriteFile(path, b.Bytes(), 0644))
}

// Write builds the package into dir and returns its path.
func (p *PkgSpec) Write(dir string) string { return p.WriteAs(dir, p.ID()) }

func (p *PkgSpec) WriteAs(dir, name string) string {
	p.norm()
	ents := []zent{{"metadata.xml", []byte(p.MetadataXML())}, {"files.xml", []byte(p.FilesXML())}}
	var sk []string
	for k := range p.Scripts {
		sk = append(sk, k)
	}
	sort.Strings(sk)
	for _, k := range sk {
		ents = append(ents, zent{"comar/" + k, []byte(p.Scripts[k])})
	}
	if p.NoTar {
		ents = append(ents, zent{"install.tar.xz", []byte("no tarball " + p.Salt)})
	} else {
		ents = append(ents, zent{"install.tar.xz", xzBytes(p.Tarball())})
	}
	path := filepath.Join(dir, name)
	writeZip(path, ents)
	return path
}

func must(err error) {
	if err != nil {
		panic(harnessErr{err})
	}
}

type harnessErr struct{ error }
