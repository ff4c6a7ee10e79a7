package main

import (
	"archive/tar"
	"archive/zip"
	"bytes"
	"fmt"
	"io"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"github.com/getsolus/ferryd/src/ferryd/core"
	"github.com/getsolus/ferryd/src/ferryd/jobs"
	"github.com/getsolus/ferryd/src/libeopkg"
)

// C10: every delta that is produced is taken apart with independent readers
// and applied to the old package; refusals and left-overs are judged too.

func init() {
	register(&Check{ID: "C10", Level: "exploration",
		Rule:   "an execution is one pair of generated packages handed to delta production (directly, or through import and the delta job); distinct by the SHA-1 of the two file lists and the outcome",
		Assume: []string{"a package's files.xml describes its tarball (as every package built by the distribution's tools does)", "applying a delta means reusing any old file with the wanted content hash, as eopkg does"},
		Run:    runC10})
}

type tarEnt struct {
	Hdr  tar.Header
	Data []byte
}

func readTarXz(b []byte) ([]tarEnt, error) {
	u, err := unxzBytes(b)
	if err != nil {
		return nil, fmt.Errorf("xz: %v", err)
	}
	tr := tar.NewReader(bytes.NewReader(u))
	var l []tarEnt
	for {
		h, err := tr.Next()
		if err == io.EOF {
			return l, nil
		}
		if err != nil {
			return nil, err
		}
		d, err := io.ReadAll(tr)
		if err != nil {
			return nil, err
		}
		l = append(l, tarEnt{*h, d})
	}
}

func readZip(path string) (map[string][]byte, []string, error) {
	z, err := zip.OpenReader(path)
	if err != nil {
		return nil, nil, err
	}
	defer z.Close()
	m := map[string][]byte{}
	var names []string
	for _, f := range z.File {
		r, err := f.Open()
		if err != nil {
			return nil, nil, err
		}
		b, err := io.ReadAll(r)
		r.Close()
		if err != nil {
			return nil, nil, err
		}
		if _, dup := m[f.Name]; dup {
			return nil, nil, fmt.Errorf("%s twice", f.Name)
		}
		m[f.Name] = b
		names = append(names, f.Name)
	}
	sort.Strings(names)
	return m, names, nil
}

// dfile is a file of a generated package, richer than FileSpec.
type dfile struct {
	Path, Content, Link, Hard string
	Dir                       bool
	Slash                     bool // files.xml path has a trailing slash
	Mode                      int64
	Uid                       int
}

func (f *dfile) hash() string {
	switch {
	case f.Dir:
		return ""
	case f.Link != "":
		return sha1hex([]byte(f.Link))
	}
	return sha1hex([]byte(f.Content))
}

type dpkg struct {
	PkgSpec
	F     []*dfile
	Extra map[string]string // further zip members
	Order []int             // tar order
	Bare  int               // extra tar entries not in files.xml
}

func (p *dpkg) write(dir string) string {
	p.norm()
	fx := &strings.Builder{}
	fx.WriteString("<Files>\n")
	for _, f := range p.F {
		path := f.Path
		if f.Slash {
			path += "/"
		}
		fmt.Fprintf(fx, "<File><Path>%s</Path><Type>data</Type>", xesc(path))
		if !f.Dir {
			fmt.Fprintf(fx, "<Size>%d</Size>", len(f.Content))
		}
		fmt.Fprintf(fx, "<Uid>%d</Uid><Gid>0</Gid><Mode>0%o</Mode>", f.Uid, f.Mode)
		if !f.Dir {
			fmt.Fprintf(fx, "<Hash>%s</Hash>", f.hash())
		}
		fx.WriteString("</File>\n")
	}
	fx.WriteString("</Files>\n")
	var tb bytes.Buffer
	tw := tar.NewWriter(&tb)
	for i := 0; i < p.Bare; i++ {
		must(tw.WriteHeader(&tar.Header{Name: fmt.Sprintf("parent%d/", i), Typeflag: tar.TypeDir, Mode: 0755}))
	}
	for _, i := range p.Order {
		f := p.F[i]
		h := &tar.Header{Name: f.Path, Mode: f.Mode, Uid: f.Uid, ModTime: time.Unix(1700000000+int64(i), 0), Uname: "root", Gname: "root"}
		switch {
		case f.Dir:
			h.Typeflag, h.Name = tar.TypeDir, f.Path+"/"
		case f.Link != "":
			h.Typeflag, h.Linkname = tar.TypeSymlink, f.Link
		case f.Hard != "":
			h.Typeflag, h.Linkname = tar.TypeLink, f.Hard
		default:
			h.Typeflag, h.Size = tar.TypeReg, int64(len(f.Content))
		}
		must(tw.WriteHeader(h))
		if h.Typeflag == tar.TypeReg {
			_, err := tw.Write([]byte(f.Content))
			must(err)
		}
	}
	must(tw.Close())
	ents := []zent{{"metadata.xml", []byte(p.MetadataXML())}, {"files.xml", []byte(fx.String())}}
	var ks []string
	for k := range p.Extra {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		ents = append(ents, zent{k, []byte(p.Extra[k])})
	}
	ents = append(ents, zent{"install.tar.xz", xzBytes(tb.Bytes())})
	path := filepath.Join(dir, p.ID())
	writeZip(path, ents)
	return path
}

func (p *dpkg) listKey() string {
	var s []string
	for _, f := range p.F {
		s = append(s, f.Path+"|"+f.hash())
	}
	return strings.Join(s, "\n")
}

// genPair makes an old and a new package.
func genPair(r *rand.Rand) (*dpkg, *dpkg) {
	contents := []string{"", "a", "same", strings.Repeat("long line\n", 2000)}
	for i := 0; i < 6; i++ {
		b := make([]byte, r.Intn(3000))
		r.Read(b)
		contents = append(contents, string(b))
	}
	mk := func(rel, n int, share int) *dpkg {
		p := &dpkg{PkgSpec: PkgSpec{Name: "pk", Release: rel, Version: fmt.Sprintf("%d.%d", r.Intn(5), r.Intn(5)), Source: "pk"}, Extra: map[string]string{}}
		used := map[string]bool{}
		for i := 0; i < n; i++ {
			f := &dfile{Mode: []int64{0644, 0755, 0600, 04755}[r.Intn(4)], Uid: r.Intn(3)}
			base := fmt.Sprintf("usr/%c/f%d", 'a'+rune(r.Intn(4)), r.Intn(12))
			switch r.Intn(10) {
			case 0:
				base += " space é&<"
			case 1:
				base += "/" + strings.Repeat("deep/", 30) + "x"
			case 2:
				base += "-日本"
			}
			if used[base] {
				continue
			}
			used[base] = true
			f.Path = base
			switch r.Intn(9) {
			case 0:
				f.Dir, f.Mode = true, 0755
				f.Slash = r.Intn(3) == 0
			case 1:
				f.Link = []string{"../x", "target", "/abs"}[r.Intn(3)]
				f.Mode = 0777
			case 2:
				var regs []*dfile
				for _, o := range p.F {
					if !o.Dir && o.Link == "" && o.Hard == "" {
						regs = append(regs, o)
					}
				}
				if len(regs) > 0 {
					o := regs[r.Intn(len(regs))]
					f.Hard, f.Content, f.Mode, f.Uid = o.Path, o.Content, o.Mode, o.Uid
					break
				}
				fallthrough
			default:
				if r.Intn(100) < share {
					f.Content = contents[r.Intn(len(contents))]
				} else {
					b := make([]byte, 1+r.Intn(500))
					r.Read(b)
					f.Content = string(b)
				}
			}
			p.F = append(p.F, f)
		}
		for i := range p.F {
			p.Order = append(p.Order, i)
		}
		p.Bare = r.Intn(3)
		for i := r.Intn(3); i > 0; i-- {
			n := fmt.Sprintf("comar/pkg%d.py", i)
			if r.Intn(3) == 0 {
				n = []string{"comar/postinstall.py", "comar/install.py", "comar/uninstall.tar.py", "comar/metadata.xml", "preinstall.tar", "translations/metadata.xml",
					"comar/files.xml", "actions.py", "comar/日本.py", "install.sh", "Install.tar.xz", "a b/c.d"}[r.Intn(12)]
			}
			p.Extra[n] = fmt.Sprintf("script %d of %d", i, rel)
			if r.Intn(4) == 0 {
				p.Extra[n] = strings.Repeat("\x00\xff\n", r.Intn(9000))
			}
		}
		return p
	}
	share := []int{0, 20, 60, 100}[r.Intn(4)]
	ro := 1 + r.Intn(20)
	rn := ro + 1 + r.Intn(90)
	old := mk(ro, r.Intn(14), share)
	neu := mk(rn, r.Intn(14), share)
	switch r.Intn(6) {
	case 0: // identical file sets
		neu.F, neu.Order = nil, nil
		for i, f := range old.F {
			g := *f
			neu.F = append(neu.F, &g)
			neu.Order = append(neu.Order, i)
		}
	case 1: // one file moved, one changed, one added
		neu.F, neu.Order = nil, nil
		for i, f := range old.F {
			g := *f
			if i%3 == 1 && !g.Dir && g.Link == "" {
				g.Path += ".moved"
				g.Hard = ""
			}
			neu.F = append(neu.F, &g)
		}
		if len(neu.F) > 0 {
			neu.F[0].Content += "x"
		}
		neu.F = append(neu.F, &dfile{Path: "usr/new", Content: "brand new", Mode: 0644})
		have := map[string]bool{}
		for _, f := range neu.F {
			have[f.Path] = true
		}
		for _, f := range neu.F { // hard links whose target changed become plain files
			f.Hard = ""
		}
		for i := range neu.F {
			neu.Order = append(neu.Order, i)
		}
	case 2: // the tarball is ordered differently from files.xml
		for _, f := range neu.F {
			f.Hard = ""
		}
		r.Shuffle(len(neu.Order), func(i, j int) { neu.Order[i], neu.Order[j] = neu.Order[j], neu.Order[i] })
	}
	switch r.Intn(12) { // pairs that must be refused
	case 0:
		neu.Name = "pk2"
	case 1:
		neu.Release, old.Release = old.Release, neu.Release
	case 2:
		neu.DistRel = "2"
	case 3:
		neu.Arch = "aarch64"
	case 4:
		neu.Release = old.Release
		neu.Version = old.Version + "x"
	}
	return old, neu
}

func (p *dpkg) sharesWith(o *dpkg) bool {
	h := map[string]bool{}
	for _, f := range o.F {
		if !f.Dir {
			h[f.hash()] = true
		}
	}
	for _, f := range p.F {
		if !f.Dir && h[f.hash()] {
			return true
		}
	}
	return false
}

// judgeDelta takes the delta apart; it returns complaints.
func judgeDelta(path string, old, neu *dpkg, oldPath, newPath string) (bad []string) {
	add := func(f string, a ...interface{}) { bad = append(bad, fmt.Sprintf(f, a...)) }
	dz, dn, err := readZip(path)
	if err != nil {
		add("unreadable: %v", err)
		return
	}
	nz, nn, err := readZip(newPath)
	must(err)
	oz, _, err := readZip(oldPath)
	must(err)
	oldHash := map[string]bool{}
	for _, f := range old.F {
		if !f.Dir {
			oldHash[f.hash()] = true
		}
	}
	needed := map[string]bool{}
	for _, f := range neu.F {
		if f.Dir || !oldHash[f.hash()] {
			needed[f.Path] = true
		}
	}
	var wantNames []string
	for _, n := range nn {
		if n != "install.tar.xz" || len(needed) > 0 {
			wantNames = append(wantNames, n)
		}
	}
	if strings.Join(wantNames, "|") != strings.Join(dn, "|") {
		add("members %v, expected %v", dn, wantNames)
	}
	for n, b := range nz {
		if n == "install.tar.xz" {
			continue
		}
		if g, ok := dz[n]; ok && !bytes.Equal(g, b) {
			add("%s differs from the new package's", n)
		}
	}
	newEnts, err := readTarXz(nz["install.tar.xz"])
	must(err)
	byName := map[string]tarEnt{}
	for _, e := range newEnts {
		byName[strings.TrimSuffix(e.Hdr.Name, "/")] = e
	}
	got := map[string]tarEnt{}
	if b, ok := dz["install.tar.xz"]; ok {
		ents, err := readTarXz(b)
		if err != nil {
			add("tarball: %v", err)
			return
		}
		for _, e := range ents {
			n := strings.TrimSuffix(e.Hdr.Name, "/")
			if _, dup := got[n]; dup {
				add("%s twice in the tarball", n)
			}
			got[n] = e
			w, ok := byName[n]
			if !needed[n] || !ok {
				add("tarball holds %s which is not needed", n)
				continue
			}
			a, b := w.Hdr, e.Hdr
			if a.Typeflag != b.Typeflag || a.Mode != b.Mode || a.Uid != b.Uid || a.Gid != b.Gid || a.Linkname != b.Linkname || a.Size != b.Size || !a.ModTime.Equal(b.ModTime) || a.Name != b.Name || a.Uname != b.Uname {
				add("%s: header differs", n)
			}
			if !bytes.Equal(w.Data, e.Data) {
				add("%s: content differs", n)
			}
		}
	}
	for n := range needed {
		if _, ok := got[n]; !ok {
			add("tarball lacks %s", n)
		}
	}
	// apply it
	oldEnts, err := readTarXz(oz["install.tar.xz"])
	must(err)
	pool := map[string]bool{}
	for _, e := range oldEnts {
		switch e.Hdr.Typeflag {
		case tar.TypeReg:
			pool[sha1hex(e.Data)] = true
		case tar.TypeSymlink:
			pool[sha1hex([]byte(e.Hdr.Linkname))] = true
		}
	}
	for _, f := range neu.F {
		if f.Dir {
			continue
		}
		e, ok := got[f.Path]
		for hops := 0; ok && e.Hdr.Typeflag == tar.TypeLink && hops < 5; hops++ {
			e, ok = got[e.Hdr.Linkname]
		}
		switch {
		case ok && e.Hdr.Typeflag == tar.TypeReg && sha1hex(e.Data) == f.hash():
		case ok && e.Hdr.Typeflag == tar.TypeSymlink && sha1hex([]byte(e.Hdr.Linkname)) == f.hash():
		case pool[f.hash()]:
		default:
			add("%s cannot be reproduced from the old package and the delta", f.Path)
		}
	}
	return
}

func runC10(c *Ctx) {
	n := c.N(2500, 30000)
	c.Each(n, 0, func(i int) {
		r := c.Rng("pair", i)
		dir := c.TempDir("d")
		defer os.RemoveAll(dir)
		old, neu := genPair(r)
		in := filepath.Join(dir, "in")
		must(os.MkdirAll(in, 0755))
		op, np := old.write(in), neu.write(in)
		inBefore := tree(in)
		possible := old.Name == neu.Name && old.Arch == neu.Arch && old.DistRel == neu.DistRel && old.Release < neu.Release
		share := neu.sharesWith(old)
		replay := map[string]interface{}{"case": i, "old": old.listKey(), "new": neu.listKey(), "possible": possible, "share": share}
		var delta string
		var err error
		outcome := ""
		if i%4 != 3 {
			tmp, out := filepath.Join(dir, "tmp"), filepath.Join(dir, "out")
			must(os.MkdirAll(tmp, 0755))
			must(os.MkdirAll(out, 0755))
			target := filepath.Join(out, "x.delta.eopkg")
			err = core.ProduceDelta(tmp, op, np, target)
			switch {
			case err == nil:
				outcome, delta = "made", target
				if !possible {
					c.Violate("mismatched", "a delta was produced between packages that do not match", replay)
				} else if !share {
					c.Violate("pointless", "a delta was produced although no file content is shared", replay)
				}
			case err == libeopkg.ErrMismatchedDelta:
				outcome = "mismatched"
				if possible {
					c.Violate("refused-mismatched", "a possible pair was refused as mismatched", replay)
				}
			case err == libeopkg.ErrDeltaPointless:
				outcome = "pointless"
				if !possible {
					c.Violate("mismatched-pointless", "a mismatched pair was called pointless", replay)
				} else if share {
					c.Violate("refused-pointless", "a pair that shares content was refused as pointless", replay)
				}
			default:
				outcome = "error"
				c.Violate("error", fmt.Sprintf("delta production failed: %v", err), replay)
			}
			if l := tree(tmp); len(l) > 0 {
				c.Violate("leftover", fmt.Sprintf("temporary files were left behind: %v", l), replay)
			}
			if ds, _ := os.ReadDir(tmp); len(ds) > 0 {
				c.Violate("leftover", fmt.Sprintf("temporary directory %s was left behind", ds[0].Name()), replay)
			}
			if err != nil {
				if ds, _ := os.ReadDir(out); len(ds) > 0 {
					c.Violate("leftover-target", "a refused delta left a file at its destination", replay)
				}
			}
			if d := diffFiles(inBefore, tree(in)); d != "" {
				c.Violate("input", "an input package was modified: "+d, replay)
			}
		} else { // through the repository
			w := newWorld(dir, nil)
			defer w.M.Close()
			must(w.M.CreateRepo("r"))
			ops := []string{op, np}
			if r.Intn(2) == 0 {
				ops = []string{np, op}
			}
			must(w.M.AddPackages("r", ops, false))
			h, e := jobs.NewDeltaJobHandler(jobs.NewDeltaJob("r", neu.Name), false)
			must(e)
			err = h.Execute(nil, w.M)
			if err != nil {
				c.Violate("job-error", fmt.Sprintf("delta job failed: %v", err), replay)
			}
			// the job builds from the lower to the higher release
			lo, hi, lop, hip := old, neu, op, np
			if lo.Release > hi.Release {
				lo, hi, lop, hip = hi, lo, hip, lop
			}
			old, neu, op, np = lo, hi, lop, hip
			possible = lo.Name == hi.Name && lo.Arch == hi.Arch && lo.DistRel == hi.DistRel && lo.Release < hi.Release
			share = hi.sharesWith(lo)
			o := observe(w.M, w.Dir, nil)
			for id, p := range o.Pool {
				if p.Delta != nil {
					delta = filepath.Join(w.Dir, "pool", p.URI)
					if deltaName(&lo.PkgSpec, &hi.PkgSpec) != id {
						c.Violate("name", "delta is called "+id, replay)
					}
				}
			}
			outcome = "job-none"
			if delta != "" {
				outcome = "job-made"
			}
			if (delta != "") != (possible && share) {
				c.Violate("job-outcome", fmt.Sprintf("delta made: %v, pair possible: %v, shares content: %v", delta != "", possible, share), replay)
			}
			for _, d := range []string{"deltaBuilds", "deltaStaging"} {
				if l := tree(filepath.Join(w.Dir, d)); len(l) > 0 {
					c.Violate("leftover", fmt.Sprintf("files left in %s: %v", d, l), replay)
				}
				if ds, _ := os.ReadDir(filepath.Join(w.Dir, d, "r")); len(ds) > 0 {
					c.Violate("leftover", fmt.Sprintf("%s left in %s", ds[0].Name(), d), replay)
				}
			}
			if d := diffFiles(inBefore, tree(in)); d != "" {
				c.Violate("input", "an input package was modified: "+d, replay)
			}
		}
		if delta != "" {
			if bad := judgeDelta(delta, old, neu, op, np); len(bad) > 0 {
				sort.Strings(bad)
				if len(bad) > 6 {
					bad = bad[:6]
				}
				key := bad[0]
				if j := strings.Index(key, ":"); j > 0 {
					key = key[j+1:]
				}
				key = strings.Join(strings.Fields(key), "-")
				for _, w := range []string{"lacks", "not-needed", "members", "reproduced", "differs", "twice"} {
					if strings.Contains(key, w) {
						key = w
						break
					}
				}
				c.Violate("delta:"+cut(key, 30), strings.Join(bad, "; "), replay)
			}
			c.Count("deltas_taken_apart", 1)
		}
		c.Count("outcome_"+outcome, 1)
		c.Eval(sha1hex([]byte(old.listKey() + neu.listKey() + outcome)))
		if i < 3 {
			c.Sample(map[string]interface{}{"old_files": len(old.F), "new_files": len(neu.F), "outcome": outcome})
		}
	})
}
