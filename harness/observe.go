package main

import (
	"bytes"
	"crypto/sha1"
	"crypto/sha256"
	"encoding/hex"
	"encoding/xml"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"syscall"

	"github.com/getsolus/ferryd/src/ferryd/core"
)

// ---------- file trees ----------

type FileObs struct {
	Size int64
	Sha1 string
	Ino  uint64
	Link string
}

func sha1file(p string) (string, int64, uint64, error) {
	f, err := os.Open(p)
	if err != nil {
		return "", 0, 0, err
	}
	defer f.Close()
	st, err := f.Stat()
	if err != nil {
		return "", 0, 0, err
	}
	h := sha1.New()
	n, err := io.Copy(h, f)
	return hex.EncodeToString(h.Sum(nil)), n, st.Sys().(*syscall.Stat_t).Ino, err
}

// tree lists the files below dir (relative path -> observation).
func tree(dir string) map[string]FileObs {
	m := map[string]FileObs{}
	filepath.Walk(dir, func(p string, st os.FileInfo, err error) error {
		if err != nil || st.IsDir() {
			return nil
		}
		rel, _ := filepath.Rel(dir, p)
		if st.Mode()&os.ModeSymlink != 0 {
			l, _ := os.Readlink(p)
			m[rel] = FileObs{Link: l}
			return nil
		}
		if !st.Mode().IsRegular() { // never opened
			m[rel] = FileObs{Link: st.Mode().Type().String()}
			return nil
		}
		s, n, ino, err := sha1file(p)
		if err != nil {
			m[rel] = FileObs{Size: st.Size(), Link: "unreadable"}
		} else {
			m[rel] = FileObs{Size: n, Sha1: s, Ino: ino}
		}
		return nil
	})
	return m
}

// ---------- XML trees ----------

type XAttr struct{ Name, Value string }

type XNode struct {
	Name  string
	Attrs []XAttr
	Kids  []*XNode
	Text  string
}

func (n *XNode) Kid(name string) *XNode {
	if n == nil {
		return nil
	}
	for _, k := range n.Kids {
		if k.Name == name {
			return k
		}
	}
	return nil
}

func (n *XNode) All(name string) []*XNode {
	var r []*XNode
	if n == nil {
		return nil
	}
	for _, k := range n.Kids {
		if k.Name == name {
			r = append(r, k)
		}
	}
	return r
}

func (n *XNode) T(name string) string {
	if k := n.Kid(name); k != nil {
		return k.Text
	}
	return ""
}

func (n *XNode) Attr(name string) string {
	if n == nil {
		return ""
	}
	for _, a := range n.Attrs {
		if a.Name == name {
			return a.Value
		}
	}
	return ""
}

// parseXML reads a document into a tree; attribute names carry "xml:" for the
// xml namespace.
func parseXML(b []byte) (*XNode, error) {
	d := xml.NewDecoder(bytes.NewReader(b))
	root := &XNode{}
	st := []*XNode{root}
	for {
		t, err := d.Token()
		if err == io.EOF {
			break
		}
		if err != nil {
			return nil, err
		}
		top := st[len(st)-1]
		switch v := t.(type) {
		case xml.StartElement:
			n := &XNode{Name: v.Name.Local}
			for _, a := range v.Attr {
				nm := a.Name.Local
				if a.Name.Space == "http://www.w3.org/XML/1998/namespace" || a.Name.Space == "xml" {
					nm = "xml:" + nm
				} else if a.Name.Space != "" {
					nm = a.Name.Space + ":" + nm
				}
				n.Attrs = append(n.Attrs, XAttr{nm, a.Value})
			}
			top.Kids = append(top.Kids, n)
			st = append(st, n)
		case xml.EndElement:
			st = st[:len(st)-1]
		case xml.CharData:
			top.Text += string(v)
		}
	}
	if len(root.Kids) != 1 {
		return nil, fmt.Errorf("%d root elements", len(root.Kids))
	}
	return root.Kids[0], nil
}

// ---------- repositories ----------

type PoolObs struct {
	Ref       uint64
	Name      string
	Release   int
	Source    string
	URI, Hash string
	Size      int64
	Delta     *core.DeltaInformation
}

type RepoObs struct {
	Names  map[string][]string // package name -> listed ids (in the order reported)
	Deltas map[string]bool
	Files  map[string]FileObs
	Assets map[string]FileObs
}

func (r *RepoObs) IDs() []string {
	var s []string
	for _, l := range r.Names {
		s = append(s, l...)
	}
	sort.Strings(s)
	return s
}

type Obs struct {
	Pool      map[string]*PoolObs
	PoolFiles map[string]FileObs
	Repos     map[string]*RepoObs
	Errs      []string
}

var indexFiles = []string{
	"eopkg-index.xml", "eopkg-index.xml.sha1sum", "eopkg-index.xml.sha256sum",
	"eopkg-index.xml.xz", "eopkg-index.xml.xz.sha1sum", "eopkg-index.xml.xz.sha256sum",
	"eopkg-index.xml.zst", "eopkg-index.xml.zst.sha1sum", "eopkg-index.xml.zst.sha256sum",
}

func isIndexFile(rel string) bool { return strings.HasPrefix(rel, "eopkg-index.xml") }

// observe reads everything visible about the state below dir: through the
// exported queries and from the file system.
func observe(m *core.Manager, dir string, knownDeltas []string) *Obs {
	o := &Obs{Pool: map[string]*PoolObs{}, Repos: map[string]*RepoObs{}}
	bad := func(f string, a ...interface{}) { o.Errs = append(o.Errs, fmt.Sprintf(f, a...)) }
	items, err := m.GetPoolItems()
	if err != nil {
		bad("GetPoolItems: %v", err)
	}
	deltaIDs := map[string]string{} // id -> package name
	for _, it := range items {
		if _, dup := o.Pool[it.Name]; dup {
			bad("pool lists %s twice", it.Name)
		}
		p := &PoolObs{Ref: it.RefCount, Delta: it.Delta}
		if it.Meta != nil {
			p.Name, p.URI, p.Hash, p.Size, p.Source = it.Meta.Name, it.Meta.PackageURI, it.Meta.PackageHash, it.Meta.PackageSize, it.Meta.Source.Name
			p.Release = it.Meta.GetRelease()
		}
		o.Pool[it.Name] = p
		if it.Delta != nil {
			deltaIDs[it.Name] = p.Name
		}
	}
	for _, d := range knownDeltas {
		if _, ok := deltaIDs[d]; !ok {
			deltaIDs[d] = deltaPkgName(d)
		}
	}
	repos, err := m.GetRepos()
	if err != nil {
		bad("GetRepos: %v", err)
	}
	for _, r := range repos {
		if _, dup := o.Repos[r.ID]; dup {
			bad("repository %s listed twice", r.ID)
		}
		ro := &RepoObs{Names: map[string][]string{}, Deltas: map[string]bool{}}
		o.Repos[r.ID] = ro
		names, err := m.GetPackageNames(r.ID)
		if err != nil {
			bad("GetPackageNames(%s): %v", r.ID, err)
		}
		for _, n := range names {
			if _, dup := ro.Names[n]; dup {
				bad("%s lists name %s twice", r.ID, n)
			}
			ps, err := m.GetPackages(r.ID, n)
			if err != nil {
				bad("GetPackages(%s,%s): %v", r.ID, n, err)
			}
			ro.Names[n] = []string{}
			for _, p := range ps {
				if p.Name != n {
					bad("%s lists %s under name %s", r.ID, p.GetID(), n)
				}
				ro.Names[n] = append(ro.Names[n], p.GetID())
			}
		}
		for d, n := range deltaIDs {
			if ok, err := m.HasDelta(r.ID, n, d); err == nil && ok {
				ro.Deltas[d] = true
			}
		}
		ro.Files = tree(filepath.Join(dir, "repo", r.ID))
		ro.Assets = tree(filepath.Join(dir, "assets", r.ID))
	}
	o.PoolFiles = tree(filepath.Join(dir, "pool"))
	return o
}

// deltaPkgName recovers the package name from NAME-FROM-TO-DIST-ARCH.delta.eopkg.
func deltaPkgName(id string) string {
	p := strings.Split(strings.TrimSuffix(id, ".delta.eopkg"), "-")
	if len(p) < 5 {
		return id
	}
	return strings.Join(p[:len(p)-4], "-")
}

// Problem is one deviation, tagged with the properties it breaks.
type Problem struct {
	Props string // space separated ids
	Key   string
	Msg   string
}

type Problems []Problem

func (ps *Problems) add(props, key, f string, a ...interface{}) {
	*ps = append(*ps, Problem{props, key, fmt.Sprintf(f, a...)})
}

func (ps Problems) String() string {
	var s []string
	for _, p := range ps {
		s = append(s, "["+p.Props+"] "+p.Key+": "+p.Msg)
	}
	return strings.Join(s, "\n")
}

type accepted struct {
	Size int64
	Sha1 string
}

// invOpts tunes checkInvariants.
type invOpts struct {
	Orphans    bool                // unlisted files are violations
	Accepted   map[string]accepted // content each package had when accepted
	DeltaEnds  bool                // both ends of a delta must be listed in the repository
	SharedCopy bool                // repo and pool share one copy
}

// checkInvariants judges the relations that hold in every quiescent state.
func checkInvariants(o *Obs, op invOpts) (ps Problems) {
	for _, e := range o.Errs {
		ps.add("C01 C02 C03", "observe", "%s", e)
	}
	cnt := map[string]uint64{}
	for rid, r := range o.Repos {
		seen := map[string]bool{}
		for n, ids := range r.Names {
			if len(ids) == 0 {
				ps.add("C03 C05", "empty-name", "%s lists name %s without any package", rid, n)
			}
			for _, id := range ids {
				if seen[id] {
					ps.add("C03 C01", "listed-twice", "%s lists %s twice", rid, id)
				}
				seen[id] = true
			}
		}
		for id := range seen {
			cnt[id]++
		}
		for id := range r.Deltas {
			cnt[id]++
			seen[id] = true
		}
		want := map[string]bool{}
		for id := range seen {
			p := o.Pool[id]
			if p == nil {
				ps.add("C01 C02", "listed-not-in-pool", "%s lists %s which is not in the pool", rid, id)
				continue
			}
			if filepath.Base(p.URI) != id {
				ps.add("C02 C07", "uri", "%s has location %s", id, p.URI)
			}
			want[p.URI] = true
			pf, ok1 := o.PoolFiles[p.URI]
			rf, ok2 := r.Files[p.URI]
			if !ok1 {
				ps.add("C02", "pool-file-missing", "pool file of %s (listed by %s) is missing", id, rid)
			}
			if !ok2 {
				ps.add("C02", "repo-file-missing", "file of %s is missing from %s", id, rid)
			}
			if a, ok := op.Accepted[id]; ok {
				if ok1 && (pf.Sha1 != a.Sha1 || pf.Size != a.Size) {
					ps.add("C02", "pool-file-altered", "pool file of %s has size %d, accepted with %d", id, pf.Size, a.Size)
				}
				if ok2 && (rf.Sha1 != a.Sha1 || rf.Size != a.Size) {
					ps.add("C02", "repo-file-altered", "file of %s in %s has size %d, accepted with %d", id, rid, rf.Size, a.Size)
				}
			}
			if ok1 && (p.Hash != pf.Sha1 || p.Size != pf.Size) {
				ps.add("C02", "pool-record", "%s is recorded as %s/%d but its pool file is %s/%d", id, p.Hash, p.Size, pf.Sha1, pf.Size)
			}
			if ok1 && ok2 && (pf.Sha1 != rf.Sha1) {
				ps.add("C02", "copies-differ", "pool and %s hold different content for %s", rid, id)
			}
			if op.SharedCopy && ok1 && ok2 && pf.Ino != rf.Ino {
				ps.add("C02", "not-shared", "pool and %s do not share one copy of %s", rid, id)
			}
			if p.Delta != nil && op.DeltaEnds {
				for _, e := range []string{p.Delta.FromID, p.Delta.ToID} {
					if !seen[e] {
						ps.add("C11 C05", "delta-end-unlisted", "%s lists delta %s but not %s", rid, id, e)
					}
				}
			}
		}
		if op.Orphans {
			for rel := range r.Files {
				if isIndexFile(rel) {
					if !isFinalIndex(rel) {
						ps.add("C08", "index-leftover", "%s has leftover %s", rid, rel)
					}
					continue
				}
				if !want[rel] {
					ps.add("C02 C05", "orphan-repo-file", "%s holds %s which it does not list", rid, rel)
				}
			}
		}
	}
	pw := map[string]bool{}
	for id, p := range o.Pool {
		pw[p.URI] = true
		if p.Ref != cnt[id] {
			ps.add("C01", "refcount", "%s has reference count %d but %d repositories list it", id, p.Ref, cnt[id])
		} else if p.Ref == 0 {
			ps.add("C01", "refcount-zero", "%s is still in the pool with reference count 0", id)
		}
		if _, ok := o.PoolFiles[p.URI]; !ok {
			ps.add("C01 C02", "pool-file-missing", "pool file of %s is missing", id)
		}
	}
	if op.Orphans {
		for rel := range o.PoolFiles {
			if !pw[rel] {
				ps.add("C01 C02", "orphan-pool-file", "pool holds %s which nothing refers to", rel)
			}
		}
	}
	return ps
}

func isFinalIndex(rel string) bool {
	for _, f := range indexFiles {
		if f == rel {
			return true
		}
	}
	return false
}

// published computes the highest release listed per name.
func published(o *Obs, r *RepoObs) map[string]string {
	m := map[string]string{}
	for n, ids := range r.Names {
		best, bid := -1, ""
		for _, id := range ids {
			if p := o.Pool[id]; p != nil && p.Release > best {
				best, bid = p.Release, id
			}
		}
		m[n] = bid
	}
	return m
}

func nodeEq(a, b *XNode, ignoreSpaceText bool) string { return nodeDiff(a, b, "") }

func nodeDiff(a, b *XNode, path string) string {
	if a == nil || b == nil {
		if a == b {
			return ""
		}
		return path + ": missing"
	}
	p := path + "/" + a.Name
	if a.Name != b.Name {
		return p + ": is " + b.Name
	}
	at, bt := a.Text, b.Text
	if len(a.Kids) > 0 || len(b.Kids) > 0 {
		at, bt = strings.TrimSpace(at), strings.TrimSpace(bt)
	}
	if at != bt {
		return fmt.Sprintf("%s: text %q became %q", p, cut(at, 200), cut(bt, 200))
	}
	if len(a.Kids) != len(b.Kids) {
		return fmt.Sprintf("%s: %d children became %d", p, len(a.Kids), len(b.Kids))
	}
	if len(a.Attrs) != len(b.Attrs) {
		return fmt.Sprintf("%s: attributes %v became %v", p, a.Attrs, b.Attrs)
	}
	for i := range a.Attrs {
		if b.Attr(a.Attrs[i].Name) != a.Attrs[i].Value {
			return fmt.Sprintf("%s: attribute %v became %v", p, a.Attrs, b.Attrs)
		}
	}
	for i := range a.Kids {
		if d := nodeDiff(a.Kids[i], b.Kids[i], p); d != "" {
			return d
		}
	}
	return ""
}

func cut(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// readReg reads a regular file; anything else could block.
func readReg(p string) ([]byte, error) {
	st, err := os.Stat(p)
	if err == nil && !st.Mode().IsRegular() {
		return nil, fmt.Errorf("%s is no regular file", p)
	}
	if err != nil {
		return nil, err
	}
	return os.ReadFile(p)
}

func obsoleteSet(assetDir string) (map[string]bool, bool) {
	b, err := readReg(filepath.Join(assetDir, "distribution.xml"))
	if err != nil {
		return nil, false
	}
	n, err := parseXML(b)
	if err != nil {
		return nil, false
	}
	m := map[string]bool{}
	for _, k := range n.Kid("Obsoletes").All("Package") {
		m[k.Text] = true
	}
	return m, true
}

func isObs(obs map[string]bool, name string) bool {
	return obs[name] || obs[strings.TrimSuffix(name, "-dbginfo")]
}

// checkIndex compares the published index of a repository with its content.
func checkIndex(o *Obs, dir, rid string) (ps Problems) {
	r := o.Repos[rid]
	rdir := filepath.Join(dir, "repo", rid)
	b, err := os.ReadFile(filepath.Join(rdir, "eopkg-index.xml"))
	if err != nil {
		ps.add("C07 C08", "index-missing", "%s: %v", rid, err)
		return
	}
	ps = append(ps, checkSums(rdir, rid)...)
	root, err := parseXML(b)
	if err != nil {
		ps.add("C07 C08 C09", "index-malformed", "%s: index is not well-formed: %v", rid, err)
		return
	}
	obs, _ := obsoleteSet(filepath.Join(dir, "assets", rid))
	pub := published(o, r)
	want := map[string]string{}
	for n, id := range pub {
		if !isObs(obs, n) {
			want[n] = id
		}
	}
	seen := map[string]bool{}
	for _, p := range root.All("Package") {
		n := p.T("Name")
		id := filepath.Base(p.T("PackageURI"))
		if seen[n] {
			ps.add("C07", "index-duplicate", "%s: index lists %s twice", rid, n)
		}
		seen[n] = true
		w, ok := want[n]
		if !ok {
			if _, listed := pub[n]; listed {
				ps.add("C07", "index-obsolete", "%s: index lists obsolete %s", rid, n)
			} else {
				ps.add("C07 C05", "index-unlisted", "%s: index lists %s which the repository does not", rid, n)
			}
			continue
		}
		if id != w {
			ps.add("C03 C07", "index-published", "%s: index publishes %s, highest release is %s", rid, id, w)
			continue
		}
		f, ok := r.Files[p.T("PackageURI")]
		if !ok {
			ps.add("C07 C02", "index-location", "%s: index location %s does not exist", rid, p.T("PackageURI"))
			continue
		}
		if p.T("PackageHash") != f.Sha1 || p.T("PackageSize") != fmt.Sprint(f.Size) {
			ps.add("C07", "index-checksum", "%s: index gives %s/%s for %s, file is %s/%d", rid, p.T("PackageHash"), p.T("PackageSize"), id, f.Sha1, f.Size)
		}
		// deltas
		wd := map[string]bool{}
		for d := range r.Deltas {
			if pe := o.Pool[d]; pe != nil && pe.Delta != nil && pe.Delta.ToID == w {
				wd[d] = true
			}
		}
		gd := map[string]bool{}
		for _, d := range p.Kid("DeltaPackages").All("Delta") {
			did := filepath.Base(d.T("PackageURI"))
			if gd[did] {
				ps.add("C07", "index-delta-duplicate", "%s: %s lists delta %s twice", rid, id, did)
			}
			gd[did] = true
			if !wd[did] {
				ps.add("C07 C11", "index-delta-extra", "%s: %s offers delta %s which does not lead to it", rid, id, did)
				continue
			}
			df, ok := r.Files[d.T("PackageURI")]
			if !ok {
				ps.add("C07 C02", "index-delta-location", "%s: delta location %s does not exist", rid, d.T("PackageURI"))
				continue
			}
			if d.T("PackageHash") != df.Sha1 || d.T("PackageSize") != fmt.Sprint(df.Size) {
				ps.add("C07", "index-delta-checksum", "%s: index gives %s/%s for delta %s, file is %s/%d", rid, d.T("PackageHash"), d.T("PackageSize"), did, df.Sha1, df.Size)
			}
			from := o.Pool[o.Pool[did].Delta.FromID]
			if from != nil && d.Attr("releaseFrom") != fmt.Sprint(from.Release) {
				ps.add("C07 C11", "index-delta-from", "%s: delta %s says releaseFrom=%s, it starts from %d", rid, did, d.Attr("releaseFrom"), from.Release)
			}
		}
		for d := range wd {
			if !gd[d] {
				ps.add("C07 C11", "index-delta-missing", "%s: %s does not offer delta %s", rid, id, d)
			}
		}
	}
	for n, id := range want {
		if !seen[n] {
			ps.add("C07 C03", "index-package-missing", "%s: index lacks %s (%s)", rid, n, id)
		}
	}
	ps = append(ps, checkAssetsInIndex(root, filepath.Join(dir, "assets", rid), rid)...)
	return
}

// checkAssetsInIndex compares the definitions carried in the index with the
// asset files, by name and main content (full text fidelity is C09's).
func checkAssetsInIndex(root *XNode, adir, rid string) (ps Problems) {
	rd := func(f string) *XNode {
		b, err := readReg(filepath.Join(adir, f))
		if err != nil {
			return nil
		}
		n, err := parseXML(b)
		if err != nil {
			return nil
		}
		return n
	}
	if d := rd("distribution.xml"); d != nil {
		g := root.Kid("Distribution")
		if g == nil {
			ps.add("C07 C04", "index-distribution", "%s: index lacks the distribution", rid)
		} else {
			for _, t := range []string{"SourceName", "Version", "Type", "BinaryName"} {
				if d.T(t) != g.T(t) {
					ps.add("C07 C04", "index-distribution", "%s: distribution %s is %q, index says %q", rid, t, d.T(t), g.T(t))
				}
			}
			a, b := texts(d.Kid("Obsoletes").All("Package")), texts(g.Kid("Obsoletes").All("Package"))
			if strings.Join(a, "\n") != strings.Join(b, "\n") {
				ps.add("C07 C04", "index-distribution-obsoletes", "%s: obsoletes %v, index says %v", rid, a, b)
			}
		}
	} else if root.Kid("Distribution") != nil {
		ps.add("C07", "index-distribution-extra", "%s: index carries a distribution but none is defined", rid)
	}
	named := func(f, list, item string) {
		var want, got []string
		if d := rd(f); d != nil {
			for _, k := range d.Kid(list).All(item) {
				want = append(want, k.T("Name")+"|"+k.T("Group")+"|"+k.T("Icon")+"|"+strings.Join(texts(k.All("LocalName")), "|"))
			}
		}
		for _, k := range root.All(item) {
			got = append(got, k.T("Name")+"|"+k.T("Group")+"|"+k.T("Icon")+"|"+strings.Join(texts(k.All("LocalName")), "|"))
		}
		sort.Strings(want)
		sort.Strings(got)
		if strings.Join(want, "\n") != strings.Join(got, "\n") {
			ps.add("C07 C04", "index-"+list, "%s: %s defines %v, index says %v", rid, f, want, got)
		}
	}
	named("components.xml", "Components", "Component")
	named("groups.xml", "Groups", "Group")
	return
}

func texts(ns []*XNode) []string {
	var r []string
	for _, n := range ns {
		r = append(r, n.Text)
	}
	return r
}

// checkSums verifies the checksum files and compressed forms of a published index.
func checkSums(rdir, rid string) (ps Problems) {
	rd := func(f string) []byte {
		b, err := os.ReadFile(filepath.Join(rdir, f))
		if err != nil {
			ps.add("C08", "index-file-missing", "%s: %v", rid, err)
			return nil
		}
		return b
	}
	plain := rd("eopkg-index.xml")
	for _, f := range []string{"eopkg-index.xml", "eopkg-index.xml.xz", "eopkg-index.xml.zst"} {
		b := rd(f)
		if b == nil {
			continue
		}
		h1, h2 := sha1.Sum(b), sha256.Sum256(b)
		if g := strings.TrimSpace(string(rd(f + ".sha1sum"))); firstField(g) != hex.EncodeToString(h1[:]) {
			ps.add("C08", "sum", "%s: %s.sha1sum does not match (%s)", rid, f, cut(g, 80))
		}
		if g := strings.TrimSpace(string(rd(f + ".sha256sum"))); firstField(g) != hex.EncodeToString(h2[:]) {
			ps.add("C08", "sum", "%s: %s.sha256sum does not match (%s)", rid, f, cut(g, 80))
		}
		switch {
		case strings.HasSuffix(f, ".xz"):
			if u, err := unxzBytes(b); err != nil || !bytes.Equal(u, plain) {
				ps.add("C08", "compressed", "%s: %s does not decompress to the plain index", rid, f)
			}
		case strings.HasSuffix(f, ".zst"):
			if u, err := unzstdBytes(b); err != nil || !bytes.Equal(u, plain) {
				ps.add("C08", "compressed", "%s: %s does not decompress to the plain index", rid, f)
			}
		}
	}
	return
}

func firstField(s string) string {
	f := strings.Fields(s)
	if len(f) == 0 {
		return ""
	}
	return f[0]
}
