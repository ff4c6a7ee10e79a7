package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/getsolus/ferryd/src/ferryd/core"
	"github.com/getsolus/ferryd/src/ferryd/jobs"
	"github.com/getsolus/ferryd/src/libeopkg"
)

// ---------- catalogue of packages shared by the histories of one check ----------

type CatPkg struct {
	Spec *PkgSpec
	ID   string
	Path string
	accepted
}

type Catalog struct {
	Dir   string
	Pkgs  map[string]*CatPkg // by id
	ByNm  map[string][]*CatPkg
	IDs   []string
	Names []string
}

func newCatalog(dir string, specs []*PkgSpec) *Catalog {
	must(os.MkdirAll(dir, 0755))
	c := &Catalog{Dir: dir, Pkgs: map[string]*CatPkg{}, ByNm: map[string][]*CatPkg{}}
	for _, s := range specs {
		s.norm()
		p := &CatPkg{Spec: s, ID: s.ID()}
		p.Path = s.Write(dir)
		sh, n, _, err := sha1file(p.Path)
		must(err)
		p.accepted = accepted{n, sh}
		if c.Pkgs[p.ID] != nil {
			panic(harnessErr{fmt.Errorf("duplicate %s", p.ID)})
		}
		c.Pkgs[p.ID] = p
		c.ByNm[s.Name] = append(c.ByNm[s.Name], p)
		c.IDs = append(c.IDs, p.ID)
	}
	for n, l := range c.ByNm {
		c.Names = append(c.Names, n)
		sort.Slice(l, func(i, j int) bool { return l[i].Spec.Release < l[j].Spec.Release })
	}
	sort.Strings(c.Names)
	sort.Strings(c.IDs)
	return c
}

func (c *Catalog) Accepted() map[string]accepted {
	m := map[string]accepted{}
	for id, p := range c.Pkgs {
		m[id] = p.accepted
	}
	return m
}

// stdSpecs is the default catalogue: several names per source, releases whose
// numeric and textual orders differ, versions ordered against the releases,
// shared and unshared file content.
func stdSpecs(noTar bool) []*PkgSpec {
	type nm struct{ name, source string }
	names := []nm{{"alpha", "alpha"}, {"alpha-devel", "alpha"}, {"alpha-dbginfo", "alpha"}, {"alpha2", "alpha2"},
		{"beta", "Beta"}, {"libfoo", "libfoo"}, {"libfoo-dbginfo", "libfoo"}, {"lib", "lib"}, {"zed-x", "alp"}}
	rels := []int{1, 2, 9, 10, 11, 100}
	var out []*PkgSpec
	for ni, n := range names {
		for ri, r := range rels {
			if ni > 4 && ri > 4 {
				continue
			}
			s := &PkgSpec{Name: n.name, Source: n.source, Release: r, Version: fmt.Sprintf("%d.%d", 9-ri, ni), NoTar: noTar, Salt: fmt.Sprint(n.name, r)}
			s.Files = []FileSpec{
				{Path: "usr", Dir: true}, {Path: "usr/share", Dir: true},
				{Path: "usr/share/" + n.name + "-common", Content: "common content of " + n.name},
				{Path: "usr/share/" + n.name + "-data", Content: fmt.Sprintf("data of %s at %d\n", n.name, r)},
			}
			if n.name == "zed-x" && r == 10 { // has moved to another source, for a while
				s.Source = "alpha"
			}
			if n.name == "lib" { // nothing shared between releases
				s.Files = s.Files[3:]
			}
			if n.name == "alpha2" && ri == 3 { // shares with nobody
				s.Files = s.Files[3:]
			}
			out = append(out, s)
		}
	}
	// a different distribution release: never delta-able with the others
	out = append(out, &PkgSpec{Name: "beta", Source: "Beta", Release: 12, Version: "0.1", DistRel: "2", NoTar: noTar, Salt: "beta12",
		Files: []FileSpec{{Path: "usr/share/beta-common", Content: "common content of beta"}}})
	return out
}

// sharesContent: some file entry of b has content a also has.
func sharesContent(a, b *PkgSpec) bool {
	key := func(f FileSpec) string {
		if f.Link != "" {
			return "l" + f.Link
		}
		return "c" + f.Content
	}
	m := map[string]bool{}
	for _, f := range a.Files {
		if !f.Dir {
			m[key(f)] = true
		}
	}
	for _, f := range b.Files {
		if !f.Dir && m[key(f)] {
			return true
		}
	}
	return false
}

func deltaPossible(a, b *PkgSpec) bool {
	return a.Release < b.Release && a.Name == b.Name && a.DistRel == b.DistRel && a.Arch == b.Arch
}

func deltaName(a, b *PkgSpec) string {
	return fmt.Sprintf("%s-%d-%d-%s-%s.delta.eopkg", b.Name, a.Release, b.Release, b.DistRel, b.Arch)
}

// ---------- steps ----------

type Step struct {
	Op     string   `json:"op"`
	Repo   string   `json:"repo,omitempty"`
	Target string   `json:"target,omitempty"`
	Source string   `json:"source,omitempty"`
	Name   string   `json:"name,omitempty"`
	Pkgs   []string `json:"pkgs,omitempty"`
	N      int      `json:"n,omitempty"`
	Flag   bool     `json:"flag,omitempty"`
	Job    bool     `json:"job,omitempty"` // through the job handler instead of the manager
}

func (s Step) String() string { b, _ := json.Marshal(s); return string(b) }

type MRepo struct {
	Pk     map[string]bool
	De     map[string]bool
	Assets map[string]string
	Fresh  bool // index matches
}

type MDelta struct{ From, To, Name string }

// MPend is a delta that has been produced but not included yet.
type MPend struct {
	Repo, From, To, ID string
	Gone               bool
}

type Model struct {
	cat    *Catalog
	Repos  map[string]*MRepo
	Deltas map[string]MDelta // every delta id ever made
	Skip   map[string]bool
	Deter  bool
	Pend   *MPend
}

func newModel(cat *Catalog) *Model {
	return &Model{cat: cat, Repos: map[string]*MRepo{}, Deltas: map[string]MDelta{}, Skip: map[string]bool{}}
}

func (m *Model) clone() *Model {
	n := newModel(m.cat)
	for k, r := range m.Repos {
		x := newMRepo()
		x.Fresh = r.Fresh
		for a := range r.Pk {
			x.Pk[a] = true
		}
		for a := range r.De {
			x.De[a] = true
		}
		for a, b := range r.Assets {
			x.Assets[a] = b
		}
		n.Repos[k] = x
	}
	for k, v := range m.Deltas {
		n.Deltas[k] = v
	}
	for k := range m.Skip {
		n.Skip[k] = true
	}
	if m.Pend != nil {
		p := *m.Pend
		n.Pend = &p
	}
	return n
}

func newMRepo() *MRepo {
	return &MRepo{Pk: map[string]bool{}, De: map[string]bool{}, Assets: map[string]string{}}
}

func (m *Model) sp(id string) *PkgSpec { return m.cat.Pkgs[id].Spec }

func (m *Model) pub(r *MRepo) map[string]string {
	p := map[string]string{}
	for id := range r.Pk {
		s := m.sp(id)
		if o, ok := p[s.Name]; !ok || m.sp(o).Release < s.Release {
			p[s.Name] = id
		}
	}
	return p
}

func (m *Model) remove(r *MRepo, id string) {
	delete(r.Pk, id)
	for d := range r.De {
		if m.Deltas[d].From == id || m.Deltas[d].To == id {
			delete(r.De, d)
		}
	}
}

func (m *Model) deltaInPool(d string) bool {
	for _, r := range m.Repos {
		if r.De[d] {
			return true
		}
	}
	return false
}

// anyDelta picks a delta some repository has, rather one of which the given
// repository has a single end; once in a while it's a package or nothing known.
func (m *Model) anyDelta(r *rand.Rand, rid string) string {
	var all, half []string
	mr := m.Repos[rid]
	for d, x := range m.Deltas {
		if !m.deltaInPool(d) {
			continue
		}
		all = append(all, d)
		if mr != nil && mr.Pk[x.From] != mr.Pk[x.To] {
			half = append(half, d)
		}
	}
	sort.Strings(all)
	sort.Strings(half)
	switch {
	case len(half) > 0 && r.Intn(3) > 0:
		return half[r.Intn(len(half))]
	case len(all) > 0 && r.Intn(8) > 0:
		return all[r.Intn(len(all))]
	case mr != nil && len(mr.Pk) > 0:
		var ids []string
		for id := range mr.Pk {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		return ids[r.Intn(len(ids))]
	}
	return ""
}

func (m *Model) matchSource(r *MRepo, source string, rel int) []string {
	var ids []string
	for id := range r.Pk {
		s := m.sp(id)
		if s.Source == source && (rel <= 0 || s.Release == rel) {
			ids = append(ids, id)
		}
	}
	sort.Strings(ids)
	return ids
}

func assetObs(r *MRepo) (map[string]bool, bool) {
	d, ok := r.Assets["distribution.xml"]
	if !ok {
		return nil, false
	}
	n, err := parseXML([]byte(d))
	if err != nil {
		return nil, false
	}
	m := map[string]bool{}
	for _, k := range n.Kid("Obsoletes").All("Package") {
		m[k.Text] = true
	}
	return m, true
}

// Outcome is what the model says about a step.
type Outcome struct {
	Fail    bool
	Changed []string // pull: names
	Index   string   // repository whose index must be fresh afterwards
	MayIdx  bool     // ... or may be left as it was
	Target  string   // the repository that may change
	NoBuild bool     // delta: every pair is present, reusable or known pointless
}

// apply runs the step on the model.
func (m *Model) apply(s Step) (o Outcome) {
	r := m.Repos[s.Repo]
	o.Target = s.Repo
	fail := func() Outcome { o.Fail = true; o.Index = ""; return o }
	done := func(id string) Outcome {
		o.Index = id
		if x := m.Repos[id]; x != nil {
			x.Fresh = true
		}
		return o
	}
	if r == nil && s.Op != "create" && s.Op != "reopen" && s.Op != "incldelta" {
		if s.Op == "clone" || s.Op == "pull" || s.Op == "copysrc" {
			o.Target = s.Target
		}
		return fail()
	}
	switch s.Op {
	case "create":
		if r != nil {
			return fail()
		}
		m.Repos[s.Repo] = newMRepo()
		return done(s.Repo)
	case "clone":
		o.Target = s.Target
		if m.Repos[s.Target] != nil {
			return fail()
		}
		n := newMRepo()
		if s.Flag {
			for id := range r.Pk {
				n.Pk[id] = true
			}
			for id := range r.De {
				n.De[id] = true
			}
		} else {
			for _, id := range m.pub(r) {
				n.Pk[id] = true
			}
		}
		for k, v := range r.Assets {
			n.Assets[k] = v
		}
		m.Repos[s.Target] = n
		return done(s.Target)
	case "pull":
		o.Target = s.Target
		t := m.Repos[s.Target]
		if t == nil {
			return fail()
		}
		for k, v := range r.Assets {
			if t.Assets[k] != v {
				t.Assets[k] = v
				t.Fresh = false
			}
		}
		sp, tp := m.pub(r), m.pub(t)
		for n, id := range sp {
			if tid, ok := tp[n]; ok && m.sp(id).Release < m.sp(tid).Release {
				return fail()
			}
		}
		for n, id := range sp {
			if tid, ok := tp[n]; !ok || m.sp(id).Release > m.sp(tid).Release {
				t.Pk[id] = true
				o.Changed = append(o.Changed, n)
			}
		}
		sort.Strings(o.Changed)
		return done(s.Target)
	case "import":
		for _, id := range s.Pkgs {
			r.Pk[id] = true
		}
		return done(s.Repo)
	case "upload":
		for _, id := range s.Pkgs {
			if p, ok := m.pub(r)[m.sp(id).Name]; ok && m.sp(p).Release >= m.sp(id).Release {
				return fail()
			}
		}
		for _, id := range s.Pkgs {
			r.Pk[id] = true
		}
		return done(s.Repo)
	case "rmsrc":
		ids := m.matchSource(r, s.Source, s.N)
		if len(ids) == 0 {
			return fail()
		}
		for _, id := range ids {
			m.remove(r, id)
		}
		return done(s.Repo)
	case "copysrc":
		o.Target = s.Target
		t := m.Repos[s.Target]
		if t == nil {
			return fail()
		}
		ids := m.matchSource(r, s.Source, s.N)
		if len(ids) == 0 {
			return fail()
		}
		for _, id := range ids {
			if !t.Pk[id] {
				t.Pk[id] = true
				t.Fresh = false
			}
		}
		if s.Flag { // skip index
			return o
		}
		return done(s.Target)
	case "trimobs":
		ob, ok := assetObs(r)
		if !ok {
			return fail()
		}
		for id := range r.Pk {
			if isObs(ob, m.sp(id).Name) {
				m.remove(r, id)
			}
		}
		return done(s.Repo)
	case "trim":
		if s.N < 1 {
			return fail()
		}
		by := map[string][]string{}
		for id := range r.Pk {
			by[m.sp(id).Name] = append(by[m.sp(id).Name], id)
		}
		for _, l := range by {
			sort.Slice(l, func(i, j int) bool { return m.sp(l[i]).Release > m.sp(l[j]).Release })
			for i := s.N; i < len(l); i++ {
				m.remove(r, l[i])
			}
		}
		return done(s.Repo)
	case "delete":
		delete(m.Repos, s.Repo)
		if m.Pend != nil && m.Pend.Repo == s.Repo {
			m.Pend.Gone = true
		}
		return o
	case "mkdelta":
		a, b := m.sp(s.Pkgs[0]), m.sp(s.Pkgs[1])
		d := deltaName(a, b)
		if m.Pend != nil || !r.Pk[s.Pkgs[0]] || !r.Pk[s.Pkgs[1]] || !deltaPossible(a, b) || !sharesContent(a, b) || m.deltaInPool(d) {
			panic(harnessErr{fmt.Errorf("unsuitable step %s", s)})
		}
		m.Pend = &MPend{Repo: s.Repo, From: s.Pkgs[0], To: s.Pkgs[1], ID: d}
		return o
	case "incldelta":
		p := m.Pend
		m.Pend = nil
		o.Target = p.Repo
		r = m.Repos[p.Repo]
		if r == nil || p.Gone {
			return fail()
		}
		if r.De[p.ID] {
			return o
		}
		if !r.Pk[p.From] || !r.Pk[p.To] {
			return fail()
		}
		m.Deltas[p.ID] = MDelta{p.From, p.To, m.sp(p.To).Name}
		r.De[p.ID] = true
		r.Fresh = false
		return o
	case "refdelta": // what a delta job does about a delta another repository has, at any later time
		if s.Name == "" || !m.deltaInPool(s.Name) {
			return fail()
		}
		d := m.Deltas[s.Name]
		if r.De[s.Name] {
			return o
		}
		if !r.Pk[d.From] || !r.Pk[d.To] {
			return fail()
		}
		r.De[s.Name] = true
		r.Fresh = false
		return o
	case "index":
		return done(s.Repo)
	case "assets":
		for _, f := range []string{"distribution.xml", "components.xml", "groups.xml"} {
			delete(r.Assets, f)
		}
		for k, v := range assetVariants[s.N%len(assetVariants)] {
			r.Assets[k] = v
		}
		r.Fresh = false
		return o
	case "delta", "deltarepo":
		names := []string{s.Name}
		if s.Op == "deltarepo" {
			by := map[string]bool{}
			for id := range r.Pk {
				by[m.sp(id).Name] = true
			}
			names = nil
			for n := range by {
				names = append(names, n)
			}
			sort.Strings(names)
		}
		made, reused, tried := 0, 0, 0
		for _, name := range names {
			l := m.namesIn(s.Repo, name)
			if len(l) == 0 { // nothing listed under that name: outcome not constrained
				return o
			}
			sort.Slice(l, func(i, j int) bool { return m.sp(l[i]).Release < m.sp(l[j]).Release })
			tip := l[len(l)-1]
			for _, id := range l[:len(l)-1] {
				a, b := m.sp(id), m.sp(tip)
				d := deltaName(a, b)
				if m.Skip[d] || r.De[d] {
					continue
				}
				if !deltaPossible(a, b) {
					tried++
					continue
				}
				if m.deltaInPool(d) {
					r.De[d] = true
					r.Fresh = false
					reused++
					continue
				}
				tried++
				if !sharesContent(a, b) {
					m.Skip[d] = true
					continue
				}
				m.Deltas[d] = MDelta{id, tip, name}
				r.De[d] = true
				r.Fresh = false
				made++
			}
		}
		o.NoBuild = tried == 0
		if s.Flag && s.Op == "delta" {
			if made > 0 {
				return done(s.Repo)
			}
			if reused > 0 {
				o.Index, o.MayIdx = s.Repo, true
			}
		}
		return o
	case "reopen":
		return o
	}
	panic(harnessErr{fmt.Errorf("unknown step %s", s.Op)})
}

var assetVariants = []map[string]string{
	{},
	{"distribution.xml": distXML("Solus", "1.0", "alpha2", "lib"), "components.xml": compXML("system.base", "desktop"), "groups.xml": groupXML("system", "games")},
	{"distribution.xml": distXML("Solus", "2.0"), "components.xml": compXML("system.devel"), "groups.xml": groupXML("system")},
	{"distribution.xml": distXML("Other", "3", "alpha", "libfoo", "nothere")},
	{"components.xml": compXML("a.b", "a.a", "z"), "groups.xml": groupXML("zz", "aa")},
	{"distribution.xml": distXML("Solus", "4", "libfoo-dbginfo", "beta")},
	{"distribution.xml": distXML("Solus", "5", "alpha-devel", "zed")},
}

func distXML(src, ver string, obs ...string) string {
	b := &strings.Builder{}
	fmt.Fprintf(b, "<PISI>\n  <SourceName>%s</SourceName>\n  <Description xml:lang=\"en\">The %s repo</Description>\n  <Version>%s</Version>\n  <Type>main</Type>\n  <BinaryName>%s-bin</BinaryName>\n  <Obsoletes>\n", src, src, ver, src)
	for _, o := range obs {
		fmt.Fprintf(b, "    <Package>%s</Package>\n", o)
	}
	b.WriteString("  </Obsoletes>\n</PISI>\n")
	return b.String()
}

func compXML(names ...string) string {
	b := &strings.Builder{}
	b.WriteString("<PISI><Components>")
	for _, n := range names {
		fmt.Fprintf(b, "<Component><Name>%s</Name><LocalName xml:lang=\"en\">Local %s</LocalName><Summary xml:lang=\"en\">Sum %s</Summary><Description xml:lang=\"en\">Desc %s</Description><Group>g-%s</Group><Maintainer><Name>M</Name><Email>m@x</Email></Maintainer></Component>", n, n, n, n, n)
	}
	b.WriteString("</Components></PISI>")
	return b.String()
}

func groupXML(names ...string) string {
	b := &strings.Builder{}
	b.WriteString("<PISI><Groups>")
	for _, n := range names {
		fmt.Fprintf(b, "<Group><Name>%s</Name><LocalName xml:lang=\"en\">Local %s</LocalName><Icon>icon-%s</Icon></Group>", n, n, n)
	}
	b.WriteString("</Groups></PISI>")
	return b.String()
}

// ---------- driving the real code ----------

type World struct {
	Dir   string // base directory
	Stage string // where packages to import are placed
	M     *core.Manager
	cat   *Catalog
	nst   int
	pend  pendDelta
}

type pendDelta struct {
	Repo, Path string
	Map        *core.DeltaInformation
}

func newWorld(dir string, cat *Catalog) *World {
	w := &World{Dir: filepath.Join(dir, "base"), Stage: filepath.Join(dir, "stage"), cat: cat}
	must(os.MkdirAll(w.Dir, 0755))
	must(os.MkdirAll(w.Stage, 0755))
	w.open()
	return w
}

func (w *World) open() {
	m, err := core.NewManager(w.Dir)
	must(err)
	w.M = m
}

// stagePkg places a fresh copy of a package and returns its path.
func (w *World) stagePkg(id string) string {
	w.nst++
	d := filepath.Join(w.Stage, fmt.Sprint(w.nst))
	must(os.MkdirAll(d, 0755))
	p := filepath.Join(d, id)
	b, err := os.ReadFile(w.cat.Pkgs[id].Path)
	must(err)
	must(os.WriteFile(p, b, 0644))
	return p
}

func (w *World) stageAll(ids []string) []string {
	var ps []string
	for _, id := range ids {
		ps = append(ps, w.stagePkg(id))
	}
	return ps
}

// viaJob executes a job entry the way a worker does.
func viaJob(m *core.Manager, j *jobs.JobEntry) error {
	h, err := jobs.NewJobHandler(j)
	if err != nil {
		return err
	}
	h.Describe()
	return h.Execute(nil, m)
}

func (w *World) jobFor(s Step, paths []string) *jobs.JobEntry {
	switch s.Op {
	case "create":
		return jobs.NewCreateRepoJob(s.Repo)
	case "clone":
		return jobs.NewCloneRepoJob(s.Repo, s.Target, s.Flag)
	case "pull":
		return jobs.NewPullRepoJob(s.Repo, s.Target)
	case "import":
		return jobs.NewBulkAddJob(s.Repo, paths)
	case "rmsrc":
		return jobs.NewRemoveSourceJob(s.Repo, s.Source, s.N)
	case "copysrc":
		return jobs.NewCopySourceJob(s.Repo, s.Target, s.Source, s.N, s.Flag)
	case "trimobs":
		return jobs.NewTrimObsoleteJob(s.Repo)
	case "trim":
		return jobs.NewTrimPackagesJob(s.Repo, s.N)
	case "delete":
		return jobs.NewDeleteRepoJob(s.Repo)
	case "index":
		return jobs.NewIndexRepoJob(s.Repo)
	case "delta":
		if s.Flag {
			return jobs.NewDeltaIndexJob(s.Repo, s.Name)
		}
		return jobs.NewDeltaJob(s.Repo, s.Name)
	}
	return nil
}

func setAssets(dir string, files map[string]string) {
	must(os.MkdirAll(dir, 0755))
	for _, f := range []string{"distribution.xml", "components.xml", "groups.xml"} {
		if c, ok := files[f]; ok {
			must(os.WriteFile(filepath.Join(dir, f), []byte(c), 0644))
		} else {
			os.Remove(filepath.Join(dir, f))
		}
	}
}

// exec runs the step on the real code; changed is what a pull reported.
func (w *World) exec(s Step) (changed []string, reported bool, err error) {
	m := w.M
	switch s.Op {
	case "assets":
		if ok := func() bool { _, e := m.GetRepo(s.Repo); return e == nil }(); !ok {
			return nil, false, fmt.Errorf("no such repository")
		}
		setAssets(filepath.Join(w.Dir, "assets", s.Repo), assetVariants[s.N%len(assetVariants)])
		return nil, false, nil
	case "reopen":
		w.M.Close()
		w.open()
		return nil, false, nil
	case "delta":
		if s.Job {
			return nil, false, viaJob(m, w.jobFor(s, nil))
		}
		h, err := jobs.NewDeltaJobHandler(w.jobFor(s, nil), s.Flag)
		if err != nil {
			return nil, false, err
		}
		return nil, false, h.Execute(nil, m)
	case "deltarepo":
		return nil, false, w.deltaRepo(s.Repo)
	case "mkdelta":
		defer m.LockDeltas(s.Repo, w.cat.Pkgs[s.Pkgs[0]].Spec.Name)()
		l, err := m.GetPackages(s.Repo, w.cat.Pkgs[s.Pkgs[0]].Spec.Name)
		if err != nil {
			return nil, false, err
		}
		var pair [2]*libeopkg.MetaPackage
		for _, p := range l {
			for i := range pair {
				if p.GetID() == s.Pkgs[i] {
					pair[i] = p
				}
			}
		}
		if pair[0] == nil || pair[1] == nil {
			return nil, false, fmt.Errorf("the repository does not list the packages")
		}
		w.pend = pendDelta{Repo: s.Repo, Map: &core.DeltaInformation{FromID: s.Pkgs[0], ToID: s.Pkgs[1], FromRelease: pair[0].GetRelease(), ToRelease: pair[1].GetRelease()}}
		w.pend.Path, err = m.CreateDelta(s.Repo, pair[0], pair[1])
		return nil, false, err
	case "incldelta":
		defer os.Remove(w.pend.Path)
		return nil, false, m.AddDelta(w.pend.Repo, w.pend.Path, w.pend.Map)
	case "refdelta":
		return nil, false, m.RefDelta(s.Repo, s.Name)
	}
	var paths []string
	if len(s.Pkgs) > 0 {
		paths = w.stageAll(s.Pkgs)
		defer func() {
			for _, p := range paths {
				os.Remove(p)
				os.Remove(filepath.Dir(p))
			}
		}()
	}
	if s.Job && s.Op != "upload" {
		return nil, false, viaJob(m, w.jobFor(s, paths))
	}
	switch s.Op {
	case "create":
		err = m.CreateRepo(s.Repo)
	case "clone":
		err = m.CloneRepo(s.Repo, s.Target, s.Flag)
	case "pull":
		changed, err = m.PullRepo(s.Repo, s.Target)
		reported = err == nil
	case "import":
		err = m.AddPackages(s.Repo, paths, false)
	case "upload":
		err = m.AddPackages(s.Repo, paths, true)
	case "rmsrc":
		err = m.RemoveSource(s.Repo, s.Source, s.N)
	case "copysrc":
		err = m.CopySource(s.Repo, s.Target, s.Source, s.N, s.Flag)
	case "trimobs":
		err = m.TrimObsolete(s.Repo)
	case "trim":
		err = m.TrimPackages(s.Repo, s.N)
	case "delete":
		err = m.DeleteRepo(s.Repo)
	case "index":
		err = m.Index(s.Repo)
	}
	return
}

// deltaRepo runs the job that schedules a delta job per package name and then
// those jobs, through a real job store.
func (w *World) deltaRepo(repo string) error {
	st, err := jobs.NewStore(w.Dir)
	must(err)
	defer st.Close()
	h, err := jobs.NewJobHandler(jobs.NewDeltaRepoJob(repo))
	if err != nil {
		return err
	}
	if err := h.Execute(jobs.NewProcessor(w.M, st, 2), w.M); err != nil {
		return err
	}
	var first error
	for {
		j, err := st.ClaimAsyncJob()
		if err == jobs.ErrEmptyQueue {
			return first
		}
		must(err)
		if err := viaJob(w.M, j); err != nil && first == nil {
			first = err
		}
		must(st.RetireAsyncJob(j))
	}
}

// buildEvents, where instrumented, counts file-system mutations made below the
// delta build directories of a base directory since the last call.
var buildEvents func(base string) int

var installBuildMonitor func()

var opProps = map[string]string{
	"deltarepo": "C11", "mkdelta": "C11", "incldelta": "C11", "refdelta": "C11",
	"create": "C03", "import": "C03", "upload": "C03", "clone": "C04", "pull": "C04", "copysrc": "C04",
	"rmsrc": "C05", "trimobs": "C05", "trim": "C05", "delete": "C05", "delta": "C11", "index": "C07", "assets": "C07", "reopen": "C03",
}

func setDiff(got, want map[string]bool) string {
	var x, y []string
	for k := range got {
		if !want[k] {
			x = append(x, k)
		}
	}
	for k := range want {
		if !got[k] {
			y = append(y, k)
		}
	}
	if len(x)+len(y) == 0 {
		return ""
	}
	sort.Strings(x)
	sort.Strings(y)
	return fmt.Sprintf("unexpected %v, missing %v", x, y)
}

func idSet(l []string) map[string]bool {
	m := map[string]bool{}
	for _, x := range l {
		m[x] = true
	}
	return m
}

// compare judges an observation against the model after step s.
func (m *Model) compare(o *Obs, s Step, oc Outcome) (ps Problems) {
	prop := opProps[s.Op]
	for rid, mr := range m.Repos {
		r := o.Repos[rid]
		props := prop
		if rid != oc.Target {
			props += " C06"
		}
		if r == nil {
			ps.add(props, "repo-missing", "%s: repository %s is gone", s, rid)
			continue
		}
		if d := setDiff(idSet(r.IDs()), mr.Pk); d != "" {
			ps.add(props, "list:"+s.Op, "%s: package list of %s: %s", s, rid, d)
		}
		if d := setDiff(r.Deltas, mr.De); d != "" {
			p := props
			if s.Op != "clone" {
				p += " C11"
			}
			ps.add(p, "deltas:"+s.Op, "%s: deltas of %s: %s", s, rid, d)
		}
		for f, c := range mr.Assets {
			if r.Assets[f].Sha1 != sha1hex([]byte(c)) {
				ps.add(props, "assets:"+s.Op, "%s: asset %s of %s differs", s, f, rid)
			}
		}
		for f := range r.Assets {
			if _, ok := mr.Assets[f]; !ok {
				ps.add(props, "assets-extra:"+s.Op, "%s: unexpected asset %s of %s", s, f, rid)
			}
		}
	}
	for rid := range o.Repos {
		if m.Repos[rid] == nil {
			ps.add(prop, "repo-extra:"+s.Op, "%s: unexpected repository %s", s, rid)
		}
	}
	return
}

// Hist is a running history: the real world and the model in lock step.
type Hist struct {
	reader *idxReader
	c      *Ctx
	w      *World
	m      *Model
	prev   *Obs
	idx    map[string]string // sha1 of the last published index per repository
	Done   []Step
	Dead   bool
	// SkipIndexCheck skips the (expensive) index oracle.
	SkipIndexCheck bool
	want           string // property reported
	delAcc         map[string]accepted
	states         map[string]bool
	after          func(s Step) Problems // one more judge of every step
	dry            bool                  // keep what is found to oneself
}

func newHist(c *Ctx, cat *Catalog, prop string) *Hist {
	h := &Hist{c: c, w: newWorld(c.TempDir("h"), cat), m: newModel(cat), idx: map[string]string{}, want: prop, delAcc: map[string]accepted{}, states: map[string]bool{}}
	h.prev = h.observe()
	if prop == "C08" && c.ID == "C08" && indexProblems != nil && indexMonitored {
		h.reader = startReaders(h.w.Dir, 1)
	}
	return h
}

func (h *Hist) close() {
	if h.reader != nil {
		h.reader.finish()
		h.c.Count("reads", h.reader.reads)
	}
	h.w.M.Close()
	if h.c != nil && os.Getenv("VERIF_KEEP") == "" {
		os.RemoveAll(filepath.Dir(h.w.Dir))
	}
}

func (h *Hist) observe() *Obs {
	var kd []string
	for d := range h.m.Deltas {
		kd = append(kd, d)
	}
	return observe(h.w.M, h.w.Dir, kd)
}

// report hands over the problems that concern the property; any problem at all
// ends the history (model and reality have parted).
func (h *Hist) report(ps Problems) {
	if len(ps) == 0 {
		return
	}
	h.Dead = true
	mine := false
	for _, p := range ps {
		for _, x := range strings.Fields(p.Props) {
			if x == h.want && !h.dry {
				h.c.Violate(p.Key, p.Msg, map[string]interface{}{"history": h.Done, "all": strings.Split(ps.String(), "\n")})
				mine = true
			}
		}
	}
	if h.dry {
		return
	}
	if h.want == "C06" && !mine && len(h.Done) > 0 {
		if l := h.slice(); len(l) < len(h.Done) && h.aloneFine(l) {
			h.c.Violate("interference", fmt.Sprintf("%s goes wrong, but is fine without what was done to unrelated repositories (%d of %d operations): %s", h.Done[len(h.Done)-1], len(h.Done)-len(l), len(h.Done), ps[0].Msg), map[string]interface{}{"history": h.Done, "fine": l, "all": strings.Split(ps.String(), "\n")})
			mine = true
		}
	}
	if !mine {
		h.c.Count("histories_stopped_by_other_property", 1)
	}
}

// slice: the steps that the repositories of the last one have anything to do with.
func (h *Hist) slice() []Step {
	last := h.Done[len(h.Done)-1]
	need := map[string]bool{}
	into := func(s Step) string {
		switch s.Op {
		case "clone", "pull", "copysrc":
			return s.Target
		}
		return s.Repo
	}
	need[into(last)], need[last.Repo] = true, true
	l := []Step{last}
	for i := len(h.Done) - 2; i >= 0; i-- {
		s := h.Done[i]
		if s.Op == "reopen" {
			l = append(l, s)
			continue
		}
		if t := into(s); need[t] {
			l = append(l, s)
			need[s.Repo] = true
		}
	}
	for i, j := 0, len(l)-1; i < j; i, j = i+1, j-1 {
		l[i], l[j] = l[j], l[i]
	}
	return l
}

// aloneFine runs the steps from the start.
func (h *Hist) aloneFine(l []Step) bool {
	a := newHist(h.c, h.w.cat, h.want)
	a.dry = true
	defer a.close()
	for _, s := range l {
		a.step(s)
	}
	return !a.Dead
}

// step runs one step on both sides and judges the result.
func (h *Hist) step(s Step) {
	if h.Dead {
		return
	}
	h.Done = append(h.Done, s)
	before := h.m.clone()
	oc := h.m.apply(s)
	if buildEvents != nil {
		buildEvents(h.w.Dir)
	}
	changed, reported, err := h.w.exec(s)
	h.c.Count("operations", 1)
	if err != nil {
		h.c.Count("operations_refused", 1)
	}
	if s.Op == "incldelta" && !oc.Fail {
		h.c.Count("deltas_included_after_other_operations", 1)
	} else if s.Op == "incldelta" {
		h.c.Count("deltas_produced_but_no_longer_wanted", 1)
	}
	var ps Problems
	prop := opProps[s.Op]
	unconstrained := s.Op == "delta" && len(before.namesIn(s.Repo, s.Name)) == 0
	if !unconstrained {
		if (err != nil) != oc.Fail {
			if oc.Fail {
				ps.add(prop, "accepted:"+s.Op, "%s was accepted, should be refused", s)
			} else {
				extra := ""
				if s.Op != "delete" && s.Op != "copysrc" {
					extra = " C07"
				}
				ps.add(prop+extra, "refused:"+s.Op, "%s failed: %v", s, err)
			}
		}
	}
	if reported {
		sort.Strings(changed)
		if strings.Join(changed, " ") != strings.Join(oc.Changed, " ") {
			ps.add("C04", "pull-report", "%s reported %v, transferred %v", s, changed, oc.Changed)
		}
	}
	if oc.NoBuild && buildEvents != nil {
		if n := buildEvents(h.w.Dir); n > 0 {
			ps.add("C11", "rebuilt", "%s: every pair has a delta or is known to be pointless, yet %d file-system changes were made in the build area", s, n)
		}
		h.c.Count("delta_runs_that_must_not_build", 1)
	}
	o := h.observe()
	ps = append(ps, h.m.compare(o, s, oc)...)
	for id, p := range o.Pool {
		if p.Delta == nil {
			continue
		}
		if _, ok := h.delAcc[id]; !ok {
			h.delAcc[id] = accepted{p.Size, p.Hash}
		}
		md, ok := h.m.Deltas[id]
		if ok && (p.Delta.FromID != md.From || p.Delta.ToID != md.To || p.Delta.FromRelease != h.m.sp(md.From).Release || p.Delta.ToRelease != h.m.sp(md.To).Release) {
			ps.add("C11", "delta-record", "%s: delta %s is recorded as %+v", s, id, *p.Delta)
		}
	}
	for id := range h.delAcc {
		if o.Pool[id] == nil {
			delete(h.delAcc, id)
		}
	}
	acc := h.w.cat.Accepted()
	for id, a := range h.delAcc {
		acc[id] = a
	}
	ps = append(ps, checkInvariants(o, invOpts{Orphans: true, Accepted: acc, DeltaEnds: true, SharedCopy: true})...)
	// other repositories byte for byte
	for rid, r := range h.prev.Repos {
		if rid == oc.Target {
			continue
		}
		n := o.Repos[rid]
		if n == nil {
			ps.add("C06", "other-repo-gone", "%s: %s disappeared", s, rid)
			continue
		}
		if d := diffFiles(r.Files, n.Files); d != "" {
			ps.add("C06", "other-repo-files", "%s: files of %s: %s", s, rid, d)
		}
		if d := diffFiles(r.Assets, n.Assets); d != "" {
			ps.add("C06", "other-repo-assets", "%s: assets of %s: %s", s, rid, d)
		}
		if strings.Join(r.IDs(), " ") != strings.Join(n.IDs(), " ") || setDiff(r.Deltas, n.Deltas) != "" {
			ps.add("C06", "other-repo-list", "%s: lists of %s changed", s, rid)
		}
	}
	if s.Op == "delete" && !oc.Fail {
		for _, d := range []string{"repo", "assets", "deltaBuilds", "deltaStaging"} {
			if fileExists(filepath.Join(h.w.Dir, d, s.Repo)) {
				ps.add("C05", "delete-left", "%s left directory %s", s, d)
			}
		}
	}
	for _, d := range []string{"deltaBuilds", "deltaStaging"} {
		for rid := range o.Repos {
			for f := range tree(filepath.Join(h.w.Dir, d, rid)) {
				if q := h.m.Pend; q != nil && d == "deltaStaging" && q.Repo == rid && f == q.ID {
					continue
				}
				ps.add("C10 C11", "delta-leftover", "%s left %s/%s/%s", s, d, rid, f)
			}
		}
	}
	// index
	prevIdx := h.idx[s.Repo]
	for rid := range o.Repos {
		x := ""
		if f, ok := o.Repos[rid].Files["eopkg-index.xml"]; ok {
			x = f.Sha1
		}
		mr := h.m.Repos[rid]
		touched := oc.Index == rid && !oc.Fail && err == nil
		if !touched {
			if x != h.idx[rid] {
				switch {
				case s.Op == "copysrc" && rid == oc.Target && s.Flag:
					ps.add("C04", "copy-indexed", "%s re-indexed %s although asked not to", s, rid)
				case err != nil && !oc.Fail:
				case rid == oc.Target: // re-indexing more than needed is harmless
					if mr != nil {
						ps = append(ps, checkIndex(o, h.w.Dir, rid)...)
						mr.Fresh = true
					}
				}
			}
		} else if !h.SkipIndexCheck {
			ip := checkIndex(o, h.w.Dir, rid)
			if oc.MayIdx && len(ip) > 0 && x == h.idx[rid] {
				ip = nil
			}
			if s.Op == "copysrc" || s.Op == "clone" {
				for i := range ip {
					ip[i].Props += " C04"
				}
			}
			ps = append(ps, ip...)
			h.c.Count("indexes_checked", 1)
		}
		h.idx[rid] = x
	}
	// the same content gives the same index
	byContent := map[string]string{}
	for rid, mr := range h.m.Repos {
		if !mr.Fresh || h.idx[rid] == "" || h.SkipIndexCheck {
			continue
		}
		k := mr.content()
		if x, ok := byContent[k]; ok && h.idx[x] != h.idx[rid] {
			ps.add("C07", "index-not-reproducible", "%s: %s and %s have the same content but different indexes", s, x, rid)
		}
		byContent[k] = rid
	}
	if s.Op == "index" && !oc.Fail && before.Repos[s.Repo].Fresh && prevIdx != "" && prevIdx != h.idx[s.Repo] {
		ps.add("C07", "index-not-reproducible", "%s: indexing again without any change gave a different index", s)
	}
	for rid := range h.idx {
		if o.Repos[rid] == nil {
			delete(h.idx, rid)
		}
	}
	if h.reader != nil {
		ps = append(ps, h.judgeIndexTrace(o)...)
	}
	if h.after != nil {
		ps = append(ps, h.after(s)...)
	}
	h.prev = o
	h.report(ps)
	h.states[h.m.digest()] = true
}

func (m *Model) namesIn(repo, name string) []string {
	var l []string
	if r := m.Repos[repo]; r != nil {
		for id := range r.Pk {
			if m.sp(id).Name == name {
				l = append(l, id)
			}
		}
	}
	return l
}

// content identifies what the index of a repository depends on.
func (r *MRepo) content() string {
	var l []string
	for id := range r.Pk {
		l = append(l, id)
	}
	for id := range r.De {
		l = append(l, id)
	}
	for f, c := range r.Assets {
		l = append(l, f+sha1hex([]byte(c)))
	}
	sort.Strings(l)
	return strings.Join(l, ",")
}

// digest identifies a model state.
func (m *Model) digest() string {
	var s []string
	for k, r := range m.Repos {
		var l []string
		for id := range r.Pk {
			l = append(l, id)
		}
		for id := range r.De {
			l = append(l, id)
		}
		for f, c := range r.Assets {
			l = append(l, f+sha1hex([]byte(c))[:6])
		}
		sort.Strings(l)
		s = append(s, k+"="+strings.Join(l, ","))
	}
	sort.Strings(s)
	return sha1hex([]byte(strings.Join(s, ";")))[:16]
}

func diffFiles(a, b map[string]FileObs) string {
	var s []string
	for k, v := range a {
		w, ok := b[k]
		if !ok {
			s = append(s, k+" removed")
		} else if v != w {
			s = append(s, k+" changed")
		}
	}
	for k := range b {
		if _, ok := a[k]; !ok {
			s = append(s, k+" added")
		}
	}
	sort.Strings(s)
	return strings.Join(s, ", ")
}

func fileExists(p string) bool { _, err := os.Lstat(p); return err == nil }

// ---------- generation ----------

type Profile struct {
	Repos   []string
	Weights map[string]int
	Len     int
	JobPct  int
}

var stdRepos = []string{"unstable", "stable", "un", "unstable-x", "A", "a"}

var baseWeights = map[string]int{"create": 4, "clone": 6, "pull": 8, "import": 16, "upload": 5, "rmsrc": 8, "copysrc": 8, "trimobs": 4, "trim": 5, "delete": 3, "index": 2, "assets": 5, "delta": 9, "reopen": 3}

func weights(over map[string]int) map[string]int {
	m := map[string]int{}
	for k, v := range baseWeights {
		m[k] = v
	}
	for k, v := range over {
		m[k] = v
	}
	return m
}

// gen proposes the next step of a random history.
func gen(r *rand.Rand, m *Model, p Profile) Step {
	var ex []string
	for k := range m.Repos {
		ex = append(ex, k)
	}
	sort.Strings(ex)
	any := func() string { // mostly existing
		if len(ex) > 0 && r.Intn(20) != 0 {
			return ex[r.Intn(len(ex))]
		}
		return p.Repos[r.Intn(len(p.Repos))]
	}
	fresh := func() string {
		for i := 0; i < 6; i++ {
			n := p.Repos[r.Intn(len(p.Repos))]
			if m.Repos[n] == nil {
				return n
			}
		}
		return p.Repos[r.Intn(len(p.Repos))]
	}
	if len(ex) == 0 {
		return Step{Op: "create", Repo: fresh(), Job: r.Intn(2) == 0}
	}
	var ops []string
	for o := range p.Weights {
		ops = append(ops, o)
	}
	sort.Strings(ops)
	tot := 0
	for _, o := range ops {
		tot += p.Weights[o]
	}
	x := r.Intn(tot)
	op := ""
	for _, o := range ops {
		if x < p.Weights[o] {
			op = o
			break
		}
		x -= p.Weights[o]
	}
	s := Step{Op: op, Repo: any(), Job: r.Intn(100) < p.JobPct}
	if q := m.Pend; q != nil {
		// its job is still going; it holds the lock of its package name
		if op == "mkdelta" || op == "reopen" || (op == "delta" || op == "deltarepo") && s.Repo == q.Repo || r.Intn(5) == 0 {
			return Step{Op: "incldelta", Repo: q.Repo}
		}
		switch r.Intn(5) { // what may get in its way
		case 0:
			return Step{Op: "rmsrc", Repo: q.Repo, Source: m.sp(q.To).Source, N: []int{-1, m.sp(q.From).Release, m.sp(q.To).Release}[r.Intn(3)], Job: s.Job}
		case 1, 2:
			for _, k := range ex {
				if mr := m.Repos[k]; k != q.Repo && mr.Pk[q.From] && mr.Pk[q.To] && !mr.De[q.ID] {
					return Step{Op: "delta", Repo: k, Name: m.sp(q.To).Name, Flag: s.Job}
				}
			}
			for _, k := range ex {
				if k != q.Repo && !m.Repos[k].Pk[q.From] {
					return Step{Op: "copysrc", Repo: q.Repo, Target: k, Source: m.sp(q.To).Source, N: -1, Job: s.Job}
				}
			}
		}
	}
	srcOf := func(rid string) (string, int) {
		var ids []string
		if mr := m.Repos[rid]; mr != nil {
			for id := range mr.Pk {
				ids = append(ids, id)
			}
		}
		sort.Strings(ids)
		if len(ids) == 0 || r.Intn(12) == 0 {
			sp := m.cat.Pkgs[m.cat.IDs[r.Intn(len(m.cat.IDs))]].Spec
			return sp.Source, sp.Release
		}
		sp := m.sp(ids[r.Intn(len(ids))])
		return sp.Source, sp.Release
	}
	switch op {
	case "create":
		s.Repo = fresh()
	case "clone":
		s.Target, s.Flag = fresh(), r.Intn(2) == 0
	case "pull":
		s.Target = any()
		if s.Target == s.Repo {
			s.Target = p.Repos[r.Intn(len(p.Repos))]
		}
		if s.Target == s.Repo {
			return Step{Op: "index", Repo: s.Repo}
		}
	case "copysrc":
		s.Target = any()
		if s.Target == s.Repo {
			s.Target = p.Repos[r.Intn(len(p.Repos))]
		}
		if s.Target == s.Repo {
			return Step{Op: "index", Repo: s.Repo}
		}
		s.Source, s.N = srcOf(s.Repo)
		if r.Intn(3) == 0 {
			s.N = []int{-1, 0}[r.Intn(2)]
		}
		s.Flag = r.Intn(3) == 0
	case "import":
		n := 1 + r.Intn(6)
		for i := 0; i < n; i++ {
			s.Pkgs = append(s.Pkgs, m.cat.IDs[r.Intn(len(m.cat.IDs))])
		}
		if r.Intn(3) == 0 { // all releases of a name
			s.Pkgs = nil
			for _, cp := range m.cat.ByNm[m.cat.Names[r.Intn(len(m.cat.Names))]] {
				s.Pkgs = append(s.Pkgs, cp.ID)
			}
			r.Shuffle(len(s.Pkgs), func(i, j int) { s.Pkgs[i], s.Pkgs[j] = s.Pkgs[j], s.Pkgs[i] })
		}
	case "upload":
		// one package per name; either all newer, or one package that is refused
		mr := m.Repos[s.Repo]
		var ok []string
		used := map[string]bool{}
		for i := 0; i < 1+r.Intn(4); i++ {
			id := m.cat.IDs[r.Intn(len(m.cat.IDs))]
			nm := m.sp(id).Name
			if used[nm] {
				continue
			}
			if mr != nil {
				if pub, has := m.pub(mr)[nm]; has && m.sp(pub).Release >= m.sp(id).Release {
					if len(ok) == 0 {
						return Step{Op: "upload", Repo: s.Repo, Pkgs: []string{id}}
					}
					continue
				}
			}
			used[nm] = true
			ok = append(ok, id)
		}
		s.Pkgs = ok
	case "rmsrc":
		s.Source, s.N = srcOf(s.Repo)
		if r.Intn(4) == 0 {
			s.N = []int{-1, 0}[r.Intn(2)]
		} else if r.Intn(8) == 0 && s.N < 2147483647 {
			s.N++
		}
	case "trim":
		s.N = []int{0, 1, 1, 2, 2, 3, 4, -1, 10}[r.Intn(9)]
	case "assets":
		s.N = r.Intn(len(assetVariants))
	case "deltarepo":
		if m.Repos[s.Repo] == nil {
			return Step{Op: "index", Repo: s.Repo}
		}
	case "mkdelta":
		if mr := m.Repos[s.Repo]; mr != nil {
			pub := m.pub(mr)
			var ids []string
			for id := range mr.Pk {
				t := m.sp(pub[m.sp(id).Name])
				if a := m.sp(id); deltaPossible(a, t) && sharesContent(a, t) && !m.deltaInPool(deltaName(a, t)) {
					ids = append(ids, id)
				}
			}
			sort.Strings(ids)
			if len(ids) > 0 {
				a := ids[r.Intn(len(ids))]
				s.Pkgs = []string{a, pub[m.sp(a).Name]}
				return s
			}
		}
		return Step{Op: "index", Repo: s.Repo}
	case "delta":
		if r.Intn(5) == 0 {
			if x := m.anyDelta(r, s.Repo); x != "" {
				return Step{Op: "refdelta", Repo: s.Repo, Name: x}
			}
		}
		s.Name = m.cat.Names[r.Intn(len(m.cat.Names))]
		if mr := m.Repos[s.Repo]; mr != nil {
			cnt := map[string]int{}
			var nn []string
			for id := range mr.Pk {
				n := m.sp(id).Name
				cnt[n]++
				if cnt[n] == 2 {
					nn = append(nn, n)
				}
			}
			sort.Strings(nn)
			if len(nn) > 0 {
				s.Name = nn[r.Intn(len(nn))]
			}
		}
		s.Flag = r.Intn(2) == 0
	}
	return s
}

// runHistories drives n random histories, reporting what concerns prop.
func runHistories(c *Ctx, prop string, cat *Catalog, n int, p Profile, script func(i int, h *Hist) bool) {
	if p.Repos == nil {
		p.Repos = stdRepos
	}
	c.Each(n, 0, func(i int) {
		h := newHist(c, cat, prop)
		defer h.close()
		if script == nil || !script(i, h) {
			r := c.Rng("hist", i)
			for k := 0; k < p.Len && !h.Dead; k++ {
				h.step(gen(r, h.m, p))
			}
		}
		key := ""
		if len(h.Done) > 1 {
			key = fmt.Sprint(i, h.m.digest())
		}
		c.Eval(key)
		for s := range h.states {
			c.State(s)
		}
		if i < 2 {
			c.Sample(h.Done)
		}
	})
	c.Extra("distinct_model_states", c.NStates())
}
