package main

import (
	"fmt"
	"math/rand"
	"os"
	"path"
	"path/filepath"
	"strings"
	"sync"

	"github.com/getsolus/ferryd/src/ferryd/jobs"
)

// C22: hostile names everywhere a name can be given; every file-system
// mutation of the real code is checked against the area the operation
// concerns, and the files around the base directory are compared.

func init() {
	register(&Check{ID: "C22", Level: "exploration",
		Rule:   "an evaluation is one operation with a hostile name, every file-system mutation of which was seen and judged; distinct by kind of name, place it was used and outcome",
		Assume: []string{"what xz and zstd do with the file they are told to compress is judged by comparing the directory trees, not call by call"},
		Run:    runC22})
}

// set by the instrumented build
var (
	namesInstall func(scratch string)
	namesPolicy  func(dir string, pol func(op, path, path2 string) bool)
	namesDenied  func() []string
)

func lexClean(p string) string {
	if p == "" {
		return ""
	}
	return path.Clean(p)
}

// hostile strings, by kind
func hostileNames(r *rand.Rand, wd string) (kind, s string) {
	base := []string{"victim", "canary", "keep", "repo", "nano", "x"}[r.Intn(6)]
	l := [][2]string{
		{"dotdot", ".."}, {"dot", "."}, {"empty", ""}, {"slash", "/"}, {"dotslash", "./"}, {"dotdotslash", "../"}, {"dots", "..."},
		{"parent", "../" + base}, {"parent2", "../../" + base}, {"parent3", "../../../" + base}, {"deep", strings.Repeat("../", 4+r.Intn(8)) + strings.TrimPrefix(wd, "/") + "/canary"},
		{"abs", wd + "/canary"}, {"abs2", wd + "/base/repo/victim"}, {"inner", "a/../../" + base}, {"inner2", base + "/../../../" + base}, {"inner3", "x/../" + base},
		{"sub", "a/" + base}, {"trailslash", base + "/"}, {"traildots", base + "/.."}, {"leadslash", "/" + base},
		{"long", strings.Repeat("n", 256+r.Intn(200))}, {"longpath", strings.Repeat("n/", 100)}, {"nul", "a\x00b"}, {"nl", "a\nb"}, {"space", " "}, {"dash", "-rf"},
		{"hidden", "." + base}, {"hiddenparent", "..x"}, {"bs", `..\` + base}, {"pct", "%2e%2e%2f" + base}, {"uni", "é" + base}, {"uni2", "лib" + base}, {"lib", "lib"}, {"libdots", "lib/../../" + base}, {"libslash", "lib/"}, {"libdot", "lib."},
		{"bucket", "|bucket|-" + base}, {"rootbucket", "|rootBucket|-" + base}, {"bar", "|" + base}, {"glob", "*"}, {"victim", "victim"}, {"sibling", "victim/nano"},
		{"pool", "../pool"}, {"repo", "../repo/victim"}, {"repos", "../../repo/victim"}, {"incoming", "../incoming"}, {"db", "../ferry_db"},
	}
	e := l[r.Intn(len(l))]
	return e[0], e[1]
}

type nameWorld struct {
	c    *Ctx
	w    *World
	wd   string
	r    *rand.Rand
	log  []string
	mu   sync.Mutex
	bad  []string
	nev  int64
	acc  map[string]accepted // what the pool holds
	offr map[string]accepted // what the next operation offers
	dead bool
	// run after an operation that was refused
	cleanup func()
}

// plain reports whether a string is one plain path component.
func plain(s string) bool {
	return s != "" && s != "." && s != ".." && !strings.ContainsAny(s, "/\x00")
}

// do runs op, permitting mutations only in the areas of the named
// repositories, the pool, the databases and the listed further paths.
func (n *nameWorld) do(kind, where, what string, repos []string, extra []string, f func() error) error {
	if n.dead {
		return nil
	}
	base := n.w.Dir
	okdir := func(rel string) bool {
		if strings.HasPrefix(rel, "ferry_db") || strings.HasPrefix(rel, "pool/") {
			return true
		}
		for _, id := range repos {
			if !plain(id) {
				continue
			}
			for _, top := range []string{"repo", "assets", "deltaBuilds", "deltaStaging"} {
				if rel == top+"/"+id || strings.HasPrefix(rel, top+"/"+id+"/") {
					return true
				}
			}
		}
		return false
	}
	permitted := func(op, p string) bool {
		rel := strings.TrimPrefix(p, base+"/")
		if rel != p && okdir(rel) {
			return true
		}
		// creating a directory that is there already has no effect
		if op == "mkdir" {
			if fi, err := os.Stat(p); err == nil && fi.IsDir() {
				return true
			}
		}
		for _, e := range extra {
			if p == e && op == "unlink" {
				return true
			}
		}
		return false
	}
	n.bad = nil
	before := tree(n.wd)
	ob := observe(n.w.M, base, nil)
	for id, a := range n.offr {
		if _, ok := n.acc[id]; !ok {
			n.acc[id] = a
		}
	}
	n.offr = map[string]accepted{}
	defer func() {
		o := observe(n.w.M, base, nil)
		for id := range n.acc {
			if o.Pool[id] == nil {
				delete(n.acc, id)
			}
		}
		for id, p := range o.Pool {
			if _, ok := n.acc[id]; !ok {
				n.acc[id] = accepted{o.PoolFiles[p.URI].Size, o.PoolFiles[p.URI].Sha1}
			}
		}
	}()
	namesPolicy(n.wd+"/", func(op, p, p2 string) bool {
		n.mu.Lock()
		defer n.mu.Unlock()
		n.nev++
		if strings.ContainsRune(p+p2, 0) {
			return true // no such path can be passed to the system
		}
		ok := permitted(op, p) && (op != "rename" || permitted(op, p2))
		if !ok {
			n.bad = append(n.bad, strings.TrimSpace(op+" "+p+" "+p2))
		}
		return ok
	})
	err := f()
	namesPolicy(n.wd+"/", nil)
	n.log = append(n.log, fmt.Sprintf("%s => %v", what, err))
	after := tree(n.wd)
	if err != nil && n.cleanup != nil {
		n.cleanup()
	}
	n.cleanup = nil
	o := observe(n.w.M, base, nil)
	// a repository that exists only now is the operation's own
	var ps Problems
	for _, b := range n.bad {
		ps.add("C22", "mutation:"+where, "%s (outside the area of %q)", strings.Replace(b, n.wd, "<dir>", -1), repos)
	}
	rm, ad, ch := treeDiff(before, after, "")
	for i, l := range [][]string{rm, ad, ch} {
		for _, f := range l {
			p := n.wd + "/" + f
			rel := strings.TrimPrefix(p, base+"/")
			if rel != p && okdir(rel) {
				continue
			}
			ex := false
			for _, e := range extra {
				ex = ex || e == p
			}
			if ex && i == 0 {
				continue
			}
			ps.add("C22", []string{"removed:", "created:", "changed:"}[i]+where, "%s", f)
		}
	}
	for _, d := range []string{"pool", "repo", "assets", "deltaBuilds", "incoming"} {
		if fi, e := os.Stat(filepath.Join(base, d)); e != nil || !fi.IsDir() {
			ps.add("C22", "area-gone:"+where, "the directory %s is gone", d)
		}
	}
	// every listed package still is what it was, also where the hostile one lives
	for _, x := range checkInvariants(o, invOpts{Orphans: true, Accepted: n.acc}) {
		if x.Key == "index-leftover" {
			continue
		}
		ps.add("C22", x.Key+":"+where, "%s", x.Msg)
	}
	// repositories that are not concerned list what they listed
	for rid, a := range ob.Repos {
		mine := false
		for _, id := range repos {
			mine = mine || id == rid
		}
		if mine {
			continue
		}
		if b := o.Repos[rid]; b == nil {
			ps.add("C22", "repo-lost:"+where, "repository %q is gone", rid)
		} else if d := setDiff(idSet(b.IDs()), idSet(a.IDs())); d != "" {
			ps.add("C22", "list:"+where, "repository %q: %s", rid, d)
		}
	}
	if err != nil {
		if d := stateDiff(ob, o); d != "" {
			ps.add("C22", "failed-but-changed:"+where, "failed (%v), but %s", err, d)
		}
	}
	for _, p := range ps {
		n.c.Violate(p.Key+":"+kind, what+": "+p.Msg, map[string]interface{}{"operations": append([]string{}, n.log...), "all": strings.Split(ps.String(), "\n")})
	}
	if len(ps) > 0 {
		n.dead = true
	}
	res := "refused"
	if err == nil {
		res = "done"
	}
	n.c.Count("operations_"+res, 1)
	n.c.Eval(where + "|" + kind + "|" + res)
	n.c.State(where + "|" + kind)
	return err
}

func (n *nameWorld) job(kind, where, what string, repos []string, extra []string, j *jobs.JobEntry) error {
	return n.do(kind, where, what, repos, extra, func() error { return viaJob(n.w.M, j) })
}

func (n *nameWorld) accept(p string) {
	s, sz, _, err := sha1file(p)
	if err == nil {
		n.offr[filepath.Base(p)] = accepted{sz, s}
	}
}

func (n *nameWorld) stage(s *PkgSpec, name string) (p string) {
	n.w.nst++
	d := filepath.Join(n.w.Stage, fmt.Sprint(n.w.nst))
	must(os.MkdirAll(d, 0755))
	s.norm()
	if len(name) > 250 || !plain(name) {
		name = fmt.Sprintf("odd%d-%d.eopkg", n.w.nst, s.Release)
	}
	return s.WriteAs(d, name)
}

func q(s string) string { return fmt.Sprintf("%q", cut(s, 80)) }

func runC22(c *Ctx) {
	namesInstall(c.Dir)
	c.Each(c.N(220, 4000), 8, func(i int) { namesCase(c, i) })
	for _, d := range namesDenied() {
		c.Violate("outside-scratch", "a mutation outside the scratch directory was attempted: "+d, nil)
	}
}

func namesCase(c *Ctx, i int) {
	r := c.Rng("names", i)
	wd := c.TempDir("n")
	defer func() { os.RemoveAll(wd) }()
	for _, f := range []string{"canary/keep", "victim/nano", "x.eopkg", "repo/victim/a", "nano.eopkg", "keep", "pool/p"} {
		must(os.MkdirAll(filepath.Dir(filepath.Join(wd, f)), 0755))
		must(os.WriteFile(filepath.Join(wd, f), []byte("precious "+f), 0644))
	}
	cat := &Catalog{Pkgs: map[string]*CatPkg{}, ByNm: map[string][]*CatPkg{}}
	w := newWorld(wd, cat)
	n := &nameWorld{c: c, w: w, wd: wd, r: r, acc: map[string]accepted{}, offr: map[string]accepted{}}
	defer func() {
		namesPolicy(wd+"/", nil)
		w.M.Close()
		c.Count("mutations_judged", n.nev)
	}()
	inc := filepath.Join(w.Dir, "incoming")
	must(os.WriteFile(filepath.Join(inc, "other.eopkg"), []byte("other upload"), 0644))
	must(os.WriteFile(filepath.Join(w.Dir, "base.eopkg"), []byte("not an upload"), 0644))
	must(os.WriteFile(filepath.Join(w.Dir, "repo", "loose"), []byte("loose"), 0644))
	// a repository nothing here names, and one that is used
	for _, id := range []string{"victim", "t"} {
		must(w.M.CreateRepo(id))
		var ps []string
		for rel := 1; rel <= 2; rel++ {
			s := &PkgSpec{Name: "nano", Release: rel, Files: []FileSpec{{Path: "usr/nano", Content: "same"}, {Path: "usr/rel", Content: fmt.Sprint(rel)}}}
			p := n.stage(s, s.ID())
			n.accept(p)
			ps = append(ps, p)
		}
		must(w.M.AddPackages(id, ps, false))
		for k, v := range n.offr {
			n.acc[k] = v
		}
	}
	setAssets(filepath.Join(w.Dir, "assets", "victim"), assetVariants[2])
	setAssets(filepath.Join(w.Dir, "assets", "t"), assetVariants[1])
	must(w.M.Index("victim"))
	if n.dead {
		return
	}
	switch i % 4 {
	case 0:
		n.repoIDs()
	case 1, 2:
		n.packages()
	case 3:
		n.manifests()
	}
	if i < 4 {
		c.Sample(n.log)
	}
}

// repoIDs uses a hostile repository id wherever one can be given.
func (n *nameWorld) repoIDs() {
	for k := 0; k < 6 && !n.dead; k++ {
		kind, id := hostileNames(n.r, n.wd)
		if n.r.Intn(8) == 0 {
			_, x := hostileNames(n.r, n.wd)
			id = id + x
			kind += "+"
		}
		if id == "victim" || id == "t" {
			continue
		}
		area := []string{id}
		var err error
		if n.r.Intn(2) == 0 {
			err = n.job(kind, "create", "create "+q(id), area, nil, jobs.NewCreateRepoJob(id))
		} else {
			full := n.r.Intn(2) == 0
			err = n.job(kind, "clone", fmt.Sprintf("clone victim to %s (full %v)", q(id), full), area, nil, jobs.NewCloneRepoJob("victim", id, full))
		}
		// whether or not it exists now, every other operation on it
		s := &PkgSpec{Name: "vim", Release: 3 + k, Files: []FileSpec{{Path: "usr/vim", Content: fmt.Sprint(k)}}, NoTar: true}
		p := n.stage(s, s.ID())
		ops := []func(){
			func() { n.job(kind, "index-id", "index "+q(id), area, nil, jobs.NewIndexRepoJob(id)) },
			func() {
				n.accept(p)
				n.job(kind, "import-id", "import into "+q(id), area, nil, jobs.NewBulkAddJob(id, []string{p}))
			},
			func() {
				n.job(kind, "pull-to", "pull victim into "+q(id), area, nil, jobs.NewPullRepoJob("victim", id))
			},
			func() {
				n.job(kind, "pull-from", "pull "+q(id)+" into t", []string{"t"}, nil, jobs.NewPullRepoJob(id, "t"))
			},
			func() {
				n.job(kind, "copy-to", "copy nano to "+q(id), area, nil, jobs.NewCopySourceJob("victim", id, "nano", -1, n.r.Intn(2) == 0))
			},
			func() {
				n.job(kind, "remove-id", "remove nano from "+q(id), area, nil, jobs.NewRemoveSourceJob(id, "nano", -1))
			},
			func() { n.job(kind, "trim-id", "trim "+q(id), area, nil, jobs.NewTrimPackagesJob(id, 1)) },
			func() { n.job(kind, "trimobs-id", "trim obsolete "+q(id), area, nil, jobs.NewTrimObsoleteJob(id)) },
			func() { n.job(kind, "delta-id", "delta nano in "+q(id), area, nil, jobs.NewDeltaIndexJob(id, "nano")) },
			func() {
				n.job(kind, "clone-from", "clone "+q(id)+" to c"+fmt.Sprint(k), []string{fmt.Sprint("c", k)}, nil, jobs.NewCloneRepoJob(id, fmt.Sprint("c", k), true))
			},
		}
		n.r.Shuffle(len(ops), func(a, b int) { ops[a], ops[b] = ops[b], ops[a] })
		cnt := 2
		if err == nil {
			cnt = 4
		}
		for _, f := range ops[:cnt] {
			f()
		}
		n.job(kind, "delete-id", "delete "+q(id), area, nil, jobs.NewDeleteRepoJob(id))
	}
}

// packages imports packages whose metadata or file name is hostile and then
// works with them.
func (n *nameWorld) packages() {
	for k := 0; k < 5 && !n.dead; k++ {
		kind, h := hostileNames(n.r, n.wd)
		field := []string{"source", "source", "name", "version", "arch", "distrel", "uri", "file", "file", "partof"}[n.r.Intn(10)]
		h = strings.ReplaceAll(h, "\x00", "")
		mk := func(rel int) (string, *PkgSpec) {
			s := &PkgSpec{Name: fmt.Sprintf("pk%d", k), Release: rel, Version: fmt.Sprint("1.", rel), Files: []FileSpec{{Path: "usr/a", Content: "the same in all"}, {Path: "usr/b", Content: fmt.Sprint(k, rel)}}}
			s.norm()
			id := s.ID()
			switch field {
			case "source":
				s.Source = h
				if h == "" {
					s.Source = "\x01empty"
				}
			case "name":
				s.Name = h
			case "version":
				s.Version = h
			case "arch":
				s.Arch = h
			case "distrel":
				s.DistRel = h
			case "uri":
				s.Extra = "<PackageURI>" + xesc(h) + "/" + id + "</PackageURI><PackageHash>0</PackageHash>"
			case "partof":
				s.PartOf = h
			case "file":
				id = []string{"nano-1.1-1-1-x86_64.eopkg", "nano-1.2-2-1-x86_64.eopkg", "pk0.delta.eopkg", "nano-1-2-1-x86_64.delta.eopkg", "..eopkg", "...", "-f.eopkg", ".new", "eopkg-index.xml", "a b.eopkg", "é.eopkg", "nano", fmt.Sprintf("pk%d-1-2-1-x86_64.delta.eopkg", k), "|bucket|-x.eopkg"}[n.r.Intn(14)]
				kind = id
			}
			p := ""
			if s.Source == "\x01empty" {
				s.Source = "x"
				d := filepath.Join(n.w.Stage, fmt.Sprint("e", k, "-", rel))
				must(os.MkdirAll(d, 0755))
				p = filepath.Join(d, id)
				writeZip(p, []zent{{"metadata.xml", []byte(strings.Replace(s.MetadataXML(), "<Name>x</Name>", "<Name></Name>", 1))}, {"files.xml", []byte(s.FilesXML())}, {"install.tar.xz", []byte("x")}})
			} else {
				p = n.stage(s, id)
			}
			return p, s
		}
		var paths []string
		var spec *PkgSpec
		for rel := 1; rel <= 2; rel++ {
			p, s := mk(rel)
			if field == "file" && rel == 2 {
				break
			}
			spec = s
			paths = append(paths, p)
		}
		t := []string{"t", "victim"}[n.r.Intn(2)]
		where := "pkg-" + field
		// one by one: a refused one does not keep the other out
		okc := 0
		for _, p := range paths {
			n.accept(p)
			if err := n.job(kind, where, fmt.Sprintf("import %s with %s %s into %s", filepath.Base(p), field, q(h), t), []string{t}, nil, jobs.NewBulkAddJob(t, []string{p})); err == nil {
				okc++
			}
		}
		n.c.Count("hostile_packages_let_in", int64(okc))
		ar := []string{t}
		ops := []func(){
			func() { n.job(kind, where+"-delta", "delta", ar, nil, jobs.NewDeltaIndexJob(t, spec.Name)) },
			func() { n.job(kind, where+"-index", "index", ar, nil, jobs.NewIndexRepoJob(t)) },
			func() { n.job(kind, where+"-delta2", "delta", ar, nil, jobs.NewDeltaIndexJob(t, "nano")) },
			func() { n.job(kind, where+"-trim", "trim", ar, nil, jobs.NewTrimPackagesJob(t, 1)) },
			func() {
				n.job(kind, where+"-clone", "clone", []string{fmt.Sprint("k", k)}, nil, jobs.NewCloneRepoJob(t, fmt.Sprint("k", k), true))
			},
			func() {
				n.job(kind, where+"-remove", "remove source", ar, nil, jobs.NewRemoveSourceJob(t, spec.Source, -1))
			},
			func() {
				for _, p := range paths {
					n.accept(p)
				}
				n.job(kind, where+"-upload", "delete and re-import", ar, nil, jobs.NewBulkAddJob(t, paths))
			},
		}
		if okc > 0 {
			for _, f := range ops {
				if n.r.Intn(3) > 0 {
					f()
				}
			}
		} else {
			ops[n.r.Intn(2)]()
		}
		if k == 4 && !n.dead {
			n.job(kind, where+"-delete", "delete "+t, ar, nil, jobs.NewDeleteRepoJob(t))
		}
	}
}

// manifests uploads with hostile file entries and targets.
func (n *nameWorld) manifests() {
	inc := filepath.Join(n.w.Dir, "incoming")
	for k := 0; k < 6 && !n.dead; k++ {
		kind, h := hostileNames(n.r, n.wd)
		s := &PkgSpec{Name: fmt.Sprintf("up%d", k), Release: 1, Files: []FileSpec{{Path: "usr/a", Content: fmt.Sprint(k)}}, NoTar: true}
		s.norm()
		id := s.ID()
		target := "t"
		entry := id
		place := filepath.Join(inc, id)
		var links []string
		mode := []string{"path", "path", "path", "target", "symlink", "symdir", "manifest"}[n.r.Intn(7)]
		mname := fmt.Sprintf("m%d.tram", k)
		switch mode {
		case "path":
			entry = strings.ReplaceAll(h, "\x00", "")
			switch {
			case !strings.HasSuffix(entry, "/") && n.r.Intn(2) == 0:
				entry += ".eopkg"
			default:
				entry = strings.TrimSuffix(entry, "/") + "/" + id
			}
			// the entry leads to a real, valid package
			place = filepath.Join(inc, entry)
		case "target":
			target = strings.ReplaceAll(h, "\x00", "")
		case "symlink":
			place = filepath.Join(n.wd, "canary", id)
			links = append(links, filepath.Join(inc, id))
		case "symdir":
			entry = "sub" + fmt.Sprint(k) + "/" + id
			place = filepath.Join(n.wd, "canary", id)
			must(os.Symlink(filepath.Join(n.wd, "canary"), filepath.Join(inc, fmt.Sprint("sub", k))))
		case "manifest":
			mname = []string{"..tram", "-x.tram", " .tram", "a b.tram", "é.tram"}[n.r.Intn(5)]
		}
		if !strings.HasPrefix(place, n.wd+"/") || len(filepath.Base(place)) > 250 {
			continue // would have to be placed outside the scratch directory
		}
		if err := os.MkdirAll(filepath.Dir(place), 0755); err != nil {
			continue
		}
		if fi, err := os.Stat(place); err == nil && fi.IsDir() {
			continue
		}
		tmp := n.stage(s, id)
		b, err := os.ReadFile(tmp)
		must(err)
		os.Remove(place)
		must(os.WriteFile(place, b, 0644))
		for _, l := range links {
			must(os.Symlink(place, l))
		}
		n.offr[id] = accepted{int64(len(b)), sha1hex(b)}
		n.offr[filepath.Base(place)] = n.offr[id]
		man := fmt.Sprintf("[manifest]\nversion = \"1.0\"\ntarget = %s\n\n[[file]]\npath = %s\nsha256 = \"%s\"\n", tomlQuote(target), tomlQuote(entry), sha256hex(b))
		mp := filepath.Join(inc, mname)
		must(os.WriteFile(mp, []byte(man), 0644))
		// what was refused and lies in a repository does so because we put it there
		if !strings.HasPrefix(place, inc+"/") {
			n.cleanup = func() { os.Remove(place) }
		}
		// files of the upload lie inside incoming
		extra := []string{mp}
		in := filepath.Join(inc, entry)
		if strings.HasPrefix(in, inc+"/") && mode != "symdir" {
			extra = append(extra, in)
		}
		ar := []string{}
		if plain(target) {
			ar = append(ar, target)
		}
		n.job(kind, "manifest-"+mode, fmt.Sprintf("upload %s listing %s (at %s) for %s", q(mname), q(entry), strings.Replace(place, n.wd, "<dir>", 1), q(target)), ar, extra, jobs.NewTransitJob(mp))
		os.Remove(mp)
		for _, l := range links {
			os.Remove(l)
		}
	}
	if !n.dead {
		n.job("", "manifest-index", "index", []string{"t"}, nil, jobs.NewIndexRepoJob("t"))
	}
}

func tomlQuote(s string) string {
	var b strings.Builder
	b.WriteByte('"')
	for _, c := range s {
		switch {
		case c == '"' || c == '\\':
			b.WriteByte('\\')
			b.WriteRune(c)
		case c < 32:
			fmt.Fprintf(&b, "\\u%04X", c)
		default:
			b.WriteRune(c)
		}
	}
	b.WriteByte('"')
	return b.String()
}
