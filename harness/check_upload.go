package main

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// C12: generated uploads - complete, damaged, incomplete, malformed, not newer -
// through the real transit job; repositories, pool and the incoming area are
// compared with what the upload allows.

func init() {
	register(&Check{ID: "C12", Level: "exploration",
		Rule:   "an evaluation is one upload processed by the transit job and judged; distinct by world and upload number",
		Assume: []string{"nobody changes an uploaded file while it is being processed", "which packages of an upload precede the one that is refused as not newer may have been imported is left open"},
		Run:    runC12})
}

func uploadSpecs() (out []*PkgSpec) {
	for _, n := range []string{"nano", "vim", "nano-devel", "zz"} {
		for _, r := range []int{1, 2, 3, 9, 10, 12} {
			for v := 0; v < 2; v++ {
				s := &PkgSpec{Name: n, Source: strings.TrimSuffix(n, "-devel"), Release: r, Version: fmt.Sprintf("%d.%d", 3+v, r%5), NoTar: true, Salt: fmt.Sprint(n, r, v)}
				s.Files = []FileSpec{{Path: "usr/share/" + n, Content: fmt.Sprint(n, r, v)}}
				out = append(out, s)
			}
		}
	}
	return
}

type uploadFile struct {
	id   string // package whose content is uploaded
	name string // file name used
	sha  string
	want bool // the file is fine
}

// upload is one generated upload and what may come of it.
type upload struct {
	Manifest string
	Name     string
	Target   string
	Files    []string
	Defect   string
	OK       bool // must succeed
	Clean    bool // must be refused without any trace
}

func tomlStr(r *rand.Rand, s string) string {
	if !strings.ContainsAny(s, "'\n") && r.Intn(3) == 0 {
		return "'" + s + "'"
	}
	return `"` + strings.NewReplacer(`\`, `\\`, `"`, `\"`).Replace(s) + `"`
}

func pad(r *rand.Rand, s string) string {
	switch r.Intn(8) {
	case 0:
		return " " + s
	case 1:
		return s + "\t "
	}
	return s
}

// genUpload writes an upload into dir and says what is expected of it.
func genUpload(r *rand.Rand, w *World, m *Model, dir string, serial int) *upload {
	u := &upload{Name: fmt.Sprintf("up%d.tram", serial), Target: "un", OK: true}
	if r.Intn(3) == 0 {
		u.Target = "stable"
	}
	repo := m.Repos[u.Target]
	pub := m.pub(repo)
	all := []string{}
	for id := range w.cat.Pkgs {
		all = append(all, id)
	}
	sort.Strings(all)
	newer := func(id string) bool {
		p, ok := pub[m.sp(id).Name]
		return !ok || m.sp(p).Release < m.sp(id).Release
	}
	// files, one package per name and ascending: each is newer when its turn comes
	n := 1 + r.Intn(4)
	var ids []string
	used := map[string]bool{}
	for k := 0; k < 200 && len(ids) < n; k++ {
		id := all[r.Intn(len(all))]
		if used[m.sp(id).Name] || !newer(id) {
			continue
		}
		used[m.sp(id).Name] = true
		ids = append(ids, id)
	}
	defect := ""
	if r.Intn(3) > 0 || len(ids) == 0 {
		defect = []string{"missing", "flipped", "cut", "empty", "directory", "sha-wrong", "sha-short", "sha-other", "not-eopkg", "no-target", "blank-target", "bad-target", "no-version", "bad-version", "num-version", "no-files", "no-path", "no-sha", "truncated", "garbage", "empty-manifest", "not-newer", "not-newer", "not-newer", "longer", "wrong-type"}[r.Intn(26)]
	}
	if len(ids) == 0 && defect != "not-newer" {
		defect = "no-files"
	}
	u.Defect = defect
	at := 0
	if len(ids) > 0 {
		at = r.Intn(len(ids))
	}
	if defect == "not-newer" {
		var old []string
		for _, id := range all {
			if !newer(id) && !used[m.sp(id).Name] {
				old = append(old, id)
			}
		}
		if len(old) == 0 {
			if len(ids) == 0 {
				defect, u.Defect = "no-files", "no-files"
			} else {
				defect, u.Defect = "", ""
			}
		} else {
			x := old[r.Intn(len(old))]
			if len(ids) == 0 || r.Intn(2) == 0 {
				ids = append(ids, x)
			} else {
				ids = append([]string{x}, ids...)
			}
		}
	}
	version, target := `"1.0"`, tomlStr(r, pad(r, u.Target))
	var segs [][2]string // label, text: labels of cut points within them
	add := func(label, f string, a ...interface{}) {
		segs = append(segs, [2]string{label, fmt.Sprintf(f, a...)})
	}
	switch defect {
	case "no-target":
		target = ""
	case "blank-target":
		target = `"  "`
	case "bad-target":
		target = tomlStr(r, []string{"nope", "UN", "un/", "u", "unn", "s table", "stable-"}[r.Intn(7)])
	case "no-version":
		version = ""
	case "bad-version":
		version = []string{`"2.0"`, `"1.0.0"`, `"1"`, `""`, `"10"`, `"v1.0"`}[r.Intn(6)]
	case "num-version":
		version = "1.0"
	}
	header := func() {
		s := "[manifest]\n"
		if version != "" {
			s += "version = " + version + "\n"
		}
		if r.Intn(6) == 0 {
			s += "# a comment\n"
		}
		if target != "" {
			s += "target = " + target + "\n"
		}
		add("header", "%s", s)
	}
	headFirst := r.Intn(5) > 0 || defect == "truncated"
	if headFirst {
		header()
	}
	for i, id := range ids {
		b, err := os.ReadFile(w.cat.Pkgs[id].Path)
		must(err)
		name, sha := id, sha256hex(b)
		mine := i == at && defect != "not-newer"
		content := b
		if mine {
			switch defect {
			case "flipped":
				content = append([]byte{}, b...)
				content[r.Intn(len(content))] ^= 1 << uint(r.Intn(8))
			case "cut":
				content = b[:r.Intn(len(b))]
			case "longer":
				content = append(append([]byte{}, b...), byte(r.Intn(256)))
			case "empty":
				content = nil
			case "sha-wrong":
				x := []byte(sha)
				k := r.Intn(len(x))
				if x[k] == '0' {
					x[k] = '1'
				} else {
					x[k] = '0'
				}
				sha = string(x)
			case "sha-short":
				sha = sha[:r.Intn(63)+1]
			case "sha-other":
				ob, err := os.ReadFile(w.cat.Pkgs[all[(sort.SearchStrings(all, id)+1)%len(all)]].Path)
				must(err)
				sha = sha256hex(ob)
			case "not-eopkg":
				name = []string{"nano.txt", id + ".sig", id + "x", "eopkg"}[r.Intn(4)]
			}
		}
		p := filepath.Join(dir, name)
		switch {
		case mine && defect == "missing":
			os.Remove(p)
		case mine && defect == "directory":
			os.Remove(p)
			must(os.Mkdir(p, 0755))
		default:
			must(os.WriteFile(p, content, 0644))
		}
		u.Files = append(u.Files, name)
		pl := "path = " + tomlStr(r, pad(r, name)) + "\n"
		sl := "sha256 = " + tomlStr(r, pad(r, sha)) + "\n"
		if mine && defect == "wrong-type" {
			pl = "path = 5\n"
		}
		if r.Intn(3) == 0 && defect != "truncated" {
			pl, sl = sl, pl
			if mine && defect == "no-path" {
				sl = ""
			}
			if mine && defect == "no-sha" {
				pl = ""
			}
		} else {
			if mine && defect == "no-path" {
				pl = ""
			}
			if mine && defect == "no-sha" {
				sl = ""
			}
		}
		if defect == "no-files" {
			continue
		}
		add("start", "\n[[file]]\n%s", pl)
		add("rest", "%s", sl)
	}
	if !headFirst {
		if len(segs) > 0 {
			add("gap", "\n")
		}
		header()
	}
	var t strings.Builder
	for _, s := range segs {
		t.WriteString(s[1])
	}
	u.Manifest = t.String()
	if r.Intn(8) == 0 {
		u.Manifest = strings.ReplaceAll(u.Manifest, "\n", "\r\n")
	}
	switch defect {
	case "truncated":
		// at a place where what is left is not a manifest of fewer files
		k := r.Intn(len(segs))
		pre := ""
		for _, s := range segs[:k] {
			pre += s[1]
		}
		x := segs[k]
		switch x[0] {
		case "header":
			pre += x[1][:r.Intn(len(x[1]))]
		case "start":
			pre += x[1][:2+r.Intn(len(x[1])-2)]
		case "rest":
			pre += x[1][:r.Intn(len(x[1])-2)]
		}
		u.Manifest = pre
	case "garbage":
		b := make([]byte, r.Intn(300))
		r.Read(b)
		u.Manifest = "\x00" + string(b)
		if r.Intn(2) == 0 {
			u.Manifest = t.String() + "\n= = [["
		}
	case "empty-manifest":
		u.Manifest = strings.Repeat("\n", r.Intn(3))
	}
	must(os.WriteFile(filepath.Join(dir, u.Name), []byte(u.Manifest), 0644))
	if defect != "" {
		u.OK, u.Clean = false, defect != "not-newer"
	}
	return u
}

func runC12(c *Ctx) {
	cat := newCatalog(filepath.Join(c.Dir, "w", "cat"), uploadSpecs())
	c.Each(c.N(160, 5000), 0, func(i int) { uploadWorld(c, cat, i) })
}

func uploadWorld(c *Ctx, cat *Catalog, i int) {
	r := c.Rng("world", i)
	h := newHist(c, cat, "C12")
	defer h.close()
	w := h.w
	inc := filepath.Join(w.Dir, "incoming")
	start := [][]string{cat.idsOf2("nano", 2), cat.idsOf2("vim", 3), cat.idsOf2("nano-devel", 9)}
	for _, rid := range []string{"un", "stable", "other"} {
		must(w.M.CreateRepo(rid))
		h.m.apply(st("create", rid))
		for _, ids := range start {
			if r.Intn(3) > 0 {
				l := ids[r.Intn(2) : 1+r.Intn(1)+0]
				if len(l) == 0 {
					l = ids[:1]
				}
				s := st("import", rid, l)
				must(w.M.AddPackages(rid, w.stageAll(l), false))
				h.m.apply(s)
			}
		}
	}
	// bystanders
	by := map[string]string{"readme.txt": "x", "nano.eopkg.part": "y", "later.tram.tmp": "z", "zz-1-1-1-x86_64.eopkg.bak": "w"}
	for k, v := range by {
		must(os.WriteFile(filepath.Join(inc, k), []byte(v), 0644))
	}
	var hist []interface{}
	for k := 0; k < 8; k++ {
		u := genUpload(r, w, h.m, inc, k)
		hist = append(hist, u)
		before := tree(w.Dir)
		ob := h.observe()
		err := viaJob(w.M, transitJob(filepath.Join(inc, u.Name)))
		o := h.observe()
		after := tree(w.Dir)
		var ps Problems
		what := fmt.Sprintf("world %d upload %d (%s)", i, k, map[bool]string{true: "complete", false: u.Defect}[u.Defect == ""])
		if u.OK && err != nil {
			ps.add("C12", "refused", "refused: %v", err)
		}
		if !u.OK && err == nil {
			ps.add("C12", "accepted:"+u.Defect, "accepted")
		}
		// incoming area
		rm, ad, ch := treeDiff(before, after, "incoming/")
		listed := map[string]bool{"incoming/" + u.Name: true}
		for _, f := range u.Files {
			listed["incoming/"+f] = true
		}
		for _, f := range append(ad, ch...) {
			ps.add("C12", "incoming-changed", "%s appeared or changed", f)
		}
		for _, f := range rm {
			if !u.OK {
				ps.add("C12", "incoming-removed", "%s was removed although the upload was refused", f)
			} else if !listed[f] {
				ps.add("C12", "incoming-foreign-removed", "%s was removed but is not part of the upload", f)
			}
		}
		if u.OK && err == nil {
			for f := range listed {
				if _, ok := after[f]; ok {
					ps.add("C12", "incoming-left", "%s is still there", f)
				}
			}
			oc := h.m.apply(st("upload", u.Target, u.Files))
			for _, x := range h.m.compare(o, st("upload", u.Target, u.Files), oc) {
				ps.add("C12", x.Key, "%s", x.Msg)
			}
			for _, x := range checkIndex(o, w.Dir, u.Target) {
				ps.add("C12", x.Key, "%s", x.Msg)
			}
		} else if u.Clean {
			if d := stateDiff(ob, o); d != "" {
				ps.add("C12", "changed:"+u.Defect, "refused, but %s", d)
			}
			for _, area := range []string{"repo/", "pool/", "assets/", "deltaBuilds/", "deltaStaging/"} {
				rm, ad, ch := treeDiff(before, after, area)
				if len(rm)+len(ad)+len(ch) > 0 {
					ps.add("C12", "files:"+u.Defect, "refused, but removed %v, added %v, changed %v", rm, ad, ch)
				}
			}
		} else {
			// not newer: only packages that were newer may have come in
			want := map[string]bool{}
			pub := h.m.pub(h.m.Repos[u.Target])
			for _, id := range u.Files {
				p, ok := pub[h.m.sp(id).Name]
				if !ok || h.m.sp(p).Release < h.m.sp(id).Release {
					want[id] = true
				}
			}
			for rid, ro := range o.Repos {
				old := idSet(ob.Repos[rid].IDs())
				for _, id := range ro.IDs() {
					if !old[id] && (rid != u.Target || !want[id]) {
						ps.add("C12", "not-newer-imported", "%s was brought into %s", id, rid)
					} else if !old[id] {
						h.m.Repos[rid].Pk[id] = true
					}
					delete(old, id)
				}
				for id := range old {
					ps.add("C12", "lost", "%s is no longer listed in %s", id, rid)
				}
			}
			for _, x := range checkInvariants(o, invOpts{Orphans: true, Accepted: cat.Accepted(), SharedCopy: true}) {
				ps.add("C12", x.Key, "%s", x.Msg)
			}
			h.m.Repos[u.Target].Fresh = false
		}
		for _, x := range ps {
			c.Violate(x.Key, what+": "+x.Msg, map[string]interface{}{"uploads": hist, "error": fmt.Sprint(err)})
		}
		if u.OK {
			c.Count("accepted", 1)
		} else {
			c.Count("refused:"+u.Defect, 1)
		}
		c.Eval(fmt.Sprint(i, ".", k))
		if len(ps) > 0 {
			return
		}
		// the same manifest announced again
		if u.OK && r.Intn(3) == 0 {
			before := tree(w.Dir)
			ob := h.observe()
			if err := viaJob(w.M, transitJob(filepath.Join(inc, u.Name))); err == nil {
				c.Violate("twice", what+" was accepted again after it had been removed", hist)
			}
			rm, ad, ch := treeDiff(before, tree(w.Dir), "")
			if d := stateDiff(ob, h.observe()); d != "" || len(rm)+len(ad)+len(ch) > 0 {
				c.Violate("twice-changed", fmt.Sprintf("%s announced again: %s; removed %v, added %v, changed %v", what, d, rm, ad, ch), hist)
			}
			c.Count("announced_twice", 1)
		}
		// clear away what a refused upload left
		if !u.OK {
			for _, f := range append(u.Files, u.Name) {
				os.RemoveAll(filepath.Join(inc, f))
			}
		}
	}
	if i < 2 {
		c.Sample(hist)
	}
	c.State(h.m.digest())
}

// idsOf2 returns every package of a name with one release.
func (c *Catalog) idsOf2(name string, rel int) []string {
	var l []string
	for _, p := range c.ByNm[name] {
		if p.Spec.Release == rel {
			l = append(l, p.ID)
		}
	}
	return l
}

// treeDiff compares two trees below an area, not counting the databases.
func treeDiff(a, b map[string]FileObs, area string) (removed, added, changed []string) {
	skip := func(f string) bool {
		return !strings.HasPrefix(f, area) || strings.HasPrefix(f, "ferry_db")
	}
	for f, x := range a {
		if skip(f) {
			continue
		}
		y, ok := b[f]
		if !ok {
			removed = append(removed, f)
		} else if x.Sha1 != y.Sha1 || x.Size != y.Size {
			changed = append(changed, f)
		}
	}
	for f := range b {
		if _, ok := a[f]; !ok && !skip(f) {
			added = append(added, f)
		}
	}
	sort.Strings(removed)
	sort.Strings(added)
	sort.Strings(changed)
	return
}

// stateDiff compares what the queries show.
func stateDiff(a, b *Obs) string {
	var s []string
	for rid := range a.Repos {
		if b.Repos[rid] == nil {
			s = append(s, "repository "+rid+" is gone")
			continue
		}
		if d := setDiff(idSet(b.Repos[rid].IDs()), idSet(a.Repos[rid].IDs())); d != "" {
			s = append(s, rid+": "+d)
		}
		if d := setDiff(b.Repos[rid].Deltas, a.Repos[rid].Deltas); d != "" {
			s = append(s, rid+" deltas: "+d)
		}
	}
	for rid := range b.Repos {
		if a.Repos[rid] == nil {
			s = append(s, "repository "+rid+" appeared")
		}
	}
	for id, p := range a.Pool {
		q := b.Pool[id]
		if q == nil {
			s = append(s, "pool lost "+id)
		} else if q.Ref != p.Ref || q.Hash != p.Hash || q.Size != p.Size {
			s = append(s, fmt.Sprintf("pool record of %s went from %+v to %+v", id, *p, *q))
		}
	}
	for id := range b.Pool {
		if a.Pool[id] == nil {
			s = append(s, "pool gained "+id)
		}
	}
	return strings.Join(s, "; ")
}
