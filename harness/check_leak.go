package main

import (
	"bufio"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/getsolus/ferryd/src/ferryd/core"
	"github.com/getsolus/ferryd/src/libeopkg"
)

// C25: resources are accounted for after every operation. With the garbage
// collector off (a finalizer would close what was forgotten) no file below the
// base directory may be open or mapped once an operation has ended, however it
// ended: random histories, malformed input, every kind of package pair, a fault
// at each file-system mutation, few descriptors left, and failing compressors.
// The real daemon is driven through rounds of mixed work and has to come back to
// the descriptors and goroutines it had when idle before.

func init() {
	register(&Check{ID: "C25", Level: "exploration",
		Rule:   "one case = one operation, package pair, fault point or daemon round after which resources were counted; distinct by its description",
		Assume: []string{"/proc shows what the process has open and mapped", "what the database itself keeps open is its own affair (except the lock file)"},
		Run:    runC25})
}

// highestFD is the highest descriptor in use.
func highestFD() int {
	es, err := os.ReadDir("/proc/self/fd")
	must(err)
	h := 0
	for _, e := range es {
		n, _ := strconv.Atoi(e.Name())
		if _, err := os.Readlink("/proc/self/fd/" + e.Name()); err == nil && n > h {
			h = n
		}
	}
	return h
}

// openBelow lists the files below dir this process has open or mapped.
func openBelow(dir string) (l []string) {
	nlock := 0
	judge := func(how, p string) {
		if p != dir && !strings.HasPrefix(p, dir+"/") {
			return
		}
		if i := strings.Index(p, "/ferry_db"); i >= 0 {
			if strings.HasSuffix(p, "/LOCK") {
				if nlock++; nlock > 1 {
					l = append(l, how+" "+p)
				}
			}
			return
		}
		l = append(l, how+" "+p)
	}
	es, err := os.ReadDir("/proc/self/fd")
	must(err)
	for _, e := range es {
		if p, err := os.Readlink("/proc/self/fd/" + e.Name()); err == nil {
			judge("descriptor", p)
		}
	}
	f, err := os.Open("/proc/self/maps")
	must(err)
	defer f.Close()
	for sc := bufio.NewScanner(f); sc.Scan(); {
		if i := strings.Index(sc.Text(), " /"); i > 0 {
			judge("mapping", sc.Text()[i+1:])
		}
	}
	sort.Strings(l)
	return
}

var digits = regexp.MustCompile(`[0-9]+`)

// openKind names the kind of a thing that stayed open.
func openKind(s string) string {
	how, p, _ := strings.Cut(s, " ")
	k := "other"
	switch p = strings.TrimSuffix(p, " (deleted)"); {
	case strings.HasSuffix(p, ".delta.eopkg"):
		k = "delta"
	case strings.HasSuffix(p, ".eopkg"):
		k = "package"
	case strings.Contains(p, "eopkg-index"):
		k = "index"
	case strings.HasSuffix(p, ".tram"):
		k = "manifest"
	case strings.Contains(p, "install.tar"):
		k = "tarball"
	case strings.HasSuffix(p, ".xml"):
		k = "definition"
	case strings.HasSuffix(p, "LOCK"):
		k = "database-lock"
	}
	return how + "-" + k
}

// strays lists what is in the base directory although nothing that exists
// accounts for it: unknown names, directories of repositories that are none,
// empty directories in the trees, temporary files.
func strays(dir string, repos map[string]bool) (l []string) {
	known := map[string]bool{"repo": true, "assets": true, "deltaBuilds": true, "deltaStaging": true, "pool": true, "incoming": true, "ferry_db": true, "ferry_db_jobs": true, "ferryd.lock": true, "ferryd.log": true}
	es, err := os.ReadDir(dir)
	must(err)
	for _, e := range es {
		if !known[e.Name()] {
			l = append(l, e.Name())
			continue
		}
		switch e.Name() {
		case "repo", "assets", "deltaBuilds", "deltaStaging":
			rs, _ := os.ReadDir(filepath.Join(dir, e.Name()))
			for _, r := range rs {
				p := e.Name() + "/" + r.Name()
				if !repos[r.Name()] {
					l = append(l, p)
					continue
				}
				if strings.HasPrefix(e.Name(), "delta") {
					xs, _ := os.ReadDir(filepath.Join(dir, p))
					for _, x := range xs {
						if x.IsDir() {
							l = append(l, p+"/"+x.Name())
						}
					}
				}
			}
		}
		if n := e.Name(); n == "repo" || n == "pool" {
			filepath.Walk(filepath.Join(dir, n), func(p string, fi os.FileInfo, err error) error {
				if err != nil || !fi.IsDir() || p == filepath.Join(dir, n) || n == "repo" && filepath.Dir(p) == filepath.Join(dir, n) {
					return nil
				}
				if xs, err := os.ReadDir(p); err == nil && len(xs) == 0 {
					rel, _ := filepath.Rel(dir, p)
					l = append(l, rel+" (empty)")
				}
				return nil
			})
		}
	}
	return
}

// leakTag: problems of other judges that are leftovers.
func leakTag(ps Problems) {
	for i := range ps {
		k := ps[i].Key
		if strings.HasPrefix(k, "orphan") || k == "index-leftover" || k == "delta-leftover" || k == "delete-left" {
			ps[i].Props += " C25"
		}
	}
}

func tempLeft() (l []string) {
	es, _ := os.ReadDir(os.TempDir())
	for _, e := range es {
		l = append(l, e.Name())
	}
	return
}

func runC25(c *Ctx) {
	debug.SetGCPercent(-1)
	debug.SetMemoryLimit(5 << 30)
	tmp := c.TempDir("tmp")
	os.Setenv("TMPDIR", tmp)
	must(os.Chmod(tmp, 0777))
	cat := newCatalog(filepath.Join(c.Dir, "w", "cat"), stdSpecs(false))
	c.Each(c.N(90, 4000), 0, func(i int) { leakHistory(c, cat, i) })
	c.Each(c.N(60, 3000), 0, func(i int) { malformedWorld(c, cat, i) })
	c.Each(c.N(250, 20000), 0, func(i int) { leakPair(c, i) })
	leakFaults(c, cat)
	var ms runtime.MemStats
	runtime.ReadMemStats(&ms)
	c.Extra("garbage_collections_while_counting", ms.NumGC)
	debug.FreeOSMemory()
	if l := tempLeft(); len(l) > 0 {
		c.Violate("temp-left", fmt.Sprintf("left in the directory for temporary files: %v", l), nil)
	}
	c.Each(c.N(9, 120), 3, func(i int) { leakDaemon(c, cat, i) })
}

func leakHistory(c *Ctx, cat *Catalog, i int) {
	h := newHist(c, cat, "C25")
	h.SkipIndexCheck = true
	defer h.close()
	dir := filepath.Dir(h.w.Dir)
	h.after = func(s Step) (ps Problems) {
		c.Eval("step|" + s.Op + fmt.Sprint("|", len(h.Done), "|", h.m.digest()))
		c.Count("operations_accounted", 1)
		if l := openBelow(dir); len(l) > 0 {
			ps.add("C25", "open:"+openKind(l[0])+":"+s.Op, "%s: afterwards still open or mapped: %v", s, l)
		}
		repos := map[string]bool{}
		for rid := range h.m.Repos {
			repos[rid] = true
		}
		if l := strays(h.w.Dir, repos); len(l) > 0 {
			ps.add("C25", "stray:"+s.Op, "%s: afterwards nothing accounts for %v", s, l)
		}
		return
	}
	p := Profile{Repos: stdRepos, Weights: weights(map[string]int{"delta": 14, "mkdelta": 8, "deltarepo": 5, "delete": 5, "rmsrc": 9, "clone": 7})}
	r := c.Rng("leak-hist", i)
	for k := 0; k < 26 && !h.Dead; k++ {
		h.step(gen(r, h.m, p))
	}
	if i < 1 {
		c.Sample(h.Done)
	}
	for s := range h.states {
		c.State(s)
	}
}

func leakPair(c *Ctx, i int) {
	r := c.Rng("leak-pair", i)
	dir := c.TempDir("p")
	defer os.RemoveAll(dir)
	old, neu := genPair(r)
	in, tmp, out := filepath.Join(dir, "in"), filepath.Join(dir, "tmp"), filepath.Join(dir, "out")
	for _, d := range []string{in, tmp, out} {
		must(os.MkdirAll(d, 0755))
	}
	op, np := old.write(in), neu.write(in)
	spoil := ""
	if r.Intn(4) == 0 { // one of the two cannot be read
		p := []string{op, np}[r.Intn(2)]
		b, err := os.ReadFile(p)
		must(err)
		spoil, b = mangleZip(r, b)
		must(os.WriteFile(p, b, 0644))
	} else if r.Intn(8) == 0 {
		spoil = "missing"
		must(os.Remove([]string{op, np}[r.Intn(2)]))
	}
	err := core.ProduceDelta(tmp, op, np, filepath.Join(out, "x.delta.eopkg"))
	how := "made"
	switch {
	case err == libeopkg.ErrMismatchedDelta:
		how = "mismatched"
	case err == libeopkg.ErrDeltaPointless:
		how = "pointless"
	case err != nil:
		how = "failed"
	}
	c.Count("pairs_"+how, 1)
	c.Eval(fmt.Sprint("pair|", how, "|", spoil, "|", i))
	replay := map[string]interface{}{"case": i, "old": old.listKey(), "new": neu.listKey(), "spoiled": spoil, "outcome": how}
	if l := openBelow(dir); len(l) > 0 {
		c.Violate("open:pair-"+how+":"+openKind(l[0]), fmt.Sprintf("building a delta (%s): afterwards still open or mapped: %v", how, l), replay)
	}
	if ds, _ := os.ReadDir(tmp); len(ds) > 0 {
		c.Violate("staging-left:"+how, fmt.Sprintf("building a delta (%s) left %s in the build directory", how, ds[0].Name()), replay)
	}
	if ds, _ := os.ReadDir(out); err != nil && len(ds) > 0 {
		c.Violate("target-left:"+how, fmt.Sprintf("building a delta (%s) left %s", how, ds[0].Name()), replay)
	}
}

// leakFaults: one step of an operation fails; whatever was opened is closed.
func leakFaults(c *Ctx, cat *Catalog) {
	sc := faultScenarios(cat)
	var tl []*template
	var mu sync.Mutex
	c.Each(len(sc), 0, func(i int) {
		if t := buildTemplate(c, cat, sc[i]); t != nil {
			mu.Lock()
			tl = append(tl, t)
			mu.Unlock()
		} else {
			c.Count("scenarios_not_prepared", 1)
		}
	})
	sort.Slice(tl, func(i, j int) bool { return tl[i].name < tl[j].name })
	tools := c.TempDir("tools")
	for _, n := range []string{"xz", "zstd"} {
		must(os.MkdirAll(filepath.Join(tools, n), 0755))
		must(os.WriteFile(filepath.Join(tools, n, n), []byte(badTools), 0755))
	}
	type point struct {
		t          *template
		kind       string
		k, to      int64
		ev         string
		tool, mode string
		nofile     int
	}
	var pts []point
	c.Each(len(tl), 0, func(i int) {
		t := tl[i]
		dir := c.TempDir("rec")
		defer os.RemoveAll(dir)
		w := t.instance(dir, cat)
		var r opResult
		if _, err := spawn("op", opArgs{Base: w.Dir, Stage: w.Stage, Step: t.op, Paths: stageOp(w, t.op)}, &r); err != nil {
			c.Count("scenarios_refused", 1)
			return
		}
		mu.Lock()
		defer mu.Unlock()
		rr := c.Rng("leak-pts", t.name)
		all := []int64{}
		for k := int64(1); k <= r.N; k++ {
			if strings.Contains(r.Events[k-1], "/ferry_db/") && rr.Intn(6) > 0 {
				continue
			}
			all = append(all, k)
		}
		if c.Quick() {
			rr.Shuffle(len(all), func(a, b int) { all[a], all[b] = all[b], all[a] })
			if len(all) > 16 {
				all = all[:16]
			}
		}
		for _, k := range all {
			to := int64(0)
			if rr.Intn(4) == 0 {
				to = 1 << 40
			}
			pts = append(pts, point{t: t, kind: "fault", k: k, to: to, ev: r.Events[k-1]})
		}
		for n := 1; n <= 12; n++ {
			pts = append(pts, point{t: t, kind: "descriptors", nofile: n})
		}
		if t.oc.Index != "" || strings.Contains(t.name, "delta") {
			for _, n := range []string{"xz", "zstd"} {
				for _, m := range []string{"partial", "empty", "killed", "nothing"} {
					if !c.Quick() || rr.Intn(3) == 0 {
						pts = append(pts, point{t: t, kind: "tool", tool: n, mode: m})
					}
				}
			}
		}
	})
	sort.Slice(pts, func(i, j int) bool {
		return fmt.Sprint(pts[i].t.name, pts[i].kind, pts[i].k, pts[i].nofile, pts[i].tool, pts[i].mode) < fmt.Sprint(pts[j].t.name, pts[j].kind, pts[j].k, pts[j].nofile, pts[j].tool, pts[j].mode)
	})
	errnos := []syscall.Errno{syscall.ENOSPC, syscall.EIO, syscall.EACCES}
	c.Each(len(pts), 0, func(i int) {
		p := pts[i]
		t := p.t
		dir := c.TempDir("lf")
		defer os.RemoveAll(dir)
		w := t.instance(dir, cat)
		fa := faultArgs{Base: w.Dir, Stage: w.Stage, Step: t.op, Paths: stageOp(w, t.op), Hold: true, Open: true, FailAt: p.k, FailTo: p.to, Errno: int(errnos[i%3]), Nofile: p.nofile}
		what, where := "", ""
		switch p.kind {
		case "fault":
			what = fmt.Sprintf("%s with %v at mutation %d (%s)", t.name, errnos[i%3], p.k, p.ev)
			where = "@" + eventClass(p.ev)
		case "descriptors":
			what = fmt.Sprintf("%s with %d descriptors left", t.name, p.nofile)
			where = "@few-descriptors"
		case "tool":
			what = fmt.Sprintf("%s with a failing %s (%s)", t.name, p.tool, p.mode)
			where = "@" + p.tool
			fa.Path = filepath.Join(tools, p.tool) + ":" + os.Getenv("PATH")
			fa.Tool = p.mode
		}
		var r faultResult
		if killed, err := spawn("fault", fa, &r); err != nil || killed {
			c.Violate(strings.ReplaceAll("crash:"+t.name+where, " ", "_"), fmt.Sprintf("%s: %v", what, err), t.op)
			return
		}
		if len(r.Open) > 0 {
			c.Violate(strings.ReplaceAll("open:"+t.name+":"+openKind(r.Open[0])+where, " ", "_"), fmt.Sprintf("%s (%s): afterwards still open or mapped: %v", what, r.Err1, r.Open), map[string]interface{}{"scenario": t.name, "setup": t.setup, "op": t.op, "kind": p.kind, "at": p.k, "until": p.to, "event": p.ev, "descriptors_left": p.nofile, "tool": p.tool, "mode": p.mode})
		}
		c.Count("points_"+p.kind, 1)
		if r.Err1 != "" {
			c.Count("points_"+p.kind+"_that_failed", 1)
		}
		c.Eval(fmt.Sprint(t.name, "|", p.kind, "|", p.k, "|", p.to, "|", p.nofile, "|", p.tool, "|", p.mode))
	})
}

// ---------- the daemon ----------

// usage is what a daemon holds on to.
type usage map[string]int

func (u usage) String() string {
	var l []string
	for k, n := range u {
		l = append(l, fmt.Sprintf("%s=%d", k, n))
	}
	sort.Strings(l)
	return strings.Join(l, " ")
}

// more lists what u has more of than b.
func (u usage) more(b usage) (l []string) {
	for k, n := range u {
		if n > b[k] {
			l = append(l, fmt.Sprintf("%s: %d, before %d", k, n, b[k]))
		}
	}
	sort.Strings(l)
	return
}

var createdBy = regexp.MustCompile(`(?m)^created by (.*?)(?: in goroutine \d+)?$`)

// usageOf counts descriptors by kind and goroutines by where they were started.
func (s *scn) usageOf(d *Daemon, stacks string) usage {
	u := usage{}
	es, err := os.ReadDir(fmt.Sprintf("/proc/%d/fd", d.Cmd.Process.Pid))
	if err != nil {
		return nil
	}
	for _, e := range es {
		p, err := os.Readlink(fmt.Sprintf("/proc/%d/fd/%s", d.Cmd.Process.Pid, e.Name()))
		if err != nil {
			continue
		}
		k := p
		switch {
		case strings.HasSuffix(p, "/LOCK") && strings.HasPrefix(p, s.base+"/ferry_db"):
			k = "file:database-lock"
		case strings.HasPrefix(p, s.base+"/ferry_db"):
			continue
		case strings.HasPrefix(p, s.base+"/"):
			k = "file:" + digits.ReplaceAllString(strings.TrimPrefix(p, s.base+"/"), "N")
		case strings.Contains(p, ":["):
			k = p[:strings.Index(p, ":[")]
		}
		u["fd "+k]++
	}
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/maps", d.Cmd.Process.Pid))
	if err == nil {
		for _, ln := range strings.Split(string(b), "\n") {
			if i := strings.Index(ln, " "+s.base+"/"); i >= 0 && !strings.Contains(ln, "/ferry_db") {
				u["mapping "+filepath.Ext(strings.TrimSuffix(ln, " (deleted)"))]++
			}
		}
	}
	os.Remove(stacks)
	d.Cmd.Process.Signal(syscall.SIGUSR1)
	for t0 := time.Now(); ; time.Sleep(2 * time.Millisecond) {
		b, _ = os.ReadFile(stacks)
		if strings.HasSuffix(string(b), "\nEND\n") {
			break
		}
		if time.Since(t0) > 15*time.Second || d.Exited() {
			return nil
		}
	}
	for _, g := range strings.Split(strings.TrimSuffix(string(b), "\nEND\n"), "\n\n") {
		g = strings.TrimSpace(g)
		if g == "" {
			continue
		}
		k := "main"
		if m := createdBy.FindStringSubmatch(g); m != nil {
			k = m[1]
		}
		u["goroutine of "+k]++
	}
	return u
}

// drop sends bytes and goes away without reading.
func dropAfter(sock string, b []byte) {
	cn, err := net.DialTimeout("unix", sock, 5*time.Second)
	if err != nil {
		return
	}
	cn.Write(b)
	cn.Close()
}

func leakDaemon(c *Ctx, cat *Catalog, i int) {
	s := newScn(c, "leak-daemon", i)
	defer s.close()
	r := s.r
	stacks := filepath.Join(s.dir, "stacks")
	failf := filepath.Join(s.dir, "failing")
	tmp := filepath.Join(s.dir, "tmp")
	must(os.Mkdir(tmp, 0755))
	d := s.up("the daemon", daemonOpts{Env: []string{"GOGC=off", "GOMEMLIMIT=5000MiB", "VERIF_STACKS=" + stacks, "VERIF_FAIL_FILE=" + failf, "TMPDIR=" + tmp}, Jobs: 1 + r.Intn(4)})
	if d == nil {
		return
	}
	stage := filepath.Join(s.dir, "stage")
	must(os.MkdirAll(stage, 0755))
	nst, nup := 0, 0
	dlog := func(f string, a ...interface{}) { s.note(f, a...) }
	send := func(st Step) {
		var paths []string
		for _, id := range st.Pkgs {
			nst++
			pd := filepath.Join(stage, fmt.Sprint(nst))
			must(os.MkdirAll(pd, 0755))
			b, err := os.ReadFile(cat.Pkgs[id].Path)
			must(err)
			must(os.WriteFile(filepath.Join(pd, id), b, 0644))
			paths = append(paths, filepath.Join(pd, id))
		}
		err := viaClient(d.Client(), st, paths)
		dlog("%s: %v", st, err)
		c.Count("daemon_jobs_sent", 1)
	}
	upload := func(bad bool) {
		nup++
		if bad {
			var mu sync.Mutex
			a, b := 0, 0
			malformedUpload(c, r, s, cat, nup, &mu, &a, &b)
			dlog("malformed upload %d", nup)
			return
		}
		n := fmt.Sprintf("up%d", nup)
		ids := []string{cat.IDs[r.Intn(len(cat.IDs))]}
		writeUpload(filepath.Join(s.base, "incoming"), n+".tram", []string{"un", "nosuch"}[r.Intn(2)], cat, ids)
		dlog("upload %v", ids)
	}
	a := cat.idsOf("alpha", 1, 2, 9, 10, 11)
	b := cat.idsOf("beta", 1, 2, 9, 12)
	oneRound := func(k int) {
		n := 12
		for j := 0; j < n && !s.failed; j++ {
			switch r.Intn(17) {
			case 0:
				send(Step{Op: "import", Repo: "un", Pkgs: []string{a[r.Intn(len(a))], b[r.Intn(len(b))]}})
			case 1:
				send(Step{Op: "deltarepo", Repo: "un"})
			case 2:
				send(st("rmsrc", "un", []string{"Alpha", "Beta", "none"}[r.Intn(3)], -1))
			case 3:
				send(Step{Op: "clone", Repo: "un", Target: fmt.Sprint("c", r.Intn(2)), Flag: r.Intn(2) == 0})
			case 4:
				send(st("delete", fmt.Sprint("c", r.Intn(2))))
			case 5:
				send(Step{Op: "pull", Repo: "c0", Target: "un"})
			case 6:
				send(st("index", []string{"un", "nosuch", "c1"}[r.Intn(3)]))
			case 7: // a package that cannot be imported
				_, bb, _ := evilPackage(r, evilSpec(fmt.Sprint("evil", k, j), 1))
				p := filepath.Join(stage, fmt.Sprintf("evil%d-%d.eopkg", k, j))
				must(os.WriteFile(p, bb, 0644))
				err := d.Client().ImportPackages("trash", []string{p})
				dlog("import of a malformed package: %v", err)
			case 8:
				upload(true)
			case 9, 10:
				upload(false)
			case 11: // queries, by clients that stay connected for a while
				tr := &http.Transport{Dial: func(string, string) (net.Conn, error) { return net.Dial("unix", s.sock) }}
				cl := &http.Client{Transport: tr, Timeout: 20 * time.Second}
				for q := 0; q < 4; q++ {
					if rsp, err := cl.Get("http://x/api/v1/" + []string{"status", "list/repos", "list/pool", "nosuch"}[r.Intn(4)]); err == nil {
						if r.Intn(3) > 0 {
							io.Copy(io.Discard, rsp.Body)
						}
						rsp.Body.Close()
					}
				}
				tr.CloseIdleConnections()
				dlog("queries")
			case 12: // requests nobody waits for
				k := r.Intn(3)
				for q := 0; q < 3; q++ {
					x := "POST /api/v1/import/un HTTP/1.1\r\nHost: x\r\nContent-Length: 500\r\n\r\n{\"path\":["
					switch k {
					case 1:
						x = "GET /api/v1/list/pool HTTP/1.1\r\nHost: x\r\n\r\n"
					case 2:
						x = x[:r.Intn(len(x))]
					}
					dropAfter(s.sock, []byte(x))
				}
				dlog("dropped requests")
			case 13:
				_, body := malformedBody(r)
				rawReq(s.sock, "POST", "/api/v1/"+postRoutes[r.Intn(len(postRoutes))]+"/un", []byte(body), 20*time.Second)
				dlog("malformed body")
			case 14:
				if r.Intn(2) == 0 {
					d.Client().ResetCompleted()
				} else {
					d.Client().ResetFailed()
				}
				dlog("reset")
			case 15: // the disk refuses some changes for a while
				sub := []string{"/repo/un", "/pool/", "/deltaBuilds/", "/deltaStaging/", "eopkg-index", "/repo/c"}[r.Intn(6)]
				must(os.WriteFile(failf+".n", []byte("fail "+sub), 0644))
				must(os.Rename(failf+".n", failf))
				dlog("changes of %s fail", sub)
				send(Step{Op: "import", Repo: "un", Pkgs: []string{a[r.Intn(len(a))]}})
				send(Step{Op: "deltarepo", Repo: "un"})
				d.waitIdle(20 * time.Second)
				os.Remove(failf)
				dlog("no more")
			case 16:
				time.Sleep(time.Duration(r.Intn(20)) * time.Millisecond)
			}
		}
	}
	idle := func(what string) bool {
		os.Remove(failf)
		if _, err := d.waitIdle(90 * time.Second); err != nil {
			s.bad("not-idle", "%s: %v", what, err)
			return false
		}
		d.Client().Close()
		return true
	}
	for _, rid := range []string{"un", "trash"} {
		send(st("create", rid))
	}
	send(Step{Op: "import", Repo: "un", Pkgs: append(append([]string{}, a[:3]...), b[:3]...)})
	upload(false)
	send(Step{Op: "deltarepo", Repo: "un"})
	if !idle("at first") {
		return
	}
	var base usage
	for t0 := time.Now(); ; time.Sleep(50 * time.Millisecond) { // the lowest it gets
		u := s.usageOf(d, stacks)
		if u == nil {
			s.bad("no-answer", "the daemon does not say what it holds: %s", cut(d.Err.String(), 1500))
			return
		}
		if base == nil {
			base = u
		}
		for k := range base {
			if u[k] < base[k] {
				base[k] = u[k]
			}
		}
		if time.Since(t0) > 600*time.Millisecond {
			break
		}
	}
	s.note("idle: %s", base)
	rounds := c.N(4, 12)
	for k := 0; k < rounds && !s.failed; k++ {
		oneRound(k)
		if s.failed || !idle(fmt.Sprintf("after round %d", k)) {
			return
		}
		var u usage
		var l []string
		for t0 := time.Now(); time.Since(t0) < 12*time.Second; time.Sleep(40 * time.Millisecond) {
			if u = s.usageOf(d, stacks); u == nil {
				s.bad("no-answer", "the daemon does not say what it holds: %s", cut(d.Err.String(), 1500))
				return
			}
			if l = u.more(base); len(l) == 0 {
				break
			}
		}
		c.Count("daemon_rounds_accounted", 1)
		c.Eval(fmt.Sprint("daemon|", i, "|", k))
		if len(l) > 0 {
			s.bad("held:"+digits.ReplaceAllString(strings.SplitN(l[0], ":", 2)[0], "N"), "idle again after round %d, the daemon holds more than before: %v", k, l)
			return
		}
		es, _ := os.ReadDir(tmp)
		if len(es) > 0 {
			s.bad("temp-left", "left in the directory for temporary files: %s", es[0].Name())
			return
		}
	}
	c.Extra("daemon_idle_usage", base.String())
	if i < 1 {
		c.Sample(s.log)
	}
}
