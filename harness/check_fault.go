package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/getsolus/ferryd/src/ferryd/core"
	"github.com/getsolus/ferryd/src/ferryd/jobs"
)

// C16, C17: every file-system mutation an operation makes is a crash point and
// a fault point. A worker process runs the operation on a copy of a prepared
// base directory and is killed before (or sees a failing) n-th mutation;
// afterwards the real code recovers and everything observable is judged.

func init() {
	register(&Check{ID: "C16", Level: "fault_enumeration",
		Rule:   "an evaluation is one process killed at one file-system mutation of one operation (optionally killed again while recovering), followed by recovery and judgement of the whole state; distinct by operation and crash point",
		Assume: []string{"a crash is a killed process: writes already issued survive", "crash points are the mutating system calls of the process itself, not of the xz and zstd programs it runs"},
		Run:    runC16})
	register(&Check{ID: "C17", Level: "fault_enumeration",
		Rule:   "an evaluation is one operation during which one file-system call, or every call from one on, fails with a given error, followed by judgement, repetition without the fault and judgement again; distinct by operation, fault point, error and extent",
		Assume: []string{"a failing call has no effect", "faults hit the file-system calls of the process itself, not of the xz and zstd programs it runs"},
		Run:    runC17})
	workers["op"] = opWorker
	workers["fault"] = faultWorker
}

type scenario struct {
	name  string
	setup []Step
	op    Step
	// conv: after a crash, re-running must reach the state of an uninterrupted run
	conv bool
	// with more records than the database reads at once
	long bool
}

func faultScenarios(cat *Catalog) []scenario {
	a := func(rels ...int) []string { return cat.idsOf("alpha", rels...) }
	b := func(rels ...int) []string { return cat.idsOf("beta", rels...) }
	lf := func(rels ...int) []string { return cat.idsOf("libfoo", rels...) }
	cc := func(l ...[]string) (r []string) {
		for _, x := range l {
			r = append(r, x...)
		}
		return
	}
	base := []Step{st("create", "un"), st("assets", "un", 2), st("import", "un", cc(a(2, 9, 10), b(2, 9), lf(2))), st("delta", "un", "alpha", true),
		st("clone", "un", "stable", true), st("import", "un", cc(a(11), b(10)))}
	with := func(extra ...Step) []Step { return append(append([]Step{}, base...), extra...) }
	return []scenario{
		{"import-empty", []Step{st("create", "un")}, st("import", "un", cc(a(2, 9), b(2))), true, false},
		{"import-new", with(), st("import", "un", cc(a(100), lf(9), cat.idsOf("lib", 2))), true, false},
		{"import-shared", with(), st("import", "stable", cc(a(11), b(10, 11))), true, false},
		{"rmsrc-shared", with(), st("rmsrc", "un", "alpha", 10), true, false},
		{"rmsrc-last", with(st("rmsrc", "stable", "alpha", -1), st("delta", "un", "alpha", true)), st("rmsrc", "un", "alpha", 9), true, false},
		{"rmsrc-all", with(st("rmsrc", "stable", "alpha", -1)), st("rmsrc", "un", "alpha", -1), true, false},
		{"trim", with(st("delta", "un", "alpha", true)), st("trim", "un", 1), true, false},
		{"trimobs", with(st("assets", "un", 3)), st("trimobs", "un"), true, false},
		{"pull", with(), st("pull", "un", "stable"), true, false},
		{"copysrc", with(st("create", "a")), st("copysrc", "un", "a", "alpha", -1, false), true, false},
		{"copysrc-noindex", with(), st("copysrc", "un", "stable", "Beta", 10, true), true, false},
		{"delta", with(), st("delta", "un", "alpha", true), true, false},
		{"delta-reuse", with(st("import", "un", lf(9)), st("delta", "un", "libfoo", true), st("pull", "un", "stable")), st("delta", "stable", "libfoo", true), true, false},
		{"delta-pointless", with(st("import", "un", cat.idsOf("lib", 2, 9, 10))), st("delta", "un", "lib", true), true, false},
		{"index", with(st("assets", "un", 1)), st("index", "un"), true, false},
		{"upload", with(), st("upload", "un", cc(a(100), b(11), lf(9))), true, false},
		{"delete", with(), st("delete", "un"), true, false},
		{"delete-shared", with(st("delta", "stable", "alpha", true)), st("delete", "stable"), true, false},
		{"create", with(), st("create", "a"), false, false},
		{"clone-full", with(), st("clone", "un", "a", true), false, false},
		{"clone-tip", with(), st("clone", "un", "a", false), false, false},
	}
}

// copyTree copies a tree preserving hard links within it.
func copyTree(src, dst string) {
	seen := map[uint64]string{}
	must(filepath.Walk(src, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(src, p)
		t := filepath.Join(dst, rel)
		if fi.IsDir() {
			return os.MkdirAll(t, 0755)
		}
		st := fi.Sys().(*syscall.Stat_t)
		if st.Nlink > 1 {
			if o, ok := seen[st.Ino]; ok {
				return os.Link(o, t)
			}
			seen[st.Ino] = t
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		return os.WriteFile(t, b, 0644)
	}))
}

type template struct {
	scenario
	dir      string
	pre, end *Model
	oc       Outcome
	pubPre   map[string]string // repository -> sha1 of its index before
	delAcc   map[string]accepted
}

func buildTemplate(c *Ctx, cat *Catalog, s scenario) *template {
	h := newHist(c, cat, c.ID)
	for _, x := range s.setup {
		x.Job = false
		h.step(x)
		if h.Dead {
			return nil
		}
	}
	h.w.M.Close()
	t := &template{scenario: s, dir: filepath.Dir(h.w.Dir), pre: h.m.clone(), pubPre: map[string]string{}, delAcc: h.delAcc}
	for k, v := range h.idx {
		t.pubPre[k] = v
	}
	t.end = h.m.clone()
	t.oc = t.end.apply(s.op)
	return t
}

// stageOp places the input files of an operation below dir.
func stageOp(w *World, s Step) []string {
	switch s.Op {
	case "import":
		var ps []string
		for _, id := range s.Pkgs {
			p := filepath.Join(w.Stage, id)
			b, err := os.ReadFile(w.cat.Pkgs[id].Path)
			must(err)
			must(os.WriteFile(p, b, 0644))
			ps = append(ps, p)
		}
		return ps
	case "upload":
		return []string{writeUpload(filepath.Join(w.Dir, "incoming"), "up.tram", s.Repo, w.cat, s.Pkgs)}
	}
	return nil
}

// writeUpload places packages and a manifest listing them in dir.
func writeUpload(dir, name, repo string, cat *Catalog, ids []string) string {
	var t strings.Builder
	fmt.Fprintf(&t, "[manifest]\nversion = \"1.0\"\ntarget = \"%s\"\n", repo)
	for _, id := range ids {
		b, err := os.ReadFile(cat.Pkgs[id].Path)
		must(err)
		must(os.WriteFile(filepath.Join(dir, id), b, 0644))
		fmt.Fprintf(&t, "\n[[file]]\npath = \"%s\"\nsha256 = \"%s\"\n", id, sha256hex(b))
	}
	p := filepath.Join(dir, name)
	must(os.WriteFile(p, []byte(t.String()), 0644))
	return p
}

// runOp executes the step once, through its job.
func runOp(w *World, s Step, paths []string) error {
	if s.Op == "upload" {
		return viaJob(w.M, transitJob(paths[0]))
	}
	return viaJob(w.M, w.jobFor(s, paths))
}

// ---------- worker: one operation with a crash ----------

type opArgs struct {
	Base, Stage string
	Step        Step
	Paths       []string
	KillAt      int64
	Open        bool // the opening of the manager is part of what is counted
	IndexAll    bool
	Reads       bool
}

type opResult struct {
	N      int64
	Events []string
	Err    string
}

// fault hooks, set by the instrumented build
var (
	faultArm    func(killAt, failAt, failTo int64, errno syscall.Errno, base string)
	faultDisarm func() (int64, []string)
	faultFailed []string // what was made to fail, once disarmed
	faultReads  bool     // what reads is counted and made to fail instead
)

func opWorker(args []string) {
	syscall.Umask(022)
	var a opArgs
	must(json.Unmarshal([]byte(args[0]), &a))
	w := &World{Dir: a.Base, Stage: a.Stage}
	faultReads = a.Reads
	if a.Open {
		faultArm(a.KillAt, 0, 0, 0, a.Base)
		w.open()
	} else {
		w.open()
		faultArm(a.KillAt, 0, 0, 0, a.Base)
	}
	var r opResult
	if err := runOp(w, a.Step, a.Paths); err != nil {
		r.Err = err.Error()
	}
	if a.IndexAll {
		rs, _ := w.M.GetRepos()
		for _, x := range rs {
			w.M.Index(x.ID)
		}
	}
	r.N, r.Events = faultDisarm()
	b, _ := json.Marshal(r)
	os.Stdout.Write(b)
	os.Exit(0)
}

func spawn(name string, in interface{}, out interface{}) (killed bool, err error) {
	b, _ := json.Marshal(in)
	exe, _ := os.Executable()
	cmd := exec.Command(exe, "w", name, string(b))
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL, Setpgid: true}
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	must(cmd.Start())
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	t0 := time.Now()
	for {
		select {
		case err = <-done:
			// whatever it started (xz) goes with it
			syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
			if err != nil {
				if ws, ok := cmd.ProcessState.Sys().(syscall.WaitStatus); ok && ws.Signaled() && ws.Signal() == syscall.SIGKILL {
					return true, nil
				}
				return false, fmt.Errorf("%v: %s", err, cut(se.String(), 3000))
			}
			return false, json.Unmarshal(so.Bytes(), out)
		case <-time.After(500 * time.Millisecond):
			if time.Since(t0) > 120*time.Second {
				syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
				return false, fmt.Errorf("hang: the operation never completed")
			}
		}
	}
}

// afterCrash judges a recovered base directory.
func (t *template) judge(c *Ctx, w *World, what string, convergent bool) Problems {
	var ps Problems
	var kd []string
	for d := range t.end.Deltas {
		kd = append(kd, d)
	}
	o := observe(w.M, w.Dir, kd)
	acc := w.cat.Accepted()
	for id, a := range t.delAcc {
		acc[id] = a
	}
	ps = append(ps, checkInvariants(o, invOpts{Orphans: true, Accepted: acc, DeltaEnds: true, SharedCopy: true})...)
	for rid := range o.Repos {
		ps = append(ps, checkIndex(o, w.Dir, rid)...)
	}
	if convergent {
		ps = append(ps, t.end.compare(o, t.op, t.oc)...)
	} else {
		// nothing that was listed and not subject to the operation is lost
		for rid, mr := range t.pre.Repos {
			if rid == t.oc.Target {
				continue
			}
			r := o.Repos[rid]
			if r == nil {
				ps.add("C16", "repo-lost", "repository %s is gone", rid)
				continue
			}
			if d := setDiff(idSet(r.IDs()), mr.Pk); d != "" {
				ps.add("C16", "list", "package list of %s: %s", rid, d)
			}
			if d := setDiff(r.Deltas, mr.De); d != "" {
				ps.add("C16", "deltas", "deltas of %s: %s", rid, d)
			}
		}
	}
	for rid := range o.Repos {
		if t.pre.Repos[rid] == nil && rid != t.oc.Target {
			ps.add("C16", "repo-extra", "unexpected repository %s", rid)
		}
	}
	if t.op.Op == "delete" {
		for _, d := range []string{"repo", "assets", "deltaBuilds", "deltaStaging"} {
			if fileExists(filepath.Join(w.Dir, d, t.op.Repo)) {
				ps.add("C16", "delete-left", "directory %s/%s is left although the repository is gone", d, t.op.Repo)
			}
		}
	}
	return ps
}

func (c *Ctx) reportFault(ps Problems, keyPrefix, keySuffix, what string, replay interface{}) {
	for _, p := range ps {
		c.Violate(strings.ReplaceAll(keyPrefix+p.Key+keySuffix, " ", "_"), what+": "+p.Msg, map[string]interface{}{"case": replay, "all": strings.Split(ps.String(), "\n")})
	}
}

func openQuiet(dir string) (*core.Manager, error) { return core.NewManager(dir) }

func runC16(c *Ctx) {
	cat := newCatalog(filepath.Join(c.Dir, "w", "cat"), stdSpecs(false))
	sc := faultScenarios(cat)
	var tl []*template
	var mu sync.Mutex
	c.Each(len(sc), 0, func(i int) {
		if t := buildTemplate(c, cat, sc[i]); t != nil {
			mu.Lock()
			tl = append(tl, t)
			mu.Unlock()
		} else {
			c.Count("scenarios_not_prepared", 1)
		}
	})
	sort.Slice(tl, func(i, j int) bool { return tl[i].name < tl[j].name })
	if len(tl) == 0 {
		return // other properties are broken
	}
	type point struct {
		t      *template
		k, k2  int64
		ev     string
		reopen bool
	}
	var pts []point
	nOps := map[string]int64{}
	c.Each(len(tl), 0, func(i int) {
		t := tl[i]
		dir := c.TempDir("rec")
		defer os.RemoveAll(dir)
		w := t.instance(dir, cat)
		var r opResult
		if _, err := spawn("op", opArgs{Base: w.Dir, Stage: w.Stage, Step: t.op, Paths: stageOp(w, t.op)}, &r); err != nil {
			c.Violate("crash:"+t.name, fmt.Sprintf("%s: uninterrupted run: %v", t.name, err), t.op)
			return
		}
		if r.Err != "" && !t.oc.Fail {
			c.Count("scenarios_refused", 1)
			return
		}
		mu.Lock()
		defer mu.Unlock()
		nOps[t.name] = r.N
		if i == 0 {
			c.Sample(map[string]interface{}{"scenario": t.name, "mutations": r.Events})
		}
		rr := c.Rng("pts", t.name)
		for k := int64(1); k <= r.N; k++ {
			p := point{t: t, k: k, ev: r.Events[k-1]}
			if c.Quick() && !interesting(r.Events, int(k-1)) && rr.Intn(4) != 0 {
				continue
			}
			pts = append(pts, p)
			if !c.Quick() || rr.Intn(6) == 0 {
				p.k2 = 1 + rr.Int63n(r.N+8)
				pts = append(pts, p)
			}
		}
		if !c.Quick() {
			for k := int64(1); k <= r.N; k++ {
				for x := 0; x < 4; x++ {
					pts = append(pts, point{t: t, k: k, k2: 1 + rr.Int63n(r.N+8), ev: r.Events[k-1]})
				}
			}
		}
	})
	sort.Slice(pts, func(i, j int) bool {
		a, b := pts[i], pts[j]
		if a.t.name != b.t.name {
			return a.t.name < b.t.name
		}
		if a.k != b.k {
			return a.k < b.k
		}
		return a.k2 < b.k2
	})
	c.Extra("crash_points_per_operation", nOps)
	kinds := map[string]int{}
	c.Each(len(pts), 0, func(i int) {
		p := pts[i]
		t := p.t
		what := fmt.Sprintf("%s killed before mutation %d (%s)", t.name, p.k, p.ev)
		dir := c.TempDir("k")
		defer os.RemoveAll(dir)
		w := t.instance(dir, cat)
		paths := stageOp(w, t.op)
		var r opResult
		killed, err := spawn("op", opArgs{Base: w.Dir, Stage: w.Stage, Step: t.op, Paths: paths, KillAt: p.k}, &r)
		if err != nil {
			c.Violate("crash:"+t.name, what+": "+err.Error(), t.op)
			return
		}
		if !killed {
			c.Count("not_reached", 1)
		}
		if p.k2 > 0 {
			what += fmt.Sprintf(", killed again at mutation %d of the recovery", p.k2)
			k2, err := spawn("op", opArgs{Base: w.Dir, Stage: w.Stage, Step: t.op, Paths: paths, KillAt: p.k2, Open: true, IndexAll: true}, &r)
			if err != nil {
				c.Violate("crash-recovering:"+t.name, what+": "+err.Error(), t.op)
				return
			}
			if k2 {
				c.Count("killed_while_recovering", 1)
			}
		}
		m, err := openQuiet(w.Dir)
		if err != nil {
			c.Violate("reopen:"+t.name, fmt.Sprintf("%s: cannot be opened again: %v", what, err), t.op)
			return
		}
		w.M = m
		defer w.M.Close()
		rerr := runOp(w, t.op, paths)
		rs, err := w.M.GetRepos()
		if err != nil {
			c.Violate("repos:"+t.name, fmt.Sprintf("%s: repositories cannot be listed: %v", what, err), t.op)
			return
		}
		for _, x := range rs {
			if err := w.M.Index(x.ID); err != nil {
				c.Violate("index-after:"+t.name, fmt.Sprintf("%s: afterwards %s cannot be indexed: %v", what, x.ID, err), t.op)
				return
			}
		}
		ps := t.judge(c, w, what, t.conv)
		if len(ps) > 0 && rerr != nil {
			what += fmt.Sprintf(" (re-run: %v)", rerr)
		}
		if !t.conv {
			ps = append(ps, t.makeAgain(c, w, paths, rerr)...)
		}
		c.reportFault(ps, t.name+":", "@"+eventClass(p.ev), what, map[string]interface{}{"scenario": t.name, "setup": t.setup, "op": t.op, "killed_at": p.k, "event": p.ev, "killed_again_at": p.k2})
		mu.Lock()
		kinds[eventClass(p.ev)]++
		mu.Unlock()
		c.Eval(fmt.Sprint(t.name, p.k, p.k2))
		if killed {
			c.Count("killed", 1)
		}
	})
	c.Extra("crash_points_by_kind", kinds)
}

// makeAgain: whatever an interrupted create or clone left, the repository
// exists after repeating it, or can be made once what is there is deleted.
func (t *template) makeAgain(c *Ctx, w *World, paths []string, rerr error) Problems {
	var ps Problems
	id := t.oc.Target
	if _, err := w.M.GetRepo(id); err != nil {
		ps.add("C16", "unusable", "the repository does not exist after repeating the operation (%v)", rerr)
		return ps
	}
	var kd []string
	for d := range t.end.Deltas {
		kd = append(kd, d)
	}
	if len(t.end.compare(observe(w.M, w.Dir, kd), t.op, t.oc)) == 0 {
		c.Count("made_by_repeating", 1)
		return nil
	}
	c.Count("made_after_deleting_the_remains", 1)
	if err := runOp(w, Step{Op: "delete", Repo: id}, nil); err != nil {
		ps.add("C16", "unusable", "what is left of the repository cannot be deleted: %v", err)
		return ps
	}
	if err := runOp(w, t.op, paths); err != nil {
		ps.add("C16", "unusable", "once what is left of it is deleted, the repository still cannot be made: %v", err)
		return ps
	}
	for rid := range t.end.Repos {
		if err := w.M.Index(rid); err != nil {
			ps.add("C16", "index-after", "%s cannot be indexed: %v", rid, err)
		}
	}
	o := observe(w.M, w.Dir, kd)
	ps = append(ps, t.end.compare(o, t.op, t.oc)...)
	ps = append(ps, checkInvariants(o, invOpts{Orphans: true, Accepted: w.cat.Accepted(), DeltaEnds: true, SharedCopy: true})...)
	for rid := range o.Repos {
		ps = append(ps, checkIndex(o, w.Dir, rid)...)
	}
	return ps
}

func (t *template) instance(dir string, cat *Catalog) *World {
	copyTree(t.dir, dir)
	w := &World{Dir: filepath.Join(dir, "base"), Stage: filepath.Join(dir, "stage"), cat: cat}
	must(os.MkdirAll(w.Stage, 0755))
	return w
}

// eventClass: "op area" of a recorded mutation.
func eventClass(ev string) string {
	f := strings.SplitN(ev, " ", 2)
	area := "other"
	switch {
	case strings.Contains(f[1], "eopkg-index.xml"):
		area = "index"
	case strings.Contains(f[1], "ferry_db"):
		area = "db"
	case strings.Contains(f[1], "deltaBuilds/"):
		area = "build"
	case strings.Contains(f[1], "deltaStaging/"):
		area = "staging"
	case strings.HasPrefix(f[1], "pool"):
		area = "pool"
	case strings.HasPrefix(f[1], "repo"):
		area = "repo"
	case strings.HasPrefix(f[1], "assets"):
		area = "assets"
	case strings.HasPrefix(f[1], "incoming"):
		area = "incoming"
	}
	return f[0] + " " + area
}

// interesting: not one of a long run of similar mutations.
func interesting(evs []string, i int) bool {
	c := eventClass(evs[i])
	if c == "write index" || strings.HasSuffix(c, " build") {
		return i == 0 || evs[i] != evs[i-1] || i == len(evs)-1 || evs[i] != evs[i+1]
	}
	return true
}

func sha256hex(b []byte) string { h := sha256.Sum256(b); return hex.EncodeToString(h[:]) }

func transitJob(p string) *jobs.JobEntry { return jobs.NewTransitJob(p) }
