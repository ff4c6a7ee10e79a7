package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"syscall"
)

type faultArgs struct {
	Base, Stage    string
	Step           Step
	Paths          []string
	FailAt, FailTo int64
	Errno          int
	KnownDeltas    []string
	Restart        bool // reopen before repeating
	// only the disturbed run, with other disturbances
	Hold             bool
	Path, Tool       string
	Asset, AssetText string
	Open             bool // report what stays open
	Reads            bool // what reads fails
	Nofile           int  // so many more descriptors can be opened
}

type faultResult struct {
	Err1, Err2, IdxErr string
	O1, O2             *Obs
	N                  int64
	Index1             Problems // index problems after the faulted operation, per repository
	Index2             Problems
	Hit                bool
	Failed             []string // the calls that were made to fail
	Open               []string // what of the base directory is still open
}

// faultWorker runs one operation under a fault and once more without.
func faultWorker(args []string) {
	syscall.Umask(022)
	var a faultArgs
	must(json.Unmarshal([]byte(args[0]), &a))
	w := &World{Dir: a.Base, Stage: a.Stage}
	w.open()
	var r faultResult
	saved, serr := os.ReadFile(a.Asset)
	if a.Asset != "" {
		os.Remove(a.Asset)
		if a.AssetText == "dir" {
			must(os.Mkdir(a.Asset, 0755))
		} else {
			must(os.WriteFile(a.Asset, []byte(a.AssetText), 0644))
		}
	}
	if a.Path != "" {
		os.Setenv("PATH", a.Path)
		os.Setenv("VERIF_TOOL", a.Tool)
	}
	if a.Open {
		debug.SetGCPercent(-1)
	}
	var lim syscall.Rlimit
	var fill []int
	if a.Nofile > 0 {
		must(syscall.Getrlimit(syscall.RLIMIT_NOFILE, &lim))
		less := lim
		less.Cur = uint64(highestFD() + 1 + a.Nofile)
		must(syscall.Setrlimit(syscall.RLIMIT_NOFILE, &less))
		nul, err := syscall.Open("/dev/null", syscall.O_RDONLY|syscall.O_CLOEXEC, 0)
		for ; err == nil; nul, err = syscall.Dup(nul) {
			syscall.CloseOnExec(nul)
			fill = append(fill, nul)
		}
		for _, fd := range fill[len(fill)-a.Nofile:] {
			syscall.Close(fd)
		}
	}
	faultReads = a.Reads
	faultArm(0, a.FailAt, a.FailTo, syscall.Errno(a.Errno), a.Base)
	if err := runOp(w, a.Step, a.Paths); err != nil {
		r.Err1 = "error: " + err.Error()
	}
	r.N, _ = faultDisarm()
	if a.Nofile > 0 {
		must(syscall.Setrlimit(syscall.RLIMIT_NOFILE, &lim))
	}
	if a.Open {
		r.Open = openBelow(filepath.Dir(a.Base))
	}
	if a.Asset != "" {
		must(os.RemoveAll(a.Asset))
		if serr == nil {
			must(os.WriteFile(a.Asset, saved, 0644))
		}
	}
	if a.Hold {
		b, _ := json.Marshal(r)
		os.Stdout.Write(b)
		os.Exit(0)
	}
	r.Hit = r.N >= a.FailAt
	r.Failed = faultFailed
	r.O1 = observe(w.M, w.Dir, a.KnownDeltas)
	for rid := range r.O1.Repos {
		r.Index1 = append(r.Index1, checkIndex(r.O1, w.Dir, rid)...)
	}
	if a.Restart {
		w.M.Close()
		w.open()
	}
	if err := runOp(w, a.Step, a.Paths); err != nil {
		r.Err2 = "error: " + err.Error()
	}
	rs, err := w.M.GetRepos()
	if err != nil {
		r.IdxErr = err.Error()
	}
	for _, x := range rs {
		if err := w.M.Index(x.ID); err != nil {
			r.IdxErr = x.ID + ": " + err.Error()
		}
	}
	r.O2 = observe(w.M, w.Dir, a.KnownDeltas)
	for rid := range r.O2.Repos {
		r.Index2 = append(r.Index2, checkIndex(r.O2, w.Dir, rid)...)
	}
	b, _ := json.Marshal(r)
	os.Stdout.Write(b)
	os.Exit(0)
}

func runC17(c *Ctx) {
	cat := newCatalog(c.Dir+"/w/cat", append(stdSpecs(false), longSpecs()...))
	sc := append(faultScenarios(cat), longScenarios(cat)...)
	var tl []*template
	var mu sync.Mutex
	c.Each(len(sc), 0, func(i int) {
		if t := buildTemplate(c, cat, sc[i]); t != nil {
			mu.Lock()
			tl = append(tl, t)
			mu.Unlock()
		} else {
			c.Count("scenarios_not_prepared", 1)
		}
	})
	sort.Slice(tl, func(i, j int) bool { return tl[i].name < tl[j].name })
	type point struct {
		t       *template
		k, to   int64
		errno   syscall.Errno
		ev      string
		restart bool
		reads   bool
	}
	errnos := []syscall.Errno{syscall.ENOSPC, syscall.EIO, syscall.EACCES}
	var pts []point
	nOps := map[string]int64{}
	nReads := map[string]int64{}
	c.Each(2*len(tl), 0, func(i int) {
		t, reads := tl[i/2], i%2 == 1
		dir := c.TempDir("rec")
		defer os.RemoveAll(dir)
		w := t.instance(dir, cat)
		var r opResult
		if _, err := spawn("op", opArgs{Base: w.Dir, Stage: w.Stage, Step: t.op, Paths: stageOp(w, t.op), Reads: reads}, &r); err != nil {
			c.Violate("crash:"+t.name, fmt.Sprintf("%s: undisturbed run: %v", t.name, err), t.op)
			return
		}
		if r.Err != "" {
			c.Count("scenarios_refused", 1)
			return
		}
		mu.Lock()
		defer mu.Unlock()
		if reads {
			nReads[t.name] = r.N
			rr := c.Rng("reads", t.name)
			seen := map[string]int{}
			for k := int64(1); k <= r.N; k++ {
				ev := r.Events[k-1]
				seen[ev]++
				if n := seen[ev]; c.Quick() && !(t.long && eventClass(ev) == "pread db") && (n > 2 || rr.Intn(3) > 0) {
					continue
				}
				to := []int64{0, 0, -1, 1 << 40}[rr.Intn(4)]
				pts = append(pts, point{t, k, to, []syscall.Errno{syscall.EIO, syscall.EACCES, syscall.EMFILE}[rr.Intn(3)], ev, rr.Intn(2) == 0, true})
			}
			return
		}
		nOps[t.name] = r.N
		rr := c.Rng("pts", t.name)
		for k := int64(1); k <= r.N; k++ {
			if c.Quick() && (t.long || !interesting(r.Events, int(k-1))) {
				continue
			}
			for e, en := range errnos {
				if c.Quick() && e != int(k)%len(errnos) {
					continue
				}
				pts = append(pts, point{t, k, 0, en, r.Events[k-1], rr.Intn(2) == 0, false})
				if !c.Quick() || rr.Intn(4) == 0 {
					pts = append(pts, point{t, k, k + 1 + rr.Int63n(3), en, r.Events[k-1], rr.Intn(2) == 0, false})
				}
				if !c.Quick() || rr.Intn(3) == 0 {
					pts = append(pts, point{t, k, -1, en, r.Events[k-1], rr.Intn(2) == 0, false})
				}
				if !c.Quick() || rr.Intn(4) == 0 {
					pts = append(pts, point{t, k, -2, en, r.Events[k-1], rr.Intn(2) == 0, false})
				}
				if !c.Quick() || rr.Intn(3) == 0 {
					pts = append(pts, point{t, k, 1 << 40, en, r.Events[k-1], rr.Intn(2) == 0, false})
				}
			}
		}
	})
	sort.Slice(pts, func(i, j int) bool {
		a, b := pts[i], pts[j]
		if a.t.name != b.t.name {
			return a.t.name < b.t.name
		}
		if a.reads != b.reads {
			return b.reads
		}
		if a.k != b.k {
			return a.k < b.k
		}
		return a.to < b.to
	})
	c.Extra("fault_points_per_operation", nOps)
	c.Extra("read_fault_points_per_operation", nReads)
	kinds := map[string]int{}
	c.Each(len(pts), 0, func(i int) {
		p := pts[i]
		t := p.t
		extent := "that call"
		if p.to == -1 {
			extent = "every change of that file from then on"
		} else if p.to == -2 {
			extent = "every change in that directory from then on"
		} else if p.to == 1<<40 {
			extent = "every call from then on"
		} else if p.to > 0 {
			extent = fmt.Sprintf("%d calls", p.to-p.k+1)
		}
		kind := "mutation"
		if p.reads {
			kind = "read"
		}
		what := fmt.Sprintf("%s with %v at %s %d (%s; %s fails)", t.name, p.errno, kind, p.k, p.ev, extent)
		replay := map[string]interface{}{"scenario": t.name, "setup": t.setup, "op": t.op, "fault_at": p.k, "until": p.to, "errno": p.errno.Error(), "event": p.ev, "reads": p.reads, "restart_before_repeating": p.restart}
		dir := c.TempDir("f")
		defer os.RemoveAll(dir)
		w := t.instance(dir, cat)
		paths := stageOp(w, t.op)
		var kd []string
		for d := range t.end.Deltas {
			kd = append(kd, d)
		}
		var r faultResult
		if _, err := spawn("fault", faultArgs{Base: w.Dir, Stage: w.Stage, Step: t.op, Paths: paths, FailAt: p.k, FailTo: p.to, Errno: int(p.errno), KnownDeltas: kd, Restart: p.restart, Reads: p.reads}, &r); err != nil {
			k := "crash:"
			if strings.HasPrefix(err.Error(), "hang") {
				k = "hang:"
			}
			if strings.Contains(err.Error(), "harnessErr") && strings.Contains(err.Error(), "(*World).open") {
				k = "reopen:"
			}
			c.Violate(strings.ReplaceAll(k+t.name+"@"+eventClass(p.ev), " ", "_"), what+": "+err.Error(), replay)
			return
		}
		var ps Problems
		acc := cat.Accepted()
		for id, a := range t.delAcc {
			acc[id] = a
		}
		// what holds after the fault
		for _, x := range checkInvariants(r.O1, invOpts{Accepted: acc, DeltaEnds: true}) {
			ps.add("C17", "after:"+x.Key, "afterwards %s", x.Msg)
		}
		for rid, mr := range t.pre.Repos {
			o := r.O1.Repos[rid]
			en := t.end.Repos[rid]
			if o == nil {
				if en != nil {
					ps.add("C17", "after:repo-lost", "afterwards repository %s is gone", rid)
				}
				continue
			}
			have := idSet(o.IDs())
			for d := range o.Deltas {
				have[d] = true
			}
			for _, set := range []func(*MRepo) map[string]bool{func(x *MRepo) map[string]bool { return x.Pk }, func(x *MRepo) map[string]bool { return x.De }} {
				for id := range set(mr) {
					if en != nil && set(en)[id] && !have[id] {
						ps.add("C17", "after:lost", "afterwards %s no longer lists %s", rid, id)
					}
				}
			}
			for id := range have {
				if !mr.Pk[id] && !mr.De[id] && (en == nil || !en.Pk[id] && !en.De[id]) {
					ps.add("C17", "after:extra", "afterwards %s lists %s", rid, id)
				}
			}
		}
		if r.Err1 == "" {
			for _, x := range t.end.compare(r.O1, t.op, t.oc) {
				ps.add("C17", "silent:"+x.Key, "success was reported but %s", x.Msg)
			}
			if t.oc.Index != "" && !t.oc.MayIdx {
				for _, x := range r.Index1 {
					if strings.Contains(x.Msg, t.oc.Index+":") || strings.HasPrefix(x.Msg, t.oc.Index) {
						ps.add("C17", "silent:"+x.Key, "success was reported but %s", x.Msg)
					}
				}
			}
		}
		// after repeating
		if r.IdxErr != "" {
			ps.add("C17", "repeat:index", "after repeating, indexing fails: %s", r.IdxErr)
		}
		for _, x := range t.end.compare(r.O2, t.op, t.oc) {
			ps.add("C17", "repeat:"+x.Key, "after repeating (%s; %s), %s", r.Err1, r.Err2, x.Msg)
		}
		for _, x := range checkInvariants(r.O2, invOpts{Orphans: true, Accepted: acc, DeltaEnds: true}) {
			ps.add("C17", "repeat:"+x.Key, "after repeating (%s; %s), %s", r.Err1, r.Err2, x.Msg)
		}
		for _, x := range r.Index2 {
			ps.add("C17", "repeat:"+x.Key, "after repeating and indexing, %s", x.Msg)
		}
		replay["failed"] = r.Failed
		for _, x := range ps {
			if k := t.knownFault(x, &r); k != "" {
				c.Violate(k, what+": "+x.Msg, replay)
			} else {
				c.reportFault(Problems{x}, t.name+":", "@"+eventClass(p.ev), what, replay)
			}
		}
		mu.Lock()
		kinds[eventClass(p.ev)]++
		mu.Unlock()
		key := ""
		if r.Hit {
			key = fmt.Sprint(t.name, p.reads, p.k, p.to, p.errno)
			if r.Err1 != "" {
				c.Count("operations_that_reported_the_fault", 1)
			} else {
				c.Count("operations_that_completed_despite_the_fault", 1)
			}
		}
		c.Eval(key)
	})
	c.Extra("fault_points_by_kind", kinds)
}

// longSpecs are packages whose records don't all fit into what the database
// reads at once.
func longSpecs() (out []*PkgSpec) {
	for i := 0; i < 10; i++ {
		for _, rel := range []int{1, 2} {
			n := fmt.Sprintf("long%02d-%s", i, strings.Repeat(string(rune('a'+i)), 150))
			s := &PkgSpec{Name: n, Source: "longs", Release: rel, Version: "1.0", Salt: fmt.Sprint(n, rel)}
			s.Files = []FileSpec{{Path: "usr", Dir: true}, {Path: fmt.Sprintf("usr/%s-%d", n[:6], rel), Content: n}}
			out = append(out, s)
		}
	}
	return
}

func longScenarios(cat *Catalog) []scenario {
	var names []string
	for _, s := range longSpecs() {
		if s.Release == 1 {
			names = append(names, s.Name)
		}
	}
	var old, all []string
	for _, n := range names {
		old = append(old, cat.idsOf(n, 1)...)
		all = append(all, cat.idsOf(n, 1, 2)...)
	}
	base := []Step{st("create", "un"), st("import", "un", all), st("create", "a"), st("import", "a", old)}
	l := []scenario{
		{name: "long-index", op: st("index", "un")},
		{name: "long-trim", op: st("trim", "un", 1)},
		{name: "long-pull", op: st("pull", "un", "a")},
		{name: "long-clone", op: st("clone", "un", "b", true)},
		{name: "long-rmsrc", op: st("rmsrc", "un", "longs", 2)},
		{name: "long-copysrc", op: st("copysrc", "un", "a", "longs", 2, false)},
		{name: "long-delete", op: st("delete", "a")},
		{name: "long-import", op: st("import", "a", cat.idsOf(names[4], 2))},
	}
	for i := range l {
		l[i].setup, l[i].conv, l[i].long = base, true, true
	}
	return l
}

// knownFault gives the narrow classes of failure that are listed findings their
// own key: what a removal was asked to remove, and the target of a clone.
func (t *template) knownFault(x Problem, r *faultResult) string {
	if r.Err1 == "" {
		return ""
	}
	db := false
	for _, f := range r.Failed {
		db = db || f == "write db"
	}
	switch t.op.Op {
	case "rmsrc", "trim", "trimobs", "delete":
		if x.Key != "after:repo-file-missing" && x.Key != "after:pool-file-missing" || !t.asked(x.Msg) {
			return ""
		}
		if db {
			return "removal-commit-failed:" + strings.TrimPrefix(x.Key, "after:")
		}
		if len(r.Failed) > 1 {
			return "removal-undo-failed"
		}
	case "clone":
		if x.Key == "after:repo-file-missing" && db && len(r.Failed) > 1 && strings.Contains(x.Msg, " missing from "+t.op.Target) {
			return "clone-undo-commit-failed"
		}
		if strings.HasPrefix(x.Key, "repeat:") && len(r.Failed) > 1 && r.O2.Repos[t.op.Target] != nil && strings.Contains(x.Msg, t.op.Target) {
			return "clone-undo-failed"
		}
	}
	return ""
}

// asked: the message is about an item that the operation was to remove.
func (t *template) asked(msg string) bool {
	for rid, mr := range t.pre.Repos {
		if !strings.Contains(msg, rid) && !strings.Contains(msg, "pool") {
			continue
		}
		en := t.end.Repos[rid]
		for _, set := range []func(*MRepo) map[string]bool{func(x *MRepo) map[string]bool { return x.Pk }, func(x *MRepo) map[string]bool { return x.De }} {
			for id := range set(mr) {
				if strings.Contains(msg, id) && (en == nil || !set(en)[id]) {
					return true
				}
			}
		}
	}
	return false
}
