package main

// C19: background deltas, sequential jobs, requests, uploads and shutdown next
// to each other: the race detector watches the real daemon and the real
// components, and what they leave behind is judged against the model.

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/getsolus/ferryd/src/ferryd/core"
	"github.com/getsolus/ferryd/src/ferryd/jobs"
	"github.com/getsolus/ferryd/src/libferry"
)

func init() {
	register(&Check{ID: "C19", Level: "exploration",
		Rule:   "one case = one run of the race-instrumented daemon (or of its components in this process) under concurrent valid work; non-trivial: background and sequential work overlapped; distinct by its script",
		Assume: []string{"the race detector sees only the accesses of executed schedules"},
		Run:    runC19})
}

// raceReports splits the output of the race detector into the reports about
// two accesses that both come from ferryd's code.
func raceReports(s string, ours func(stack string) bool) (out []string) {
	for _, blk := range strings.Split(s, "==================") {
		i := strings.Index(blk, "WARNING: DATA RACE")
		if i < 0 {
			continue
		}
		blk = blk[i:]
		parts := strings.Split(blk, "\n\n") // access, previous access, creations
		if len(parts) >= 2 && ours(parts[0]) && ours(parts[1]) {
			out = append(out, cut(blk, 5000))
		}
	}
	return
}

func ferrydStack(s string) bool { return strings.Contains(s, "github.com/getsolus/ferryd/src/") }

// raceSite names the places of a report.
func raceSite(rep string) string {
	var l []string
	for _, p := range strings.SplitN(rep, "\n\n", 3)[:2] {
		for _, ln := range strings.Split(p, "\n") {
			ln = strings.TrimSpace(ln)
			if j := strings.LastIndex(ln, "getsolus/ferryd/src/"); j >= 0 && strings.HasSuffix(ln, "()") {
				l = append(l, strings.TrimSuffix(ln[j+len("getsolus/ferryd/src/"):], "()"))
				break
			} else if strings.HasPrefix(ln, "main.") && strings.HasSuffix(ln, "()") {
				l = append(l, strings.TrimSuffix(ln, "()"))
				break
			}
		}
	}
	sort.Strings(l)
	return strings.Join(l, "|")
}

func runC19(c *Ctx) {
	setTimeScale(2000)
	setWriteDelay(c.Seed, 300)
	cat := newCatalog(c.TempDir("cat"), raceSpecs())
	mid := time.Now()
	c.Each(c.N(24, 1500), 6, func(i int) { raceManager(c, cat, i) })
	c.Each(c.N(12, 600), 6, func(i int) { raceStore(c, i) })
	c.Each(c.N(8, 300), 4, func(i int) { processorRun(c, i) })
	c.Extra("in_process_s", int(time.Since(mid).Seconds()))
	// what the race detector saw in this process
	l, _ := filepath.Glob(filepath.Join(c.Dir, "race.*"))
	n := 0
	for _, f := range l {
		b, err := os.ReadFile(f)
		must(err)
		n += strings.Count(string(b), "WARNING: DATA RACE")
		for _, rep := range raceReports(string(b), ferrydStack) {
			c.Violate("race:"+raceSite(rep), "two threads access the same memory without synchronisation:\n"+rep, rep)
		}
	}
	c.Extra("race_reports_in_process", n)
	c.Each(c.N(24, 1500), 5, func(i int) { raceDaemon(c, cat, i) })
}

// raceSpecs: several names with several releases each, so that background jobs
// have deltas to build, some of them pointless.
func raceSpecs() (out []*PkgSpec) {
	for _, n := range []struct{ name, source string }{{"alpha", "alpha"}, {"alpha-devel", "alpha"}, {"beta", "beta"}, {"gamma", "gamma"}, {"other", "other"}} {
		for _, r := range []int{1, 2, 9, 10, 11} {
			s := &PkgSpec{Name: n.name, Source: n.source, Release: r, Version: fmt.Sprintf("1.%d", r), Salt: fmt.Sprint(n.name, r)}
			common := "common content of " + n.name
			if n.name == "other" { // nothing in common: no delta is possible
				common = fmt.Sprint("content of ", n.name, " at ", r)
			}
			s.Files = []FileSpec{{Path: "usr", Dir: true}, {Path: "usr/" + n.name + "-common", Content: common},
				{Path: "usr/" + n.name + "-data", Content: fmt.Sprintf("data of %s at %d\n", n.name, r)}}
			out = append(out, s)
		}
	}
	return
}

// settled judges what is there once everything has come to rest, after deltas
// and index were asked for once more.
func settled(o *Obs, m *Model, dir string, cat *Catalog) (ps Problems) {
	for rid, mr := range m.Repos {
		r := o.Repos[rid]
		if r == nil {
			ps.add("C19", "repo-lost", "repository %s is gone", rid)
			continue
		}
		if d := setDiff(idSet(r.IDs()), mr.Pk); d != "" {
			ps.add("C19", "update-lost", "package list of %s: %s", rid, d)
		}
		want := map[string]bool{}
		seen := map[string]bool{}
		for id := range mr.Pk {
			n := m.sp(id).Name
			if seen[n] {
				continue
			}
			seen[n] = true
			l := m.namesIn(rid, n)
			sort.Slice(l, func(i, j int) bool { return m.sp(l[i]).Release < m.sp(l[j]).Release })
			tip := m.sp(l[len(l)-1])
			for _, x := range l[:len(l)-1] {
				if a := m.sp(x); deltaPossible(a, tip) && sharesContent(a, tip) {
					want[deltaName(a, tip)] = true
				}
			}
		}
		for d := range want {
			if !r.Deltas[d] {
				ps.add("C19", "delta-lost", "%s has no delta %s although it was asked for", rid, d)
			}
		}
	}
	for rid := range o.Repos {
		if m.Repos[rid] == nil {
			ps.add("C19", "repo-extra", "unexpected repository %s", rid)
		}
	}
	ps = append(ps, checkInvariants(o, invOpts{Orphans: true, Accepted: cat.Accepted(), SharedCopy: true, DeltaEnds: true})...)
	for rid := range o.Repos {
		ps = append(ps, checkIndex(o, dir, rid)...)
	}
	return
}

var raceWeights = map[string]int{"create": 3, "clone": 8, "import": 10, "pull": 6, "copysrc": 7, "rmsrc": 9, "trim": 7, "delete": 4, "index": 4, "deltarepo": 12}
var raceRepos = []string{"un", "stable", "a", "b"}

// validStep proposes a step that has to succeed.
func validStep(r *rand.Rand, m *Model, p Profile) (Step, bool) {
	for k := 0; k < 20; k++ {
		s := gen(r, m, p)
		if s.Repo == "" {
			continue
		}
		if oc := m.clone().apply(s); !oc.Fail {
			return s, true
		}
	}
	return Step{}, false
}

// raceManager: sequential work, background deltas and queries on one manager,
// without the daemon's pauses.
func raceManager(c *Ctx, cat *Catalog, i int) {
	r := c.Rng("man", i)
	dir := c.TempDir("rm")
	defer os.RemoveAll(dir)
	w := newWorld(dir, cat)
	defer func() { w.M.Close() }()
	m := newModel(cat)
	var log []string
	bad := func(key, f string, a ...interface{}) {
		c.Violate(key, fmt.Sprintf(f, a...), map[string]interface{}{"operations": log})
	}
	run := func(s Step) bool {
		log = append(log, s.String())
		paths := w.stageAll(s.Pkgs)
		if err := viaJob(w.M, w.jobFor(s, paths)); err != nil {
			bad("job-failed:"+s.Op, "beside background work, %s: %v", s, err)
			return false
		}
		m.apply(s)
		return true
	}
	first := raceRepos[:2]
	for _, x := range first {
		if !run(st("create", x)) || !run(Step{Op: "import", Repo: x, Pkgs: cat.IDs[:5+r.Intn(len(cat.IDs)-5)]}) {
			return
		}
	}
	stop := make(chan struct{})
	var wg sync.WaitGroup
	var deltas, failed, queries, overlapped int64
	var busy int32
	for g := 0; g < 5; g++ {
		rr := rand.New(rand.NewSource(r.Int63()))
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			for {
				select {
				case <-stop:
					return
				default:
				}
				rid, name := raceRepos[rr.Intn(len(raceRepos))], cat.Names[rr.Intn(len(cat.Names))]
				if g < 3 {
					j := jobs.NewDeltaJob(rid, name)
					if rr.Intn(3) == 0 {
						j = jobs.NewDeltaIndexJob(rid, name)
					}
					atomic.AddInt32(&busy, 1)
					err := viaJob(w.M, j)
					atomic.AddInt32(&busy, -1)
					atomic.AddInt64(&deltas, 1)
					if err != nil {
						atomic.AddInt64(&failed, 1)
						time.Sleep(time.Millisecond)
					}
					continue
				}
				atomic.AddInt64(&queries, 1)
				switch rr.Intn(5) {
				case 0:
					w.M.GetRepos()
				case 1:
					w.M.GetPoolItems()
				case 2:
					w.M.GetPackageNames(rid)
				case 3:
					w.M.GetPackages(rid, name)
				case 4:
					w.M.GetPoolEntry(cat.IDs[rr.Intn(len(cat.IDs))])
				}
				time.Sleep(time.Duration(rr.Intn(400)) * time.Microsecond)
			}
		}(g)
	}
	p := Profile{Repos: raceRepos, Weights: map[string]int{}}
	for k, v := range raceWeights {
		if k != "deltarepo" {
			p.Weights[k] = v
		}
	}
	ok := true
	for k := 0; k < 20 && ok; k++ {
		s, valid := validStep(r, m, p)
		if !valid {
			continue
		}
		if atomic.LoadInt32(&busy) > 0 {
			overlapped++
		}
		if ok = run(s); !ok {
			break
		}
		// nobody else changes package lists
		for rid, mr := range m.Repos {
			got := map[string]bool{}
			names, err := w.M.GetPackageNames(rid)
			if err != nil {
				bad("query", "after %s: %v", s, err)
				ok = false
				break
			}
			for _, n := range names {
				l, err := w.M.GetPackages(rid, n)
				if err != nil {
					bad("query", "after %s: packages of %s: %v", s, n, err)
					ok = false
				}
				for _, x := range l {
					got[x.GetID()] = true
				}
			}
			if d := setDiff(got, mr.Pk); d != "" {
				bad("update-lost", "beside background work, after %s the package list of %s: %s", s, rid, d)
				ok = false
				break
			}
		}
	}
	close(stop)
	wg.Wait()
	c.Count("background_delta_jobs", deltas)
	c.Count("background_delta_jobs_failed", failed)
	c.Count("queries", queries)
	c.Count("sequential_jobs_beside_background_work", overlapped)
	key := ""
	if overlapped > 0 {
		key = "man|" + sha1hex([]byte(strings.Join(log, "\n")))
	}
	c.Eval(key)
	if !ok {
		return
	}
	if i%4 == 3 { // what was kept in memory only, is not relied on
		w.M.Close()
		w.open()
	}
	for rid := range m.Repos {
		if err := w.deltaRepo(rid); err != nil {
			bad("settle", "producing deltas for %s at rest: %v", rid, err)
			return
		}
		if err := w.M.Index(rid); err != nil {
			bad("settle", "indexing %s at rest: %v", rid, err)
			return
		}
	}
	o := observe(w.M, w.Dir, nil)
	if ps := settled(o, m, w.Dir, cat); len(ps) > 0 {
		bad("state:"+ps[0].Key, "sequential jobs beside background deltas: %s", cut(ps.String(), 2500))
	}
	c.State(m.digest())
	if i < 1 {
		c.Sample(log)
	}
}

// raceStore: submitters, workers, status queries, resets and the end of the
// processor on one job store.
func raceStore(c *Ctx, i int) {
	r := c.Rng("store", i)
	dir := c.TempDir("rs")
	defer os.RemoveAll(dir)
	stt := newStoreAt(dir)
	m, err := core.NewManager(dir)
	must(err)
	proc := jobs.NewProcessor(m, stt, 2+r.Intn(4))
	proc.Begin()
	var wg sync.WaitGroup
	for g := 0; g < 6; g++ {
		rr := rand.New(rand.NewSource(r.Int63()))
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			for k := 0; k < 15; k++ {
				switch {
				case g < 2:
					id := fmt.Sprintf("g%d", g)
					l := []*jobs.JobEntry{jobs.NewCreateRepoJob(id), jobs.NewDeltaRepoJob(id), jobs.NewDeltaIndexJob(id, "p"), jobs.NewDeltaJob(id, "q"), jobs.NewIndexRepoJob(id)}
					if err := proc.PushJob(l[rr.Intn(len(l))]); err != nil {
						c.Violate("push", fmt.Sprintf("queueing a job: %v", err), i)
					}
				case g == 5 && rr.Intn(3) == 0:
					if err := [](func() error){stt.ResetCompleted, stt.ResetFailed}[rr.Intn(2)](); err != nil {
						c.Violate("reset", fmt.Sprintf("forgetting old jobs: %v", err), i)
					}
				default:
					f := []func() ([]*libferry.Job, error){stt.ActiveJobs, stt.CompletedJobs, stt.FailedJobs}[rr.Intn(3)]
					if _, err := f(); err != nil {
						c.Violate("query", fmt.Sprintf("asking for jobs: %v", err), i)
					}
				}
				time.Sleep(time.Duration(rr.Intn(3000)) * time.Microsecond)
			}
		}(g)
	}
	if r.Intn(2) == 0 {
		wg.Wait()
		if !waitDrained(c, stt, fmt.Sprint("store run ", i)) {
			return
		}
		proc.Close()
	} else { // ended in the middle; requests may still come in
		time.Sleep(time.Duration(r.Intn(20)) * time.Millisecond)
		proc.Close()
		wg.Wait()
	}
	stt.Close()
	m.Close()
	c.Count("store_runs", 1)
	c.Eval(fmt.Sprint("store", i))
}

// raceDaemon: the whole daemon, built with the race detector.
func raceDaemon(c *Ctx, cat *Catalog, i int) {
	s := newScn(c, "racedaemon", i)
	defer s.close()
	r := s.r
	opts := daemonOpts{Bin: "ferryd-race", Jobs: 2 + r.Intn(5), Scale: 100,
		Env: append(s.delays(), "GORACE=log_path=stderr exitcode=0 halt_on_error=0 history_size=3")}
	resets := i%4 == 1
	stopMid := i%3 == 2
	if stopMid {
		opts.Scale = 40
	}
	races := func(d *Daemon, when string) bool {
		for _, rep := range raceReports(d.Err.String(), func(string) bool { return true }) {
			s.bad("race:"+raceSite(rep), "%s: two threads access the same memory without synchronisation:\n%s", when, rep)
			return true
		}
		if t := d.Trouble(); t != "" {
			s.bad("crash:"+panicSite(t), "%s: the daemon crashed: %s", when, t)
			return true
		}
		return false
	}
	d := s.up("the daemon", opts)
	if d == nil {
		return
	}
	m := newModel(cat)
	stage := filepath.Join(s.dir, "stage")
	must(os.MkdirAll(stage, 0755))
	nst := 0
	var descs []string
	var logMu sync.Mutex
	note := func(f string, a ...interface{}) { logMu.Lock(); defer logMu.Unlock(); s.note(f, a...) }
	bad := func(key, f string, a ...interface{}) {
		logMu.Lock()
		defer logMu.Unlock()
		if !s.failed {
			s.bad(key, f, a...)
		}
	}
	failed := func() bool { logMu.Lock(); defer logMu.Unlock(); return s.failed }
	send := func(st Step) bool {
		var paths []string
		for _, id := range st.Pkgs {
			nst++
			pd := filepath.Join(stage, fmt.Sprint(nst))
			must(os.MkdirAll(pd, 0755))
			b, err := os.ReadFile(cat.Pkgs[id].Path)
			must(err)
			must(os.WriteFile(filepath.Join(pd, id), b, 0644))
			paths = append(paths, filepath.Join(pd, id))
		}
		note("%s", st)
		if err := viaClient(d.Client(), st, paths); err != nil {
			bad("refused", "beside other work, %s: %v", st, err)
			return false
		}
		descs = append(descs, describeStep(st))
		m.apply(st)
		return true
	}
	// "up" only takes uploads
	mu := newModel(cat)
	if !send(st("create", "up")) {
		return
	}
	mu.apply(st("create", "up"))
	delete(m.Repos, "up")
	for _, x := range raceRepos[:2] {
		if !send(st("create", x)) || !send(Step{Op: "import", Repo: x, Pkgs: cat.IDs[:5+r.Intn(len(cat.IDs)-5)]}) || !send(st("deltarepo", x)) {
			return
		}
	}
	stop := make(chan struct{})
	var qwg, uwg sync.WaitGroup
	var queries, maxActive, bgRunning int64
	stopping := int32(0)
	// what was seen of each job
	var seenMu sync.Mutex
	active, finished := map[string]bool{}, map[string]bool{}
	look := func(v *jobView, began map[string]bool) {
		seenMu.Lock()
		defer seenMu.Unlock()
		run := int64(0)
		for _, j := range v.Active {
			k := jobKey(j)
			if began[k] {
				bad("job-resurrected", "%q was reported as finished, and is queued or running again", j.Description)
			}
			active[k] = true
			if !j.Timing.Begin.IsZero() && strings.HasPrefix(j.Description, "Delta package") {
				run++
			}
		}
		if run > bgRunning {
			bgRunning = run
		}
		if n := int64(len(v.Active)); n > maxActive {
			maxActive = n
		}
		for _, l := range [][]*libferry.Job{v.Failed, v.Completed} {
			for _, j := range l {
				finished[jobKey(j)] = true
			}
		}
	}
	for g := 0; g < 3; g++ {
		rr := rand.New(rand.NewSource(r.Int63()))
		cl := libferry.NewClient(s.sock)
		qwg.Add(1)
		go func(g int) {
			defer qwg.Done()
			defer cl.Close()
			for {
				select {
				case <-stop:
					return
				default:
				}
				seenMu.Lock()
				done := map[string]bool{}
				for k := range finished {
					done[k] = true
				}
				seenMu.Unlock()
				var err error
				what := ""
				switch x := rr.Intn(10); {
				case x < 5:
					var q *libferry.StatusRequest
					what = "status"
					if q, err = askStatus(cl); err == nil {
						look(&jobView{q.CurrentJobs, q.FailedJobs, q.CompletedJobs}, done)
					}
				case x < 7:
					what = "list repos"
					var l []string
					l, err = cl.GetRepos()
					for _, n := range l {
						if n != "up" && !idSet(raceRepos)[n] {
							bad("query-wrong", "list of repositories has %q", n)
						}
					}
				case x < 9 || !resets:
					what = "list pool"
					var l []libferry.PoolItem
					l, err = cl.GetPoolItems()
					seen := map[string]bool{}
					for _, p := range l {
						if seen[p.ID] || p.RefCount < 0 || p.RefCount > 5 {
							bad("query-wrong", "list of the pool has %s (%d references, before: %v)", p.ID, p.RefCount, seen[p.ID])
						}
						seen[p.ID] = true
					}
				default:
					what = "reset"
					if rr.Intn(2) == 0 {
						err = cl.ResetCompleted()
					} else {
						err = cl.ResetFailed()
					}
				}
				atomic.AddInt64(&queries, 1)
				if err != nil {
					if atomic.LoadInt32(&stopping) != 0 {
						return
					}
					bad("query-failed", "%s: %v", what, err)
					return
				}
				time.Sleep(time.Duration(rr.Intn(3000)) * time.Microsecond)
			}
		}(g)
	}
	ur := rand.New(rand.NewSource(r.Int63()))
	uwg.Add(1)
	go func() { // uploads, each of newer packages only
		defer uwg.Done()
		inc := filepath.Join(s.base, "incoming")
		for k := 0; k < 5 && !failed(); k++ {
			var ids []string
			used := map[string]bool{}
			for _, x := range ur.Perm(len(cat.IDs)) {
				id := cat.IDs[x]
				nm := mu.sp(id).Name
				if q, ok := mu.pub(mu.Repos["up"])[nm]; used[nm] || ok && mu.sp(q).Release >= mu.sp(id).Release {
					continue
				}
				used[nm] = true
				if ids = append(ids, id); len(ids) == 2 {
					break
				}
			}
			if len(ids) == 0 {
				return
			}
			for _, id := range ids {
				b, err := os.ReadFile(cat.Pkgs[id].Path)
				must(err)
				syscall.ForkLock.RLock()
				err = os.WriteFile(filepath.Join(inc, id), b, 0644)
				syscall.ForkLock.RUnlock()
				must(err)
			}
			p := writeUploadManifest(inc, fmt.Sprintf("up%d.tram", k), "up", cat, ids)
			note("upload of %v", ids)
			mu.apply(st("upload", "up", ids))
			for t0 := time.Now(); fileExists(p); time.Sleep(2 * time.Millisecond) {
				if failed() || d.Exited() {
					return
				}
				if time.Since(t0) > 100*time.Second {
					bad("upload-stuck", "upload %d is not processed", k)
					return
				}
			}
			c.Count("uploads", 1)
		}
	}()
	p := Profile{Repos: raceRepos, Weights: raceWeights}
	for k := 0; k < 16 && !failed(); k++ {
		if r.Intn(6) == 0 {
			note("deltas for up")
			if err := d.Client().DeltaRepo("up"); err != nil {
				bad("refused", "beside other work, deltas for up: %v", err)
			}
			continue
		}
		if st, ok := validStep(r, m, p); ok {
			send(st)
		}
		if r.Intn(2) == 0 {
			time.Sleep(time.Duration(r.Intn(40)) * time.Millisecond)
		}
	}
	if stopMid && !failed() {
		uwg.Wait()
		if !failed() {
			note("SIGTERM")
			atomic.StoreInt32(&stopping, 1)
			if !d.Stop(120 * time.Second) {
				bad("hang", "the daemon does not end beside its work\n%s", d.quitDump())
			} else if d.Code() != 0 {
				bad("exit", "the daemon ended with status %d: %s", d.Code(), cut(d.Err.String(), 2000))
			}
		}
		close(stop)
		qwg.Wait()
		if failed() || races(d, "ended beside its work") {
			return
		}
		if d = s.up("the successor", opts); d == nil {
			return
		}
		c.Count("successors", 1)
	} else {
		uwg.Wait()
	}
	v, err := d.waitIdle(150 * time.Second)
	if err != nil {
		bad("stuck", "accepted jobs do not finish: %v\n%s", err, d.quitDump())
	}
	if !stopMid {
		close(stop)
		qwg.Wait()
	}
	if failed() || races(d, "at work") {
		return
	}
	c.Count("queries", queries)
	c.Count("jobs_finished", int64(len(v.Failed)+len(v.Completed)))
	judgeFailed := func(v *jobView, when string, deltasToo bool) bool {
		for _, j := range v.Failed {
			if deltasToo || !strings.HasPrefix(j.Description, "Delta package") {
				bad("job-failed", "%s %q failed: %s", when, j.Description, j.Error)
				return false
			}
		}
		return true
	}
	if !judgeFailed(v, "beside other work", false) {
		return
	}
	if n := len(v.Failed); n > 0 {
		c.Count("delta_jobs_failed_beside_removals", int64(n))
	}
	if !resets && len(v.Completed) < 100 && len(v.Failed) < 100 {
		okd := map[string]int{}
		have := map[string]bool{}
		for _, l := range [][]*libferry.Job{v.Failed, v.Completed} {
			for _, j := range l {
				okd[j.Description]++
				if have[jobKey(j)] {
					bad("job-twice", "%q is recorded twice", j.Description)
				}
				have[jobKey(j)] = true
			}
		}
		for _, x := range descs {
			if okd[x]--; okd[x] < 0 {
				bad("job-lost", "%q was accepted, and did not finish", x)
				return
			}
		}
		for k := range active {
			if !have[k] {
				bad("job-lost", "%q was reported as queued or running, and did not finish", k)
				return
			}
		}
		c.Count("job_accounts_closed", 1)
	}
	// at rest
	m.Repos["up"] = mu.Repos["up"]
	if err := d.Client().ResetFailed(); err != nil {
		bad("query-failed", "reset: %v", err)
		return
	}
	var all []string
	for rid := range m.Repos {
		all = append(all, rid)
	}
	sort.Strings(all)
	for _, rid := range all {
		if err := d.Client().DeltaRepo(rid); err != nil {
			bad("refused", "deltas for %s at rest: %v", rid, err)
			return
		}
	}
	if v, err = d.waitIdle(150 * time.Second); err != nil {
		bad("stuck", "deltas at rest do not finish: %v\n%s", err, d.quitDump())
		return
	}
	for _, rid := range all {
		d.Client().IndexRepo(rid)
	}
	if v, err = d.waitIdle(150 * time.Second); err != nil {
		bad("stuck", "indexing at rest does not finish: %v\n%s", err, d.quitDump())
		return
	}
	if !judgeFailed(v, "at rest", true) {
		return
	}
	if !d.Stop(60 * time.Second) {
		bad("hang", "the daemon does not end\n%s", d.quitDump())
		return
	}
	if races(d, "until its end") {
		return
	}
	mgr, err := core.NewManager(s.base)
	must(err)
	o := observe(mgr, s.base, nil)
	mgr.Close()
	if ps := settled(o, m, s.base, cat); len(ps) > 0 {
		bad("state:"+ps[0].Key, "after concurrent work: %s", cut(ps.String(), 2500))
		return
	}
	c.State(fmt.Sprint("active ", maxActive, " background ", bgRunning))
	c.State(m.digest())
	c.Count("race_daemon_runs", 1)
	if bgRunning > 0 {
		c.Count("runs_with_background_jobs_seen_running", 1)
	}
	s.eval()
	if i < 1 {
		c.Sample(s.log)
	}
}
