package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/getsolus/ferryd/src/ferryd/core"
	"github.com/getsolus/ferryd/src/ferryd/jobs"
	"github.com/getsolus/ferryd/src/libferry"
)

// C28: file-system calls of the job database fail. Every call on the store that
// reports an error must have done nothing and every other one everything, during
// the fault, after it and after a restart; the real processor must still bring
// every accepted job to its end once.

func init() {
	register(&Check{ID: "C28", Level: "fault_enumeration",
		Rule:   "an evaluation is one scripted job-store history with file-system calls of its database failing from one position on (once, a few times or for the rest of the script), or a start-up under such a fault, or a processor run with one; distinct by script and fault",
		Assume: []string{"a failing call has no effect", "the poll interval of the workers is scaled down by an instrumented time package"},
		Run:    runC28})
	workers["jfault"] = jfaultWorker
	workers["jpfault"] = jpfaultWorker
}

// hugeJobScript has more queued than the database keeps in memory, so that the
// queue is read again when a job is submitted.
func hugeJobScript(c *Ctx, r *rand.Rand) *jobScript {
	s := &jobScript{dir: c.TempDir("jtpl"), pre: &jmodel{}}
	st := newStoreAt(s.dir)
	var cl [2][]*jobs.JobEntry
	push := func(async bool, name string) {
		kind := 0
		if async {
			kind = len(jobKinds) - 2
		}
		b := make([]byte, 90000)
		for i := range b {
			b[i] = 'a' + byte(r.Intn(26))
		}
		o := jop{Op: "push", A: async, Kind: kind, S: []string{name, string(b), ""}}
		if !async {
			o.S[0] += string(b[:6000])
		}
		must(runJop(st, o, &cl))
		s.pre.apply(o)
		s.setup++
	}
	for i := 0; i < 4; i++ {
		push(false, fmt.Sprint("s", i))
	}
	for i := 0; i < 130; i++ {
		push(true, fmt.Sprint("a", i))
	}
	st.Close()
	s.ops = []jop{{Op: "push", Kind: 0, S: []string{"one", "", ""}}, {Op: "push", Kind: 1, S: []string{"two", "", ""}}}
	return s
}

type jfaultArgs struct {
	Base           string
	Ops, Then      []jop // under the fault, afterwards
	FailAt, FailTo int64
	Errno          int
	Reads          bool
	Start          bool // start under the fault instead
	Crash          bool // end without closing
}

type jfaultResult struct {
	Errs   map[int]string // calls that reported an error
	Opened string
	N      int64
	Events []string
	Failed []string
	Active []string // what the status would show once the fault is gone
	Run    int
	Done   []int64 // end times
	Err2   []string // errors of the calls afterwards
}

func jfaultWorker(args []string) {
	syscall.Umask(022)
	var a jfaultArgs
	must(json.Unmarshal([]byte(args[0]), &a))
	r := jfaultResult{Errs: map[int]string{}}
	faultReads = a.Reads
	base := filepath.Join(a.Base, "ferry_db_jobs")
	var st *jobs.JobStore
	if a.Start {
		faultArm(0, a.FailAt, a.FailTo, syscall.Errno(a.Errno), base)
		s, err := jobs.NewStore(a.Base)
		r.N, r.Events = faultDisarm()
		r.Failed = faultFailed
		if st = s; err != nil {
			r.Opened = "error: " + err.Error()
			if st, err = jobs.NewStore(a.Base); err != nil {
				r.Opened = "again: " + err.Error()
				// perhaps it takes another process
				b, _ := json.Marshal(r)
				os.Stdout.Write(b)
				os.Exit(0)
			}
		}
	} else {
		st = newStoreAt(a.Base)
		faultArm(0, a.FailAt, a.FailTo, syscall.Errno(a.Errno), base)
	}
	var cl [2][]*jobs.JobEntry
	for i, o := range a.Ops {
		if err := runJop(st, o, &cl); err != nil {
			r.Errs[i] = err.Error()
		}
	}
	if !a.Start {
		r.N, r.Events = faultDisarm()
		r.Failed = faultFailed
	}
	act, err := st.ActiveJobs()
	if err != nil {
		r.Err2 = append(r.Err2, "status: "+err.Error())
	}
	for _, j := range act {
		r.Active = append(r.Active, j.Description)
		if !j.Timing.Begin.IsZero() {
			r.Run++
		}
	}
	past, err := st.CompletedJobs()
	if err != nil {
		r.Err2 = append(r.Err2, "history: "+err.Error())
	}
	for _, j := range past {
		r.Done = append(r.Done, j.Timing.End.Unix())
	}
	for i, o := range a.Then {
		if err := runJop(st, o, &cl); err != nil {
			r.Err2 = append(r.Err2, fmt.Sprintf("%d %s: %v", i, o.Op, err))
		}
	}
	if !a.Crash {
		st.Close()
	}
	b, _ := json.Marshal(r)
	os.Stdout.Write(b)
	os.Exit(0)
}

// descs lists what is queued or running, in the order of the status.
func (m *jmodel) descs() (l []string, run int) {
	for a := range m.Q {
		for _, j := range m.Q[a] {
			l = append(l, j.ID)
			if j.Run {
				run++
			}
		}
	}
	return
}

func runC28(c *Ctx) {
	setTimeScale(2000)
	type point struct {
		script int
		a      jfaultArgs
		ev     string
	}
	ns := c.N(20, 150) + 1
	scripts := make([]*jobScript, ns)
	thens := make([][]jop, ns)
	var pts []point
	var mu sync.Mutex
	nw, nr := map[string]int64{}, map[string]int64{}
	errnos := []syscall.Errno{syscall.ENOSPC, syscall.EIO, syscall.EACCES, syscall.EMFILE}
	c.Each(ns, 0, func(i int) {
		r := c.Rng("script", i)
		var s *jobScript
		if i == ns-1 {
			s = hugeJobScript(c, r)
		} else {
			s = newJobScript(c, r, i%3 == 1)
		}
		scripts[i] = s
		for q := 0; q < 2; q++ {
			kind := 2
			if q == 1 {
				kind = len(jobKinds) - 1
			}
			thens[i] = append(thens[i], jop{Op: "retire", A: q == 1}, jop{Op: "push", Kind: kind, S: []string{"afterwards", "x", "y"}, A: q == 1},
				jop{Op: "claim", A: q == 1}, jop{Op: "retire", A: q == 1})
		}
		for v := 0; v < 4; v++ {
			reads, start := v&1 == 1, v&2 == 2
			if i == ns-1 && v != 1 {
				continue
			}
			dir := c.TempDir("jrec")
			copyTree(s.dir, dir)
			var res jfaultResult
			a := jfaultArgs{Base: dir, Ops: s.ops, Reads: reads, Start: start}
			_, err := spawn("jfault", a, &res)
			os.RemoveAll(dir)
			if err != nil || len(res.Errs) > 0 || len(res.Err2) > 0 || res.Opened != "" {
				c.Violate("store-run", fmt.Sprintf("script %d: %v %v %v %v", i, err, res.Errs, res.Err2, res.Opened), s.ops)
				return
			}
			mu.Lock()
			if reads {
				nr[fmt.Sprint("script ", i, " start ", start)] = res.N
			} else {
				nw[fmt.Sprint("script ", i, " start ", start)] = res.N
			}
			for k := int64(1); k <= res.N; k++ {
				for _, to := range []int64{0, k + 1 + r.Int63n(4), 1 << 40} {
					if start && to == k+1 {
						continue
					}
					if c.Quick() && r.Intn(2) == 0 {
						continue
					}
					a := jfaultArgs{Ops: s.ops, Reads: reads, Start: start, FailAt: k, FailTo: to, Errno: int(errnos[r.Intn(len(errnos))]), Crash: r.Intn(2) == 0}
					if r.Intn(3) > 0 {
						a.Then = thens[i]
					}
					pts = append(pts, point{i, a, res.Events[k-1]})
				}
			}
			mu.Unlock()
		}
	})
	sort.SliceStable(pts, func(a, b int) bool { return pts[a].script < pts[b].script })
	c.Extra("fault_points_per_script", nw)
	c.Extra("read_fault_points_per_script", nr)
	kinds := map[string]int{}
	c.Each(len(pts), 0, func(i int) {
		p := pts[i]
		s := scripts[p.script]
		dir := c.TempDir("jf")
		defer os.RemoveAll(dir)
		copyTree(s.dir, dir)
		p.a.Base = dir
		var res jfaultResult
		what := fmt.Sprintf("script %d with %v at call %d (%s, up to %d)", p.script, syscall.Errno(p.a.Errno), p.a.FailAt, p.ev, p.a.FailTo)
		replay := map[string]interface{}{"setup_calls": s.setup, "script": p.a, "event": p.ev, "full_history": p.script%3 == 1}
		if _, err := spawn("jfault", p.a, &res); err != nil {
			k := "crash"
			if strings.HasPrefix(err.Error(), "hang") {
				k = "hang"
			}
			c.Violate(k, what+": "+err.Error(), replay)
			return
		}
		replay["errors"] = res.Errs
		replay["failed"] = res.Failed
		if strings.HasPrefix(res.Opened, "again") {
			c.Violate("reopen", what+": the store could not be opened and, the fault being gone, still cannot: "+res.Opened, replay)
			return
		}
		m := s.pre.clone()
		for k, o := range p.a.Ops {
			if res.Errs[k] == "" {
				m.apply(o)
			}
		}
		if p.a.Start && len(res.Errs) > 0 {
			c.Violate("after-start", fmt.Sprintf("%s: the fault being gone, calls still fail: %v", what, res.Errs), replay)
		}
		want, run := m.descs()
		sort.Strings(want)
		sort.Strings(res.Active)
		if fmt.Sprint(want) != fmt.Sprint(res.Active) {
			c.Violate("status", fmt.Sprintf("%s: the status shows %q instead of %q (errors %v)", what, res.Active, want, res.Errs), replay)
		}
		if run != res.Run {
			c.Violate("running", fmt.Sprintf("%s: the status shows %d jobs as running instead of %d (errors %v)", what, res.Run, run, res.Errs), replay)
		}
		var have []string
		for _, x := range res.Done {
			have = append(have, stampName(time.Unix(x, 0).UTC()))
		}
		done := append([]string{}, m.Done...)
		if x, y := lessStr(done, have), lessStr(have, done); len(x)+len(y) > 0 {
			c.Violate("history", fmt.Sprintf("%s: the history lacks %q and has %q beyond (errors %v)", what, x, y, res.Errs), replay)
		}
		if len(res.Err2) > 0 {
			c.Violate("afterwards", fmt.Sprintf("%s: the fault being gone, calls still fail: %v", what, res.Err2), replay)
		} else {
			for _, o := range p.a.Then {
				m.apply(o)
			}
			got, err := readStore(dir)
			if err != nil {
				c.Violate("unreadable", what+": after a restart: "+err.Error(), replay)
				return
			}
			if d := m.diff(got); d != "" {
				c.Violate("restart", fmt.Sprintf("%s: after a restart: %s (errors %v)", what, d, res.Errs), replay)
			}
		}
		key := ""
		if res.N >= p.a.FailAt {
			key = fmt.Sprint(p.script, p.a.Start, p.a.Reads, p.a.FailAt, p.a.FailTo, p.a.Errno)
			if len(res.Errs) > 0 || res.Opened != "" {
				c.Count("runs_that_reported_the_fault", 1)
			} else {
				c.Count("runs_that_completed_despite_the_fault", 1)
			}
			c.Count("calls_that_reported_the_fault", int64(len(res.Errs)))
		}
		mu.Lock()
		op, file, _ := strings.Cut(p.ev, " ")
		if e := filepath.Ext(file); e != "" {
			file = "*" + e
		} else if strings.HasPrefix(file, "MANIFEST") {
			file = "MANIFEST"
		}
		kinds[op+" "+file]++
		mu.Unlock()
		if i == 0 {
			c.Sample(replay)
		}
		c.Eval(key)
	})
	c.Extra("fault_points_by_kind", kinds)
	c.Each(c.N(48, 1500), 0, func(i int) { procFault(c, i) })
	c.Each(c.N(12, 200), 4, func(i int) { daemonFault(c, i) })
}

// ---------- the processor, with faults ----------

type jpfaultArgs struct {
	Base           string
	N              int
	FailAt, FailTo int64
	Errno          int
	Reads          bool
	Seed           int64
}

type jpfaultResult struct {
	Acc, Rej     []int
	Done, Failed []histRec
	Active       []string
	Err          string
	Hit          int64
	FailedCalls  []string
}

func jpfaultWorker(args []string) {
	syscall.Umask(022)
	setTimeScale(2000)
	var a jpfaultArgs
	must(json.Unmarshal([]byte(args[0]), &a))
	w := &World{Dir: a.Base}
	w.open()
	st := newStoreAt(a.Base)
	proc := jobs.NewProcessor(w.M, st, 3)
	faultReads = a.Reads
	faultArm(0, a.FailAt, a.FailTo, syscall.Errno(a.Errno), filepath.Join(a.Base, "ferry_db_jobs"))
	proc.Begin()
	var r jpfaultResult
	for i := 0; i < a.N; i++ {
		if err := proc.PushJob(numbered(i)); err != nil {
			r.Rej = append(r.Rej, i)
		} else {
			r.Acc = append(r.Acc, i)
		}
		if a.Seed%3 == 0 {
			time.Sleep(time.Millisecond)
		}
	}
	for t0, idle := time.Now(), 0; time.Since(t0) < 30*time.Second && idle < 3; time.Sleep(5 * time.Millisecond) {
		l, err := st.ActiveJobs()
		r.Active = nil
		for _, j := range l {
			r.Active = append(r.Active, j.Description)
		}
		if r.Err = fmt.Sprint(err); err == nil && len(l) == 0 {
			idle++
		}
		if time.Since(t0) > 300*time.Millisecond {
			// whatever lasts is over by now
			if n, _ := faultOff(); n > r.Hit {
				r.Hit = n
			}
		}
	}
	faultOff()
	r.FailedCalls = faultFailed
	l, err := st.CompletedJobs()
	must(err)
	for _, j := range l {
		r.Done = append(r.Done, toRec(j))
	}
	l, err = st.FailedJobs()
	must(err)
	for _, j := range l {
		r.Failed = append(r.Failed, toRec(j))
	}
	b, _ := json.Marshal(r)
	os.Stdout.Write(b)
	os.Exit(0)
}

var faultGone bool

// faultOff disarms once.
func faultOff() (int64, []string) {
	if faultGone {
		return 0, nil
	}
	faultGone = true
	return faultDisarm()
}

func procFault(c *Ctx, i int) {
	r := c.Rng("pfault", i)
	dir := c.TempDir("jpf")
	defer os.RemoveAll(dir)
	m, err := core.NewManager(dir)
	must(err)
	n := 6 + r.Intn(12)
	for k := 0; k < n; k++ {
		if k%4 == 1 || k%4 == 3 {
			must(m.CreateRepo(fmt.Sprintf("e%d", k)))
		}
	}
	m.Close()
	a := jpfaultArgs{Base: dir, N: n, Seed: r.Int63(), Reads: i%6 == 5, FailAt: 1 + r.Int63n(int64(3*n))}
	if a.Reads {
		a.FailAt = 1 + r.Int63n(6)
	}
	a.FailTo = []int64{0, a.FailAt + 1 + r.Int63n(6), 1 << 40}[r.Intn(3)]
	a.Errno = int([]syscall.Errno{syscall.ENOSPC, syscall.EIO}[r.Intn(2)])
	var res jpfaultResult
	if _, err := spawn("jpfault", a, &res); err != nil {
		c.Violate("processor-crash", err.Error(), a)
		return
	}
	replay := map[string]interface{}{"run": a, "accepted": res.Acc, "rejected": res.Rej, "failed": res.FailedCalls}
	if len(res.Active) > 0 || res.Err != "<nil>" {
		c.Violate("stuck", fmt.Sprintf("the fault being gone, %q never finish (%s)", res.Active, res.Err), replay)
		return
	}
	count := map[string]int{}
	for _, j := range res.Done {
		count["ok "+j.Desc]++
	}
	for _, j := range res.Failed {
		count["failed "+j.Desc]++
	}
	expect := map[string]int{}
	for _, k := range res.Acc {
		d, _ := describe(numbered(k))
		if k%4 == 1 || k%4 == 3 {
			expect["ok "+d]++
		} else {
			expect["failed "+d]++
		}
	}
	for k, x := range expect {
		if count[k] != x {
			c.Violate("not-once", fmt.Sprintf("%q is recorded %d times: %v", k, count[k], count), replay)
		}
	}
	for k := range count {
		if expect[k] == 0 {
			c.Violate("rejected-ran", fmt.Sprintf("the history shows %q, which was not accepted", k), replay)
		}
	}
	c.Count("processor_jobs_accepted", int64(len(res.Acc)))
	c.Count("processor_jobs_rejected", int64(len(res.Rej)))
	c.Count("processor_calls_failed", int64(len(res.FailedCalls)))
	key := ""
	if len(res.FailedCalls) > 0 {
		key = fmt.Sprint("p", i)
	}
	c.Eval(key)
}

// daemonFault: several clients submit to the real daemon while the disk of its
// job database is full now and then.
func daemonFault(c *Ctx, i int) {
	r := c.Rng("dfault", i)
	dir := c.TempDir("df")
	defer os.RemoveAll(dir)
	base := filepath.Join(dir, "base")
	must(os.MkdirAll(base, 0755))
	ff := filepath.Join(dir, "fault")
	d := startDaemon(base, filepath.Join(dir, "s"), daemonOpts{Scale: 500, Env: []string{"VERIF_FAIL_FILE=" + ff}})
	defer d.Kill()
	if !d.Ready(30 * time.Second) {
		c.Violate("daemon-start", "the daemon did not start: "+d.Err.String(), nil)
		return
	}
	var mu sync.Mutex
	var acc, rej []string
	var trace []string
	t0 := time.Now()
	note := func(f string, a ...interface{}) {
		mu.Lock()
		trace = append(trace, fmt.Sprintf("%dms ", time.Since(t0).Milliseconds())+fmt.Sprintf(f, a...))
		mu.Unlock()
	}
	var wg sync.WaitGroup
	n := 8 + r.Intn(8)
	for k := 0; k < 3; k++ {
		k, r := k, c.Rng("dclient", i*3+k)
		wg.Add(1)
		go func() {
			defer wg.Done()
			cl := libferry.NewClient(d.Sock)
			defer cl.Close()
			for j := 0; j < n; j++ {
				name := fmt.Sprintf("c%dx%d", k, j)
				var err error
				var e *jobs.JobEntry
				key := "ok "
				switch r.Intn(4) {
				case 0:
					e, err = jobs.NewCreateRepoJob(name), cl.CreateRepo(name)
				case 1:
					e, err = jobs.NewIndexRepoJob(name), cl.IndexRepo(name)
					key = "failed "
				case 2:
					e, err = jobs.NewDeltaRepoJob(name), cl.DeltaRepo(name)
					key = "failed "
				case 3:
					e, err = jobs.NewTrimPackagesJob(name, 3), cl.TrimPackages(name, 3)
					key = "failed "
				}
				desc, _ := describe(e)
				note("%s -> %v", desc, err)
				mu.Lock()
				if err == nil {
					acc = append(acc, key+desc)
				} else {
					rej = append(rej, key+desc)
				}
				mu.Unlock()
				time.Sleep(time.Duration(r.Intn(40)) * time.Millisecond)
			}
		}()
	}
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	for over := false; !over; {
		must(os.WriteFile(ff+".new", []byte("fail /ferry_db_jobs/"), 0644))
		must(os.Rename(ff+".new", ff))
		note("disk full")
		time.Sleep(time.Duration(5+r.Intn(80)) * time.Millisecond)
		must(os.Remove(ff))
		note("space again")
		select {
		case <-done:
			over = true
		case <-time.After(time.Duration(5+r.Intn(120)) * time.Millisecond):
		}
	}
	replay := func() interface{} { return map[string]interface{}{"trace": trace, "log": d.Log()} }
	v, err := d.waitIdle(40 * time.Second)
	if err != nil {
		c.Violate("daemon-stuck", "there is space again: "+err.Error(), replay())
		return
	}
	if x := d.Trouble(); x != "" {
		c.Violate("daemon-crash", x, replay())
		return
	}
	count := map[string]int{}
	for _, j := range v.Completed {
		count["ok "+j.Description]++
	}
	for _, j := range v.Failed {
		count["failed "+j.Description]++
	}
	for _, k := range acc {
		if count[k] != 1 {
			c.Violate("daemon-not-once", fmt.Sprintf("%q was accepted and is recorded %d times", k, count[k]), replay())
		}
		delete(count, k)
	}
	for k := range count {
		c.Violate("daemon-rejected-ran", fmt.Sprintf("the history shows %q, which was not accepted", k), replay())
	}
	c.Count("daemon_jobs_accepted", int64(len(acc)))
	c.Count("daemon_jobs_rejected", int64(len(rej)))
	key := ""
	if len(rej) > 0 {
		key = fmt.Sprint("d", i)
	}
	c.Eval(key)
}
