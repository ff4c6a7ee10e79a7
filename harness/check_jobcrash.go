package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/getsolus/ferryd/src/ferryd/core"
	"github.com/getsolus/ferryd/src/ferryd/jobs"
)

// C14: the job store is killed before each of its database writes in turn; what
// a restart finds must be the state before or after the interrupted call, never
// anything in between. Then the real processor is killed at random writes.

func init() {
	register(&Check{ID: "C14", Level: "fault_enumeration",
		Rule:   "an evaluation is one process killed at one database write of a scripted job-store history (optionally killed again while restarting), or one processor run killed at a random write (up to three times) and then run to completion; distinct by script and crash point",
		Assume: []string{"a crash is a killed process: writes already issued survive"},
		Run:    runC14})
	workers["jobs"] = jobsWorker
	workers["jproc"] = jprocWorker
}

// jop is one call on the store.
type jop struct {
	Op   string // push, claim, retire, resetC, resetF
	Kind int
	S    []string
	N    int
	B    bool
	A    bool // async queue
}

type mjob struct {
	ID     string // kind and parameters
	Params []string
	Type   string
	Run    bool
}

// jmodel is the queue a user reasons about.
type jmodel struct {
	Q    [2][]mjob
	Done []string
}

func (m *jmodel) clone() *jmodel {
	n := &jmodel{Done: append([]string{}, m.Done...)}
	for a := range m.Q {
		n.Q[a] = append([]mjob{}, m.Q[a]...)
	}
	return n
}

func (o jop) make() *jobs.JobEntry { return jobKinds[o.Kind].make(o.S, o.N, o.B) }

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func (m *jmodel) apply(o jop) {
	a := b2i(o.A)
	switch o.Op {
	case "push":
		j := o.make()
		d, err := describe(j)
		must(err)
		stampOf(d)
		m.Q[a] = append(m.Q[a], mjob{ID: d, Params: append([]string{}, j.Params...), Type: string(j.Type)})
	case "claim":
		for i := range m.Q[a] {
			if !m.Q[a][i].Run {
				m.Q[a][i].Run = true
				return
			}
		}
	case "retire": // the earliest running one
		for i := range m.Q[a] {
			if m.Q[a][i].Run {
				m.Done = append(m.Done, m.Q[a][i].ID)
				if len(m.Done) > histLimit {
					m.Done = m.Done[1:]
				}
				m.Q[a] = append(append([]mjob{}, m.Q[a][:i]...), m.Q[a][i+1:]...)
				return
			}
		}
	case "resetC":
		m.Done = nil
	}
}

// runJop performs o; claimed holds the entries claimed so far, per queue.
func runJop(st *jobs.JobStore, o jop, claimed *[2][]*jobs.JobEntry) error {
	a := b2i(o.A)
	switch o.Op {
	case "push":
		if o.A {
			return st.PushAsyncJob(o.make())
		}
		return st.PushSequentialJob(o.make())
	case "claim":
		f := st.ClaimSequentialJob
		if o.A {
			f = st.ClaimAsyncJob
		}
		j, err := f()
		if err == jobs.ErrEmptyQueue {
			return nil
		}
		if err == nil {
			claimed[a] = append(claimed[a], j)
		}
		return err
	case "retire":
		if len(claimed[a]) == 0 {
			return nil
		}
		j := claimed[a][0]
		d, err := describe(j)
		must(err)
		j.Timing.End = stampOf(d)
		if o.A {
			err = st.RetireAsyncJob(j)
		} else {
			err = st.RetireSequentialJob(j)
		}
		if err == nil {
			claimed[a] = claimed[a][1:]
		}
		return err
	case "resetC":
		return st.ResetCompleted()
	case "resetF":
		return st.ResetFailed()
	}
	return nil
}

// A history entry is recognised by its end time, which is derived from the job:
// only a worker gives it a description.
var stampNames sync.Map

func stampOf(d string) time.Time {
	h := fnv.New32a()
	h.Write([]byte(d))
	t := time.Unix(int64(h.Sum32()), 0).UTC()
	stampNames.Store(t.Unix(), d)
	return t
}

func stampName(t time.Time) string {
	if d, ok := stampNames.Load(t.Unix()); ok {
		return d.(string)
	}
	return t.String()
}

type jobsArgs struct {
	Base   string
	Ops    []jop
	KillAt int64
	Open   bool // count the opening instead
}

// jobsWorker performs a script, saying after each call that it returned.
func jobsWorker(args []string) {
	syscall.Umask(022)
	var a jobsArgs
	must(json.Unmarshal([]byte(args[0]), &a))
	if a.Open {
		faultArm(a.KillAt, 0, 0, 0, a.Base)
		newStoreAt(a.Base)
		n, _ := faultDisarm()
		fmt.Println("n", n)
		os.Exit(0)
	}
	st := newStoreAt(a.Base)
	faultArm(a.KillAt, 0, 0, 0, a.Base)
	var cl [2][]*jobs.JobEntry
	for i, o := range a.Ops {
		if err := runJop(st, o, &cl); err != nil {
			fmt.Println("err", i, err)
			os.Exit(0)
		}
		fmt.Println("did", i)
	}
	n, evs := faultDisarm()
	b, _ := json.Marshal(evs)
	fmt.Println("n", n)
	fmt.Println("evs", string(b))
	os.Exit(0)
}

// spawnLines runs a worker and returns what it printed before it ended.
func spawnLines(name string, in interface{}) (killed bool, lines []string, err error) {
	b, _ := json.Marshal(in)
	exe, _ := os.Executable()
	cmd := exec.Command(exe, "w", name, string(b))
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL, Setpgid: true}
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	must(cmd.Start())
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	t0 := time.Now()
	for fin := false; !fin; {
		select {
		case err = <-done:
			fin = true
		case <-time.After(500 * time.Millisecond):
			if time.Since(t0) > 120*time.Second {
				syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
				<-done
				return false, nil, fmt.Errorf("hang")
			}
		}
	}
	syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
	sc := bufio.NewScanner(&so)
	sc.Buffer(nil, 1<<26)
	for sc.Scan() {
		lines = append(lines, sc.Text())
	}
	if err != nil {
		if ws, ok := cmd.ProcessState.Sys().(syscall.WaitStatus); ok && ws.Signaled() && ws.Signal() == syscall.SIGKILL {
			return true, lines, nil
		}
		return false, lines, fmt.Errorf("%v: %s", err, cut(se.String(), 3000))
	}
	return false, lines, nil
}

// readStore reads everything back the way a restarted daemon would see it:
// queued jobs in the order they are claimed, and the history.
func readStore(dir string) (*jmodel, error) {
	st, err := jobs.NewStore(dir)
	if err != nil {
		return nil, fmt.Errorf("cannot be opened: %v", err)
	}
	defer st.Close()
	m := &jmodel{}
	act, err := st.ActiveJobs()
	if err != nil {
		return nil, err
	}
	for _, j := range act {
		if !j.Timing.Begin.IsZero() {
			return nil, fmt.Errorf("%q is shown as running right after the start", j.Description)
		}
	}
	nact := 0
	for a, claim := range []func() (*jobs.JobEntry, error){st.ClaimSequentialJob, st.ClaimAsyncJob} {
		for {
			j, err := claim()
			if err == jobs.ErrEmptyQueue {
				break
			}
			if err != nil {
				return nil, err
			}
			d, err := describe(j)
			if err != nil {
				return nil, err
			}
			stampOf(d)
			m.Q[a] = append(m.Q[a], mjob{ID: d, Params: append([]string{}, j.Params...), Type: string(j.Type)})
			nact++
		}
	}
	if nact != len(act) {
		return nil, fmt.Errorf("%d jobs are shown as queued but %d can be claimed", len(act), nact)
	}
	l, err := st.CompletedJobs()
	if err != nil {
		return nil, err
	}
	for _, j := range l {
		m.Done = append(m.Done, stampName(j.Timing.End))
	}
	return m, nil
}

func (m *jmodel) norm() *jmodel {
	n := m.clone()
	for a := range n.Q {
		for i := range n.Q[a] {
			n.Q[a][i].Run = false
			if len(n.Q[a][i].Params) == 0 {
				n.Q[a][i].Params = nil
			}
		}
		if len(n.Q[a]) == 0 {
			n.Q[a] = nil
		}
	}
	sort.Strings(n.Done)
	if len(n.Done) == 0 {
		n.Done = nil
	}
	return n
}

func (m *jmodel) diff(got *jmodel) string {
	a, b := m.norm(), got.norm()
	var s []string
	for k, name := range []string{"sequential", "background"} {
		if !reflect.DeepEqual(a.Q[k], b.Q[k]) {
			s = append(s, fmt.Sprintf("%s queue is %s instead of %s", name, jlist(b.Q[k]), jlist(a.Q[k])))
		}
	}
	if !reflect.DeepEqual(a.Done, b.Done) {
		s = append(s, fmt.Sprintf("history: missing %q, unexpected %q", lessStr(a.Done, b.Done), lessStr(b.Done, a.Done)))
	}
	return strings.Join(s, "; ")
}

func jlist(l []mjob) string {
	var s []string
	for _, j := range l {
		s = append(s, fmt.Sprintf("%s%q", j.Type, j.Params))
	}
	return "[" + strings.Join(s, " ") + "]"
}

// lessStr: elements of a beyond those of b.
func lessStr(a, b []string) []string {
	n := map[string]int{}
	for _, x := range b {
		n[x]++
	}
	var r []string
	for _, x := range a {
		if n[x]--; n[x] < 0 {
			r = append(r, x)
		}
	}
	return r
}

// jobScript is a prepared store and calls to be made on it.
type jobScript struct {
	dir   string
	pre   *jmodel
	setup int
	ops   []jop
}

func newJobScript(c *Ctx, r *rand.Rand, full bool) *jobScript {
	serial := 0
	gen := func() jop {
		o := jop{A: r.Intn(3) == 0}
		switch x := r.Intn(20); {
		case x < 8:
			o.Op = "push"
			for {
				o.Kind = r.Intn(len(jobKinds))
				if jobKinds[o.Kind].async == o.A {
					break
				}
			}
			serial++
			// scripts travel as JSON
			str := func() string { return strings.ToValidUTF8(jobStr(r), "~") }
			o.S = []string{fmt.Sprintf("u%d.%s", serial, str()), str(), str()}
			o.N, o.B = r.Intn(50)-1, r.Intn(2) == 0
		case x < 13:
			o.Op = "claim"
		case x < 18:
			o.Op = "retire"
		case x < 19:
			o.Op = "resetC"
		default:
			o.Op = "resetF"
		}
		return o
	}
	s := &jobScript{dir: c.TempDir("jtpl"), pre: &jmodel{}}
	st := newStoreAt(s.dir)
	var cl [2][]*jobs.JobEntry
	do := func(o jop) {
		must(runJop(st, o, &cl))
		s.pre.apply(o)
		s.setup++
	}
	if full { // a full history
		for k := 0; k < 97+r.Intn(6); k++ {
			serial++
			do(jop{Op: "push", Kind: 2, S: []string{fmt.Sprintf("old%d", serial), "", ""}})
			do(jop{Op: "claim"})
			do(jop{Op: "retire"})
		}
	}
	for k := r.Intn(12); k > 0; k-- {
		do(gen())
	}
	st.Close()
	// claims do not survive the restart the worker begins with
	for a := range s.pre.Q {
		for k := range s.pre.Q[a] {
			s.pre.Q[a][k].Run = false
		}
	}
	for k := 8 + r.Intn(8); k > 0; k-- {
		s.ops = append(s.ops, gen())
	}
	return s
}

func runC14(c *Ctx) {
	setTimeScale(2000)
	type point struct {
		script int
		k, k2  int64
		ev     string
	}
	ns := c.N(14, 150)
	scripts := make([]*jobScript, ns)
	var pts []point
	var mu sync.Mutex
	writes := map[string]int64{}
	c.Each(ns, 0, func(i int) {
		r := c.Rng("script", i)
		s := newJobScript(c, r, i%3 == 1)
		scripts[i] = s
		// record the writes of an undisturbed run
		dir := c.TempDir("jrec")
		defer os.RemoveAll(dir)
		copyTree(s.dir, dir)
		_, lines, err := spawnLines("jobs", jobsArgs{Base: dir, Ops: s.ops})
		if err != nil || len(lines) < 2 {
			c.Violate("store-run", fmt.Sprintf("script %d: %v %q", i, err, lines), s.ops)
			return
		}
		var evs []string
		for _, l := range lines {
			if strings.HasPrefix(l, "evs ") {
				must(json.Unmarshal([]byte(l[4:]), &evs))
			}
			if strings.HasPrefix(l, "err ") {
				c.Violate("store-error", fmt.Sprintf("script %d: %s", i, l), s.ops)
			}
		}
		mu.Lock()
		defer mu.Unlock()
		writes[fmt.Sprint("script ", i)] = int64(len(evs))
		for k := range evs {
			p := point{script: i, k: int64(k + 1), ev: evs[k]}
			pts = append(pts, p)
			if r.Intn(3) == 0 || !c.Quick() {
				p.k2 = 1 + r.Int63n(12)
				pts = append(pts, p)
			}
		}
		if i == 0 {
			c.Sample(map[string]interface{}{"script": s.ops, "writes": evs})
		}
	})
	sort.Slice(pts, func(a, b int) bool {
		if pts[a].script != pts[b].script {
			return pts[a].script < pts[b].script
		}
		if pts[a].k != pts[b].k {
			return pts[a].k < pts[b].k
		}
		return pts[a].k2 < pts[b].k2
	})
	c.Extra("crash_points_per_script", writes)
	c.Each(len(pts), 0, func(i int) {
		p := pts[i]
		s := scripts[p.script]
		dir := c.TempDir("jk")
		defer os.RemoveAll(dir)
		copyTree(s.dir, dir)
		killed, lines, err := spawnLines("jobs", jobsArgs{Base: dir, Ops: s.ops, KillAt: p.k})
		what := fmt.Sprintf("script %d killed before write %d (%s)", p.script, p.k, p.ev)
		replay := map[string]interface{}{"script": s.ops, "killed_at": p.k, "event": p.ev, "killed_again_at": p.k2, "setup_calls": s.setup}
		if err != nil {
			c.Violate("store-run", what+": "+err.Error(), replay)
			return
		}
		before := s.pre.clone()
		n := 0
		for _, l := range lines {
			if strings.HasPrefix(l, "did ") {
				before.apply(s.ops[n])
				n++
			}
		}
		after := before.clone()
		cur := "end"
		if n < len(s.ops) {
			after.apply(s.ops[n])
			cur = s.ops[n].Op
		}
		replay["during"] = cur
		if p.k2 > 0 {
			k2, _, err := spawnLines("jobs", jobsArgs{Base: dir, KillAt: p.k2, Open: true})
			if err != nil {
				c.Violate("reopen", what+": "+err.Error(), replay)
				return
			}
			if k2 {
				c.Count("killed_while_restarting", 1)
				what += fmt.Sprintf(", again at write %d of the restart", p.k2)
			}
		}
		got, err := readStore(dir)
		if err != nil {
			c.Violate("unreadable:"+cur, what+": "+err.Error(), replay)
			return
		}
		if d := before.diff(got); d != "" {
			if d2 := after.diff(got); d2 != "" {
				c.Violate("torn:"+cur, fmt.Sprintf("%s, during %s: %s (had the call not happened); %s (had it completed)", what, cur, d, d2), replay)
			}
		}
		if killed {
			c.Count("killed_during_"+cur, 1)
		} else {
			c.Count("not_reached", 1)
		}
		c.Eval(fmt.Sprint("s", p.script, ".", p.k, ".", p.k2))
	})
	c.Each(c.N(40, 1500), 0, func(i int) { procCrash(c, i) })
}

// ---------- the processor, killed ----------

type jprocArgs struct {
	Base   string
	Push   []int // numbers of jobs to submit
	KillAt int64
	Seed   int64
}

// unique jobs: i%4 decides the kind
func numbered(i int) *jobs.JobEntry {
	switch i % 4 {
	case 0:
		return jobs.NewIndexRepoJob(fmt.Sprintf("none%d", i))
	case 1:
		return jobs.NewDeltaRepoJob(fmt.Sprintf("e%d", i))
	case 2:
		return jobs.NewDeltaJob(fmt.Sprintf("none%d", i), "p")
	}
	return jobs.NewTrimPackagesJob(fmt.Sprintf("e%d", i), 1000+i)
}

func jprocWorker(args []string) {
	syscall.Umask(022)
	setTimeScale(2000)
	var a jprocArgs
	must(json.Unmarshal([]byte(args[0]), &a))
	w := &World{Dir: a.Base}
	w.open()
	st := newStoreAt(a.Base)
	proc := jobs.NewProcessor(w.M, st, 3)
	faultArm(a.KillAt, 0, 0, 0, filepath.Join(a.Base, "ferry_db_jobs"))
	proc.Begin()
	for _, i := range a.Push {
		fmt.Println("try", i)
		proc.PushJob(numbered(i))
		fmt.Println("acc", i)
		if a.Seed%3 == 0 {
			time.Sleep(time.Millisecond)
		}
	}
	for t0 := time.Now(); time.Since(t0) < 20*time.Second; time.Sleep(2 * time.Millisecond) {
		if l, err := st.ActiveJobs(); err == nil && len(l) == 0 {
			break
		}
	}
	os.Exit(0)
}

func procCrash(c *Ctx, i int) {
	r := c.Rng("proc", i)
	dir := c.TempDir("jp")
	defer os.RemoveAll(dir)
	m, err := core.NewManager(dir)
	must(err)
	n := 6 + r.Intn(12)
	for k := 0; k < n; k++ {
		if k%4 == 1 || k%4 == 3 {
			must(m.CreateRepo(fmt.Sprintf("e%d", k)))
		}
	}
	m.Close()
	accepted, tried := map[int]bool{}, map[int]bool{}
	var order []int
	next := 0
	var hist []interface{}
	for round := 0; round < 1+r.Intn(3); round++ {
		a := jprocArgs{Base: dir, KillAt: 1 + r.Int63n(int64(5+4*n)), Seed: r.Int63()}
		for k := 2 + r.Intn(n); k > 0 && next < n; k-- {
			a.Push = append(a.Push, next)
			next++
		}
		hist = append(hist, a)
		killed, lines, err := spawnLines("jproc", a)
		if err != nil {
			c.Violate("processor-crash", err.Error(), hist)
			return
		}
		if killed {
			c.Count("processors_killed", 1)
		}
		for _, l := range lines {
			var k int
			if _, err := fmt.Sscanf(l, "acc %d", &k); err == nil {
				accepted[k] = true
				order = append(order, k)
			} else if _, err := fmt.Sscanf(l, "try %d", &k); err == nil {
				tried[k] = true
			}
		}
	}
	m, err = core.NewManager(dir)
	if err != nil {
		c.Violate("reopen", "the repositories cannot be opened after a crash: "+err.Error(), hist)
		return
	}
	defer m.Close()
	st, err := jobs.NewStore(dir)
	if err != nil {
		c.Violate("reopen", "the job store cannot be opened after a crash: "+err.Error(), hist)
		return
	}
	defer st.Close()
	proc := jobs.NewProcessor(m, st, 2)
	proc.Begin()
	ok := waitDrained(c, st, fmt.Sprint("recovery ", i))
	proc.Close()
	if !ok {
		return
	}
	good, err := st.CompletedJobs()
	must(err)
	bad, err := st.FailedJobs()
	must(err)
	count := map[string]int{}
	begin := map[string]time.Time{}
	for _, j := range good {
		count["ok "+j.Description]++
		begin[j.Description] = j.Timing.Begin
	}
	for _, j := range bad {
		count["failed "+j.Description]++
		begin[j.Description] = j.Timing.Begin
	}
	known := map[string]int{}
	for k := range tried {
		d, _ := describe(numbered(k))
		key := "failed " + d
		if k%4 == 1 || k%4 == 3 {
			key = "ok " + d
		}
		known[key] = k
		switch x := count[key]; {
		case x > 1:
			c.Violate("recorded-twice", fmt.Sprintf("job %d (%s) is recorded %d times", k, d, x), hist)
		case x == 0 && accepted[k]:
			c.Violate("lost", fmt.Sprintf("job %d (%s) was accepted but is not recorded with its outcome: %v", k, d, count), hist)
		}
	}
	for key := range count {
		if _, ok := known[key]; !ok {
			c.Violate("unknown-job", fmt.Sprintf("the history shows %q, which was not submitted with that outcome", key), hist)
		}
	}
	var last time.Time
	lastK := -1
	for _, k := range order {
		if k%4 == 2 {
			continue
		}
		d, _ := describe(numbered(k))
		if b := begin[d]; !b.IsZero() {
			if b.Before(last) {
				c.Violate("order", fmt.Sprintf("job %d began before job %d, which was accepted earlier", k, lastK), hist)
			}
			last, lastK = b, k
		}
	}
	c.Count("accepted_jobs", int64(len(order)))
	c.Eval(fmt.Sprint("p", i, len(order), len(good), len(bad)))
}
