package main

import (
	"fmt"
	"math/rand"
	"os"
	"reflect"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/anishathalye/porcupine"

	"github.com/getsolus/ferryd/src/ferryd/core"
	"github.com/getsolus/ferryd/src/ferryd/jobs"
	"github.com/getsolus/ferryd/src/libferry"
)

// setClock moves the clock by so many seconds, of which so many seem to have
// passed (instrumented build only).
var setClock = func(wall, gone int64) {}

// setTimeScale divides timers of a second or more (instrumented build only);
// setWriteDelay makes file-system mutations slow to widen race windows.
var setTimeScale = func(n int64) {}
var setWriteDelay = func(seed int64, maxMicros int64) {}

func init() {
	register(&Check{ID: "C13", Level: "exploration",
		Rule:   "an evaluation is one concurrent history of submissions, claims, retirements and status reads on a real job store (decided by porcupine against a sequential queue), one run of the real processor under concurrent submitters, or one round trip of every kind of job; distinct by seed and recorded outcome",
		Assume: []string{"porcupine decides linearizability correctly", "the poll interval of the workers is scaled down by an instrumented time package"},
		Run:    runC13})
	register(&Check{ID: "C15", Level: "exploration",
		Rule:   "an evaluation is one history of submissions, executions by the real processor, resets, restarts and status reads judged against a reference history after every step",
		Assume: []string{"the poll interval of the workers is scaled down by an instrumented time package"},
		Run:    runC15})
}

// ---------- kinds of jobs ----------

type jobKind struct {
	name  string
	async bool
	make  func(s []string, n int, b bool) *jobs.JobEntry
	uses  int // how many strings appear in the description
}

var jobKinds = []jobKind{
	{"create", false, func(s []string, n int, b bool) *jobs.JobEntry { return jobs.NewCreateRepoJob(s[0]) }, 1},
	{"delete", false, func(s []string, n int, b bool) *jobs.JobEntry { return jobs.NewDeleteRepoJob(s[0]) }, 1},
	{"index", false, func(s []string, n int, b bool) *jobs.JobEntry { return jobs.NewIndexRepoJob(s[0]) }, 1},
	{"clone", false, func(s []string, n int, b bool) *jobs.JobEntry { return jobs.NewCloneRepoJob(s[0], s[1], b) }, 2},
	{"pull", false, func(s []string, n int, b bool) *jobs.JobEntry { return jobs.NewPullRepoJob(s[0], s[1]) }, 2},
	{"copysrc", false, func(s []string, n int, b bool) *jobs.JobEntry { return jobs.NewCopySourceJob(s[0], s[1], s[2], n, b) }, 3},
	{"rmsrc", false, func(s []string, n int, b bool) *jobs.JobEntry { return jobs.NewRemoveSourceJob(s[0], s[1], n) }, 2},
	{"trim", false, func(s []string, n int, b bool) *jobs.JobEntry { return jobs.NewTrimPackagesJob(s[0], n) }, 1},
	{"trimobs", false, func(s []string, n int, b bool) *jobs.JobEntry { return jobs.NewTrimObsoleteJob(s[0]) }, 1},
	{"bulkadd", false, func(s []string, n int, b bool) *jobs.JobEntry { return jobs.NewBulkAddJob(s[0], s[1:]) }, 1},
	{"transit", false, func(s []string, n int, b bool) *jobs.JobEntry { return jobs.NewTransitJob(s[0]) }, 1},
	{"deltarepo", false, func(s []string, n int, b bool) *jobs.JobEntry { return jobs.NewDeltaRepoJob(s[0]) }, 1},
	{"delta", true, func(s []string, n int, b bool) *jobs.JobEntry { return jobs.NewDeltaJob(s[0], s[1]) }, 2},
	{"deltaindex", true, func(s []string, n int, b bool) *jobs.JobEntry { return jobs.NewDeltaIndexJob(s[0], s[1]) }, 2},
}

func jobStr(r *rand.Rand) string {
	a := []string{"a", "unstable", "-", "/", " ", "'", "\"", "é", "\n", "\x00", "\xff", "%d", "日本", "true", "0", "-1", "\\", ""}
	var b strings.Builder
	for i := r.Intn(5); i >= 0; i-- {
		b.WriteString(a[r.Intn(len(a))])
	}
	return b.String()
}

// newStoreAt opens a job store in its own base directory.
func newStoreAt(dir string) *jobs.JobStore {
	must(os.MkdirAll(dir, 0755))
	s, err := jobs.NewStore(dir)
	must(err)
	return s
}

func describe(j *jobs.JobEntry) (string, error) {
	h, err := jobs.NewJobHandler(j)
	if err != nil {
		return "", err
	}
	return h.Describe(), nil
}

// ---------- C13 ----------

func runC13(c *Ctx) {
	setTimeScale(2000)
	c.Each(c.N(60, 2000), 0, func(i int) { jobRoundTrip(c, i) })
	c.Each(c.N(120, 5000), 0, func(i int) { storeLinear(c, i) })
	c.Each(c.N(16, 300), 4, func(i int) { processorRun(c, i) })
	c.Each(c.N(6, 24), 0, func(i int) { longQueue(c, i) })
	c.Each(c.N(60, 3000), 1, func(i int) { clockRun(c, i) }) // there's one clock
	setClock(0, 0)
}

// clockRun: whatever the clock says, and however long things take, the queues
// are first-in-first-out, every job is with at most one worker, and the history
// holds what ended last. The clock is set forth and back between the steps, or
// hours to years pass while jobs wait and run.
func clockRun(c *Ctx, i int) {
	r := c.Rng("clock", i)
	dir := c.TempDir("clock")
	defer os.RemoveAll(dir)
	var wall, gone int64
	defer setClock(0, 0)
	st := newStoreAt(dir)
	defer func() { st.Close() }()
	var wait, out [2][]string // in queue order; handed out, in queue order
	held := map[string]*jobs.JobEntry{}
	var ended []string
	endedAt := map[string]string{}
	var trace []string
	n, seen := 0, map[string]bool{}
	bad := func(key, f string, a ...any) bool {
		c.Violate(key, fmt.Sprintf(f, a...), map[string]any{"case": i, "steps": trace})
		return false
	}
	log := func(f string, a ...any) { trace = append(trace, fmt.Sprintf(f, a...)) }
	name := func(a int, j *jobs.JobEntry) string { return fmt.Sprintf("%d:%s", a, j.Params[0]) }
	claim := func(a int) bool {
		f := st.ClaimSequentialJob
		if a == 1 {
			f = st.ClaimAsyncJob
		}
		j, err := f()
		if len(wait[a]) == 0 {
			if err == nil {
				return bad("handed-out-twice", "queue %d has no job left, but %s was handed out; %v are with workers", a, name(a, j), out[a])
			}
			return err == jobs.ErrEmptyQueue || bad("clock-claim", "claiming from empty queue %d: %v", a, err)
		}
		if err != nil {
			return bad("clock-claim", "%v wait in queue %d, none can be claimed: %v", wait[a], a, err)
		}
		x := name(a, j)
		log("claim %s", x)
		if x != wait[a][0] {
			if held[x] != nil {
				return bad("handed-out-twice", "%s was handed out again while a worker has it", x)
			}
			return bad("clock-order", "%s was handed out, %s is first", x, wait[a][0])
		}
		held[x] = j
		out[a], wait[a] = append(out[a], x), wait[a][1:]
		c.Count("clock_claims", 1)
		return true
	}
	retire := func(a, k int) bool {
		x := out[a][k]
		f := st.RetireSequentialJob
		if a == 1 {
			f = st.RetireAsyncJob
		}
		log("retire %s", x)
		held[x].Timing.End = time.Now().UTC()
		if err := f(held[x]); err != nil {
			return bad("clock-retire", "retiring %s: %v", x, err)
		}
		endedAt[x] = fmt.Sprint(held[x].Timing.Queued.UnixNano(), held[x].Timing.End.UnixNano())
		delete(held, x)
		out[a] = append(append([]string{}, out[a][:k]...), out[a][k+1:]...)
		ended = append(ended, x)
		return true
	}
	check := func() bool {
		l, err := st.ActiveJobs()
		if err != nil {
			return bad("clock-status", "reading the queues: %v", err)
		}
		var got, want []string
		for _, j := range l {
			got = append(got, fmt.Sprintf("%s running=%v", j.Description, !j.Timing.Begin.IsZero()))
		}
		for a := range wait {
			add := func(x string, run bool) {
				want = append(want, fmt.Sprintf("%s running=%v", clockJobDesc(a, x), run))
			}
			for _, x := range out[a] {
				add(x, true)
			}
			for _, x := range wait[a] {
				add(x, false)
			}
		}
		if strings.Join(got, "\n") != strings.Join(want, "\n") {
			return bad("clock-status", "shown %q, expected %q", got, want)
		}
		h, err := st.CompletedJobs()
		if err != nil {
			return bad("clock-status", "reading the history: %v", err)
		}
		last := ended
		if len(last) > 100 {
			last = last[len(last)-100:]
		}
		got, want = nil, nil
		for _, j := range h {
			got = append(got, fmt.Sprint(j.Timing.Queued.UnixNano(), j.Timing.End.UnixNano()))
		}
		for _, x := range last {
			want = append(want, endedAt[x])
		}
		sort.Strings(got)
		sort.Strings(want)
		if strings.Join(got, "\n") != strings.Join(want, "\n") {
			return bad("clock-history", "recorded %q, the last to end are %q", got, want)
		}
		return true
	}
	for k := 0; k < 60; k++ {
		switch x := r.Intn(12); {
		case x < 4:
			d := []int64{1, 30, 61, 600, 3601, 7200, 86401, 3 * 86400, 40 * 86400, 400 * 86400, 3000 * 86400}[r.Intn(11)] + r.Int63n(3)
			switch r.Intn(3) {
			case 0: // set back
				wall -= d
			case 1: // set forth
				wall += d
			case 2: // it really takes that long
				wall, gone = wall+d, gone+d
			}
			log("clock %+d, %d s have gone by", wall, gone)
			setClock(wall, gone)
			c.Count("clock_changes", 1)
		case x < 7:
			a, f := r.Intn(2), st.PushSequentialJob
			j := jobs.NewIndexRepoJob(fmt.Sprint(n))
			if a == 1 {
				f, j = st.PushAsyncJob, jobs.NewDeltaJob(fmt.Sprint(n), "p")
			}
			n++
			log("push %s", name(a, j))
			if err := f(j); err != nil {
				bad("clock-push", "%v", err)
				return
			}
			wait[a] = append(wait[a], name(a, j))
		case x < 9:
			if !claim(r.Intn(2)) {
				return
			}
		case x == 9:
			if a := r.Intn(2); len(out[a]) > 0 && !retire(a, r.Intn(len(out[a]))) {
				return
			}
		case x == 10:
			if !check() {
				return
			}
		case x == 11 && r.Intn(3) == 0:
			log("reopen")
			st.Close()
			st = newStoreAt(dir)
			for a := range wait {
				wait[a] = append(append([]string{}, out[a]...), wait[a]...)
				out[a] = nil
			}
			held = map[string]*jobs.JobEntry{}
		}
		seen[fmt.Sprint(len(wait[0]), len(wait[1]), len(out[0]), len(out[1]))] = true
	}
	for a := range wait {
		for len(wait[a]) > 0 {
			if !claim(a) {
				return
			}
		}
		if !claim(a) {
			return
		}
	}
	if !check() {
		return
	}
	c.Count("clock_queue_states", int64(len(seen)))
	c.Eval(fmt.Sprint("clock", i, trace))
}

// clockJobDesc is how the given job of clockRun is shown.
func clockJobDesc(a int, x string) string {
	id := strings.SplitN(x, ":", 2)[1]
	j := jobs.NewIndexRepoJob(id)
	if a == 1 {
		j = jobs.NewDeltaJob(id, "p")
	}
	d, err := describe(j)
	must(err)
	return d
}

// longQueue: the queues stay first-in-first-out however many jobs wait.
func longQueue(c *Ctx, i int) {
	r := c.Rng("long", i)
	dir := c.TempDir("long")
	defer os.RemoveAll(dir)
	st := newStoreAt(dir)
	defer func() { st.Close() }()
	n := []int{260, 300, 520, 700, 1100, 1500}[i%6]
	if !c.Quick() && i >= 12 {
		n = 66000 + r.Intn(1000)
	} else {
		n += r.Intn(60)
	}
	async := i%2 == 1
	push, claim, retire := st.PushSequentialJob, st.ClaimSequentialJob, st.RetireSequentialJob
	bind := func() {
		push, claim, retire = st.PushSequentialJob, st.ClaimSequentialJob, st.RetireSequentialJob
		if async {
			push, claim, retire = st.PushAsyncJob, st.ClaimAsyncJob, st.RetireAsyncJob
		}
	}
	bind()
	next, pushed := 0, 0
	take := func() bool {
		j, err := claim()
		if err != nil {
			c.Violate("long-queue", fmt.Sprintf("%d jobs wait, none can be claimed: %v", pushed-next, err), map[string]int{"case": i, "pushed": pushed, "claimed": next})
			return false
		}
		if j.Params[0] != fmt.Sprint(next) {
			c.Violate("long-queue", fmt.Sprintf("with %d jobs waiting, job %s came before job %d", pushed-next, j.Params[0], next), map[string]int{"case": i, "pushed": pushed, "claimed": next})
			return false
		}
		next++
		if err := retire(j); err != nil {
			c.Violate("long-queue", fmt.Sprintf("retiring job %s: %v", j.Params[0], err), i)
			return false
		}
		return true
	}
	for pushed < n {
		id := fmt.Sprint(pushed)
		j := jobs.NewIndexRepoJob(id)
		if async {
			j = jobs.NewDeltaJob(id, "p")
		}
		must(push(j))
		pushed++
		if r.Intn(200) == 0 && !take() {
			return
		}
		if r.Intn(n) < 2 {
			st.Close()
			st = newStoreAt(dir)
			bind()
		}
	}
	if l, err := st.ActiveJobs(); err != nil || len(l) != pushed-next {
		c.Violate("long-queue", fmt.Sprintf("%d jobs wait, %d are shown (%v)", pushed-next, len(l), err), i)
		return
	}
	for next < pushed {
		if !take() {
			return
		}
	}
	if j, err := claim(); err != jobs.ErrEmptyQueue {
		c.Violate("long-queue", fmt.Sprintf("the queue should be empty: %v %v", j, err), i)
	}
	c.Count("long_queue_jobs", int64(n))
	c.Eval(fmt.Sprint("long", i, n))
}

// jobRoundTrip: every kind of job comes back from the queue it belongs to, in
// order, with its type and parameters, also over a restart.
func jobRoundTrip(c *Ctx, i int) {
	r := c.Rng("rt", i)
	dir := c.TempDir("rt")
	defer os.RemoveAll(dir)
	st := newStoreAt(dir)
	defer func() { st.Close() }()
	proc := jobs.NewProcessor(nil, st, 2)
	type want struct {
		kind   jobKind
		typ    jobs.JobType
		params []string
		desc   string
	}
	var q [2][]want
	n := 5 + r.Intn(40)
	for k := 0; k < n; k++ {
		kd := jobKinds[r.Intn(len(jobKinds))]
		s := []string{jobStr(r), jobStr(r), jobStr(r)}
		j := kd.make(s, r.Intn(2000)-1000, r.Intn(2) == 0)
		w := want{kd, j.Type, append([]string{}, j.Params...), ""}
		d, err := describe(j)
		if err != nil {
			c.Violate("no-handler:"+kd.name, fmt.Sprintf("a freshly made %s job is refused: %v", kd.name, err), s)
			return
		}
		for _, x := range s[:kd.uses] {
			if !strings.Contains(d, x) {
				c.Violate("describe:"+kd.name, fmt.Sprintf("the description %q does not name %q", d, x), s)
			}
		}
		w.desc = d
		proc.PushJob(j)
		a := 0
		if kd.async {
			a = 1
		}
		q[a] = append(q[a], w)
	}
	if r.Intn(2) == 0 {
		st.Close()
		st = newStoreAt(dir)
	}
	for a, claim := range []func() (*jobs.JobEntry, error){st.ClaimSequentialJob, st.ClaimAsyncJob} {
		if a == 1 {
			claim = st.ClaimAsyncJob
		}
		for k, w := range q[a] {
			j, err := claim()
			if err != nil {
				c.Violate("lost", fmt.Sprintf("job %d of %d (%s) cannot be claimed: %v", k, len(q[a]), w.kind.name, err), i)
				return
			}
			if j.Type != w.typ || len(j.Params) != len(w.params) || len(w.params) > 0 && !reflect.DeepEqual(j.Params, w.params) {
				c.Violate("altered:"+w.kind.name, fmt.Sprintf("accepted %s %q, claimed %s %q", w.typ, w.params, j.Type, j.Params), i)
				return
			}
			if d, err := describe(j); err != nil || d != w.desc {
				c.Violate("altered:"+w.kind.name, fmt.Sprintf("described as %q, afterwards %q %v", w.desc, d, err), i)
			}
			if !j.Claimed || j.Timing.Begin.IsZero() || j.Timing.Begin.Before(j.Timing.Queued) {
				c.Violate("claim-state", fmt.Sprintf("claimed job has claimed=%v timing %+v", j.Claimed, j.Timing), i)
			}
			c.Count("jobs_round_tripped", 1)
		}
		if _, err := claim(); err != jobs.ErrEmptyQueue {
			c.Violate("extra", fmt.Sprintf("a further job can be claimed (%v)", err), i)
		}
	}
	c.Eval(fmt.Sprint("rt", i, len(q[0]), len(q[1])))
}

type qIn struct {
	op    string // push claim retire active
	async bool
	id    string
}
type qOut struct {
	id  string
	ids string
	err bool
}

var queueModel = porcupine.Model{
	Partition: func(h []porcupine.Operation) [][]porcupine.Operation {
		var p [2][]porcupine.Operation
		for _, o := range h {
			k := 0
			if o.Input.(qIn).async {
				k = 1
			}
			p[k] = append(p[k], o)
		}
		return p[:]
	},
	Init: func() interface{} { return "" }, // "id id* id" in order, * = claimed
	Step: func(s, in, out interface{}) (bool, interface{}) {
		var l []string
		if s.(string) != "" {
			l = strings.Split(s.(string), " ")
		}
		i, o := in.(qIn), out.(qOut)
		if o.err {
			return false, s
		}
		switch i.op {
		case "push":
			l = append(l, i.id)
		case "claim":
			for k, x := range l {
				if !strings.HasSuffix(x, "*") {
					if x != o.id {
						return false, s
					}
					l = append([]string{}, l...)
					l[k] = x + "*"
					return true, strings.Join(l, " ")
				}
			}
			return o.id == "", s
		case "retire":
			for k, x := range l {
				if x == i.id+"*" {
					n := append(append([]string{}, l[:k]...), l[k+1:]...)
					return true, strings.Join(n, " ")
				}
			}
			return false, s
		case "active":
			return strings.ReplaceAll(s.(string), "*", "") == o.ids, s
		}
		return true, strings.Join(l, " ")
	},
	Equal: func(a, b interface{}) bool { return a == b },
	DescribeOperation: func(in, out interface{}) string {
		return fmt.Sprintf("%+v -> %+v", in, out)
	},
}

func storeLinear(c *Ctx, i int) {
	r := c.Rng("lin", i)
	if i%2 == 0 {
		setWriteDelay(int64(i), 300)
	}
	dir := c.TempDir("lin")
	defer os.RemoveAll(dir)
	st := newStoreAt(dir)
	defer st.Close()
	proc := jobs.NewProcessor(nil, st, 2)
	start := time.Now()
	var mu sync.Mutex
	var hist []porcupine.Operation
	rec := func(cl int, in qIn, call int64, out qOut) {
		mu.Lock()
		hist = append(hist, porcupine.Operation{ClientId: cl, Input: in, Call: call, Output: out, Return: time.Since(start).Nanoseconds()})
		mu.Unlock()
	}
	ncl := 2 + r.Intn(4)
	nops := 6 + r.Intn(8)
	var wg sync.WaitGroup
	var gate sync.WaitGroup
	gate.Add(1)
	for cl := 0; cl < ncl; cl++ {
		cl := cl
		rr := rand.New(rand.NewSource(r.Int63()))
		wg.Add(1)
		go func() {
			defer wg.Done()
			gate.Wait()
			var held [2][]*jobs.JobEntry
			for k := 0; k < nops; k++ {
				a := rr.Intn(3) == 0
				ai := 0
				if a {
					ai = 1
				}
				now := time.Since(start).Nanoseconds()
				switch x := rr.Intn(10); {
				case x < 4:
					id := fmt.Sprintf("c%dn%d", cl, k)
					var j *jobs.JobEntry
					if a {
						j = jobs.NewDeltaJob(id, "p")
					} else {
						j = jobs.NewIndexRepoJob(id)
					}
					proc.PushJob(j)
					rec(cl, qIn{"push", a, id}, now, qOut{})
				case x < 7:
					claim := st.ClaimSequentialJob
					if a {
						claim = st.ClaimAsyncJob
					}
					j, err := claim()
					out := qOut{}
					if err == nil {
						out.id = j.Params[0]
						held[ai] = append(held[ai], j)
					} else if err != jobs.ErrEmptyQueue {
						out.err = true
					}
					rec(cl, qIn{"claim", a, ""}, now, out)
				case x < 9:
					if len(held[ai]) == 0 {
						continue
					}
					h := rr.Intn(len(held[ai]))
					j := held[ai][h]
					held[ai] = append(held[ai][:h], held[ai][h+1:]...)
					retire := st.RetireSequentialJob
					if a {
						retire = st.RetireAsyncJob
					}
					err := retire(j)
					rec(cl, qIn{"retire", a, j.Params[0]}, now, qOut{err: err != nil})
				default:
					l, err := st.ActiveJobs()
					var ids [2][]string
					for _, j := range l {
						q := 0
						if strings.HasPrefix(j.Description, "Delta") {
							q = 1
						}
						f := strings.Split(j.Description, "'")
						ids[q] = append(ids[q], f[len(f)-2])
					}
					rec(cl, qIn{"active", false, ""}, now, qOut{ids: strings.Join(ids[0], " "), err: err != nil})
					rec(cl, qIn{"active", true, ""}, now, qOut{ids: strings.Join(ids[1], " "), err: err != nil})
				}
			}
		}()
	}
	gate.Done()
	wg.Wait()
	// drain: everything still queued comes out once
	for a, claim := range []func() (*jobs.JobEntry, error){st.ClaimSequentialJob, st.ClaimAsyncJob} {
		for {
			now := time.Since(start).Nanoseconds()
			j, err := claim()
			if err != nil {
				rec(ncl, qIn{"claim", a == 1, ""}, now, qOut{err: err != jobs.ErrEmptyQueue})
				break
			}
			rec(ncl, qIn{"claim", a == 1, ""}, now, qOut{id: j.Params[0]})
		}
	}
	c.Count("store_operations", int64(len(hist)))
	overlap := 0
	for x := range hist {
		for y := range hist {
			if x != y && hist[x].Call < hist[y].Call && hist[y].Call < hist[x].Return {
				overlap++
			}
		}
	}
	c.Count("overlapping_operation_pairs", int64(overlap))
	res := porcupine.CheckOperationsTimeout(queueModel, hist, 990*time.Millisecond) // below a second: not scaled
	if res == porcupine.Illegal {
		var l []string
		sort.Slice(hist, func(a, b int) bool { return hist[a].Call < hist[b].Call })
		for _, o := range hist {
			l = append(l, fmt.Sprintf("%d-%d client %d %+v -> %+v", o.Call/1000, o.Return/1000, o.ClientId, o.Input, o.Output))
		}
		c.Violate("not-fifo", "a concurrent history of the job store is not explained by a first-in-first-out queue", l)
	}
	if res == porcupine.Unknown {
		c.Count("linearizability_undecided", 1)
	}
	c.Eval(fmt.Sprint("lin", i, len(hist), overlap))
	if i < 2 {
		var l []string
		for _, o := range hist {
			l = append(l, fmt.Sprintf("%d-%dus client %d %+v -> %+v", o.Call/1000, o.Return/1000, o.ClientId, o.Input, o.Output))
		}
		c.Sample(l)
	}
}

// waitDrained polls until nothing is queued or running.
func waitDrained(c *Ctx, st *jobs.JobStore, what string) bool {
	t0 := time.Now()
	for {
		l, err := st.ActiveJobs()
		if err == nil && len(l) == 0 {
			return true
		}
		if time.Since(t0) > 90*time.Second {
			var d []string
			for _, j := range l {
				d = append(d, j.Description)
			}
			c.Violate("stuck", fmt.Sprintf("%s: jobs did not finish: %q %v", what, d, err), what)
			return false
		}
		time.Sleep(2 * time.Millisecond)
	}
}

type expJob struct {
	desc  string
	fail  bool
	async bool
}

// processorRun: several submitters feed the real processor; outcomes are known
// because every submitter uses its own repositories and the queue is in order.
func processorRun(c *Ctx, i int) {
	r := c.Rng("proc", i)
	dir := c.TempDir("proc")
	defer os.RemoveAll(dir)
	st := newStoreAt(dir)
	m, err := core.NewManager(dir)
	must(err)
	// repositories the background jobs use
	must(m.CreateRepo("bg"))
	nw := 2 + r.Intn(4)
	proc := jobs.NewProcessor(m, st, nw)
	ncl := 2 + r.Intn(4)
	exp := make([][]expJob, ncl)
	var wg sync.WaitGroup
	begun := int32(0)
	if r.Intn(3) > 0 {
		proc.Begin()
		begun = 1
	}
	for cl := 0; cl < ncl; cl++ {
		cl := cl
		rr := rand.New(rand.NewSource(r.Int63()))
		wg.Add(1)
		go func() {
			defer wg.Done()
			exists := false
			id := fmt.Sprintf("r%d", cl)
			for k := 0; k < 12; k++ {
				var j *jobs.JobEntry
				e := expJob{}
				switch x := rr.Intn(9); {
				case x < 2:
					j = jobs.NewCreateRepoJob(id)
					e.fail = exists
					exists = true
				case x < 4:
					j = jobs.NewDeleteRepoJob(id)
					e.fail = !exists
					exists = false
				case x < 6:
					j = jobs.NewDeltaRepoJob(id)
					e.fail = !exists
				case x < 7:
					j = jobs.NewTrimPackagesJob(id, 3)
					e.fail = !exists
				default:
					e.async = true
					j = jobs.NewDeltaJob(fmt.Sprintf("none%d.%d", cl, k), "p")
					e.fail = true
				}
				e.desc, _ = describe(j)
				exp[cl] = append(exp[cl], e)
				proc.PushJob(j)
				if rr.Intn(3) == 0 {
					time.Sleep(time.Duration(rr.Intn(8000)) * time.Microsecond)
				}
			}
		}()
	}
	if r.Intn(2) == 0 { // restart in the middle
		time.Sleep(time.Duration(r.Intn(40)) * time.Millisecond)
		wg.Wait()
		if begun == 1 {
			proc.Close()
		}
		st.Close()
		st = newStoreAt(dir)
		proc = jobs.NewProcessor(m, st, nw)
		begun = 0
	}
	if begun == 0 {
		proc.Begin()
	}
	wg.Wait()
	ok := waitDrained(c, st, fmt.Sprint("processor run ", i))
	proc.Close()
	defer m.Close()
	defer st.Close()
	if !ok {
		return
	}
	good, err := st.CompletedJobs()
	must(err)
	bad, err := st.FailedJobs()
	must(err)
	c.Count("jobs_executed", int64(len(good)+len(bad)))
	got := map[string]int{}
	for _, j := range good {
		got["ok "+j.Description]++
		if j.Failed || j.Error != "" {
			c.Violate("outcome", fmt.Sprintf("a completed job carries error %q", j.Error), i)
		}
	}
	for _, j := range bad {
		got["failed "+j.Description]++
		if !j.Failed || j.Error == "" {
			c.Violate("outcome", fmt.Sprintf("a failed job (%s) carries no error", j.Description), i)
		}
	}
	want := map[string]int{}
	for _, l := range exp {
		for _, e := range l {
			if e.fail {
				want["failed "+e.desc]++
			} else {
				want["ok "+e.desc]++
			}
		}
	}
	if !reflect.DeepEqual(got, want) {
		var d []string
		for k, n := range want {
			if got[k] != n {
				d = append(d, fmt.Sprintf("%s: expected %d, recorded %d", k, n, got[k]))
			}
		}
		for k, n := range got {
			if _, ok := want[k]; !ok {
				d = append(d, fmt.Sprintf("%s: recorded %d, expected none", k, n))
			}
		}
		sort.Strings(d)
		c.Violate("outcomes", "the history does not show each accepted job once with its outcome: "+strings.Join(d, "; "), map[string]interface{}{"case": i, "pushed": exp})
	}
	// one at a time, in order
	var seq []*libferry.Job
	for _, j := range append(good, bad...) {
		if !strings.HasPrefix(j.Description, "Delta package") {
			seq = append(seq, j)
		}
		if j.Timing.Queued.IsZero() || j.Timing.Begin.Before(j.Timing.Queued) || j.Timing.End.Before(j.Timing.Begin) {
			c.Violate("timing", fmt.Sprintf("%s: timing %+v", j.Description, j.Timing), i)
		}
	}
	sort.Slice(seq, func(a, b int) bool { return seq[a].Timing.Begin.Before(seq[b].Timing.Begin) })
	perClient := map[int][]string{}
	for k, j := range seq {
		if k > 0 && seq[k-1].Timing.End.After(j.Timing.Begin) {
			c.Violate("overlap", fmt.Sprintf("sequential jobs overlap: %q %+v and %q %+v", seq[k-1].Description, seq[k-1].Timing, j.Description, j.Timing), i)
		}
		for cl := range exp {
			if strings.HasSuffix(j.Description, fmt.Sprintf("'r%d'", cl)) {
				perClient[cl] = append(perClient[cl], j.Description)
			}
		}
	}
	for cl, l := range exp {
		var w []string
		for _, e := range l {
			if !e.async {
				w = append(w, e.desc)
			}
		}
		if !reflect.DeepEqual(w, perClient[cl]) && len(w)+len(perClient[cl]) > 0 {
			c.Violate("order", fmt.Sprintf("client %d submitted %q, executed %q", cl, w, perClient[cl]), i)
		}
	}
	c.Eval(fmt.Sprint("proc", i, len(good), len(bad)))
}

// ---------- C15 ----------

type histRec struct {
	Desc, Err string
	Queued    int64
	Begin     int64
	End       int64
}

func toRec(j *libferry.Job) histRec {
	return histRec{j.Description, j.Error, j.Timing.Queued.UnixNano(), j.Timing.Begin.UnixNano(), j.Timing.End.UnixNano()}
}

func runC15(c *Ctx) {
	setTimeScale(200000)
	c.Each(c.N(14, 300), 7, func(i int) { statusHistory(c, i) })
	c.Each(c.N(30, 300), 0, func(i int) { statusInvalid(c, i) })
	c.Each(c.N(60, 1500), 2, func(i int) { retireTogether(c, i) })
	setTimeScale(200000)
	c.Each(c.N(6, 60), 2, func(i int) { finishTogether(c, i) })
}

// retireTogether: jobs finishing at the same time all get into the history,
// and the status counts each job as either active or done, never both or none.
func retireTogether(c *Ctx, i int) {
	r := c.Rng("together", i)
	if i%2 == 0 {
		setWriteDelay(int64(i), 200)
	}
	dir := c.TempDir("together")
	defer os.RemoveAll(dir)
	st := newStoreAt(dir)
	defer st.Close()
	n := 8 + r.Intn(40)
	want := map[int64]int{}
	var held []func() error
	for k := 0; k < n; k++ {
		async := r.Intn(4) > 0
		j, claim, retire := jobs.NewIndexRepoJob(fmt.Sprint(k)), st.ClaimSequentialJob, st.RetireSequentialJob
		if async {
			j, claim, retire = jobs.NewDeltaJob(fmt.Sprint(k), "p"), st.ClaimAsyncJob, st.RetireAsyncJob
			must(st.PushAsyncJob(j))
		} else {
			must(st.PushSequentialJob(j))
		}
		j, err := claim()
		if err != nil {
			c.Violate("together", fmt.Sprintf("pushed a job, but none can be claimed: %v", err), i)
			return
		}
		j.Timing.End = time.Unix(int64(1000+k), 0).UTC()
		want[int64(1000+k)]++
		held = append(held, func() error { return retire(j) })
	}
	var wg, gate sync.WaitGroup
	gate.Add(1)
	per := 1 + r.Intn(4)
	for k := 0; k < n; k += per {
		mine := held[k:min(k+per, n)]
		wg.Add(1)
		go func() {
			defer wg.Done()
			gate.Wait()
			for _, f := range mine {
				if err := f(); err != nil {
					c.Violate("together", fmt.Sprintf("retiring a job: %v", err), i)
				}
			}
		}()
	}
	stop := make(chan bool)
	var rd sync.WaitGroup
	rd.Add(1)
	go func() {
		defer rd.Done()
		last := n + 1
		for {
			select {
			case <-stop:
				return
			default:
			}
			a, err1 := st.ActiveJobs()
			d, err2 := st.CompletedJobs()
			if err1 != nil || err2 != nil {
				c.Violate("together", fmt.Sprintf("status: %v %v", err1, err2), i)
				return
			}
			if len(a) > last || len(a)+len(d) < n {
				c.Violate("together", fmt.Sprintf("%d of %d jobs are active, %d before, and %d done", len(a), n, last, len(d)), i)
				return
			}
			last = len(a)
			c.Count("reads_while_retiring", 1)
		}
	}()
	gate.Done()
	wg.Wait()
	close(stop)
	rd.Wait()
	l, err := st.CompletedJobs()
	if err != nil {
		c.Violate("together", fmt.Sprintf("status: %v", err), i)
		return
	}
	got := map[int64]int{}
	for _, j := range l {
		got[j.Timing.End.Unix()]++
	}
	if !reflect.DeepEqual(want, got) {
		c.Violate("together", fmt.Sprintf("%d jobs finished at the same time, %d are in the history", n, len(l)), i)
	}
	c.Count("jobs_retired_together", int64(n))
	c.Eval(fmt.Sprint("tog", i, n, per))
}

// finishTogether is the same with the real workers and failing jobs.
func finishTogether(c *Ctx, i int) {
	r := c.Rng("finish", i)
	setWriteDelay(int64(i), 300)
	dir := c.TempDir("finish")
	defer os.RemoveAll(dir)
	m, err := core.NewManager(dir)
	must(err)
	defer m.Close()
	st := newStoreAt(dir)
	defer st.Close()
	proc := jobs.NewProcessor(m, st, 8)
	n := 60 + r.Intn(40)
	want := map[string]int{}
	for k := 0; k < n; k++ {
		j := jobs.NewDeltaJob(fmt.Sprintf("none%d", k), "p")
		if r.Intn(4) == 0 {
			j = jobs.NewIndexRepoJob(fmt.Sprintf("none%d", k))
		}
		d, err := describe(j)
		must(err)
		want[d]++
		must(proc.PushJob(j))
	}
	proc.Begin()
	waitDrained(c, st, "jobs finishing together")
	proc.Close()
	l, err := st.FailedJobs()
	got := map[string]int{}
	for _, j := range l {
		got[j.Description]++
	}
	if err != nil || !reflect.DeepEqual(want, got) {
		c.Violate("together", fmt.Sprintf("%d background and other jobs failed, %d are in the history (%v)", n, len(l), err), i)
	}
	c.Eval(fmt.Sprint("fin", i, n))
}

type pend struct {
	running bool
	desc    string
	fail    bool
	queued  int64
	async   bool
}

const histLimit = 100

func statusHistory(c *Ctx, i int) {
	r := c.Rng("st", i)
	dir := c.TempDir("st")
	defer os.RemoveAll(dir)
	m, err := core.NewManager(dir)
	must(err)
	defer m.Close()
	must(m.CreateRepo("empty"))
	st := newStoreAt(dir)
	defer func() { st.Close() }()
	var good, bad []histRec // reference, oldest first
	var queue []pend
	n := 0
	var ops []string
	violate := func(key, f string, a ...interface{}) {
		c.Violate(key, fmt.Sprintf(f, a...), map[string]interface{}{"case": i, "ops": ops})
	}
	push := func(fail, async bool) {
		n++
		var j *jobs.JobEntry
		switch {
		case async:
			j = jobs.NewDeltaJob(fmt.Sprintf("none%d", n), "p")
			fail = true
		case fail:
			j = []*jobs.JobEntry{jobs.NewIndexRepoJob(fmt.Sprintf("none%d", n)), jobs.NewDeleteRepoJob(fmt.Sprintf("none%d", n)), jobs.NewPullRepoJob(fmt.Sprintf("none%d", n), "empty")}[r.Intn(3)]
		default: // succeeds without doing much; made unique by its argument
			j = []*jobs.JobEntry{jobs.NewDeltaRepoJob("empty"), jobs.NewDeltaRepoJob("empty")}[r.Intn(2)]
		}
		d, err := describe(j)
		must(err)
		if async {
			err = st.PushAsyncJob(j)
		} else {
			err = st.PushSequentialJob(j)
		}
		must(err)
		queue = append(queue, pend{false, d, fail, j.Timing.Queued.UnixNano(), async})
	}
	check := func(what string) bool {
		ok := true
		act, err := st.ActiveJobs()
		if err != nil {
			violate("status-fails", "%s: the status cannot be answered: %v", what, err)
			return false
		}
		var w, g []string
		for _, p := range queue {
			w = append(w, fmt.Sprint(p.desc, p.queued, " running ", p.running))
		}
		for _, j := range act {
			g = append(g, fmt.Sprint(j.Description, j.Timing.Queued.UnixNano(), " running ", !j.Timing.Begin.IsZero()))
		}
		sort.Strings(w)
		sort.Strings(g)
		if !reflect.DeepEqual(w, g) && len(w)+len(g) > 0 {
			violate("active", "%s: %d jobs are queued or running, the status shows %d: %v / %v", what, len(w), len(g), w, g)
			ok = false
		}
		for k, ref := range [][]histRec{good, bad} {
			get, name := st.CompletedJobs, "completed"
			if k == 1 {
				get, name = st.FailedJobs, "failed"
			}
			l, err := get()
			if err != nil {
				violate("status-fails", "%s: the %s history cannot be read: %v", what, name, err)
				return false
			}
			if len(ref) > histLimit {
				ref = ref[len(ref)-histLimit:]
			}
			ws, gs := map[histRec]int{}, map[histRec]int{}
			for _, h := range ref {
				ws[h]++
			}
			for _, j := range l {
				gs[toRec(j)]++
				if j.Failed != (k == 1) {
					violate("outcome", "%s: %s history shows failed=%v", what, name, j.Failed)
				}
			}
			c.Count("history_reads", 1)
			if !reflect.DeepEqual(ws, gs) {
				miss, extra := 0, 0
				for h, n := range ws {
					if gs[h] < n {
						miss++
					}
				}
				for h, n := range gs {
					if ws[h] < n {
						extra++
					}
				}
				violate("history:"+name, "%s: the %s history is not the last %d (%d recorded so far, %d shown): %d missing, %d that should be gone or never were", what, name, histLimit, len(ref), len(l), miss, extra)
				ok = false
			}
		}
		return ok
	}
	// drain executes everything queued with the real processor; what happened is
	// read back by watching the histories grow.
	drain := func() bool {
		proc := jobs.NewProcessor(m, st, 2)
		t0 := time.Now()
		proc.Begin()
		todo := append([]pend{}, queue...)
		seen := map[histRec]bool{}
		var bounds = func() {
			l1, _ := st.CompletedJobs()
			l2, _ := st.FailedJobs()
			for _, j := range append(l1, l2...) {
				seen[toRec(j)] = true
			}
			if len(l1) > histLimit || len(l2) > histLimit {
				violate("unbounded", "%d completed and %d failed jobs shown", len(l1), len(l2))
			}
		}
		for {
			bounds()
			l, err := st.ActiveJobs()
			if err != nil {
				violate("status-fails", "the status cannot be answered while jobs run: %v", err)
				break
			}
			if len(l) == 0 {
				break
			}
			if time.Since(t0) > 60*time.Second {
				violate("stuck", "%d jobs did not finish", len(l))
				break
			}
		}
		proc.Close()
		bounds()
		queue = nil
		// match what was recorded with what was queued
		var ng, nb []histRec
		for _, p := range todo {
			found := false
			for h := range seen {
				if h.Desc == p.desc && h.Queued == p.queued {
					found = true
					if h.Begin < h.Queued || h.End < h.Begin || h.End > time.Now().UnixNano() || h.Begin < t0.UnixNano() {
						violate("timing", "%q: queued %d begun %d ended %d, executed after %d", h.Desc, h.Queued, h.Begin, h.End, t0.UnixNano())
					}
					if p.fail {
						nb = append(nb, h)
						if h.Err == "" || !strings.Contains(h.Err, "exist") && !strings.Contains(h.Err, "not found") {
							violate("error-text", "%q failed with error %q", h.Desc, h.Err)
						}
					} else {
						ng = append(ng, h)
						if h.Err != "" {
							violate("outcome", "%q should succeed, failed with %q", h.Desc, h.Err)
						}
					}
				}
			}
			if !found {
				violate("unrecorded", "executed job %q never showed in the history", p.desc)
				return false
			}
		}
		by := func(l []histRec) {
			sort.SliceStable(l, func(a, b int) bool { return l[a].End < l[b].End })
		}
		by(ng)
		by(nb)
		good = append(good, ng...)
		bad = append(bad, nb...)
		c.Count("jobs_executed", int64(len(todo)))
		return true
	}
	steps := 30 + r.Intn(10)
	for s := 0; s < steps; s++ {
		what := ""
		switch x := r.Intn(12); {
		case x < 6: // a batch, sized to walk around the limit
			k := 1 + r.Intn(9)
			if r.Intn(4) == 0 {
				k = 30 + r.Intn(30)
			}
			bias := r.Intn(3)
			async := r.Intn(6) == 0
			if len(queue) > 0 && queue[0].async != async && !drain() {
				return // never mix: the order of recording would not be known
			}
			what = fmt.Sprintf("push %d bias %d async %v", k, bias, async)
			if async {
				k = 1 // one background job at a time keeps the order exact
			}
			for q := 0; q < k; q++ {
				push(bias == 0 || bias == 1 && q%2 == 0, async)
			}
			ops = append(ops, what)
			if !check(what) {
				return
			}
			if r.Intn(4) > 0 {
				what = "drain"
				if !drain() {
					return
				}
			}
		case x < 7:
			what = "drain"
			if !drain() {
				return
			}
		case x < 8:
			what = "reset-completed"
			if err := st.ResetCompleted(); err != nil {
				violate("reset", "resetting completed: %v", err)
			}
			good = nil
		case x < 9:
			what = "reset-failed"
			if err := st.ResetFailed(); err != nil {
				violate("reset", "resetting failed: %v", err)
			}
			bad = nil
		case x < 10:
			what = "reopen"
			st.Close()
			st = newStoreAt(dir)
			for q := range queue {
				queue[q].running = false
			}
		case x < 11: // claimed (running) jobs stay visible; a restart returns them
			what = "claim"
			j, err := st.ClaimSequentialJob()
			if r.Intn(2) == 0 && err != nil {
				j, err = st.ClaimAsyncJob()
			}
			if err == nil {
				_ = j
				for q := range queue {
					if !queue[q].running {
						queue[q].running = true
						break
					}
				}
				ops = append(ops, what)
				if !check(what) {
					return
				}
				what = "reopen"
				st.Close()
				st = newStoreAt(dir)
				for q := range queue {
					queue[q].running = false
				}
			}
		default:
			what = "read"
		}
		ops = append(ops, what)
		if !check(what) {
			return
		}
		c.State(fmt.Sprint(min(len(good), 101), min(len(bad), 101), len(queue)))
	}
	c.Eval(fmt.Sprint("st", i, len(good), len(bad)))
	if i < 2 {
		c.Sample(ops)
	}
}

// statusInvalid: whatever has been queued, the status can be answered and the
// other jobs run.
func statusInvalid(c *Ctx, i int) {
	r := c.Rng("inv", i)
	dir := c.TempDir("inv")
	defer os.RemoveAll(dir)
	m, err := core.NewManager(dir)
	must(err)
	defer m.Close()
	st := newStoreAt(dir)
	defer st.Close()
	var nInvalid, nValid int32
	for k := 0; k < 3+r.Intn(8); k++ {
		var j *jobs.JobEntry
		async := false
		switch r.Intn(7) {
		case 0:
			j = jobs.NewBulkAddJob("none", nil) // an import request without files
		case 1:
			j = &jobs.JobEntry{Type: "FromTheFuture", Params: []string{"x"}}
		case 2:
			j = &jobs.JobEntry{Type: jobs.BulkAdd}
		case 3:
			j = &jobs.JobEntry{Type: jobs.TrimPackages, Params: []string{"none", "not a number"}}
		case 4:
			j = &jobs.JobEntry{Type: jobs.Delta, Params: []string{"none"}}
			async = true
		case 5:
			j = jobs.NewRemoveSourceJob("none", "x", 1<<40)
		default:
			j = jobs.NewIndexRepoJob("none")
			atomic.AddInt32(&nValid, 1)
		}
		if j.Type != jobs.IndexRepo {
			nInvalid++
		}
		if async {
			must(st.PushAsyncJob(j))
		} else {
			must(st.PushSequentialJob(j))
		}
	}
	total := int(nInvalid + nValid)
	l, err := st.ActiveJobs()
	if err != nil || len(l) != total {
		c.Violate("status-fails", fmt.Sprintf("with %d unusable jobs among %d queued the status answers %d jobs, %v", nInvalid, total, len(l), err), i)
		return
	}
	for _, j := range l {
		if j.Description == "" {
			c.Violate("no-description", "a queued job is shown without a description", i)
		}
	}
	proc := jobs.NewProcessor(m, st, 2)
	proc.Begin()
	ok := waitDrained(c, st, "unusable jobs")
	proc.Close()
	if !ok {
		return
	}
	bad, err := st.FailedJobs()
	if err != nil || len(bad) != total {
		c.Violate("unrecorded", fmt.Sprintf("%d of %d jobs recorded as failed, %v", len(bad), total, err), i)
	}
	for _, j := range bad {
		if j.Error == "" || j.Description == "" {
			c.Violate("no-description", fmt.Sprintf("a failed job is recorded with description %q and error %q", j.Description, j.Error), i)
		}
	}
	c.Eval(fmt.Sprint("inv", i, nInvalid, nValid))
}
