package main

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/getsolus/ferryd/src/ferryd/core"
	"github.com/getsolus/ferryd/src/libferry"
)

// C26: several uploaders at once place manifests in the incoming directory of
// the real daemon in every way one can, next to things that are no uploads.
// Each records what it completed and when; the daemon's jobs, what is left of
// the uploads and the final state are judged against that record.

func init() {
	register(&Check{ID: "C26", Level: "exploration",
		Rule:   "one case = one history of several concurrent uploaders against the real daemon, judged at the end; non-trivial: at least one upload was noticed; distinct by content of the record",
		Assume: []string{"one uploader completes a manifest of the same name again only after the daemon's job for the earlier one was seen", "a manifest stays in place until it is noticed", "fewer uploads wait than the kernel's event queue holds"},
		Run:    runC26})
}

func runC26(c *Ctx) {
	c.Each(c.N(70, 2500), 7, func(i int) {
		if atomic.LoadInt32(&unseen) < 12 { // each would take as long
			watchHistory(c, i)
		}
	})
	c.Extra("distinct_histories", c.NStates())
}

// unseen counts the uploads that were not noticed in time.
var unseen int32

// placing is one completion of a manifest.
type placing struct {
	Name, How string
	Want      string // "" it must be imported, otherwise why it can't be
}

type uploader struct {
	s      *scn
	d      *Daemon
	k      int
	r      *rand.Rand
	repo   string
	inc    string
	out    string // a directory of its own on the same file system
	rel    int
	nn     int
	log    []placing
	good   []*PkgSpec
	left   map[string]bool // what has to remain in the incoming directory
	failed []string        // names of refused manifests
	notes  []string
	abort  bool
}

func (u *uploader) note(f string, a ...interface{}) {
	u.notes = append(u.notes, fmt.Sprintf("u%d: ", u.k)+fmt.Sprintf(f, a...))
}

// jobsOf returns the jobs for manifests of the given name.
func jobsOf(v *jobView, name string) (out []*libferry.Job) {
	for _, l := range [][]*libferry.Job{v.Active, v.Failed, v.Completed} {
		for _, j := range l {
			if manifestOf(j) == name {
				out = append(out, j)
			}
		}
	}
	return
}

// manifestOf names the manifest a job is about.
func manifestOf(j *libferry.Job) string {
	d, ok := strings.CutPrefix(j.Description, "Process manifest '")
	if !ok {
		return ""
	}
	if i := strings.LastIndex(d, "' for target '"); i >= 0 {
		d = d[:i+1]
	}
	d = strings.TrimSuffix(d, "'")
	return d[strings.LastIndex(d, "/")+1:]
}

func (u *uploader) count(name string) int {
	v, err := u.d.jobs()
	if err != nil {
		return -1
	}
	return len(jobsOf(v, name))
}

func (u *uploader) placed(name string) (n int) {
	for _, p := range u.log {
		if p.Name == name {
			n++
		}
	}
	return
}

// seen waits until every completion of the name has its job.
func (u *uploader) seen(name string) bool {
	want := u.placed(name)
	n := 0
	limit := 20 * time.Second
	if atomic.LoadInt32(&unseen) > 0 { // the verdict is clear
		limit = 3 * time.Second
	}
	for t0 := time.Now(); time.Since(t0) < limit && !u.s.failed; time.Sleep(2 * time.Millisecond) {
		if n = u.count(name); n >= want {
			return true
		}
		if u.d.Exited() {
			break
		}
	}
	atomic.AddInt32(&unseen, 1)
	u.note("%d completions of %q, %d jobs after a long time", want, name, n)
	return false
}

func (u *uploader) settled(name string) bool {
	if !u.seen(name) {
		return false
	}
	for t0 := time.Now(); time.Since(t0) < 30*time.Second; time.Sleep(3 * time.Millisecond) {
		v, err := u.d.jobs()
		if err != nil {
			return false
		}
		busy := false
		for _, j := range v.Active {
			busy = busy || manifestOf(j) == name
		}
		if !busy {
			return true
		}
	}
	return false
}

// newName makes up a name that ends like a manifest's.
func (u *uploader) newName() string {
	u.nn++
	t := fmt.Sprintf("u%d-%d", u.k, u.nn)
	return []string{t, t, t, "a b " + t, "-" + t, "." + t, "é☃" + t, t + "'s", t + "%2F%s", t + ".tram", t + ".eopkg", "up*" + t + "?", t + "\"", "[x]" + t, t + " for target 'x", strings.Repeat("l", 230) + t, "\\" + t}[u.r.Intn(17)] + ".tram"
}

// drop writes a file in one go.
func (u *uploader) drop(dir, name string, b []byte) string {
	p := filepath.Join(dir, name)
	f, err := os.OpenFile(p, os.O_CREATE|os.O_TRUNC|os.O_WRONLY, 0644)
	must(err)
	_, err = f.Write(b)
	must(err)
	closeNow(f)
	return p
}

// closeNow closes f for good: a child being forked would hold it open a little longer.
func closeNow(f *os.File) {
	syscall.ForkLock.RLock()
	err := f.Close()
	syscall.ForkLock.RUnlock()
	must(err)
}

// content makes an upload: the packages are put in place, the manifest's text returned.
func (u *uploader) content(bad string) []byte {
	if bad == "empty" {
		return nil
	}
	if bad == "garbage" {
		return []byte("this is [no manifest\x00")
	}
	u.rel += 1 + u.r.Intn(9)
	target := u.repo
	if bad == "target" {
		target = "nowhere"
	}
	var t strings.Builder
	fmt.Fprintf(&t, "[manifest]\nversion = \"1.0\"\ntarget = \"%s\"\n", target)
	for k := 0; k < 1+u.r.Intn(2); k++ {
		n := fmt.Sprintf("pk%d", u.k)
		if k > 0 {
			n += "-devel"
		}
		p := &PkgSpec{Name: n, Source: fmt.Sprintf("pk%d", u.k), Release: u.rel, Version: fmt.Sprintf("1.%d", u.rel), NoTar: true, Salt: fmt.Sprint(u.k, k, u.rel)}
		p.Files = []FileSpec{{Path: "usr/share/" + n, Content: fmt.Sprint(n, u.rel)}}
		p.norm()
		tmp := p.Write(u.out)
		b, err := os.ReadFile(tmp)
		must(err)
		sum := sha256hex(b)
		if bad == "missing" {
			must(os.Remove(tmp))
		} else {
			must(os.Rename(tmp, filepath.Join(u.inc, p.ID())))
			if bad != "" {
				u.left[p.ID()] = true
			}
		}
		if bad == "sha" {
			sum = strings.Repeat("0", 64)
		}
		if bad == "" {
			u.good = append(u.good, p)
		}
		fmt.Fprintf(&t, "\n[[file]]\npath = \"%s\"\nsha256 = \"%s\"\n", p.ID(), sum)
	}
	return []byte(t.String())
}

// completed records a completion that is about to happen.
func (u *uploader) completed(name, how, bad string) {
	u.log = append(u.log, placing{name, how, bad})
	u.note("%s %q %s", how, name, bad)
	if bad != "" {
		u.left[name] = true
		known := false
		for _, f := range u.failed {
			known = known || f == name
		}
		if !known {
			u.failed = append(u.failed, name)
		}
	} else {
		delete(u.left, name)
		for i, f := range u.failed {
			if f == name {
				u.failed = append(u.failed[:i:i], u.failed[i+1:]...)
				break
			}
		}
	}
	u.s.c.Count("completed_"+how, 1)
	if bad != "" {
		u.s.c.Count("refused_uploads", 1)
	}
}

// place completes one manifest in some way.
func (u *uploader) place() {
	r := u.r
	bad := ""
	if r.Intn(3) == 0 {
		bad = []string{"sha", "missing", "target", "garbage", "empty"}[r.Intn(5)]
	}
	again := ""
	if len(u.failed) > 0 && r.Intn(2) == 0 {
		again = u.failed[r.Intn(len(u.failed))]
		if !u.settled(again) {
			u.abort = true
			return
		}
	}
	name := again
	if name == "" {
		name = u.newName()
	}
	b := u.content(bad)
	how := []string{"written", "written", "slowly", "in-parts", "renamed-in", "renamed-within", "copied-back"}[r.Intn(7)]
	switch how {
	case "written":
		if again != "" {
			how = "rewritten"
		}
		u.completed(name, how, bad)
		u.drop(u.inc, name, b)
	case "slowly", "in-parts":
		f, err := os.OpenFile(filepath.Join(u.inc, name), os.O_CREATE|os.O_TRUNC|os.O_RDWR, 0644)
		must(err)
		before := u.placed(name)
		n := 2 + r.Intn(3)
		for k := 0; k < n; k++ {
			_, err = f.Write(b[k*len(b)/n : (k+1)*len(b)/n])
			must(err)
			if how == "slowly" {
				if r.Intn(3) == 0 {
					f.Sync()
				}
				time.Sleep(time.Duration(r.Intn(60)) * time.Millisecond)
				if r.Intn(2) == 0 { // somebody looks at it meanwhile
					os.ReadFile(filepath.Join(u.inc, name))
					u.s.c.Count("read_meanwhile", 1)
				}
				if x := u.count(name); x > before {
					u.s.bad("early", "%q is still being written, and the daemon has %d jobs for it (%d completions so far)", name, x, before)
				}
				u.s.c.Count("incomplete_checks", 1)
			}
		}
		u.completed(name, how, bad)
		closeNow(f)
	case "renamed-in":
		p := u.drop(u.out, "manifest", b)
		u.completed(name, how, bad)
		must(os.Rename(p, filepath.Join(u.inc, name)))
	case "renamed-within":
		p := u.drop(u.inc, name[:min(len(name), 200)]+".part", b)
		if r.Intn(2) == 0 {
			time.Sleep(time.Duration(r.Intn(30)) * time.Millisecond)
		}
		u.completed(name, how, bad)
		must(os.Rename(p, filepath.Join(u.inc, name)))
	case "copied-back":
		// a refused manifest is taken out and put back; both manifest and file remain refused
		if again == "" {
			u.completed(name, "written", bad)
			u.drop(u.inc, name, b)
			break
		}
		was := ""
		for _, p := range u.log {
			if p.Name == name {
				was = p.Want
			}
		}
		must(os.Rename(filepath.Join(u.inc, name), filepath.Join(u.out, "aside")))
		// the packages of the unused content are never listed
		for k := len(u.good) - 1; k >= 0 && bad == "" && u.good[k].Release == u.rel; k-- {
			u.left[u.good[k].ID()] = true
			u.good = u.good[:k]
		}
		time.Sleep(time.Duration(r.Intn(20)) * time.Millisecond)
		u.completed(name, "put-back", was)
		must(os.Rename(filepath.Join(u.out, "aside"), filepath.Join(u.inc, name)))
	}
	switch r.Intn(4) {
	case 0:
		if !u.seen(name) {
			u.abort = true
		}
	case 1:
		time.Sleep(time.Duration(r.Intn(20)) * time.Millisecond)
	}
}

// noise does what is no upload.
func (u *uploader) noise() {
	r := u.r
	u.nn++
	t := fmt.Sprintf("n%d-%d", u.k, u.nn)
	k := r.Intn(9)
	u.s.c.Count("noise", 1)
	u.note("noise %d %s", k, t)
	manifest := []byte(fmt.Sprintf("[manifest]\nversion = \"1.0\"\ntarget = \"%s\"\n\n[[file]]\npath = \"x\"\nsha256 = \"\"\n", u.repo))
	switch k {
	case 0: // other names
		n := []string{t + ".TRAM", t + ".tram~", t + ".tram.new", t + ".trams", t, t + ".tra", t + "tram", "tram." + t, t + ".tram.asc", t + ".tram "}[r.Intn(10)]
		u.drop(u.inc, n, manifest)
		u.left[n] = true
	case 1: // a directory
		must(os.Mkdir(filepath.Join(u.inc, t+".tram"), 0755))
		u.left[t+".tram"] = true
	case 2: // a directory moved in
		must(os.Mkdir(filepath.Join(u.out, t), 0755))
		must(os.Rename(filepath.Join(u.out, t), filepath.Join(u.inc, t+".tram")))
		u.left[t+".tram"] = true
	case 3: // a manifest in a directory
		must(os.Mkdir(filepath.Join(u.inc, t), 0755))
		u.drop(filepath.Join(u.inc, t), "x.tram", manifest)
		u.drop(filepath.Join(u.inc, t), "y", manifest)
		must(os.Rename(filepath.Join(u.inc, t, "y"), filepath.Join(u.inc, t, "y.tram")))
		u.left[t] = true
	case 4, 5: // looking at, changing the mode or time of a refused one
		if len(u.failed) == 0 {
			return
		}
		n := u.failed[r.Intn(len(u.failed))]
		if !u.seen(n) {
			u.abort = true
			return
		}
		p := filepath.Join(u.inc, n)
		switch r.Intn(4) {
		case 0:
			_, err := os.ReadFile(p)
			must(err)
		case 1:
			must(os.Chmod(p, 0600))
		case 2:
			must(os.Chtimes(p, time.Unix(1e9, 0), time.Unix(1e9, 0)))
		case 3:
			must(os.Link(p, filepath.Join(u.inc, t)))
			must(os.Remove(filepath.Join(u.inc, t)))
		}
	case 6: // taking a refused one away, by removal or under another name
		if len(u.failed) == 0 {
			return
		}
		i := r.Intn(len(u.failed))
		n := u.failed[i]
		if !u.settled(n) {
			u.abort = true
			return
		}
		u.failed = append(u.failed[:i:i], u.failed[i+1:]...)
		delete(u.left, n)
		if r.Intn(2) == 0 {
			must(os.Remove(filepath.Join(u.inc, n)))
		} else {
			must(os.Rename(filepath.Join(u.inc, n), filepath.Join(u.inc, t+".refused")))
			u.left[t+".refused"] = true
		}
	case 7: // a manifest that is taken away before it gets its name
		p := u.drop(u.inc, t+".part", manifest)
		must(os.Remove(p))
	case 8: // a dangling link
		must(os.Symlink("nothing", filepath.Join(u.out, t)))
		must(os.Rename(filepath.Join(u.out, t), filepath.Join(u.inc, t+".tram")))
		u.left[t+".tram"] = true
	}
}

func (u *uploader) run(n int) {
	for k := 0; k < n && !u.abort && !u.s.failed && !u.d.Exited(); k++ {
		if u.r.Intn(3) == 0 {
			u.noise()
		} else {
			u.place()
		}
	}
}

func watchHistory(c *Ctx, i int) {
	s := newScn(c, "watch", i)
	defer s.close()
	r := s.r
	inc := filepath.Join(s.base, "incoming")
	ff := filepath.Join(s.dir, "hold")
	var us []*uploader
	for k := 0; k < 1+r.Intn(4); k++ {
		u := &uploader{s: s, k: k, r: rand.New(rand.NewSource(r.Int63())), repo: fmt.Sprintf("up%d", k), inc: inc, out: filepath.Join(s.dir, fmt.Sprintf("out%d", k)), left: map[string]bool{}}
		must(os.MkdirAll(u.out, 0755))
		us = append(us, u)
	}
	total := 0
	rounds := 1 + r.Intn(2)
	for round := 0; round < rounds; round++ {
		spelled := s.base
		switch r.Intn(5) {
		case 0:
			spelled += "/"
		case 1:
			spelled = s.dir + "//./base/../base"
		case 2: // relative to where the daemon is started
			wd, err := os.Getwd()
			must(err)
			spelled, err = filepath.Rel(wd, s.base)
			must(err)
		case 3:
			l := filepath.Join(s.dir, "link")
			os.Remove(l)
			must(os.Symlink("base", l))
			spelled = l
		}
		s.note("base directory given as %s", spelled)
		d := startDaemon(spelled, s.sock, daemonOpts{Env: append(s.delays(), "VERIF_FAIL_FILE="+ff)})
		s.all = append(s.all, d)
		c.Count("daemon_starts", 1)
		if !d.Ready(30 * time.Second) {
			s.bad("no-start", "the daemon does not start with %s: %s", spelled, cut(d.Err.String(), 1500))
			return
		}
		if round == 0 {
			for _, u := range us {
				if err := d.Client().CreateRepo(u.repo); err != nil {
					s.bad("client-fails", "%v", err)
					return
				}
			}
			if _, err := d.waitIdle(60 * time.Second); err != nil {
				s.bad("not-idle", "%v", err)
				return
			}
			for _, u := range us {
				u.note("repository %s", u.repo)
			}
		}
		held := r.Intn(3) == 0
		if held { // the worker is busy all the time
			must(os.WriteFile(ff, []byte("hold /held"), 0644))
			if err := d.Client().CreateRepo(fmt.Sprintf("held%d", round)); err != nil {
				s.bad("client-fails", "%v", err)
				return
			}
			s.note("round %d: with the worker held", round)
			c.Count("held_rounds", 1)
		}
		var wg sync.WaitGroup
		for _, u := range us {
			u.d = d
			n := 3 + u.r.Intn(max(1, 28/len(us)/rounds))
			wg.Add(1)
			go func(u *uploader) {
				defer wg.Done()
				if held { // nothing is settled meanwhile
					u.failed = nil
					for k := 0; k < n && !u.abort && !s.failed; k++ {
						f := u.failed
						u.failed = nil // no second completions
						u.place()
						u.failed = append(f, u.failed...)
					}
					return
				}
				u.run(n)
			}(u)
		}
		wg.Wait()
		aborted := false
		for _, u := range us {
			s.log = append(s.log, u.notes...)
			u.notes = nil
			aborted = aborted || u.abort
		}
		if s.failed {
			return
		}
		if held {
			// all are noticed although none could be processed
			ok := true
			for _, u := range us {
				for _, p := range u.log {
					ok = ok && u.seen(p.Name)
				}
			}
			if v, err := d.jobs(); err == nil && ok {
				c.Count("queued_while_held", int64(len(v.Active)))
			}
			must(os.Remove(ff))
		}
		if d.Exited() {
			s.bad("daemon-ended", "the daemon ended: %s", cut(d.Err.String(), 1500))
			return
		}
		// whatever was completed last is still to be noticed
		all := true
		for _, u := range us {
			for _, p := range u.log {
				all = all && u.seen(p.Name)
			}
		}
		v, err := d.waitIdle(60 * time.Second)
		if err != nil {
			s.bad("not-idle", "%v", err)
			return
		}
		if r.Intn(2) == 0 {
			time.Sleep(60 * time.Millisecond)
			if v, err = d.waitIdle(60 * time.Second); err != nil {
				s.bad("not-idle", "%v", err)
				return
			}
		}
		total = judgeUploads(s, us, v)
		if s.failed {
			return
		}
		if !d.Stop(30 * time.Second) {
			s.bad("hang", "the daemon does not end\n%s", d.quitDump())
			return
		}
	}
	// what is left
	want, got := map[string]bool{}, map[string]bool{}
	var specs []*PkgSpec
	for _, u := range us {
		for n := range u.left {
			want[n] = true
		}
		specs = append(specs, u.good...)
	}
	es, err := os.ReadDir(inc)
	must(err)
	for _, e := range es {
		got[e.Name()] = true
	}
	if x := setDiff(got, want); x != "" {
		s.bad("left", "the incoming directory after all uploads were processed: %s", x)
		return
	}
	cat := newCatalog(filepath.Join(s.dir, "cat"), specs)
	m := newModel(cat)
	for _, u := range us {
		m.apply(st("create", u.repo))
		for _, p := range u.good {
			m.apply(st("upload", u.repo, []string{p.ID()}))
		}
	}
	mm, err := core.NewManager(s.base)
	must(err)
	o := observe(mm, s.base, nil)
	mm.Close()
	for id := range o.Repos {
		if strings.HasPrefix(id, "held") {
			m.apply(st("create", id))
		}
	}
	ps := m.compare(o, st("upload", "up0"), Outcome{})
	ps = append(ps, checkInvariants(o, invOpts{Orphans: true, Accepted: cat.Accepted()})...)
	if len(ps) > 0 {
		s.bad("state:"+ps[0].Key, "after the uploads: %s", cut(ps.String(), 1200))
	}
	key := ""
	if total > 0 {
		key = sha1hex([]byte(strings.Join(s.log, "\n")))
		c.State(key)
	}
	c.Eval(key)
	if i < 2 {
		c.Sample(s.log)
	}
}

// judgeUploads compares the daemon's jobs with what was completed.
func judgeUploads(s *scn, us []*uploader, v *jobView) (total int) {
	by := map[string][]*libferry.Job{}
	for _, l := range [][]*libferry.Job{v.Failed, v.Completed} {
		for _, j := range l {
			if n := manifestOf(j); n != "" {
				by[n] = append(by[n], j)
			} else if !strings.HasPrefix(j.Description, "Create repository") {
				s.bad("strange-job", "nobody asked for the job %q", j.Description)
				return
			} else if j.Failed {
				s.bad("job-failed", "%q failed: %s", j.Description, j.Error)
				return
			}
		}
	}
	for _, u := range us {
		next := map[string]int{}
		var prev *libferry.Job
		var prevName string
		for _, p := range u.log {
			l := by[p.Name]
			sort.SliceStable(l, func(a, b int) bool { return l[a].Timing.Queued.Before(l[b].Timing.Queued) })
			k := next[p.Name]
			next[p.Name]++
			if k >= len(l) {
				s.bad("unnoticed:"+p.How, "completion %d of %q (%s) was never noticed: %d jobs", k+1, p.Name, p.How, len(l))
				return
			}
			j := l[k]
			total++
			if p.Want == "" && j.Failed {
				s.bad("refused", "completion %d of %q (%s) is a proper upload, its job failed: %s", k+1, p.Name, p.How, j.Error)
				return
			}
			if p.Want != "" && !j.Failed {
				s.bad("accepted", "completion %d of %q (%s, %s) was accepted", k+1, p.Name, p.How, p.Want)
				return
			}
			if prev != nil && (j.Timing.Queued.Before(prev.Timing.Queued) || j.Timing.Begin.Before(prev.Timing.Begin)) {
				s.bad("order", "%q was completed after %q and processed before it", p.Name, prevName)
				return
			}
			prev, prevName = j, p.Name
		}
		for n, k := range next {
			if len(by[n]) > k {
				s.bad("twice", "%q was completed %d times and has %d jobs", n, k, len(by[n]))
				return
			}
			delete(by, n)
		}
	}
	for n, l := range by {
		s.bad("no-upload", "%d jobs for %q, which was never completed as an upload", len(l), n)
		return
	}
	s.c.Count("jobs_judged", int64(total))
	return
}
