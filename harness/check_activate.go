package main

import (
	"fmt"
	"net"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// C29: the harness plays the service manager: it holds the listening socket,
// hands it to a chain of daemons and listens to what they notify, while clients
// keep sending requests to the socket whether or not a daemon runs.

func init() {
	register(&Check{ID: "C29", Level: "exploration",
		Rule:   "one case = one scenario of daemons started by a service manager that holds the socket and/or is notified; non-trivial: at least one such start; distinct by its script and what was answered",
		Assume: []string{"a request that was not yet read when the daemon is told to end may be cut off, and is not carried out then", "a request whose connection a killed daemon had taken may be lost, or carried out unanswered"},
		Run:    runC29})
}

func runC29(c *Ctx) {
	c.Each(c.N(48, 1500), 8, func(i int) { actChain(c, i) })
	c.Each(c.N(64, 1200), 8, func(i int) { actReady(c, i) })
	c.Each(c.N(48, 600), 8, func(i int) { actWrong(c, i) })
	c.Each(c.N(36, 360), 8, func(i int) { actShort(c, i) })
}

// held is a socket held on behalf of daemons.
type held struct {
	path string
	f    *os.File
	ino  uint64
	mode os.FileMode
	uid  uint32
	gid  uint32
}

func holdSocket(path string, mode os.FileMode) *held {
	l, err := net.ListenUnix("unix", &net.UnixAddr{Name: path, Net: "unix"})
	must(err)
	l.SetUnlinkOnClose(false)
	f, err := l.File()
	must(err)
	l.Close()
	must(os.Chmod(path, mode))
	var st syscall.Stat_t
	must(syscall.Lstat(path, &st))
	return &held{path, f, st.Ino, mode, st.Uid, st.Gid}
}

// intact judges that nobody touched the socket.
func (s *scn) intact(h *held, what string) {
	fi, err := os.Lstat(h.path)
	if err != nil {
		s.bad("socket-gone", "%s: the service manager's socket is gone: %v", what, err)
		return
	}
	st := fi.Sys().(*syscall.Stat_t)
	if st.Ino != h.ino || fi.Mode()&os.ModeSocket == 0 {
		s.bad("socket-replaced", "%s: the service manager's socket was replaced", what)
	} else if fi.Mode().Perm() != h.mode || st.Uid != h.uid || st.Gid != h.gid {
		s.bad("socket-altered", "%s: the service manager's socket now has mode %v and owner %d:%d, it had %v", what, fi.Mode().Perm(), st.Uid, st.Gid, h.mode)
	}
	s.c.Count("socket_checks", 1)
}

// notified is where one daemon sends its notifications.
type notified struct {
	path  string
	cn    *net.UnixConn
	mu    sync.Mutex
	msgs  []string
	ready chan struct{}
	at    func() // runs when readiness is announced, before anything else
}

func (s *scn) listenNotify(name string, at func()) *notified {
	n := &notified{path: filepath.Join(s.dir, name), ready: make(chan struct{}), at: at}
	cn, err := net.ListenUnixgram("unixgram", &net.UnixAddr{Name: n.path, Net: "unixgram"})
	must(err)
	n.cn = cn
	go func() {
		b := make([]byte, 4096)
		for {
			k, err := cn.Read(b)
			if err != nil {
				return
			}
			m := string(b[:k])
			n.mu.Lock()
			first := n.count("READY=1") == 0
			n.msgs = append(n.msgs, m)
			now := n.count("READY=1") > 0
			n.mu.Unlock()
			if first && now {
				if n.at != nil {
					n.at()
				}
				close(n.ready)
			}
		}
	}()
	return n
}

func (n *notified) close() { n.cn.Close(); os.Remove(n.path) }

// count counts the assignments among the messages; n.mu is held.
func (n *notified) count(what string) (k int) {
	for _, m := range n.msgs {
		for _, l := range strings.Split(m, "\n") {
			if l == what {
				k++
			}
		}
	}
	return
}

func (n *notified) readies() int {
	n.mu.Lock()
	defer n.mu.Unlock()
	return n.count("READY=1")
}

// noFork runs f while no child process can inherit, and so keep open for a
// moment, a file f has closed.
func noFork(f func()) {
	syscall.ForkLock.RLock()
	defer syscall.ForkLock.RUnlock()
	f()
}

// early are the complaints about a daemon that announces readiness right now.
func (s *scn) early(pid int) (out []string) {
	if t := strings.TrimSpace(lockText(s.base)); t != strconv.Itoa(pid) {
		out = append(out, fmt.Sprintf("the lock file says %q instead of %d", t, pid))
	}
	for _, db := range []string{"ferry_db", "ferry_db_jobs"} {
		if !fileExists(filepath.Join(s.base, db, "CURRENT")) {
			out = append(out, "there is no database "+db)
		}
	}
	// is it notified of uploads?
	watches := ""
	l, _ := filepath.Glob(fmt.Sprintf("/proc/%d/fdinfo/*", pid))
	for _, f := range l {
		if b, err := os.ReadFile(f); err == nil && strings.Contains(string(b), "inotify wd:") {
			watches += string(b)
		}
	}
	if x := fmt.Sprintf("ino:%x ", inode(filepath.Join(s.base, "incoming"))); !strings.Contains(watches, x) {
		out = append(out, "the incoming directory is not watched")
	}
	return
}

// asks is a request to the socket that must be answered.
type asks struct {
	id     string
	code   int
	err    error
	t0, t1 time.Time
}

// ending is the time in which a daemon was being ended.
type ending struct {
	t0, t1  time.Time
	orderly bool // it had all the time it needs
}

// submitter keeps creating repositories over the held socket.
type submitter struct {
	sock    string
	mu      sync.Mutex
	res     []asks
	pending int32
	n       int32
}

func (u *submitter) create() {
	id := fmt.Sprintf("n%d", atomic.AddInt32(&u.n, 1))
	atomic.AddInt32(&u.pending, 1)
	t0 := time.Now()
	code, _, err := rawReq(u.sock, "GET", "/api/v1/create/repo/"+id, nil, 90*time.Second)
	atomic.AddInt32(&u.pending, -1)
	u.mu.Lock()
	u.res = append(u.res, asks{id, code, err, t0, time.Now()})
	u.mu.Unlock()
}

// activated starts a daemon that is handed the socket.
func (s *scn) activated(h *held, o daemonOpts) *Daemon {
	o.Files, o.ListenFDs = []*os.File{h.f}, "1"
	sock := h.path
	if s.r.Intn(4) == 0 {
		sock = filepath.Join(s.dir, "unused") // it has to use the socket it is given
	}
	d := s.start(sock, o)
	d.Sock = h.path
	return d
}

func answers(sock string, to time.Duration) error {
	code, _, err := rawReq(sock, "GET", "/api/v1/status", nil, to)
	if err == nil && code != 200 {
		err = fmt.Errorf("status %d", code)
	}
	return err
}

func actChain(c *Ctx, i int) {
	s := newScn(c, "actchain", i)
	defer s.close()
	h := holdSocket(s.sock, []os.FileMode{0660, 0600, 0666}[s.r.Intn(3)])
	defer h.f.Close()
	u := &submitter{sock: s.sock}
	stop := make(chan struct{})
	var wg sync.WaitGroup
	ns := 1 + s.r.Intn(3)
	pace := s.r.Intn(6)
	for k := 0; k < ns; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				select {
				case <-stop:
					return
				default:
				}
				if atomic.LoadInt32(&u.n) > 60 { // the history holds 100
					return
				}
				u.create()
				time.Sleep(time.Duration(1+pace) * time.Millisecond)
			}
		}()
	}
	var bg sync.WaitGroup
	var ends []ending
	kills := i%3 == 2
	starts := 2 + s.r.Intn(4)
	var d *Daemon
	for k := 0; k < starts && !s.failed; k++ {
		// requests that meet no daemon at all
		q := s.r.Intn(6)
		for j := 0; j < q; j++ {
			bg.Add(1)
			go func() { defer bg.Done(); u.create() }()
		}
		s.note("%d requests wait", q)
		s.sleep(15)
		if s.failed {
			break
		}
		var complaints []string
		pidc := make(chan int, 1)
		n := s.listenNotify(fmt.Sprintf("n%d", k), func() {
			complaints = s.early(<-pidc)
		})
		env := append(s.delays(), "NOTIFY_SOCKET="+n.path)
		// The daemon's own patience with pending requests is scaled, too
		scale := 1
		if k == starts-1 || s.r.Intn(3) == 0 {
			scale = 100
		}
		d = s.activated(h, daemonOpts{Env: env, Scale: scale})
		pidc <- d.Cmd.Process.Pid
		c.Count("activated_starts", 1)
		how := s.r.Intn(4)
		early := how == 3 && k < starts-1
		if early {
			// it may be told to end at any moment of its start
			s.sleep(40)
		} else {
			select {
			case <-n.ready:
			case <-d.Done:
			case <-time.After(40 * time.Second):
			}
			if n.readies() == 0 {
				ex := "it hangs"
				if d.Exited() {
					ex = fmt.Sprintf("exit status %d: %s", d.Code(), cut(d.Err.String(), 1500))
				} else {
					ex += "\n" + d.quitDump()
				}
				s.bad("no-ready", "start %d: the daemon that was handed the socket does not become ready: %s", k, ex)
				n.close()
				break
			}
			if len(complaints) > 0 {
				s.bad("ready-early", "start %d: the daemon says it is ready, but %s", k, strings.Join(complaints, ", "))
			}
			if err := answers(s.sock, 40*time.Second); err != nil {
				s.bad("no-answer", "start %d: the daemon is ready and doesn't answer: %v", k, err)
			}
			if how != 2 {
				s.sleep(60)
			}
		}
		if r := n.readies(); r > 1 {
			s.bad("ready-twice", "start %d: readiness was announced %d times: %q", k, r, n.msgs)
		}
		s.intact(h, fmt.Sprintf("while daemon %d ran", k))
		if k == starts-1 {
			n.close()
			break
		}
		if kills && s.r.Intn(2) == 0 {
			s.note("killed (early %v)", early)
			s.killed = true
			t0 := time.Now()
			d.Kill()
			ends = append(ends, ending{t0, time.Now(), false})
			c.Count("kills", 1)
		} else {
			s.note("terminated (early %v)", early)
			t0 := time.Now()
			d.Cmd.Process.Signal(syscall.SIGTERM)
			ended := d.WaitExit(40 * time.Second)
			t1 := time.Now()
			ends = append(ends, ending{t0, t1, scale == 1 && t1.Sub(t0) < 4*time.Second})
			if t1.Sub(t0) >= 4*time.Second {
				c.Count("slow_terminations", 1) // its patience may have come to an end
			}
			if !ended {
				s.bad("hang", "the daemon does not end while clients submit\n%s", d.quitDump())
			} else if t := d.Trouble(); t != "" {
				s.bad("crash:"+panicSite(t), "terminated: %s", t)
			} else if !early {
				if ws, ok := d.Cmd.ProcessState.Sys().(syscall.WaitStatus); ok && ws.Signaled() {
					s.bad("died", "terminated when it was ready, it ended by signal %v instead of shutting down", ws.Signal())
				} else if d.Code() != 0 {
					s.bad("exit-status", "terminated: exit status %d: %s", d.Code(), cut(d.Err.String(), 1000))
				}
				if lockText(s.base) != "none" {
					s.bad("left-lock", "terminated: the lock file is left behind")
				}
			}
			c.Count("terminations", 1)
		}
		n.close()
		s.intact(h, fmt.Sprintf("after daemon %d ended", k))
	}
	close(stop)
	done := make(chan struct{})
	go func() { wg.Wait(); bg.Wait(); close(done) }()
	if s.failed {
		h.f.Close() // nobody will answer
		for _, x := range s.all {
			x.Kill()
		}
		<-done
		return
	}
	select {
	case <-done:
	case <-time.After(60 * time.Second):
		s.bad("unanswered", "%d requests that wait at the socket are never answered\n%s", atomic.LoadInt32(&u.pending), d.quitDump())
		h.f.Close()
		<-done
		return
	}
	if fileExists(filepath.Join(s.dir, "unused")) {
		s.bad("other-socket", "the daemon was handed a socket and created another one")
	}
	d.Sock = s.sock
	v, err := d.waitIdle(60 * time.Second)
	if err != nil {
		s.bad("not-idle", "%v", err)
		return
	}
	times := map[string]int{}
	for _, j := range append(v.Completed, v.Failed...) {
		id := strings.TrimSuffix(strings.TrimPrefix(j.Description, "Create repository '"), "'")
		times[id]++
		if j.Failed && !(s.killed && strings.Contains(j.Error, "already exists")) {
			s.bad("job-failed", "%q failed: %s", j.Description, j.Error)
			return
		}
	}
	got, err := d.Client().GetRepos()
	if err != nil {
		s.bad("client-fails", "%v", err)
		return
	}
	have := idSet(got)
	lost, ok := 0, 0
	for _, a := range u.res {
		switch {
		case a.err != nil:
			lost++
			met, orderly := false, true
			for _, e := range ends {
				if !a.t0.After(e.t1) && !a.t1.Before(e.t0) {
					met, orderly = true, orderly && e.orderly
				}
			}
			switch {
			case !met:
				s.bad("request-failed", "creating %s failed though no daemon was being ended at that time: %v", a.id, a.err)
			case times[a.id] > 1:
				s.bad("twice", "%s was executed %d times", a.id, times[a.id])
			case times[a.id] > 0 && orderly:
				s.bad("unanswered", "creating %s was carried out, but the daemon didn't answer before it ended in an orderly way: %v", a.id, a.err)
			}
		case a.code != 200:
			s.bad("refused", "creating %s was refused with status %d", a.id, a.code)
		case times[a.id] != 1 || !have[a.id]:
			s.bad("accepted-lost", "creating %s was accepted: recorded %d times, exists: %v", a.id, times[a.id], have[a.id])
		default:
			ok++
		}
		delete(have, a.id)
		delete(times, a.id)
	}
	if len(have) > 0 || len(times) > 0 {
		s.bad("invented", "repositories %v and jobs %v nobody asked for", have, times)
	}
	c.Count("requests_accepted", int64(ok))
	c.Count("requests_cut_off", int64(lost))
	s.note("%d accepted, %d cut off", ok, lost)
	s.eval()
	if i < 2 {
		c.Sample(s.log)
	}
}

// actReady: what follows the announcement of readiness, with and without a
// socket handed over, and starts that fail.
func actReady(c *Ctx, i int) {
	s := newScn(c, "actready", i)
	defer s.close()
	var h *held
	if i%2 == 0 {
		h = holdSocket(s.sock, 0660)
		defer h.f.Close()
	}
	start := func(env ...string) *Daemon {
		o := daemonOpts{Env: append(s.delays(), env...)}
		if h != nil {
			c.Count("activated_starts", 1)
			return s.activated(h, o)
		}
		return s.start(s.sock, o)
	}
	s.note("socket handed over: %v", h != nil)
	// something to be taken up again
	if s.r.Intn(2) == 0 {
		d := start()
		if !within(40*time.Second, func() bool { return d.Exited() || answersNow(s.sock) }) || d.Exited() {
			s.bad("no-start", "without a notification socket the daemon doesn't start: %s", cut(d.Err.String(), 1500))
			return
		}
		for k := s.r.Intn(6); k >= 0; k-- {
			s.mkRepo(d, false)
		}
		s.killed = true
		d.Kill()
		s.note("killed with %d creations accepted", len(s.repos))
	}
	kind := (i / 2) % 8
	switch kind {
	case 0, 1, 2, 3, 4:
		var complaints []string
		pidc := make(chan *Daemon, 1)
		inc := filepath.Join(s.base, "incoming")
		n := s.listenNotify("n", func() {
			d := <-pidc
			switch kind {
			case 0, 1:
				d.Cmd.Process.Signal(syscall.SIGTERM)
			case 2, 3:
				noFork(func() {
					must(os.WriteFile(filepath.Join(s.dir, "x.tram"), []byte("no manifest"), 0644))
					if err := os.Rename(filepath.Join(s.dir, "x.tram"), filepath.Join(inc, "x.tram")); err != nil {
						complaints = append(complaints, err.Error())
					}
				})
			case 4:
				complaints = s.early(d.Cmd.Process.Pid)
			}
		})
		defer n.close()
		d := start("NOTIFY_SOCKET=" + n.path)
		pidc <- d
		select {
		case <-n.ready:
		case <-d.Done:
		case <-time.After(40 * time.Second):
		}
		if n.readies() == 0 {
			ex := "it runs and answers requests"
			if d.Exited() {
				ex = fmt.Sprintf("exit status %d: %s", d.Code(), cut(d.Err.String(), 1500))
			} else if err := answers(s.sock, 10*time.Second); err != nil {
				ex = "it hangs: " + err.Error() + "\n" + d.quitDump()
			}
			s.bad("no-ready", "the daemon (handed a socket: %v) never says it is ready: %s", h != nil, ex)
			return
		}
		c.Count("announcements", 1)
		if len(complaints) > 0 {
			s.bad("ready-early", "the daemon says it is ready, but %s", strings.Join(complaints, ", "))
		}
		switch kind {
		case 0, 1:
			s.note("terminated when ready")
			if !d.WaitExit(40 * time.Second) {
				s.bad("hang", "terminated right when it is ready, the daemon does not end\n%s", d.quitDump())
				return
			}
			what := "terminated right when it was ready"
			if ws, ok := d.Cmd.ProcessState.Sys().(syscall.WaitStatus); ok && ws.Signaled() {
				s.bad("died", "%s: ended by signal %v instead of shutting down", what, ws.Signal())
				return
			}
			if d.Code() != 0 || lockText(s.base) != "none" || h == nil && fileExists(s.sock) {
				s.bad("bad-end", "%s: exit status %d, lock %s, socket left: %v", what, d.Code(), lockText(s.base), fileExists(s.sock))
			}
		case 2, 3:
			s.note("uploaded when ready")
			var v *jobView
			if !within(20*time.Second, func() bool {
				v, _ = d.jobs()
				return v != nil && len(jobsOf(v, "x.tram")) > 0
			}) {
				s.bad("upload-unseen", "a manifest placed right when the daemon was ready is not noticed")
				return
			}
		case 4:
			s.note("looked at when ready")
			if err := answers(s.sock, 40*time.Second); err != nil {
				s.bad("no-answer", "the daemon is ready and doesn't answer: %v", err)
			}
		}
		if r := n.readies(); r != 1 {
			s.bad("ready-twice", "readiness was announced %d times: %q", r, n.msgs)
		}
		if !d.Exited() {
			d.Stop(40 * time.Second)
		}
	case 5:
		s.note("nobody listens to notifications")
		d := start("NOTIFY_SOCKET=" + filepath.Join(s.dir, "nosuch", "n"))
		if !within(40*time.Second, func() bool { return d.Exited() || answersNow(s.sock) }) || d.Exited() {
			s.bad("no-start", "with an unusable notification socket the daemon doesn't start: %s", cut(d.Err.String(), 1500))
			return
		}
		d.Stop(40 * time.Second)
	default:
		n := s.listenNotify("n", nil)
		defer n.close()
		what := s.spoil()
		s.note("start fails: %s", what)
		lk := lockText(s.base)
		d := start("NOTIFY_SOCKET=" + n.path)
		if !d.WaitExit(40 * time.Second) {
			s.bad("start-hangs", "%s: the daemon does not end\n%s", what, d.quitDump())
			return
		}
		time.Sleep(20 * time.Millisecond)
		if r := n.readies(); r != 0 {
			s.bad("ready-failed", "%s: the daemon said it was ready and ended with status %d", what, d.Code())
		}
		if d.Code() == 0 || d.Err.String() == "" {
			s.bad("start-silent", "%s: exit status %d, output %q", what, d.Code(), d.Err.String())
		}
		if x := lockText(s.base); x != "none" && x != lk {
			s.bad("left-lock", "%s: the lock file is left behind: %q", what, x)
		}
		s.mend()
		c.Count("failed_starts", 1)
	}
	if s.failed {
		return
	}
	if h != nil {
		s.intact(h, "at the end")
	} else if kind < 5 && fileExists(s.sock) {
		s.bad("left-socket", "the daemon's own socket is left behind")
	}
	os.Remove(filepath.Join(s.base, "incoming", "x.tram"))
	d := start()
	if !within(40*time.Second, func() bool { return d.Exited() || answersNow(s.sock) }) || d.Exited() {
		s.bad("no-start", "the next daemon doesn't start: %s", cut(d.Err.String(), 1500))
		return
	}
	if kind == 2 || kind == 3 {
		if _, err := d.waitIdle(60 * time.Second); err != nil {
			s.bad("not-idle", "%v", err)
			return
		}
		if err := d.Client().ResetFailed(); err != nil { // the manifest's
			s.bad("client-fails", "%v", err)
		}
	}
	s.serves(d, "the next daemon")
	s.eval()
	if i < 2 {
		c.Sample(s.log)
	}
}

// spoil makes the next start fail, mend makes up for it.
func (s *scn) spoil() string {
	db := []string{"ferry_db", "ferry_db_jobs"}[s.r.Intn(2)]
	p := filepath.Join(s.base, db)
	if s.r.Intn(2) == 0 {
		if fileExists(p) {
			must(os.Rename(p, filepath.Join(s.dir, db)))
		}
		must(os.WriteFile(p, []byte("no database"), 0644))
		return db + " is a file"
	}
	must(os.MkdirAll(filepath.Join(s.base, "ferry_db"), 0755))
	db = "incoming"
	p = filepath.Join(s.base, db)
	if fileExists(p) {
		must(os.Rename(p, filepath.Join(s.dir, db)))
	}
	must(os.WriteFile(p, []byte("no directory"), 0644))
	return "the incoming directory is a file"
}

func (s *scn) mend() {
	for _, db := range []string{"ferry_db", "ferry_db_jobs", "incoming"} {
		p, q := filepath.Join(s.base, db), filepath.Join(s.dir, db)
		if fileExists(q) {
			os.RemoveAll(p)
			must(os.Rename(q, p))
			continue
		}
		if fi, err := os.Lstat(p); err == nil && !fi.IsDir() {
			os.Remove(p)
		}
	}
}

func answersNow(sock string) bool {
	if !fileExists(sock) {
		return false
	}
	return answers(sock, 20*time.Second) == nil
}

func within(t time.Duration, ok func() bool) bool {
	for t0 := time.Now(); time.Since(t0) < t; time.Sleep(3 * time.Millisecond) {
		if ok() {
			return true
		}
	}
	return ok()
}

// actWrong: what is handed over is not a single listening unix socket, or the
// directory has an owner.
func actWrong(c *Ctx, i int) {
	s := newScn(c, "actwrong", i)
	defer s.close()
	h := holdSocket(s.sock, 0660)
	defer h.f.Close()
	if s.r.Intn(2) == 0 {
		d := s.activated(h, daemonOpts{})
		if answers(s.sock, 40*time.Second) != nil {
			s.bad("no-start", "the first daemon doesn't start: %s", cut(d.Err.String(), 1500))
			return
		}
		for k := s.r.Intn(5); k >= 0; k-- {
			s.mkRepo(d, false)
		}
		if s.r.Intn(2) == 0 {
			s.killed = true
			d.Kill()
			// what is left of it
			s.note("killed with %d creations accepted", len(s.repos))
		} else {
			d.Stop(40 * time.Second)
			s.note("stopped with %d creations accepted", len(s.repos))
		}
	}
	n := s.listenNotify("n", nil)
	defer n.close()
	other := holdSocket(filepath.Join(s.dir, "other"), 0640)
	defer other.f.Close()
	o := daemonOpts{Env: append(s.delays(), "NOTIFY_SOCKET="+n.path)}
	var owner *Daemon
	what := ""
	switch i % 8 {
	case 0:
		what, o.Files, o.ListenFDs = "two sockets are handed over", []*os.File{h.f, other.f}, "2"
	case 1:
		l, err := net.Listen("tcp", "127.0.0.1:0")
		must(err)
		f, err := l.(*net.TCPListener).File()
		must(err)
		defer l.Close()
		defer f.Close()
		what, o.Files, o.ListenFDs = "a TCP socket is handed over", []*os.File{f}, "1"
	case 2:
		g, err := net.ListenUnixgram("unixgram", &net.UnixAddr{Name: filepath.Join(s.dir, "gram"), Net: "unixgram"})
		must(err)
		f, err := g.File()
		must(err)
		defer g.Close()
		defer f.Close()
		what, o.Files, o.ListenFDs = "a datagram socket is handed over", []*os.File{f}, "1"
	case 3:
		f, err := os.Create(filepath.Join(s.dir, "plain"))
		must(err)
		defer f.Close()
		what, o.Files, o.ListenFDs = "a file is handed over", []*os.File{f}, "1"
	case 4:
		what, o.Files, o.ListenFDs = "two sockets are handed over, the other one first", []*os.File{other.f, h.f}, "2"
	case 5, 6:
		owner = s.activated(h, daemonOpts{})
		if answers(s.sock, 40*time.Second) != nil {
			s.bad("no-start", "the owner doesn't start: %s", cut(owner.Err.String(), 1500))
			return
		}
		if i%8 == 5 {
			what, o.Files, o.ListenFDs = "the directory has an owner and the same socket is handed over", []*os.File{h.f}, "1"
		} else {
			what, o.Files, o.ListenFDs = "the directory has an owner and another socket is handed over", []*os.File{other.f}, "1"
		}
	case 7:
		what = "nothing is handed over, the socket is the service manager's"
	}
	s.note("%s", what)
	lk := lockText(s.base)
	t0 := tree(s.base)
	e := s.start(s.sock, o)
	if !e.WaitExit(40 * time.Second) {
		s.bad("wrong-start", "%s: the daemon does not end\n%s", what, e.quitDump())
		return
	}
	time.Sleep(10 * time.Millisecond)
	if e.Code() == 0 || e.Err.String() == "" {
		s.bad("start-silent", "%s: exit status %d, output %q", what, e.Code(), e.Err.String())
	}
	if t := e.Trouble(); t != "" {
		s.bad("crash:"+panicSite(t), "%s: %s", what, t)
	}
	if n.readies() > 0 {
		s.bad("ready-failed", "%s: the daemon said it was ready and ended with status %d", what, e.Code())
	}
	s.intact(h, what)
	fi, err := os.Lstat(other.path)
	if err != nil || inode(other.path) != other.ino || fi.Mode().Perm() != other.mode {
		s.bad("socket-replaced", "%s: the other socket was touched", what)
	}
	x := lockText(s.base)
	if owner != nil && x != lk {
		s.bad("disturbed", "%s: the lock file says %q, it said %q", what, x, lk)
	} else if owner == nil && x != "none" && x != lk {
		s.bad("left-lock", "%s: the lock file is left behind: %q", what, x)
	}
	t1 := tree(s.base)
	for _, t := range []map[string]FileObs{t0, t1} {
		for f := range t {
			if strings.HasPrefix(f, "ferry_db") || strings.HasPrefix(f, "ferryd.lo") {
				delete(t, f)
			}
		}
	}
	if x := diffFiles(t0, t1); x != "" && owner == nil {
		s.bad("disturbed", "%s: the failed start changed files: %s", what, x)
	}
	c.Count("wrong_activations", 1)
	if s.failed {
		return
	}
	d := owner
	if d == nil {
		d = s.activated(h, daemonOpts{})
	} else if d.Exited() {
		s.bad("disturbed", "%s: the owner ended: %s", what, cut(d.Err.String(), 1500))
		return
	}
	if err := answers(s.sock, 40*time.Second); err != nil {
		s.bad("no-start", "%s: after that the socket isn't served: %v: %s", what, err, cut(d.Err.String(), 1500))
		return
	}
	s.serves(d, "after: "+what)
	s.intact(h, "at the end")
	s.eval()
}

// actShort: the daemon may open only so many files, which makes its start fail
// at one step after the other. Either it fails and was never ready, or it was
// and goes on.
func actShort(c *Ctx, i int) {
	s := newScn(c, "actshort", i)
	defer s.close()
	o := daemonOpts{NoFile: 10 + (i/2)%18, Env: s.delays()}
	var h *held
	if i%2 == 0 {
		h = holdSocket(s.sock, 0660)
		defer h.f.Close()
	}
	if s.r.Intn(2) == 0 { // the databases are there already
		var d *Daemon
		if h != nil {
			d = s.activated(h, daemonOpts{})
		} else {
			d = s.start(s.sock, daemonOpts{})
		}
		if !within(40*time.Second, func() bool { return d.Exited() || answersNow(s.sock) }) || !d.Stop(40*time.Second) {
			s.bad("no-start", "the first daemon doesn't start or end: %s", cut(d.Err.String(), 1500))
			return
		}
	}
	n := s.listenNotify("n", nil)
	defer n.close()
	o.Env = append(o.Env, "NOTIFY_SOCKET="+n.path)
	s.note("handed a socket: %v; at most %d open files", h != nil, o.NoFile)
	var d *Daemon
	if h != nil {
		d = s.activated(h, o)
	} else {
		d = s.start(s.sock, o)
	}
	select {
	case <-n.ready:
		select {
		case <-d.Done:
		case <-time.After(150 * time.Millisecond):
		}
	case <-d.Done:
	case <-time.After(2 * time.Second): // there may be none left to tell anyone
	}
	if d.Exited() {
		time.Sleep(20 * time.Millisecond)
		if n.readies() > 0 {
			s.bad("ready-failed", "with at most %d open files, the daemon said it was ready and ended with status %d: %s", o.NoFile, d.Code(), cut(d.Err.String(), 1000))
			return
		}
		if d.Code() == 0 {
			s.bad("start-silent", "with at most %d open files: exit status 0, output %q", o.NoFile, d.Err.String())
		}
		c.Count("starts_short_of_files", 1)
	} else {
		c.Count("starts_with_few_files", 1)
		d.Kill()
	}
	if h != nil {
		s.intact(h, "after a start short of files")
	}
	var e *Daemon
	if h != nil {
		e = s.activated(h, daemonOpts{})
	} else {
		e = s.start(s.sock, daemonOpts{})
	}
	if !within(40*time.Second, func() bool { return e.Exited() || answersNow(s.sock) }) || e.Exited() {
		s.bad("no-start", "after a start with at most %d open files, the next daemon doesn't start: %s", o.NoFile, cut(e.Err.String(), 1500))
		return
	}
	s.serves(e, "after a start short of files")
	s.eval()
}
