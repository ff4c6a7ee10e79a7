package main

// C20 (one owner, always restartable) and C24 (orderly shutdown), observed on
// real daemon processes.

import (
	"bufio"
	"bytes"
	"fmt"
	"math/rand"
	"net"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/getsolus/ferryd/src/ferryd/core"
)

func init() {
	register(&Check{ID: "C20", Level: "exploration",
		Rule:   "one case = one scenario of concurrent starts, stops and kills on one base directory with generated leftovers; non-trivial: at least two starts; distinct by its script",
		Assume: []string{"a local file system with working flock"},
		Run:    runC20})
	register(&Check{ID: "C24", Level: "exploration",
		Rule:   "one case = one daemon given work and terminated at a generated moment, then restarted; non-trivial: work or connections existed; distinct by its script",
		Assume: []string{"a connection that never completes its request may be cut after the daemon's grace period"},
		Run:    runC24})
}

// peerPID tells which process listens on the socket (0: nobody).
func peerPID(sock string) int {
	cn, err := net.DialTimeout("unix", sock, 2*time.Second)
	if err != nil {
		return 0
	}
	defer cn.Close()
	f, err := cn.(*net.UnixConn).SyscallConn()
	if err != nil {
		return 0
	}
	pid := 0
	f.Control(func(fd uintptr) {
		if u, err := syscall.GetsockoptUcred(int(fd), syscall.SOL_SOCKET, syscall.SO_PEERCRED); err == nil {
			pid = int(u.Pid)
		}
	})
	return pid
}

func lockText(base string) string {
	b, err := os.ReadFile(filepath.Join(base, "ferryd.lock"))
	if err != nil {
		return "none"
	}
	return string(b)
}

func inode(p string) uint64 {
	var s syscall.Stat_t
	if syscall.Lstat(p, &s) != nil {
		return 0
	}
	return s.Ino
}

// scn is one scenario on one base directory.
type scn struct {
	c         *Ctx
	r         *rand.Rand
	dir, base string
	sock      string
	log       []string
	all       []*Daemon
	failed    bool
	killed    bool            // some owner was killed in the middle of its work
	repos     map[string]bool // accepted creations
	nrepo     int
}

func newScn(c *Ctx, kind string, i int) *scn {
	s := &scn{c: c, r: c.Rng(kind, i), dir: c.TempDir("d"), repos: map[string]bool{}}
	s.base = filepath.Join(s.dir, "base")
	s.sock = filepath.Join(s.dir, "s")
	must(os.MkdirAll(s.base, 0755))
	return s
}

func (s *scn) close() {
	for _, d := range s.all {
		d.Kill()
	}
	for _, d := range s.all {
		if t := d.Trouble(); t != "" && !s.failed {
			s.bad("crash:"+panicSite(t), "a daemon crashed: %s", t)
		}
	}
	os.RemoveAll(s.dir)
}

func (s *scn) note(f string, a ...interface{}) { s.log = append(s.log, fmt.Sprintf(f, a...)) }

func (s *scn) bad(key, f string, a ...interface{}) {
	s.failed = true
	l, _ := os.ReadFile(filepath.Join(s.base, "ferryd.log"))
	if len(l) > 5000 {
		l = l[len(l)-5000:]
	}
	s.c.Violate(key, fmt.Sprintf(f, a...), map[string]interface{}{"script": s.log, "log": string(l)})
}

func (s *scn) start(sock string, o daemonOpts) *Daemon {
	d := startDaemon(s.base, sock, o)
	s.all = append(s.all, d)
	s.c.Count("daemon_starts", 1)
	return d
}

// up starts a daemon which has to come up.
func (s *scn) up(what string, o daemonOpts) *Daemon {
	d := s.start(s.sock, o)
	if !d.Ready(30 * time.Second) {
		ex := "it hangs"
		if d.Exited() {
			ex = fmt.Sprintf("exit status %d", d.Code())
		} else {
			ex += "\n" + d.quitDump()
		}
		s.bad("no-start", "%s: the daemon does not start: %s: %s", what, ex, cut(d.Err.String(), 1500))
		return nil
	}
	s.owner(d, what)
	return d
}

// owner checks that d is the recorded owner and serves.
func (s *scn) owner(d *Daemon, what string) {
	pid := d.Cmd.Process.Pid
	if p := peerPID(d.Sock); p != pid {
		s.bad("not-served-by-owner", "%s: the socket is served by process %d, the owner is %d", what, p, pid)
	}
	if t := lockText(s.base); strings.TrimSpace(t) != strconv.Itoa(pid) {
		s.bad("wrong-owner", "%s: the lock file says %q, the owner is %d", what, t, pid)
	}
	s.c.Count("owner_checks", 1)
}

// mkRepo creates a repository through d and waits for it.
func (s *scn) mkRepo(d *Daemon, wait bool) {
	s.nrepo++
	id := fmt.Sprintf("r%d", s.nrepo)
	if err := d.Client().CreateRepo(id); err != nil {
		s.bad("client-fails", "creating %s: %v", id, err)
		return
	}
	s.repos[id] = true
	if wait {
		if _, err := d.waitIdle(60 * time.Second); err != nil {
			s.bad("not-idle", "%v", err)
		}
	}
}

// serves checks that everything accepted so far is there.
func (s *scn) serves(d *Daemon, what string) {
	v, err := d.waitIdle(60 * time.Second)
	if err != nil {
		s.bad("not-idle", "%s: %v", what, err)
		return
	}
	for _, j := range v.Failed {
		if s.killed && strings.HasPrefix(j.Description, "Create repository ") && strings.Contains(j.Error, "already exists") {
			continue // it ran right before the kill and was run again
		}
		s.bad("job-failed", "%s: %q failed: %s", what, j.Description, j.Error)
		return
	}
	got, err := d.Client().GetRepos()
	if err != nil {
		s.bad("client-fails", "%s: %v", what, err)
		return
	}
	var want []string
	for id := range s.repos {
		want = append(want, id)
	}
	sort.Strings(want)
	sort.Strings(got)
	if strings.Join(got, " ") != strings.Join(want, " ") {
		s.bad("lost", "%s: repositories %v, accepted were %v", what, got, want)
	}
	s.c.Count("served_checks", 1)
}

func (s *scn) sleep(maxMS int) {
	time.Sleep(time.Duration(s.r.Intn(maxMS*1000+1)) * time.Microsecond)
}

// delays makes the daemon's file-system calls slow at random.
func (s *scn) delays() []string {
	switch s.r.Intn(3) {
	case 0:
		return nil
	case 1:
		return []string{fmt.Sprintf("VERIF_DELAY_US=%d", 200+s.r.Intn(2000))}
	}
	return []string{fmt.Sprintf("VERIF_DELAY_US=%d", 2000+s.r.Intn(20000))}
}

func (s *scn) eval() {
	s.c.Eval(sha1hex([]byte(strings.Join(s.log, "\n"))))
}

// rival starts another daemon while d owns the directory; it must end with an
// error and change nothing.
func (s *scn) rival(d *Daemon, sock, what string) {
	lk, si := lockText(s.base), inode(d.Sock)
	li := inode(filepath.Join(s.base, "ferryd.lock"))
	t0 := tree(s.base)
	e := s.start(sock, daemonOpts{Env: s.delays()})
	if !e.WaitExit(20 * time.Second) {
		if e.Ready(time.Second) {
			s.bad("two-owners", "%s: a second daemon serves %s while the first runs", what, s.base)
		} else {
			s.bad("rival-hangs", "%s: a second daemon neither ends nor serves\n%s", what, e.quitDump())
		}
		return
	}
	if e.Code() == 0 {
		s.bad("rival-exit", "%s: a second daemon ended without an error", what)
		return
	}
	if e.Err.String() == "" {
		s.bad("rival-silent", "%s: a second daemon ended without saying why", what)
	}
	if d.Exited() {
		s.bad("disturbed", "%s: starting a second daemon ended the first: %s", what, cut(d.Err.String(), 1500))
		return
	}
	if x := lockText(s.base); x != lk {
		s.bad("disturbed", "%s: starting a second daemon changed the lock file from %q to %q", what, lk, x)
	}
	if inode(filepath.Join(s.base, "ferryd.lock")) != li {
		s.bad("disturbed", "%s: starting a second daemon replaced or removed the lock file", what)
	}
	if inode(d.Sock) != si {
		s.bad("disturbed", "%s: starting a second daemon replaced or removed the socket", what)
	}
	t1 := tree(s.base)
	for f := range t0 {
		if strings.HasPrefix(f, "ferry_db") || f == "ferryd.log" {
			delete(t0, f)
		}
	}
	for f := range t1 {
		if strings.HasPrefix(f, "ferry_db") || f == "ferryd.log" {
			delete(t1, f)
		}
	}
	if x := diffFiles(t0, t1); x != "" {
		s.bad("disturbed", "%s: starting a second daemon changed files: %s", what, x)
	}
	s.owner(d, what)
	s.c.Count("rivals_refused", 1)
}

// leftovers alters what a killed daemon left behind into something it could
// have left under other circumstances.
func (s *scn) leftovers() {
	lock := filepath.Join(s.base, "ferryd.lock")
	switch k := s.r.Intn(10); k {
	case 0:
		s.note("lock kept as left")
	case 1:
		s.note("lock holds the id of a running process")
		must(os.WriteFile(lock, []byte(strconv.Itoa(os.Getpid())), 0644))
	case 2:
		s.note("lock holds id 1")
		must(os.WriteFile(lock, []byte("1"), 0644))
	case 3:
		x := []string{"", "garbage", "-1", "0", "99999999999999999999999", "12 34", "\x00\x00\x00", strings.Repeat("9", 40), "4194303\n", " 7"}[s.r.Intn(10)]
		s.note("lock holds %q", x)
		must(os.WriteFile(lock, []byte(x), 0644))
	case 4:
		s.note("lock removed")
		os.Remove(lock)
	case 5:
		s.note("socket removed")
		os.Remove(s.sock)
	case 6:
		s.note("lock and socket removed")
		os.Remove(lock)
		os.Remove(s.sock)
	case 7:
		s.note("lock holds the id of an ended process and more")
		must(os.WriteFile(lock, []byte(fmt.Sprintf("%d2345678\nmore text that is longer than any process id", os.Getpid())), 0644))
	case 8:
		if s.r.Intn(2) == 0 {
			s.note("a socket nobody listens on")
			os.Remove(s.sock)
			fd, err := syscall.Socket(syscall.AF_UNIX, syscall.SOCK_STREAM, 0)
			must(err)
			must(syscall.Bind(fd, &syscall.SockaddrUnix{Name: s.sock}))
			syscall.Close(fd)
		}
	case 9:
		// the first digits of the recorded id are those of a running process
		x := strconv.Itoa(os.Getpid())
		s.note("lock holds part of an id")
		must(os.WriteFile(lock, []byte(x[:1+s.r.Intn(len(x))]), 0644))
	}
}

func runC20(c *Ctx) {
	c.Each(c.N(40, 1200), 8, func(i int) { ownChain(c, i) })
	c.Each(c.N(30, 1500), 4, func(i int) { ownRace(c, i) })
	c.Each(c.N(30, 1500), 6, func(i int) { ownHandover(c, i) })
	c.Each(c.N(40, 2000), 7, func(i int) { ownTakeover(c, i) })
	c.Each(c.N(48, 600), 8, func(i int) { ownStartCrash(c, i) })
	c.Each(c.N(8, 40), 8, func(i int) { ownFailedStart(c, i) })
}

// ownChain: a chain of owners, each ended in its own way, with rivals in between.
func ownChain(c *Ctx, i int) {
	s := newScn(c, "chain", i)
	defer s.close()
	n := 3 + s.r.Intn(3)
	for k := 0; k < n && !s.failed; k++ {
		scale := 100
		hurried := s.r.Intn(3) == 0
		if hurried {
			scale = 1 // jobs stay queued for two seconds
		}
		what := fmt.Sprintf("owner %d", k)
		d := s.up(what, daemonOpts{Env: s.delays(), Scale: scale})
		if d == nil {
			return
		}
		if !hurried {
			s.serves(d, what)
		}
		for x := s.r.Intn(3); x > 0 && !s.failed; x-- {
			sock := s.sock
			if s.r.Intn(2) == 0 {
				sock = filepath.Join(s.dir, "other")
			}
			s.note("rival on %s", filepath.Base(sock))
			s.rival(d, sock, what)
		}
		for x := s.r.Intn(4); x > 0 && !s.failed; x-- {
			s.mkRepo(d, !hurried && s.r.Intn(2) == 0)
		}
		if s.failed {
			return
		}
		switch s.r.Intn(3) {
		case 0:
			s.note("stop")
			if !d.Stop(30 * time.Second) {
				s.bad("no-stop", "%s does not stop\n%s", what, d.quitDump())
				return
			}
			if lockText(s.base) != "none" || fileExists(s.sock) {
				s.bad("left-behind", "%s stopped and left lock %q, socket: %v", what, lockText(s.base), fileExists(s.sock))
			}
		default:
			s.note("kill")
			d.Kill()
			s.killed = true
			s.leftovers()
		}
		if s.r.Intn(4) == 0 { // the next start dies too
			at := 1 + s.r.Intn(40)
			s.note("start killed at change %d", at)
			e := s.start(s.sock, daemonOpts{Env: []string{fmt.Sprintf("VERIF_KILL_AT=%d", at)}})
			e.Ready(5 * time.Second)
			e.Kill()
		}
	}
	if s.failed {
		return
	}
	if d := s.up("the last owner", daemonOpts{}); d != nil {
		s.serves(d, "the last owner")
	}
	s.eval()
	if i < 2 {
		c.Sample(s.log)
	}
}

// ownRace: several starts at the same time; exactly one of them wins.
func ownRace(c *Ctx, i int) {
	s := newScn(c, "race", i)
	defer s.close()
	if s.r.Intn(2) == 0 { // with something left behind
		d := s.up("the previous owner", daemonOpts{})
		if d == nil {
			return
		}
		s.mkRepo(d, true)
		d.Kill()
		s.leftovers()
	}
	for round := 0; round < 2 && !s.failed; round++ {
		n := 2 + s.r.Intn(5)
		shared := s.r.Intn(3) == 0
		var ds []*Daemon
		for k := 0; k < n; k++ {
			sock := s.sock
			if !shared && k > 0 {
				sock = filepath.Join(s.dir, fmt.Sprintf("s%d", k))
			}
			ds = append(ds, s.start(sock, daemonOpts{Env: s.delays()}))
			s.sleep([]int{0, 1, 5, 20}[s.r.Intn(4)])
		}
		s.note("%d starts, same socket: %v", n, shared)
		var win *Daemon
		t0 := time.Now()
		for {
			var alive []*Daemon
			for _, d := range ds {
				if !d.Exited() {
					alive = append(alive, d)
				}
			}
			if len(alive) <= 1 {
				if len(alive) == 1 {
					win = alive[0]
				}
				break
			}
			if time.Since(t0) > 20*time.Second {
				var w []string
				for _, d := range alive {
					w = append(w, fmt.Sprintf("%d ready=%v", d.Cmd.Process.Pid, d.Ready(time.Second)))
				}
				s.bad("two-owners", "%d daemons run on one directory: %v; lock file %q", len(alive), w, lockText(s.base))
				return
			}
			time.Sleep(3 * time.Millisecond)
		}
		if win == nil {
			var w []string
			for _, d := range ds {
				w = append(w, cut(d.Err.String(), 200))
			}
			s.bad("no-owner", "of %d starts none succeeded: %q", n, w)
			return
		}
		if !win.Ready(20 * time.Second) {
			s.bad("no-start", "the winner of %d starts does not serve: %s", n, cut(win.Err.String(), 1500))
			return
		}
		for _, d := range ds {
			if d != win && (d.Code() == 0 || d.Err.String() == "") {
				s.bad("rival-exit", "one of %d starts ended with status %d, saying %q, while another serves", n, d.Code(), d.Err.String())
				return
			}
		}
		s.owner(win, fmt.Sprintf("after %d simultaneous starts", n))
		s.mkRepo(win, true)
		s.serves(win, "after simultaneous starts")
		c.Count("races", 1)
		if s.r.Intn(2) == 0 {
			s.note("kill")
			win.Kill()
			if round == 0 {
				s.leftovers()
			}
		} else {
			s.note("stop")
			if !win.Stop(30 * time.Second) {
				s.bad("no-stop", "the winner does not stop\n%s", win.quitDump())
			}
		}
	}
	s.eval()
	if i < 1 {
		c.Sample(s.log)
	}
}

// ownHandover: others try to start while the owner goes down.
func ownHandover(c *Ctx, i int) {
	s := newScn(c, "handover", i)
	defer s.close()
	a := s.up("the first owner", daemonOpts{Env: s.delays()})
	if a == nil {
		return
	}
	s.mkRepo(a, true)
	for gen := 0; gen < 3 && !s.failed; gen++ {
		// let a job be about to run or running
		if s.r.Intn(2) == 0 {
			s.mkRepo(a, false)
			s.sleep(40)
		}
		hard := s.r.Intn(4) == 0
		s.killed = s.killed || hard
		s.note("end the owner, hard=%v", hard)
		sock := s.sock
		if s.r.Intn(2) == 0 {
			sock = filepath.Join(s.dir, fmt.Sprintf("t%d", gen))
		}
		if hard {
			a.Cmd.Process.Signal(syscall.SIGKILL)
		} else {
			a.Cmd.Process.Signal(syscall.SIGTERM)
		}
		var b *Daemon
		for t0 := time.Now(); b == nil && !s.failed; {
			e := s.start(sock, daemonOpts{Env: s.delays()})
			if e.Ready(20 * time.Second) {
				b = e
				break
			}
			if !e.Exited() {
				s.bad("rival-hangs", "a daemon started during the shutdown of another neither ends nor serves\n%s", e.quitDump())
				return
			}
			if e.Code() == 0 {
				s.bad("rival-exit", "a daemon that could not start ended without an error")
			}
			if m := e.Err.String(); !strings.Contains(m, "ockfile") && !(sock == s.sock && gen == 0 && hard) {
				s.bad("premature", "a daemon got the lock while the previous owner had not released everything: %s\n%s", cut(m, 600), a.Log())
				return
			}
			c.Count("refused_during_handover", 1)
			if time.Since(t0) > 40*time.Second {
				s.bad("no-start", "no daemon can start %v after the owner was told to end: %s", time.Since(t0), e.Err.String())
				return
			}
			s.sleep(2)
		}
		if s.failed {
			return
		}
		c.Count("handovers", 1)
		if !a.WaitExit(100 * time.Millisecond) {
			// it has released the lock, so it should be gone in a moment
			if !a.WaitExit(10 * time.Second) {
				s.bad("two-owners", "the previous owner still runs after another took over\n%s", a.quitDump())
				return
			}
		}
		time.Sleep(5 * time.Millisecond)
		s.owner(b, "after the handover")
		s.serves(b, "after the handover")
		a = b
		a.Sock = sock
	}
	s.eval()
	if i < 1 {
		c.Sample(s.log)
	}
}

// ownTakeover: several others start at the same time while the owner goes down;
// all of them may be refused, but no two may get in.
func ownTakeover(c *Ctx, i int) {
	s := newScn(c, "takeover", i)
	defer s.close()
	a := s.up("the first owner", daemonOpts{Env: s.delays()})
	if a == nil {
		return
	}
	s.mkRepo(a, true)
	for gen := 0; gen < 3 && !s.failed; gen++ {
		n := 2 + s.r.Intn(4)
		at := s.r.Intn(n + 1)
		s.note("%d starts, the owner is ended before number %d", n, at)
		var ds []*Daemon
		for k := 0; k <= n; k++ {
			if k == at {
				a.Cmd.Process.Signal(syscall.SIGTERM)
			}
			if k < n {
				ds = append(ds, s.start(filepath.Join(s.dir, fmt.Sprintf("t%d-%d", gen, k)), daemonOpts{Env: s.delays()}))
				s.sleep([]int{0, 1, 5, 20}[s.r.Intn(4)])
			}
		}
		if !a.WaitExit(30 * time.Second) {
			s.bad("no-stop", "the owner does not stop\n%s", a.quitDump())
			return
		}
		var win *Daemon
		for t0 := time.Now(); ; time.Sleep(3 * time.Millisecond) {
			var alive []*Daemon
			for _, d := range ds {
				if !d.Exited() {
					alive = append(alive, d)
				}
			}
			if len(alive) == 1 && alive[0].Ready(20*time.Second) {
				win = alive[0]
			}
			if len(alive) == 0 || win != nil {
				break
			}
			if len(alive) > 1 && time.Since(t0) > 20*time.Second {
				var w []string
				for _, d := range alive {
					w = append(w, fmt.Sprintf("%d ready=%v", d.Cmd.Process.Pid, d.Ready(time.Second)))
				}
				s.bad("two-owners", "%d daemons run on one directory: %v; lock file %q", len(alive), w, lockText(s.base))
				return
			}
		}
		for _, d := range ds {
			if d != win && (d.Code() == 0 || !strings.Contains(d.Err.String(), "ockfile")) {
				s.bad("premature", "one of %d starts ended with status %d: %s", n, d.Code(), cut(d.Err.String(), 600))
				return
			}
		}
		if win == nil {
			c.Count("takeovers_all_refused", 1)
			if win = s.up("after a takeover nobody managed", daemonOpts{Env: s.delays()}); win == nil {
				return
			}
		} else {
			c.Count("takeovers_won", 1)
		}
		s.owner(win, "after a takeover")
		s.mkRepo(win, true)
		s.serves(win, "after a takeover")
		a = win
	}
	s.eval()
}

// ownStartCrash: the owner is killed at each file-system change of its start or
// shutdown.
func ownStartCrash(c *Ctx, i int) {
	s := newScn(c, "crash", i)
	defer s.close()
	fresh := s.r.Intn(2) == 0
	if !fresh {
		d := s.up("the first owner", daemonOpts{})
		if d == nil {
			return
		}
		s.mkRepo(d, true)
		s.mkRepo(d, true)
		if s.r.Intn(2) == 0 {
			d.Kill()
		} else if !d.Stop(30 * time.Second) {
			s.bad("no-stop", "the daemon does not stop\n%s", d.quitDump())
			return
		}
	}
	at := 1 + i%60
	s.note("fresh=%v, killed at change %d", fresh, at)
	e := s.start(s.sock, daemonOpts{Env: []string{fmt.Sprintf("VERIF_KILL_AT=%d", at)}})
	if e.Ready(20 * time.Second) {
		s.mkRepo2(e)
		e.Cmd.Process.Signal(syscall.SIGTERM)
		e.WaitExit(20 * time.Second)
	}
	e.Kill()
	d := s.up(fmt.Sprintf("after a kill at change %d of a start or stop", at), daemonOpts{})
	if d == nil {
		return
	}
	v, err := d.waitIdle(30 * time.Second)
	if err != nil {
		s.bad("not-idle", "%v", err)
		return
	}
	_ = v
	got, err := d.Client().GetRepos()
	if err != nil {
		s.bad("client-fails", "%v", err)
		return
	}
	have := idSet(got)
	for id := range s.repos {
		if !have[id] {
			s.bad("lost", "after a kill at change %d: %s is gone, there are %v", at, id, got)
		}
	}
	s.eval()
}

// mkRepo2 asks for a repository; being killed meanwhile is no error.
func (s *scn) mkRepo2(d *Daemon) {
	s.nrepo++
	id := fmt.Sprintf("r%d", s.nrepo)
	if d.Client().CreateRepo(id) == nil {
		s.repos[id] = true
		d.waitIdle(10 * time.Second)
	}
}

// ownFailedStart: a start that fails leaves nothing in the way of the next; a
// socket somebody else serves is respected.
func ownFailedStart(c *Ctx, i int) {
	s := newScn(c, "failedstart", i)
	defer s.close()
	what := ""
	switch i % 4 {
	case 0:
		what = "the socket's directory does not exist"
		e := s.start(filepath.Join(s.dir, "nosuch", "s"), daemonOpts{})
		s.mustFail(e, what)
	case 1:
		what = "another daemon serves the socket"
		o := startDaemon(filepath.Join(s.dir), s.sock, daemonOpts{})
		s.all = append(s.all, o)
		if !o.Ready(20 * time.Second) {
			s.bad("no-start", "%s", o.Err.String())
			return
		}
		e := s.start(s.sock, daemonOpts{})
		s.mustFail(e, what)
		if o.Exited() || peerPID(s.sock) != o.Cmd.Process.Pid {
			s.bad("foreign-socket", "a daemon for another directory took over the socket of a running one")
			return
		}
		if !o.Stop(20 * time.Second) {
			s.bad("no-stop", "%s", o.quitDump())
		}
	case 2:
		what = "the database cannot be opened"
		must(os.MkdirAll(filepath.Join(s.base, "ferry_db"), 0755))
		must(os.Chmod(filepath.Join(s.base, "ferry_db"), 0))
		e := s.start(s.sock, daemonOpts{})
		s.mustFail(e, what)
		must(os.Chmod(filepath.Join(s.base, "ferry_db"), 0755))
	case 3:
		what = "the job database cannot be opened"
		must(os.MkdirAll(filepath.Join(s.base, "ferry_db_jobs"), 0755))
		must(os.Chmod(filepath.Join(s.base, "ferry_db_jobs"), 0))
		e := s.start(s.sock, daemonOpts{})
		s.mustFail(e, what)
		must(os.Chmod(filepath.Join(s.base, "ferry_db_jobs"), 0755))
	}
	s.note("%s", what)
	if s.failed {
		return
	}
	if d := s.up("after a start that failed because "+what, daemonOpts{}); d != nil {
		s.mkRepo(d, true)
		s.serves(d, "after a failed start")
	}
	s.eval()
}

func (s *scn) mustFail(e *Daemon, what string) {
	if !e.WaitExit(20 * time.Second) {
		s.bad("start-hangs", "%s: the daemon does not end\n%s", what, e.quitDump())
		return
	}
	if e.Code() == 0 || e.Err.String() == "" {
		s.bad("start-silent", "%s: exit status %d, output %q", what, e.Code(), e.Err.String())
	}
}

// ---------- C24 ----------

func runC24(c *Ctx) {
	cat := newCatalog(c.TempDir("cat"), clientSpecs())
	c.Each(c.N(64, 2000), 8, func(i int) { stopRunning(c, cat, i) })
	c.Each(c.N(48, 2000), 8, func(i int) { stopSubmitting(c, i) })
	c.Each(c.N(24, 300), 8, func(i int) { stopConnected(c, i) })
	c.Each(c.N(32, 600), 8, func(i int) { stopEarly(c, i) })
}

// exitedWell judges an ended daemon.
func (s *scn) exitedWell(d *Daemon, what string) {
	if t := d.Trouble(); t != "" {
		s.bad("crash:"+panicSite(t), "%s: crashed: %s", what, t)
		return
	}
	if ws, ok := d.Cmd.ProcessState.Sys().(syscall.WaitStatus); ok && ws.Signaled() {
		s.bad("died", "%s: ended by signal %v instead of shutting down", what, ws.Signal())
		return
	}
	if d.Code() != 0 {
		s.bad("exit-status", "%s: exit status %d: %s", what, d.Code(), cut(d.Err.String(), 1000))
	}
	if lockText(s.base) != "none" {
		s.bad("left-lock", "%s: the lock file is left behind", what)
	}
	if fileExists(d.Sock) {
		s.bad("left-socket", "%s: the socket is left behind", what)
	}
	for _, db := range []string{"ferry_db", "ferry_db_jobs"} {
		b, err := os.ReadFile(filepath.Join(s.base, db, "LOG"))
		if err != nil {
			continue // it came to its end before
		}
		if o, cl := bytes.LastIndex(b, []byte("db@open opening")), bytes.LastIndex(b, []byte("db@close closing")); cl < o {
			s.bad("db-not-closed", "%s: %s was not closed before the lock was given up", what, db)
		} else if o >= 0 {
			s.c.Count("databases_closed", 1)
		}
	}
	s.c.Count("clean_exits", 1)
}

// judgeOrder reads the trace of file-system changes of a daemon that was shut
// down: nothing but the log changes after the lock file was removed.
func (s *scn) judgeOrder(trace, what string) {
	f, err := os.Open(trace)
	if err != nil {
		return
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<20)
	gone := false
	n := 0
	for sc.Scan() {
		p := strings.Split(sc.Text(), "\t")
		if len(p) < 4 {
			continue
		}
		n++
		rel, err := filepath.Rel(s.base, p[2])
		if err != nil || strings.HasPrefix(rel, "..") {
			continue
		}
		switch {
		case rel == "ferryd.lock":
			gone = p[1] == "unlink"
		case rel == "ferryd.log":
		case gone:
			s.bad("lock-before-data", "%s: %s %s after the lock file was removed", what, p[1], rel)
			return
		}
	}
	if !gone {
		s.bad("left-lock", "%s: the lock file was not removed", what)
	}
	s.c.Count("shutdown_traces_judged", 1)
	s.c.Count("trace_events", int64(n))
}

type heldJob struct {
	step Step
	hold string // substring of a path the job changes
}

// stopRunning: terminate while a job is held in the middle; it must finish, the
// others must be kept, and everything must be as if nothing had happened.
func stopRunning(c *Ctx, cat *Catalog, i int) {
	s := newScn(c, "running", i)
	defer s.close()
	r := s.r
	ff := filepath.Join(s.dir, "hold")
	trace := filepath.Join(s.dir, "trace")
	d := s.up("the daemon", daemonOpts{Env: []string{"VERIF_FAIL_FILE=" + ff, "VERIF_FS_TRACE=" + trace}})
	if d == nil {
		return
	}
	m := newModel(cat)
	stage := filepath.Join(s.dir, "stage")
	must(os.MkdirAll(stage, 0755))
	nst := 0
	send := func(st Step) bool {
		var paths []string
		for _, id := range st.Pkgs {
			nst++
			pd := filepath.Join(stage, fmt.Sprint(nst))
			must(os.MkdirAll(pd, 0755))
			b, err := os.ReadFile(cat.Pkgs[id].Path)
			must(err)
			must(os.WriteFile(filepath.Join(pd, id), b, 0644))
			paths = append(paths, filepath.Join(pd, id))
		}
		s.note("%s", st)
		if err := viaClient(d.Client(), st, paths); err != nil {
			s.bad("client-fails", "%s: %v", st, err)
			return false
		}
		m.apply(st)
		return true
	}
	ids := append([]string{}, cat.IDs...)
	both := i%4 == 3 // a sequential job and background jobs, more of them waiting
	if both && !send(st("create", "up")) {
		return
	}
	if !send(st("create", "a")) || !send(Step{Op: "import", Repo: "a", Pkgs: ids[:15+r.Intn(8)]}) {
		return
	}
	if _, err := d.waitIdle(60 * time.Second); err != nil {
		s.bad("not-idle", "%v", err)
		return
	}
	wantRun := 1
	async := r.Intn(3) == 0
	var held heldJob
	if both {
		async = false
		// an upload holds nothing that background jobs wait for while it removes its files
		held = heldJob{st("upload", "up", []string{ids[24]}), "/incoming/\n/deltaBuilds/a"}
	} else if async {
		held = heldJob{Step{Op: "deltarepo", Repo: "a"}, "/deltaBuilds/a"}
	} else {
		held = []heldJob{
			{st("create", "new"), "/repo/new"},
			{Step{Op: "clone", Repo: "a", Target: "c", Flag: r.Intn(2) == 0}, "/repo/c"},
			{Step{Op: "index", Repo: "a"}, "/repo/a"},
			{Step{Op: "import", Repo: "a", Pkgs: ids[24:26]}, "/pool/"},
			{Step{Op: "import", Repo: "a", Pkgs: ids[24:26]}, "/ferry_db/"},
			{Step{Op: "trim", Repo: "a", N: 1}, "/repo/a"},
			{Step{Op: "rmsrc", Repo: "a", Source: "alpha", N: -1}, "/repo/a"},
			{Step{Op: "delete", Repo: "a"}, "/repo/a"},
		}[r.Intn(8)]
	}
	must(os.WriteFile(ff, []byte("hold "+held.hold), 0644))
	if both {
		if !send(Step{Op: "deltarepo", Repo: "a"}) {
			return
		}
		inc := filepath.Join(s.base, "incoming")
		for _, id := range held.step.Pkgs {
			b, err := os.ReadFile(cat.Pkgs[id].Path)
			must(err)
			must(os.WriteFile(filepath.Join(inc, id), b, 0644))
		}
		writeUploadManifest(inc, "up.tram", "up", cat, held.step.Pkgs)
		s.note("%s", held.step)
		m.apply(held.step)
		for t0 := time.Now(); time.Since(t0) < 20*time.Second; time.Sleep(5 * time.Millisecond) {
			v, err := d.jobs()
			if err != nil {
				continue
			}
			began := false
			for _, j := range v.Active {
				began = began || strings.Contains(j.Description, "up.tram") && !j.Timing.Begin.IsZero()
			}
			if began {
				break
			}
		}
	} else if !send(held.step) {
		return
	}
	queued := []Step{st("create", "q1"), {Op: "import", Repo: "q1", Pkgs: ids[3:7]}, {Op: "clone", Repo: "q1", Target: "q2", Flag: true}, {Op: "trim", Repo: "q2", N: 1}, {Op: "copysrc", Repo: "q1", Target: "q2", Source: "alpha", N: -1}}
	queued = queued[:r.Intn(len(queued)+1)]
	if async {
		queued = nil // they would run beside it
	}
	if both {
		wantRun = 3
	}
	for _, q := range queued {
		if !send(q) {
			return
		}
	}
	// until it runs
	running := func() (run, wait int) {
		v, err := d.jobs()
		if err != nil {
			return -1, -1
		}
		for _, j := range v.Active {
			if j.Timing.Begin.IsZero() {
				wait++
			} else {
				run++
			}
		}
		return
	}
	if async {
		wantRun = 2 // both background workers
	}
	for t0 := time.Now(); time.Since(t0) < 20*time.Second; time.Sleep(5 * time.Millisecond) {
		if n, _ := running(); n >= wantRun {
			break
		}
	}
	time.Sleep(60 * time.Millisecond)
	nrun, nwait := running()
	if nrun < 1 {
		c.Count("not_held", 1)
	}
	sig := []syscall.Signal{syscall.SIGTERM, syscall.SIGINT}[r.Intn(2)]
	s.note("%v with %d running, %d queued", sig, nrun, nwait)
	d.Cmd.Process.Signal(sig)
	time.Sleep(time.Duration(100+r.Intn(200)) * time.Millisecond)
	if r.Intn(3) == 0 {
		s.note("again")
		d.Cmd.Process.Signal(sig)
		time.Sleep(20 * time.Millisecond)
	}
	if nrun > 0 && d.Exited() {
		os.Remove(ff)
		s.bad("job-abandoned", "the daemon ended while %d jobs were running: %s", nrun, cut(d.Err.String(), 1000))
		return
	}
	if nrun > 0 && r.Intn(2) == 0 { // the directory still has its owner
		e := s.start(filepath.Join(s.dir, "other"), daemonOpts{})
		if !e.WaitExit(10 * time.Second) {
			os.Remove(ff)
			s.bad("lock-early", "another daemon could start while jobs were still running")
			return
		}
		if e.Code() == 0 {
			s.bad("rival-exit", "a second daemon ended without an error")
		}
		c.Count("rivals_during_shutdown", 1)
	}
	if both { // the background jobs end first, others must not be taken up
		must(os.WriteFile(ff+".new", []byte("hold /incoming/"), 0644))
		logged := func() int {
			b, _ := os.ReadFile(filepath.Join(s.base, "ferryd.log"))
			return bytes.Count(b, []byte("async=true")) + bytes.Count(b, []byte(`"async":true`))
		}
		n := logged()
		must(os.Rename(ff+".new", ff))
		for t0 := time.Now(); time.Since(t0) < 3*time.Second && logged() < n+2; time.Sleep(10 * time.Millisecond) {
		}
		time.Sleep(300 * time.Millisecond) // several times the workers' pause
		c.Count("background_ended_first", 1)
		if nwait > len(queued) {
			c.Count("background_jobs_waiting_at_shutdown", int64(nwait-len(queued)))
		}
	}
	must(os.Remove(ff))
	if !d.WaitExit(40 * time.Second) {
		s.bad("hang", "the daemon does not end after its jobs finished\n%s", d.quitDump())
		return
	}
	s.exitedWell(d, "after "+held.step.String())
	s.judgeOrder(trace, "after "+held.step.String())
	if s.failed {
		return
	}
	// a slow successor shows what was kept
	e := s.up("the successor", daemonOpts{Scale: 1})
	if e == nil {
		return
	}
	t0 := time.Now()
	v, err := e.jobs()
	if err != nil {
		s.bad("client-fails", "%v", err)
		return
	}
	if time.Since(t0) < time.Second && nrun > 0 {
		if len(v.Active) != nwait {
			var l []string
			for _, j := range v.Active {
				l = append(l, j.Description)
			}
			s.bad("kept", "%d jobs were running and %d queued; the successor has %d queued: %s", nrun, nwait, len(v.Active), strings.Join(l, "; "))
			return
		}
		for _, j := range v.Active {
			if !j.Timing.Begin.IsZero() {
				s.bad("kept", "%q was not finished and not returned to the queue", j.Description)
			}
		}
		done := false
		for _, j := range v.Completed {
			done = done || j.Description == describeStep(held.step) || both && strings.Contains(j.Description, "up.tram")
		}
		if !done {
			s.bad("outcome-lost", "%s was running at the termination and is not recorded as completed", held.step)
			return
		}
		c.Count("kept_jobs_compared", int64(nwait))
	}
	e.Kill()
	if e = s.up("the second successor", daemonOpts{}); e == nil {
		return
	}
	v, err = e.waitIdle(60 * time.Second)
	if err != nil {
		s.bad("not-idle", "%v", err)
		return
	}
	for _, j := range v.Failed {
		s.bad("job-failed", "%q failed: %s", j.Description, j.Error)
		return
	}
	if !e.Stop(30 * time.Second) {
		s.bad("hang", "the successor does not end\n%s", e.quitDump())
		return
	}
	mm, err := core.NewManager(s.base)
	must(err)
	var kd []string
	for id := range m.Deltas {
		kd = append(kd, id)
	}
	o := observe(mm, s.base, kd)
	mm.Close()
	ps := m.compare(o, held.step, Outcome{})
	ps = append(ps, checkInvariants(o, invOpts{Orphans: true, Accepted: cat.Accepted()})...)
	if len(ps) > 0 {
		s.bad("state:"+ps[0].Key, "a shutdown during %s and a restart lead to: %s", held.step, cut(ps.String(), 1200))
	}
	s.eval()
	if i < 2 {
		c.Sample(s.log)
	}
}

// stopSubmitting: terminate while clients keep submitting; what was accepted is
// done exactly once.
func stopSubmitting(c *Ctx, i int) {
	s := newScn(c, "submit", i)
	defer s.close()
	trace := filepath.Join(s.dir, "trace")
	d := s.up("the daemon", daemonOpts{Env: append(s.delays(), "VERIF_FS_TRACE="+trace)})
	if d == nil {
		return
	}
	var mu sync.Mutex
	accepted, refused := map[string]bool{}, map[string]bool{}
	var wg sync.WaitGroup
	for w := 0; w < 3; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			for k := 0; k < 20; k++ {
				id := fmt.Sprintf("w%dn%d", w, k)
				code, _, err := rawReq(d.Sock, "GET", "/api/v1/create/repo/"+id, nil, 20*time.Second)
				mu.Lock()
				if err == nil && code == 200 {
					accepted[id] = true
				} else {
					refused[id] = true
				}
				mu.Unlock()
				if err != nil {
					return
				}
				time.Sleep(time.Duration(1+w) * time.Millisecond)
			}
		}(w)
	}
	s.sleep(120)
	s.note("terminate")
	d.Cmd.Process.Signal(syscall.SIGTERM)
	if !d.WaitExit(40 * time.Second) {
		s.bad("hang", "the daemon does not end while clients submit\n%s", d.quitDump())
		return
	}
	wg.Wait()
	s.exitedWell(d, "while clients submitted")
	s.judgeOrder(trace, "while clients submitted")
	e := s.up("the successor", daemonOpts{})
	if e == nil {
		return
	}
	v, err := e.waitIdle(60 * time.Second)
	if err != nil {
		s.bad("not-idle", "%v", err)
		return
	}
	times := map[string]int{}
	for _, j := range append(v.Completed, v.Failed...) {
		id := strings.TrimSuffix(strings.TrimPrefix(j.Description, "Create repository '"), "'")
		times[id]++
		if j.Failed {
			s.bad("job-failed", "%q failed: %s", j.Description, j.Error)
			return
		}
	}
	got, err := e.Client().GetRepos()
	if err != nil {
		s.bad("client-fails", "%v", err)
		return
	}
	have := idSet(got)
	for id := range accepted {
		if times[id] != 1 || !have[id] {
			s.bad("accepted-lost", "creating %s was accepted before the termination: executed %d times, exists: %v", id, times[id], have[id])
			return
		}
	}
	for id := range refused {
		if times[id] > 1 {
			s.bad("twice", "%s was executed %d times", id, times[id])
		}
	}
	c.Count("accepted_jobs_followed", int64(len(accepted)))
	c.Count("requests_refused_by_shutdown", int64(len(refused)))
	s.note("%d accepted, %d refused", len(accepted), len(refused))
	s.eval()
	if i < 1 {
		c.Sample(s.log)
	}
}

// stopConnected: clients that hold connections in every state.
func stopConnected(c *Ctx, i int) {
	s := newScn(c, "connected", i)
	defer s.close()
	trace := filepath.Join(s.dir, "trace")
	d := s.up("the daemon", daemonOpts{Env: []string{"VERIF_FS_TRACE=" + trace}})
	if d == nil {
		return
	}
	s.mkRepo(d, s.r.Intn(2) == 0)
	texts := []string{"", "GET /api/v1/sta", "GET /api/v1/status HTTP/1.1\r\nHost: x\r\n", "POST /api/v1/clone/r1 HTTP/1.1\r\nHost: x\r\nContent-Length: 500\r\n\r\n{\"clo",
		"GET /api/v1/status HTTP/1.1\r\nHost: x\r\n\r\n", "POST /api/v1/import/r1 HTTP/1.1\r\nHost: x\r\nTransfer-Encoding: chunked\r\n\r\n5\r\n{\"pat\r\n", "GET /api/v1/status HTTP/1.1\r\nHost: x\r\n\r\nGET /api/v1/list/re"}
	var cns []net.Conn
	for k := 1 + s.r.Intn(5); k > 0; k-- {
		t := texts[s.r.Intn(len(texts))]
		cn, err := net.Dial("unix", s.sock)
		if err != nil {
			s.bad("client-fails", "%v", err)
			return
		}
		cn.Write([]byte(t))
		cns = append(cns, cn)
		s.note("connection with %q", t)
	}
	// some end in the middle
	s.sleep(20)
	d.Cmd.Process.Signal(syscall.SIGTERM)
	s.sleep(20)
	if s.r.Intn(2) == 0 {
		cns[0].Close()
	}
	if !d.WaitExit(30 * time.Second) {
		s.bad("hang", "the daemon does not end with %d open connections: %q\n%s", len(cns), s.log, d.quitDump())
		return
	}
	for _, cn := range cns {
		cn.Close()
	}
	s.exitedWell(d, "with open connections")
	s.judgeOrder(trace, "with open connections")
	if e := s.up("the successor", daemonOpts{}); e != nil {
		s.serves(e, "after a shutdown with open connections")
	}
	s.eval()
}

// stopEarly: terminate at any moment of the start.
func stopEarly(c *Ctx, i int) {
	s := newScn(c, "early", i)
	defer s.close()
	if s.r.Intn(2) == 0 {
		d := s.up("the previous daemon", daemonOpts{Scale: 1})
		if d == nil {
			return
		}
		s.mkRepo(d, false)
		s.mkRepo(d, false)
		s.killed = true
		d.Kill()
	}
	for k := 0; k < 4 && !s.failed; k++ {
		d := s.start(s.sock, daemonOpts{Env: s.delays()})
		us := s.r.Intn(40000)
		time.Sleep(time.Duration(us) * time.Microsecond)
		s.note("terminated %d us after the start", us)
		d.Cmd.Process.Signal(syscall.SIGTERM)
		if !d.WaitExit(30 * time.Second) {
			s.bad("hang", "terminated during its start, the daemon does not end\n%s", d.quitDump())
			return
		}
		if t := d.Trouble(); t != "" {
			s.bad("crash:"+panicSite(t), "terminated during its start: %s", t)
			return
		}
		c.Count("early_terminations", 1)
	}
	if d := s.up("the successor", daemonOpts{}); d != nil {
		s.serves(d, "after terminations during the start")
	}
	s.eval()
}
