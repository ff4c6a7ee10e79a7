package main

// Black-box handling of the real daemon and the real command-line client.

import (
	"bytes"
	"context"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/getsolus/ferryd/src/libferry"
)

// binPath names a program built next to the harness.
func binPath(name string) string {
	exe, err := os.Executable()
	must(err)
	p := filepath.Join(filepath.Dir(exe), name)
	if _, err := os.Stat(p); err != nil {
		must(fmt.Errorf("program %s was not built: %v", name, err))
	}
	return p
}

type syncBuf struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (s *syncBuf) Write(p []byte) (int, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.b.Write(p)
}

func (s *syncBuf) String() string {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.b.String()
}

// Daemon is one running ferryd process.
type Daemon struct {
	Base, Sock string
	Cmd        *exec.Cmd
	Err        *syncBuf
	Done       chan struct{}
	cl         *libferry.Client
}

type daemonOpts struct {
	Bin   string
	Env   []string
	Jobs  int
	Scale int
	Umask int
	// the daemon is given these files the way a service manager does
	Files     []*os.File
	ListenFDs string
	NoFile    int // how many files it may have open (0: as many as usual)
}

// startDaemon starts the daemon without waiting for it to be ready.
func startDaemon(base, sock string, o daemonOpts) *Daemon {
	if o.Bin == "" {
		o.Bin = "ferryd"
	}
	if o.Scale == 0 {
		o.Scale = 100
	}
	if o.Jobs == 0 {
		o.Jobs = 2
	}
	d := &Daemon{Base: base, Sock: sock, Err: &syncBuf{}, Done: make(chan struct{})}
	d.Cmd = exec.Command(binPath(o.Bin), "-d", base, "-s", sock, "-j", fmt.Sprint(o.Jobs))
	if o.ListenFDs != "" || o.NoFile > 0 {
		sh := `exec "$0" "$@"`
		if o.ListenFDs != "" {
			sh = "LISTEN_PID=$$ " + sh
			o.Env = append(o.Env, "LISTEN_FDS="+o.ListenFDs)
		}
		if o.NoFile > 0 {
			sh = fmt.Sprintf("ulimit -n %d; ", o.NoFile) + sh
		}
		d.Cmd = exec.Command("/bin/sh", append([]string{"-c", sh}, d.Cmd.Args...)...)
		d.Cmd.ExtraFiles = o.Files
	}
	d.Cmd.Env = append(os.Environ(), "GOTRACEBACK=all", fmt.Sprintf("VERIF_TIME_SCALE=%d", o.Scale))
	d.Cmd.Env = append(d.Cmd.Env, o.Env...)
	d.Cmd.Stderr = d.Err
	d.Cmd.Stdout = d.Err
	d.Cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	must(startLocked(d.Cmd))
	go func() {
		d.Cmd.Wait()
		close(d.Done)
	}()
	return d
}

// Children with a parent-death signal must be started from a thread that lives
// as long as the harness; Go may end the starting thread otherwise.
var starter = make(chan func())
var starterOnce sync.Once

func startLocked(cmd *exec.Cmd) error {
	starterOnce.Do(func() {
		go func() {
			lockThread()
			for f := range starter {
				f()
			}
		}()
	})
	res := make(chan error)
	starter <- func() { res <- cmd.Start() }
	return <-res
}

// Exited reports whether the process has ended.
func (d *Daemon) Exited() bool {
	select {
	case <-d.Done:
		return true
	default:
		return false
	}
}

// WaitExit waits for the end of the process.
func (d *Daemon) WaitExit(t time.Duration) bool {
	for t0 := time.Now(); time.Since(t0) < t; {
		select {
		case <-d.Done:
			return true
		case <-time.After(50 * time.Millisecond):
		}
	}
	return d.Exited()
}

func (d *Daemon) Code() int {
	<-d.Done
	return d.Cmd.ProcessState.ExitCode()
}

// Ready waits until the daemon answers (or ended, or the time is up).
func (d *Daemon) Ready(t time.Duration) bool {
	for t0 := time.Now(); time.Since(t0) < t; {
		if d.Exited() {
			return false
		}
		if peerPID(d.Sock) == d.Cmd.Process.Pid {
			if _, _, err := rawReq(d.Sock, "GET", "/api/v1/status", nil, 5*time.Second); err == nil {
				return true
			}
		}
		time.Sleep(3 * time.Millisecond)
	}
	return false
}

func (d *Daemon) Client() *libferry.Client {
	if d.cl == nil {
		d.cl = libferry.NewClient(d.Sock)
	}
	return d.cl
}

func (d *Daemon) Kill() {
	d.Cmd.Process.Signal(syscall.SIGKILL)
	<-d.Done
	if d.cl != nil {
		d.cl.Close()
	}
}

// Stop asks the daemon to end and waits for it.
func (d *Daemon) Stop(t time.Duration) bool {
	if d.cl != nil {
		d.cl.Close()
	}
	d.Cmd.Process.Signal(syscall.SIGTERM)
	return d.WaitExit(t)
}

// Trouble returns what the daemon's output says about a crash.
func (d *Daemon) Trouble() string {
	s := d.Err.String()
	for _, w := range []string{"panic:", "http: panic serving", "fatal error:", "WARNING: DATA RACE"} {
		if i := strings.Index(s, w); i >= 0 {
			return cut(s[i:], 6000)
		}
	}
	return ""
}

func (d *Daemon) Log() string {
	b, _ := os.ReadFile(filepath.Join(d.Base, "ferryd.log"))
	if len(b) > 4000 {
		b = b[len(b)-4000:]
	}
	return string(b)
}

// rawReq performs one HTTP request on a unix socket.
func rawReq(sock, method, path string, body []byte, to time.Duration) (int, []byte, error) {
	tr := &http.Transport{DisableKeepAlives: true, DialContext: func(ctx context.Context, _, _ string) (net.Conn, error) {
		return (&net.Dialer{Timeout: to}).DialContext(ctx, "unix", sock)
	}}
	defer tr.CloseIdleConnections()
	cl := &http.Client{Transport: tr, Timeout: to, CheckRedirect: func(*http.Request, []*http.Request) error { return http.ErrUseLastResponse }}
	req, err := http.NewRequest(method, "http://localhost.localdomain:0"+path, bytes.NewReader(body))
	if err != nil {
		return 0, nil, err
	}
	resp, err := cl.Do(req)
	if err != nil {
		return 0, nil, err
	}
	defer resp.Body.Close()
	b, err := io.ReadAll(resp.Body)
	return resp.StatusCode, b, err
}

// jobView is everything the daemon reports about jobs.
type jobView struct {
	Active, Failed, Completed []*libferry.Job
}

// askStatus asks for the status, which is there unless there is an error.
func askStatus(cl *libferry.Client) (*libferry.StatusRequest, error) {
	s, err := cl.GetStatus()
	if err == nil && s == nil {
		err = fmt.Errorf("GetStatus gives neither a status nor an error")
	}
	return s, err
}

func (d *Daemon) jobs() (*jobView, error) {
	s, err := askStatus(d.Client())
	if err != nil {
		return nil, err
	}
	return &jobView{s.CurrentJobs, s.FailedJobs, s.CompletedJobs}, nil
}

func (v *jobView) total() int { return len(v.Active) + len(v.Failed) + len(v.Completed) }

func jobKey(j *libferry.Job) string {
	return j.Timing.Queued.Format(time.RFC3339Nano) + "|" + j.Description
}

// since returns the finished jobs of v that are not in old.
func (v *jobView) since(old *jobView) (out []*libferry.Job) {
	seen := map[string]int{}
	if old != nil {
		for _, l := range [][]*libferry.Job{old.Failed, old.Completed} {
			for _, j := range l {
				seen[jobKey(j)]++
			}
		}
	}
	for _, l := range [][]*libferry.Job{v.Failed, v.Completed} {
		for _, j := range l {
			if seen[jobKey(j)] > 0 {
				seen[jobKey(j)]--
				continue
			}
			out = append(out, j)
		}
	}
	sort.SliceStable(out, func(a, b int) bool { return out[a].Timing.Queued.Before(out[b].Timing.Queued) })
	return
}

// waitIdle waits until no job is queued or running.
func (d *Daemon) waitIdle(t time.Duration) (*jobView, error) {
	for t0 := time.Now(); ; {
		v, err := d.jobs()
		if err != nil {
			if d.Exited() {
				return nil, fmt.Errorf("the daemon ended: %s", cut(d.Err.String(), 3000))
			}
			return nil, err
		}
		if len(v.Active) == 0 {
			return v, nil
		}
		if time.Since(t0) > t {
			var l []string
			for _, j := range v.Active {
				l = append(l, j.Description)
			}
			return v, fmt.Errorf("still busy after %v with: %s", t, cut(strings.Join(l, "; "), 500))
		}
		time.Sleep(4 * time.Millisecond)
	}
}

// quitDump makes a stuck daemon print its goroutines.
func (d *Daemon) quitDump() string {
	d.Cmd.Process.Signal(syscall.SIGQUIT)
	d.WaitExit(5 * time.Second)
	return cut(d.Err.String(), 12000)
}

// runCLI runs the command-line client.
func runCLI(dir, sock string, args ...string) (out, errOut string, code int) {
	cmd := exec.Command(binPath("ferryctl"), append([]string{"-s", sock}, args...)...)
	var o, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &e
	cmd.Dir = dir
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	must(startLocked(cmd))
	t := time.AfterFunc(90*time.Second, func() { cmd.Process.Kill() })
	cmd.Wait()
	t.Stop()
	return o.String(), e.String(), cmd.ProcessState.ExitCode()
}
