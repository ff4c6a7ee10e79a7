//go:build ov

// Package fshook observes and disturbs every file-system mutating system call
// of the process it is built into. It relies on the standard-library overlay
// generated by /verif/overlay/gen.py and is also copied (as part of package
// main) into the instrumented daemon.
package fshook

import (
	"fmt"
	"os"
	"os/signal"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
	"unsafe"
)

// FsEvent is one file-system mutation about to be executed.
type FsEvent struct {
	Seq   int64
	Op    string // link symlink create open-write trunc write unlink rmdir mkdir rename ftruncate
	Path  string // object changed (target path)
	Path2 string // source (link, rename)
	Arg   int
	Err   string // injected or denied
}

// FsMonitor decides about and records events. All fields are set before Install.
type FsMonitor struct {
	mu     sync.Mutex
	seq    int64
	armed  int32
	Only   func(ev *FsEvent) bool // count/record only those (nil: all)
	OnEv   func(ev *FsEvent) syscall.Errno
	Record bool
	Events []FsEvent
	Allow  []string // containment: path prefixes where mutation is permitted (empty: everywhere)
	Denied []FsEvent
	KillAt int64 // SIGKILL before executing the KillAt-th counted mutation (1-based)
	FailAt int64
	FailTo int64 // fail counted mutations FailAt..FailTo (0: only FailAt; -1 / -2: and later ones of the same file / in the same directory)
	FailNo syscall.Errno
	Reads  bool // count (record, fail, kill at) what reads instead of what changes
	Out    *os.File // stream of denied events / trace
	Delay  func(seq int64) time.Duration
	broken string // what stays broken (FailTo < 0)
}

func fsAbs(dirfd int, p string) string {
	if strings.HasPrefix(p, "/") {
		return p
	}
	base := ""
	if dirfd == -100 || dirfd == -1 {
		base, _ = syscall.Getwd()
	} else {
		buf := make([]byte, 4096)
		n, err := syscall.Readlink("/proc/self/fd/"+strconv.Itoa(dirfd), buf)
		if err != nil {
			return p
		}
		base = string(buf[:n])
	}
	if p == "" {
		return base
	}
	return base + "/" + p
}

func fsClean(p string) string {
	// lexical clean without importing path/filepath semantics we do not need
	parts := strings.Split(p, "/")
	var out []string
	for _, s := range parts {
		switch s {
		case "", ".":
		case "..":
			if len(out) > 0 {
				out = out[:len(out)-1]
			}
		default:
			out = append(out, s)
		}
	}
	return "/" + strings.Join(out, "/")
}

// Arm starts counting; Disarm stops it. Containment is enforced regardless.
func (m *FsMonitor) Arm()         { atomic.StoreInt32(&m.armed, 1) }
func (m *FsMonitor) Disarm()      { atomic.StoreInt32(&m.armed, 0) }
func (m *FsMonitor) Count() int64 { m.mu.Lock(); defer m.mu.Unlock(); return m.seq }

// Take returns and clears the recorded events.
func (m *FsMonitor) Take() []FsEvent {
	m.mu.Lock()
	defer m.mu.Unlock()
	e := m.Events
	m.Events = nil
	return e
}

// TakeDenied returns and clears the denied events.
func (m *FsMonitor) TakeDenied() []FsEvent {
	m.mu.Lock()
	defer m.mu.Unlock()
	e := m.Denied
	m.Denied = nil
	return e
}

func (m *FsMonitor) hook(op string, dirfd int, path string, dirfd2 int, path2 string, arg int) syscall.Errno {
	ev := FsEvent{Op: op, Arg: arg}
	if op == "flock" { // changes no file; only slowed down
		if m.Delay != nil && atomic.LoadInt32(&m.armed) != 0 {
			time.Sleep(m.Delay(m.Count()))
		}
		return 0
	}
	switch op {
	case "read", "pread", "stat", "getdents":
		if !m.Reads || atomic.LoadInt32(&m.armed) == 0 {
			return 0
		}
		var st syscall.Stat_t
		if op == "read" || op == "pread" {
			if err := syscall.Fstat(dirfd, &st); err != nil || st.Mode&syscall.S_IFMT != syscall.S_IFREG {
				return 0
			}
		}
		ev.Path = fsAbs(dirfd, path)
		return m.count(ev)
	case "open":
		if m.Reads && atomic.LoadInt32(&m.armed) != 0 && arg&syscall.O_ACCMODE == syscall.O_RDONLY && arg&syscall.O_CREAT == 0 {
			ev.Path = fsAbs(dirfd, path)
			return m.count(ev)
		}
		acc := arg & syscall.O_ACCMODE
		switch {
		case arg&0x400000 == 0x400000 && arg&syscall.O_DIRECTORY != 0 && acc != syscall.O_RDONLY: // O_TMPFILE
			ev.Op = "create"
		case arg&syscall.O_TRUNC != 0 && acc != syscall.O_RDONLY:
			ev.Op = "trunc"
		case arg&syscall.O_CREAT != 0:
			ev.Op = "create"
		default:
			return 0 // no mutation by itself
		}
		ev.Path = fsAbs(dirfd, path)
	case "write", "ftruncate":
		var st syscall.Stat_t
		if err := syscall.Fstat(dirfd, &st); err != nil || st.Mode&syscall.S_IFMT != syscall.S_IFREG {
			return 0
		}
		ev.Path = fsAbs(dirfd, "")
	case "link", "rename", "symlink":
		ev.Path2 = fsAbs(dirfd, path)
		ev.Path = fsAbs(dirfd2, path2)
	case "unlink":
		ev.Path = fsAbs(dirfd, path)
		if arg&0x200 != 0 {
			ev.Op = "rmdir"
		}
	default:
		ev.Path = fsAbs(dirfd, path)
	}
	if strings.HasPrefix(ev.Path, "/dev/") || strings.HasPrefix(ev.Path, "/proc/") {
		return 0
	}
	if len(m.Allow) > 0 {
		ok := m.allowed(ev.Path)
		if ok && (op == "rename") {
			ok = m.allowed(ev.Path2)
		}
		if !ok {
			ev.Err = "denied"
			m.mu.Lock()
			m.Denied = append(m.Denied, ev)
			m.mu.Unlock()
			if m.Out != nil {
				m.emit(&ev)
			}
			return syscall.EPERM
		}
	}
	if atomic.LoadInt32(&m.armed) == 0 || m.Reads {
		return 0
	}
	return m.count(ev)
}

// count counts the event and says what becomes of it.
func (m *FsMonitor) count(ev FsEvent) syscall.Errno {
	if m.Only != nil && !m.Only(&ev) {
		return 0
	}
	m.mu.Lock()
	m.seq++
	ev.Seq = m.seq
	kill := m.KillAt != 0 && m.seq == m.KillAt
	fail := m.FailAt != 0 && (m.seq == m.FailAt || (m.FailTo != 0 && m.seq >= m.FailAt && m.seq <= m.FailTo))
	if m.FailTo < 0 {
		at := ev.Path
		if m.FailTo == -2 {
			at = at[:strings.LastIndexByte(at, '/')]
		}
		if fail {
			m.broken = at
		} else if m.broken != "" {
			fail = at == m.broken
		}
	}
	if fail {
		ev.Err = m.FailNo.Error()
	}
	if m.Record {
		m.Events = append(m.Events, ev)
	}
	if m.Out != nil {
		m.emit(&ev)
	}
	if kill {
		syscall.Kill(syscall.Getpid(), syscall.SIGKILL)
		select {}
	}
	m.mu.Unlock()
	if fail {
		return m.FailNo
	}
	if m.Delay != nil {
		if d := m.Delay(ev.Seq); d > 0 {
			time.Sleep(d)
		}
	}
	if m.OnEv != nil {
		return m.OnEv(&ev)
	}
	return 0
}

func (m *FsMonitor) emit(ev *FsEvent) {
	line := fmt.Sprintf("%d\t%s\t%s\t%s\t%d\t%s\n", ev.Seq, ev.Op, ev.Path, ev.Path2, ev.Arg, ev.Err)
	b := []byte(line)
	// raw write: must not re-enter the hook
	syscall.RawSyscall(syscall.SYS_WRITE, m.Out.Fd(), uintptr(unsafe.Pointer(&b[0])), uintptr(len(b)))
}

func (m *FsMonitor) allowed(p string) bool {
	c := fsClean(p)
	for _, a := range m.Allow {
		if c == a || strings.HasPrefix(c, a+"/") {
			return true
		}
	}
	return false
}

// Redirect makes the process find in to what it looks for in from.
func Redirect(from, to string) {
	syscall.VerifPath = func(p string) string {
		if p == from || strings.HasPrefix(p, from+"/") {
			return to + p[len(from):]
		}
		return p
	}
}

// Install makes m the process-wide monitor (nil removes it).
func Install(m *FsMonitor) {
	if m == nil {
		syscall.VerifHook = nil
		return
	}
	syscall.VerifHook = m.hook
}

// fshookFromEnv configures the instrumented daemon:
//
//	VERIF_FS_ALLOW  colon separated prefixes where mutation is permitted
//	VERIF_FS_TRACE  file receiving one line per counted or denied mutation
//	VERIF_KILL_AT   SIGKILL before this mutation
//	VERIF_FAIL_AT   first mutation to fail with ENOSPC; VERIF_FAIL_TO last
//	VERIF_FAIL_FILE while this file exists and holds "fail S", "hold S" or
//	                "kill S", mutations of paths containing S fail with ENOSPC,
//	                wait until it no longer does, or kill the process
//	                (several S separated by newlines)
//	VERIF_STACKS    on SIGUSR1 the stacks of all goroutines are written to this file
//	VERIF_ETC       what is below /etc/ferryd is looked for in this directory
//	VERIF_DELAY_US  sleep this many pseudo-random microseconds at mutations
func fshookFromEnv() {
	if p := os.Getenv("VERIF_ETC"); p != "" {
		Redirect("/etc/ferryd", p)
	}
	if p := os.Getenv("VERIF_STACKS"); p != "" {
		ch := make(chan os.Signal, 1)
		signal.Notify(ch, syscall.SIGUSR1)
		go func() {
			for range ch {
				b := make([]byte, 8<<20)
				b = append(b[:runtime.Stack(b, true)], "\nEND\n"...)
				os.WriteFile(p, b, 0644)
			}
		}()
	}
	a, t, k, f, d := os.Getenv("VERIF_FS_ALLOW"), os.Getenv("VERIF_FS_TRACE"), os.Getenv("VERIF_KILL_AT"), os.Getenv("VERIF_FAIL_AT"), os.Getenv("VERIF_DELAY_US")
	ff := os.Getenv("VERIF_FAIL_FILE")
	if a == "" && t == "" && k == "" && f == "" && d == "" && ff == "" {
		return
	}
	m := &FsMonitor{FailNo: syscall.ENOSPC}
	if ff != "" {
		m.OnEv = func(ev *FsEvent) syscall.Errno {
			b, err := os.ReadFile(ff)
			if err != nil || len(b) == 0 {
				return 0
			}
			verb, sub, _ := strings.Cut(string(b), " ")
			named := func(subs string) bool {
				for _, x := range strings.Split(subs, "\n") {
					if x != "" && strings.Contains(ev.Path, x) {
						return true
					}
				}
				return false
			}
			if !named(sub) {
				return 0
			}
			switch verb {
			case "fail":
				return syscall.ENOSPC
			case "hold": // wait until released
				for i := 0; i < 6000 && err == nil; i++ {
					time.Sleep(10 * time.Millisecond)
					if b, err = os.ReadFile(ff); err == nil && len(b) > 0 && !named(strings.TrimPrefix(string(b), "hold ")) {
						break
					}
				}
			case "kill":
				syscall.Kill(syscall.Getpid(), syscall.SIGKILL)
				select {}
			}
			return 0
		}
	}
	if a != "" {
		m.Allow = strings.Split(a, ":")
	}
	if t != "" {
		o, err := os.OpenFile(t, os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0644)
		if err == nil {
			m.Out = o
			m.Out.Fd()
		}
	}
	m.KillAt, _ = strconv.ParseInt(k, 10, 64)
	m.FailAt, _ = strconv.ParseInt(f, 10, 64)
	m.FailTo, _ = strconv.ParseInt(os.Getenv("VERIF_FAIL_TO"), 10, 64)
	if us, _ := strconv.ParseInt(d, 10, 64); us > 0 {
		x := uint64(us)*2654435761 + 1
		var mu sync.Mutex
		m.Delay = func(seq int64) time.Duration {
			mu.Lock()
			defer mu.Unlock()
			x ^= x << 13
			x ^= x >> 7
			x ^= x << 17
			return time.Duration(x%uint64(us)) * time.Microsecond
		}
	}
	Install(m)
	m.Arm()
}
