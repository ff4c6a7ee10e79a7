//go:build ov

package main

import (
	"strings"
	"sync"
	"syscall"

	"verif/harness/fshook"
)

func init() {
	var mu sync.Mutex
	worlds := map[string]func(op, path, path2 string) bool{}
	var m *fshook.FsMonitor
	namesInstall = func(scratch string) {
		m = &fshook.FsMonitor{Allow: []string{scratch}}
		m.OnEv = func(ev *fshook.FsEvent) syscall.Errno {
			mu.Lock()
			var pol func(op, path, path2 string) bool
			for d, p := range worlds {
				if strings.HasPrefix(ev.Path, d) || strings.HasPrefix(ev.Path2, d) {
					pol = p
				}
			}
			mu.Unlock()
			if pol != nil && !pol(ev.Op, lexClean(ev.Path), lexClean(ev.Path2)) {
				return syscall.EPERM
			}
			return 0
		}
		fshook.Install(m)
		m.Arm()
	}
	namesPolicy = func(dir string, pol func(op, path, path2 string) bool) {
		mu.Lock()
		defer mu.Unlock()
		if pol == nil {
			delete(worlds, dir)
		} else {
			worlds[dir] = pol
		}
	}
	namesDenied = func() (l []string) {
		for _, e := range m.TakeDenied() {
			l = append(l, e.Op+" "+e.Path)
		}
		return
	}
}
