//go:build ov

package main

import (
	"strings"
	"sync"
	"syscall"

	"verif/harness/fshook"
)

func init() {
	var mu sync.Mutex
	n := map[string]int{}
	installBuildMonitor = func() {
		m := &fshook.FsMonitor{}
		m.OnEv = func(ev *fshook.FsEvent) syscall.Errno {
			i := strings.Index(ev.Path, "/deltaBuilds/")
			if i < 0 || !strings.Contains(ev.Path[i+len("/deltaBuilds/"):], "/") {
				return 0
			}
			mu.Lock()
			n[ev.Path[:i]]++
			mu.Unlock()
			return 0
		}
		fshook.Install(m)
		m.Arm()
		buildEvents = func(base string) int {
			mu.Lock()
			defer mu.Unlock()
			x := n[base]
			delete(n, base)
			return x
		}
	}
}
