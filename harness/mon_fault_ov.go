//go:build ov

package main

import (
	"path/filepath"
	"strings"
	"syscall"

	"verif/harness/fshook"
)

func init() {
	var m *fshook.FsMonitor
	var root string
	faultArm = func(killAt, failAt, failTo int64, errno syscall.Errno, base string) {
		root = base + "/"
		m = &fshook.FsMonitor{Record: true, KillAt: killAt, FailAt: failAt, FailTo: failTo, FailNo: errno, Reads: faultReads}
		m.Only = func(ev *fshook.FsEvent) bool {
			return strings.HasPrefix(ev.Path, root) && filepath.Base(ev.Path) != "LOG"
		}
		fshook.Install(m)
		m.Arm()
	}
	faultDisarm = func() (int64, []string) {
		m.Disarm()
		fshook.Install(nil)
		var l []string
		faultFailed = nil
		for _, e := range m.Take() {
			if e.Err != "" {
				faultFailed = append(faultFailed, eventClass(e.Op+" "+strings.TrimPrefix(e.Path, root)))
			}
			l = append(l, e.Op+" "+strings.TrimPrefix(e.Path, root))
		}
		return m.Count(), l
	}
}
