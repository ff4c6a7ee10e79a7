//go:build ov

package main

import (
	"sync/atomic"
	"syscall"
	"time"

	"verif/harness/fshook"
)

func init() {
	setTimeScale = func(n int64) { time.VerifSetScale(n) }
	setClock = func(wall, gone int64) { time.VerifSetClock(wall, gone) }
	setWriteDelay = func(seed int64, maxMicros int64) {
		x := uint64(seed)*0x9E3779B97F4A7C15 + 1
		m := &fshook.FsMonitor{}
		m.OnEv = func(ev *fshook.FsEvent) syscall.Errno {
			v := atomic.AddUint64(&x, 0x9E3779B97F4A7C15)
			v ^= v >> 29
			time.Sleep(time.Duration(v%uint64(maxMicros)) * time.Microsecond)
			return 0
		}
		fshook.Install(m)
		m.Arm()
	}
}
