//go:build ov

package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"

	"verif/harness/fshook"
)

func init() {
	var mu sync.Mutex
	vers := map[string]map[string]bool{} // final path -> hashes
	gone := map[string]string{}          // final path -> how it went
	bad := map[string]Problems{}         // base -> what was seen
	var renames int64
	final := func(p string) (base string, ok bool) {
		if !isFinalIndex(filepath.Base(p)) {
			return "", false
		}
		d := filepath.Dir(filepath.Dir(p)) // BASE/repo
		if filepath.Base(d) != "repo" {
			return "", false
		}
		return filepath.Dir(d), true
	}
	indexRenames = func() int64 { return atomic.LoadInt64(&renames) }
	indexVersions = func(p string) map[string]bool {
		mu.Lock()
		defer mu.Unlock()
		r := map[string]bool{}
		for k := range vers[p] {
			r[k] = true
		}
		return r
	}
	indexProblems = func(base string) Problems {
		mu.Lock()
		defer mu.Unlock()
		ps := bad[base]
		delete(bad, base)
		for p, how := range gone {
			if !strings.HasPrefix(p, base+"/") {
				continue
			}
			if fileExists(filepath.Dir(p)) {
				ps.add("C08", "removed", "%s was taken away (%s)", strings.TrimPrefix(p, base+"/"), how)
			}
			delete(gone, p)
		}
		return ps
	}
	installIndexMonitor = func() {
		m := &fshook.FsMonitor{}
		m.OnEv = func(ev *fshook.FsEvent) syscall.Errno {
			if !strings.Contains(ev.Path, "eopkg-index") && !strings.Contains(ev.Path2, "eopkg-index") {
				return 0
			}
			if ev.Op == "rename" {
				if _, ok := final(ev.Path2); ok {
					mu.Lock()
					gone[ev.Path2] = "renamed to " + filepath.Base(ev.Path)
					mu.Unlock()
				}
			}
			base, ok := final(ev.Path)
			if !ok {
				return 0
			}
			name := filepath.Base(ev.Path)
			var msg, key string
			switch ev.Op {
			case "rename":
				b, err := os.ReadFile(ev.Path2)
				if err != nil {
					return 0 // the rename will fail by itself
				}
				atomic.AddInt64(&renames, 1)
				mu.Lock()
				v := vers[ev.Path]
				if v == nil {
					v = map[string]bool{}
					vers[ev.Path] = v
				}
				h := sha1hex(b)
				known := v[h]
				v[h] = true
				mu.Unlock()
				if !known {
					if s := wholeIndexFile(name, b); s != "" {
						key, msg = "unfinished", fmt.Sprintf("%s was published unfinished: it %s", name, s)
					}
				}
			case "unlink", "rmdir":
				mu.Lock()
				gone[ev.Path] = ev.Op
				mu.Unlock()
			default:
				key, msg = "in-place", fmt.Sprintf("%s on the published %s", ev.Op, name)
			}
			if key != "" {
				mu.Lock()
				ps := bad[base]
				ps.add("C08", key, "%s", msg)
				bad[base] = ps
				mu.Unlock()
			}
			return 0
		}
		fshook.Install(m)
		m.Arm()
	}
}
