package main

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// C08: every mutation of a published index file is seen by a monitor at the
// system call, readers poll the published files all the time, and index
// generation is made to fail (failing calls, failing or partly writing
// compressors, broken definition files) or killed at each of its mutations.

func init() {
	register(&Check{ID: "C08", Level: "exploration",
		Rule:   "an evaluation is one history with every change of a published index file traced and concurrent readers, or one index run with a fault, a failing compressor, a broken definition or a kill at one mutation; distinct by history or by fault point",
		Assume: []string{"a crash is a killed process: writes already issued survive", "a rename that itself fails may leave some files at the new version"},
		Run:    runC08})
}

// set by the instrumented build: start the index monitor; indexProblems returns
// (and forgets) what it saw wrong below a base directory.
var (
	installIndexMonitor func()
	indexProblems       func(base string) Problems
	indexVersions       func(path string) map[string]bool
	indexRenames        func() int64
	indexMonitored      bool
)

// wholeIndexFile tells what is wrong with b as a complete version of the index
// file called name ("" if nothing).
func wholeIndexFile(name string, b []byte) string {
	hexsum := func(n int) string {
		if s := firstField(string(b)); len(s) != n {
			return fmt.Sprintf("is not a checksum: %q", cut(string(b), 80))
		} else if _, err := hex.DecodeString(s); err != nil {
			return fmt.Sprintf("is not a checksum: %q", cut(string(b), 80))
		}
		return ""
	}
	switch {
	case strings.HasSuffix(name, ".sha1sum"):
		return hexsum(40)
	case strings.HasSuffix(name, ".sha256sum"):
		return hexsum(64)
	case strings.HasSuffix(name, ".xz"):
		u, err := unxzBytes(b)
		if err != nil {
			return "cannot be decompressed: " + err.Error()
		}
		return wholeIndexFile("", u)
	case strings.HasSuffix(name, ".zst"):
		u, err := unzstdBytes(b)
		if err != nil {
			return "cannot be decompressed: " + err.Error()
		}
		return wholeIndexFile("", u)
	}
	if _, err := parseXML(b); err != nil {
		return "is not a whole document: " + err.Error()
	}
	if !bytes.HasSuffix(bytes.TrimSpace(b), []byte("</PISI>")) {
		return "does not end like an index"
	}
	return ""
}

// idxReader keeps reading all published index files below base.
type idxReader struct {
	base  string
	stop  chan struct{}
	wg    sync.WaitGroup
	mu    sync.Mutex
	seen  map[string]map[string]bool // path -> content hashes read
	reads int64
}

func startReaders(base string, n int) *idxReader {
	r := &idxReader{base: base, stop: make(chan struct{}), seen: map[string]map[string]bool{}}
	for i := 0; i < n; i++ {
		r.wg.Add(1)
		go func(i int) {
			defer r.wg.Done()
			for k := i; ; k++ {
				select {
				case <-r.stop:
					return
				default:
				}
				des, _ := os.ReadDir(filepath.Join(base, "repo"))
				for _, d := range des {
					r.read(filepath.Join(base, "repo", d.Name(), indexFiles[k%len(indexFiles)]))
				}
				time.Sleep(200 * time.Microsecond)
			}
		}(i * 3)
	}
	return r
}

func (r *idxReader) read(p string) {
	f, err := os.Open(p)
	if err != nil {
		return
	}
	defer f.Close()
	var b []byte
	buf := make([]byte, 700)
	for i := 0; ; i++ {
		n, err := f.Read(buf)
		b = append(b, buf[:n]...)
		if err != nil {
			break
		}
		if i == 0 {
			time.Sleep(300 * time.Microsecond)
			buf = make([]byte, 1<<16)
		}
	}
	atomic.AddInt64(&r.reads, 1)
	h := sha1hex(b)
	r.mu.Lock()
	defer r.mu.Unlock()
	m := r.seen[p]
	if m == nil {
		m = map[string]bool{}
		r.seen[p] = m
	}
	m[h] = true
}

// judge compares what was read so far with the versions put in place by rename.
func (r *idxReader) judge() (ps Problems) {
	r.mu.Lock()
	defer r.mu.Unlock()
	for p, hs := range r.seen {
		vs := indexVersions(p)
		for h := range hs {
			if !vs[h] {
				ps.add("C08", "read-partial", "a reader got content of %s (sha1 %s) that is none of the %d versions published by rename", strings.TrimPrefix(p, r.base+"/"), h, len(vs))
			}
		}
	}
	r.seen = map[string]map[string]bool{}
	return
}

func (r *idxReader) finish() { close(r.stop); r.wg.Wait() }

// judgeIndexTrace is called after every step of a history.
func (h *Hist) judgeIndexTrace(o *Obs) (ps Problems) {
	ps = indexProblems(h.w.Dir)
	ps = append(ps, h.reader.judge()...)
	for rid, r := range o.Repos {
		for _, f := range indexFiles {
			x, ok := r.Files[f]
			if !ok {
				continue
			}
			if !indexVersions(filepath.Join(h.w.Dir, "repo", rid, f))[x.Sha1] {
				ps.add("C08", "not-by-rename", "%s of %s has content that was never put there by a rename", f, rid)
			}
		}
	}
	return
}

func runC08(c *Ctx) {
	cat := newCatalog(filepath.Join(c.Dir, "w", "cat"), stdSpecs(false))
	indexFaults(c, cat)
	installIndexMonitor()
	indexMonitored = true
	p := Profile{Weights: weights(map[string]int{"index": 10, "assets": 12, "import": 14, "clone": 8, "delete": 5, "copysrc": 8}), Len: 20, JobPct: 50}
	runHistories(c, "C08", cat, c.N(120, 4000), p, directed)
	c.Each(c.N(16, 400), 4, func(i int) { indexConcurrent(c, cat, i) })
	c.Count("index_files_published_by_rename", indexRenames())
}

// indexConcurrent: several threads index the same and other repositories while
// readers look on.
func indexConcurrent(c *Ctx, cat *Catalog, i int) {
	r := c.Rng("conc", i)
	w := newWorld(c.TempDir("ic"), cat)
	defer w.M.Close()
	repos := []string{"un", "stable"}
	for _, x := range repos {
		must(w.M.CreateRepo(x))
		must(w.M.AddPackages(x, w.stageAll(cat.idsOf("alpha", 2, 9, 10)), false))
		must(w.M.Index(x))
	}
	rd := startReaders(w.Dir, 3)
	var wg sync.WaitGroup
	var n int64
	for g := 0; g < 4; g++ {
		k := 3 + r.Intn(5)
		x := repos[0]
		if g == 3 {
			x = repos[1]
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			for ; k > 0; k-- {
				if err := w.M.Index(x); err != nil {
					c.Violate("concurrent-index", fmt.Sprintf("indexing %s from several threads: %v", x, err), nil)
					return
				}
				atomic.AddInt64(&n, 1)
			}
		}()
	}
	wg.Wait()
	rd.finish()
	ps := append(indexProblems(w.Dir), rd.judge()...)
	o := observe(w.M, w.Dir, nil)
	for _, x := range repos {
		ps = append(ps, checkIndex(o, w.Dir, x)...)
	}
	ps = append(ps, leftovers(o)...)
	for _, p := range ps {
		c.Violate("concurrent:"+p.Key, "indexing from several threads: "+p.Msg, nil)
	}
	c.Count("concurrent_index_runs", n)
	c.Count("reads", rd.reads)
	c.Eval(fmt.Sprint("conc", i))
}

func leftovers(o *Obs) (ps Problems) {
	for rid, r := range o.Repos {
		for f := range r.Files {
			if isIndexFile(f) && !isFinalIndex(f) {
				ps.add("C08", "index-leftover", "%s has leftover %s", rid, f)
			}
		}
	}
	return
}

// idxSet: the published index files of a repository by content.
func idxSet(dir, rid string) map[string][]byte {
	m := map[string][]byte{}
	for _, f := range indexFiles {
		if b, err := os.ReadFile(filepath.Join(dir, "repo", rid, f)); err == nil {
			m[f] = b
		}
	}
	return m
}

const badTools = `#!/bin/sh
# a compressor that leaves part of its output and fails
for a in "$@"; do case "$a" in -*) ;; *) f="$a";; esac; done
n=$(basename "$0")
case "$n" in xz) e=xz;; *) e=zst;; esac
case "$VERIF_TOOL" in
 partial) head -c 20 "$f" > "$f.$e"; exit 1;;
 empty) : > "$f.$e"; exit 3;;
 killed) head -c 40 "$f" > "$f.$e"; kill -9 $$;;
 nothing) exit 1;;
esac
`

func indexFaults(c *Ctx, cat *Catalog) {
	a := func(rels ...int) []string { return cat.idsOf("alpha", rels...) }
	base := []Step{st("create", "un"), st("assets", "un", 2), st("import", "un", append(a(2, 9), cat.idsOf("beta", 2, 9)...)), st("delta", "un", "alpha", true)}
	with := func(extra ...Step) []Step { return append(append([]Step{}, base...), extra...) }
	sc := []scenario{
		{"first-index", []Step{st("create", "un"), st("assets", "un", 1)}, st("index", "un"), true, false},
		{"re-index", with(st("assets", "un", 1)), st("index", "un"), true, false},
		{"import", with(), st("import", "un", a(10, 11)), true, false},
		{"rmsrc", with(), st("rmsrc", "un", "Beta", -1), true, false},
	}
	// leave the repository unindexed in the first scenario
	var tl []*template
	var mu sync.Mutex
	c.Each(len(sc), 0, func(i int) {
		if t := buildTemplate(c, cat, sc[i]); t != nil {
			if t.name == "first-index" {
				des, _ := filepath.Glob(filepath.Join(t.dir, "base/repo/un/eopkg-index*"))
				for _, d := range des {
					must(os.Remove(d))
				}
			}
			mu.Lock()
			tl = append(tl, t)
			mu.Unlock()
		}
	})
	sort.Slice(tl, func(i, j int) bool { return tl[i].name < tl[j].name })
	tools := c.TempDir("tools")
	for _, n := range []string{"xz", "zstd"} {
		must(os.MkdirAll(filepath.Join(tools, n), 0755))
		must(os.WriteFile(filepath.Join(tools, n, n), []byte(badTools), 0755))
	}
	type point struct {
		t       *template
		kind    string // fail, kill, tool, asset
		k, to   int64
		ev      string
		errno   syscall.Errno
		tool    string
		mode    string
		renamed bool // publication had begun
	}
	var pts []point
	c.Each(len(tl), 0, func(i int) {
		t := tl[i]
		dir := c.TempDir("rec")
		defer os.RemoveAll(dir)
		w := t.instance(dir, cat)
		var r opResult
		if _, err := spawn("op", opArgs{Base: w.Dir, Stage: w.Stage, Step: t.op, Paths: stageOp(w, t.op)}, &r); err != nil || r.Err != "" {
			c.Violate("index-run:"+t.name, fmt.Sprintf("%s: undisturbed run: %v %s", t.name, err, r.Err), t.op)
			return
		}
		mu.Lock()
		defer mu.Unlock()
		begun := false
		for k := int64(1); k <= r.N; k++ {
			ev := r.Events[k-1]
			if !strings.Contains(ev, "eopkg-index.xml") {
				continue
			}
			begun = begun || strings.HasPrefix(ev, "rename ")
			for e, en := range []syscall.Errno{syscall.ENOSPC, syscall.EIO} {
				if c.Quick() && e != int(k)%2 {
					continue
				}
				pts = append(pts, point{t: t, kind: "fail", k: k, to: 0, ev: ev, errno: en, renamed: begun})
				if !c.Quick() || k%3 == 0 {
					pts = append(pts, point{t: t, kind: "fail", k: k, to: 1 << 40, ev: ev, errno: en, renamed: begun})
				}
			}
			pts = append(pts, point{t: t, kind: "kill", k: k, ev: ev, renamed: begun})
		}
		if len(r.Events) == 0 {
			c.Violate("index-run:"+t.name, "indexing changed no file", t.op)
		}
		for _, n := range []string{"xz", "zstd"} {
			for _, m := range []string{"partial", "empty", "killed", "nothing", "missing"} {
				pts = append(pts, point{t: t, kind: "tool", tool: n, mode: m})
			}
		}
		for _, f := range []string{"distribution.xml", "components.xml", "groups.xml"} {
			for _, m := range []string{"<PISI><", "", "garbage & more", "dir"} {
				pts = append(pts, point{t: t, kind: "asset", tool: f, mode: m})
			}
		}
	})
	sort.Slice(pts, func(i, j int) bool { return fmt.Sprint(pts[i]) < fmt.Sprint(pts[j]) })
	c.Each(len(pts), 0, func(i int) {
		p := pts[i]
		t := p.t
		dir := c.TempDir("if")
		defer os.RemoveAll(dir)
		w := t.instance(dir, cat)
		paths := stageOp(w, t.op)
		old := idxSet(w.Dir, "un")
		var ps Problems
		what := fmt.Sprintf("%s, %s", t.name, p.kind)
		whole := func(must bool) {
			now := idxSet(w.Dir, "un")
			for _, f := range indexFiles {
				b, ok := now[f]
				o, was := old[f]
				switch {
				case !ok && was:
					ps.add("C08", "vanished", "%s is gone", f)
				case ok && was && bytes.Equal(o, b):
				case must && ok:
					ps.add("C08", "replaced-on-failure", "%s was replaced although generating the index failed", f)
				case ok:
					if s := wholeIndexFile(f, b); s != "" {
						ps.add("C08", "partial", "%s %s", f, s)
					}
				}
			}
		}
		var r faultResult
		key := fmt.Sprint(t.name, p.kind, p.k, p.to, p.errno, p.tool, p.mode)
		defer func() {
			for _, x := range ps {
				c.Violate(strings.ReplaceAll(p.kind+":"+t.name+":"+x.Key, " ", "_"), what+": "+x.Msg, map[string]interface{}{"scenario": t.name, "setup": t.setup, "op": t.op, "kind": p.kind, "at": p.k, "until": p.to, "errno": p.errno.Error(), "event": p.ev, "tool_or_file": p.tool, "mode": p.mode})
			}
			c.Count("index_"+p.kind+"_points", 1)
			c.Eval(key)
		}()
		fa := faultArgs{Base: w.Dir, Stage: w.Stage, Step: t.op, Paths: paths, Errno: int(p.errno), Hold: true}
		switch p.kind {
		case "kill":
			what = fmt.Sprintf("%s killed before mutation %d (%s)", t.name, p.k, p.ev)
			var or opResult
			if _, err := spawn("op", opArgs{Base: w.Dir, Stage: w.Stage, Step: t.op, Paths: paths, KillAt: p.k}, &or); err != nil {
				ps.add("C08", "crash", "%v", err)
				return
			}
			whole(!p.renamed)
		case "fail":
			fa.FailAt, fa.FailTo = p.k, p.to
			what = fmt.Sprintf("%s with %v at mutation %d (%s)", t.name, p.errno, p.k, p.ev)
		case "tool":
			what = fmt.Sprintf("%s with a failing %s (%s)", t.name, p.tool, p.mode)
			fa.Path = filepath.Join(tools, p.tool) + ":" + os.Getenv("PATH")
			if p.mode == "missing" {
				// only the other compressor can be found
				other := "zstd"
				if p.tool == "zstd" {
					other = "xz"
				}
				d := filepath.Join(dir, "bin")
				must(os.MkdirAll(d, 0755))
				for _, o := range []string{"/usr/bin/", "/bin/", "/usr/local/bin/"} {
					if fileExists(o + other) {
						must(os.Symlink(o+other, filepath.Join(d, other)))
						break
					}
				}
				fa.Path = d
			}
			fa.Tool = p.mode
		case "asset":
			what = fmt.Sprintf("%s with %q as %s", t.name, p.mode, p.tool)
			fa.Asset, fa.AssetText = filepath.Join(w.Dir, "assets/un", p.tool), p.mode
		}
		if p.kind != "kill" {
			killed, err := spawn("fault", fa, &r)
			if err != nil || killed {
				ps.add("C08", "crash", "%v", err)
				return
			}
			if r.Err1 == "" && p.kind != "fail" {
				// an empty or odd definition may be acceptable
				if p.kind == "tool" {
					ps.add("C08", "silent", "success was reported")
				}
				whole(false)
			} else if r.Err1 == "" {
				whole(false)
				ps = append(ps, checkSums(filepath.Join(w.Dir, "repo/un"), "un")...)
			} else {
				c.Count("failed_index_runs", 1)
				whole(!p.renamed)
			}
		}
		// once the cause is gone
		m, err := openQuiet(w.Dir)
		if err != nil {
			ps.add("C08", "reopen", "cannot be opened again: %v", err)
			return
		}
		defer m.Close()
		if err := m.Index("un"); err != nil {
			ps.add("C08", "retry", "a later attempt fails: %v", err)
			return
		}
		o := observe(m, w.Dir, nil)
		for _, x := range append(checkIndex(o, w.Dir, "un"), leftovers(o)...) {
			if strings.Contains(x.Props, "C08") {
				ps.add("C08", "retry:"+x.Key, "after a later attempt %s", x.Msg)
			}
		}
	})
	if len(pts) > 0 {
		c.Extra("index_fault_points", len(pts))
	}
}
