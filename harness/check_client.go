package main

// C21: what clients and the command line ask for is what happens.

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/getsolus/ferryd/src/ferryd/core"
	"github.com/getsolus/ferryd/src/libferry"
)

func init() {
	register(&Check{ID: "C21", Level: "exploration",
		Rule:   "one case = one history of client calls, command-line invocations, uploads and refused requests against the real daemon, or one client call against a scripted server; non-trivial: something was enacted or refused; distinct by content",
		Assume: []string{"argument text is valid UTF-8 (the transport is JSON)", "the release numbers 0 and below mean all releases, as the daemon documents for the command line's default"},
		Run:    runC21})
}

var oddRepos = []string{"unstable", "a b", "é☃", "a%2Fb", "q?x=1", "h#frag", "semi;colon&x=y", "plus+plus", "%", "..a", "x.y", "quo\"te'", "back\\slash", "tab\tname", "日本語", "UPPER", "a:b@c", "new\nline", "{id}", ":id", "*", "~", "%zz", strings.Repeat("long", 40)}

func clientSpecs() (out []*PkgSpec) {
	for _, n := range []struct{ name, source string }{{"alpha", "alpha"}, {"alpha-devel", "alpha"}, {"alpha-dbginfo", "alpha"}, {"beta", "Spä ced"}, {"gamma", "g?a#m&m=a"}, {"delta", "delta"}} {
		for _, r := range []int{1, 2, 10, 70000, 2147483647} {
			s := &PkgSpec{Name: n.name, Source: n.source, Release: r, Version: fmt.Sprintf("1.%d", r), Salt: fmt.Sprint(n.name, r)}
			s.Files = []FileSpec{{Path: "usr", Dir: true}, {Path: "usr/" + n.name + "-common", Content: "common content of " + n.name},
				{Path: "usr/" + n.name + "-data", Content: fmt.Sprintf("data of %s at %d\n", n.name, r)}}
			out = append(out, s)
		}
	}
	return
}

func runC21(c *Ctx) {
	fakeServer(c)
	cat := newCatalog(c.TempDir("cat"), clientSpecs())
	n := c.N(240, 6000)
	c.Each(n, 0, func(i int) { clientHistory(c, cat, i) })
	c.Each(c.N(8, 80), 0, func(i int) { unstorable(c, cat, i) })
}

// describeStep is the description of the job a step names.
func describeStep(s Step) string {
	switch s.Op {
	case "create":
		return fmt.Sprintf("Create repository '%s'", s.Repo)
	case "clone":
		return fmt.Sprintf("Clone repository '%s' into '%s'", s.Repo, s.Target)
	case "pull":
		return fmt.Sprintf("Pull repository '%s' into '%s'", s.Repo, s.Target)
	case "import":
		return fmt.Sprintf("Add %v packages to repository '%s'", len(s.Pkgs), s.Repo)
	case "rmsrc":
		return fmt.Sprintf("Remove sources by id '%s' (rel: %d) in '%s'", s.Source, s.N, s.Repo)
	case "copysrc":
		return fmt.Sprintf("Copy sources by id '%s' (rel: %d) in '%s' to '%s'", s.Source, s.N, s.Repo, s.Target)
	case "trimobs":
		return fmt.Sprintf("Trim obsoletes from repository '%s'", s.Repo)
	case "trim":
		return fmt.Sprintf("Trim packages to maximum of %d in '%s'", s.N, s.Repo)
	case "delete":
		return fmt.Sprintf("Delete repository '%s'", s.Repo)
	case "index":
		return fmt.Sprintf("Index repository '%s'", s.Repo)
	case "deltarepo":
		return fmt.Sprintf("Produce deltas for '%s'", s.Repo)
	}
	return ""
}

// viaClient performs the step through the client library.
func viaClient(cl *libferry.Client, s Step, paths []string) error {
	switch s.Op {
	case "create":
		return cl.CreateRepo(s.Repo)
	case "clone":
		return cl.CloneRepo(s.Repo, s.Target, s.Flag)
	case "pull":
		return cl.PullRepo(s.Repo, s.Target)
	case "import":
		return cl.ImportPackages(s.Repo, paths)
	case "rmsrc":
		return cl.RemoveSource(s.Repo, s.Source, s.N)
	case "copysrc":
		return cl.CopySource(s.Repo, s.Target, s.Source, s.N, s.Flag)
	case "trimobs":
		return cl.TrimObsolete(s.Repo)
	case "trim":
		return cl.TrimPackages(s.Repo, s.N)
	case "delete":
		return cl.DeleteRepo(s.Repo)
	case "index":
		return cl.IndexRepo(s.Repo)
	case "deltarepo":
		return cl.DeltaRepo(s.Repo)
	}
	panic(harnessErr{fmt.Errorf("no client call for %s", s.Op)})
}

// cliArgs is the command line naming the step (nil: it cannot be named).
func cliArgs(r *rand.Rand, s *Step, paths []string) []string {
	num := func(n int) string { // decimal, now and then with leading zeros
		if n > 0 && r.Intn(3) == 0 {
			return strings.Repeat("0", 1+r.Intn(3)) + fmt.Sprint(n)
		}
		return fmt.Sprint(n)
	}
	rel := func(a []string) []string {
		if s.N < 1 { // only by leaving it out
			s.N = -1
			return a
		}
		return append(a, num(s.N))
	}
	sw := func(cmd []string, on bool, short, long string, a ...string) []string {
		f := short
		if r.Intn(2) == 0 {
			f = long
		}
		if !on {
			f = ""
			if r.Intn(3) == 0 {
				f = long + "=false"
			}
		}
		// before or after the other arguments
		if f != "" && r.Intn(2) == 0 {
			return append(append(append(cmd, f), "--"), a...)
		}
		if f != "" {
			for _, x := range a {
				if strings.HasPrefix(x, "-") {
					return append(append(append(cmd, f), "--"), a...)
				}
			}
			return append(append(cmd, a...), f)
		}
		return append(append(cmd, "--"), a...)
	}
	switch s.Op {
	case "create":
		return []string{"create-repo", "--", s.Repo}
	case "clone":
		return sw([]string{"clone"}, s.Flag, "-f", "--full", s.Repo, s.Target)
	case "pull":
		return []string{"pull", "--", s.Repo, s.Target}
	case "import":
		return append([]string{"import", "--", s.Repo}, paths...)
	case "rmsrc":
		return rel([]string{"remove", "source", "--", s.Repo, s.Source})
	case "copysrc":
		return sw([]string{"copy", "source"}, s.Flag, "-x", "--skip-index", rel([]string{s.Repo, s.Target, s.Source})...)
	case "trimobs":
		return []string{"trim", "obsolete", "--", s.Repo}
	case "trim":
		return []string{"trim", "packages", "--", s.Repo, num(s.N)}
	case "delete":
		return []string{"remove", "repo", "--", s.Repo}
	case "index":
		return []string{"index", "--", s.Repo}
	case "deltarepo":
		return []string{"delta", "--", s.Repo}
	}
	return nil
}

// badInvocations are command lines that name no valid operation.
func badInvocations(r *rand.Rand, repo string) []string {
	l := [][]string{
		{"create-repo"}, {"create-repo", repo, "other"}, {"clone", repo}, {"clone", repo, "x", "y"}, {"pull", repo}, {"pull", repo, "x", "y"},
		{"remove", "source", repo}, {"remove", "source", "--", repo, "alpha", "0"}, {"remove", "source", "--", repo, "alpha", "-1"}, {"remove", "source", "--", repo, "alpha", "abc"},
		{"remove", "source", "--", repo, "alpha", "1.5"}, {"remove", "source", "--", repo, "alpha", "99999999999"}, {"remove", "source", "--", repo, "alpha", ""}, {"remove", "source", "--", repo, "alpha", "1", "2"},
		{"remove", "source", "--", repo, "alpha", "0x1"}, {"remove", "source", "--", repo, "alpha", "0b10"}, {"copy", "source", "--", repo, "x", "alpha", "0o12"}, {"trim", "packages", "--", repo, "0x2"}, {"trim", "packages", "--", repo, "1e1"}, {"remove", "source", "--", repo, "alpha", " 1"}, {"remove", "source", "--", repo, "alpha", "1_0"},
		{"copy", "source", repo, "x"}, {"copy", "source", "--", repo, "x", "alpha", "0"}, {"copy", "source", "--", repo, "x", "alpha", "-3"}, {"copy", "source", "--", repo, "x", "alpha", "1x"}, {"copy", "source", "--", repo, "x", "alpha", "4294967297"}, {"copy", "source", "--", repo, "x", "alpha", "1", "2"},
		{"trim", "packages", repo}, {"trim", "packages", "--", repo, "0"}, {"trim", "packages", "--", repo, "-1"}, {"trim", "packages", "--", repo, "two"}, {"trim", "packages", "--", repo, "3000000000"}, {"trim", "packages", "--", repo, "1", "1"},
		{"trim", "obsolete"}, {"trim", "obsolete", repo, "x"}, {"index"}, {"index", repo, "x"}, {"delta"}, {"delta", repo, "x"}, {"import", repo}, {"import"},
		{"import", repo, "/nonexistent/x86_64.eopkg"}, {"reset", "completed", "x"}, {"reset", "failed", "x"}, {"list", "repos", "x"}, {"list", "pool", "x"}, {"status", "x"},
		{"clone", "--nosuch", repo, "x"}, {"copy", "source", "-q", repo, "x", "alpha"}, {"nosuchcommand"},
	}
	return l[r.Intn(len(l))]
}

func clientHistory(c *Ctx, cat *Catalog, i int) {
	r := c.Rng("client", i)
	dir := c.TempDir("c")
	defer os.RemoveAll(dir)
	w := &World{Dir: filepath.Join(dir, "base"), Stage: filepath.Join(dir, "stage"), cat: cat}
	must(os.MkdirAll(w.Dir, 0755))
	must(os.MkdirAll(w.Stage, 0755))
	d := startDaemon(w.Dir, filepath.Join(dir, "s"), daemonOpts{})
	defer func() { d.Kill() }()
	if !d.Ready(30 * time.Second) {
		c.Violate("daemon-start", "the daemon did not start in an empty directory: "+d.Err.String(), nil)
		return
	}
	began := time.Now()
	m := newModel(cat)
	p := Profile{Weights: weights(map[string]int{"delta": 0, "reopen": 0, "deltarepo": 4, "trim": 8, "copysrc": 10, "trimobs": 6, "upload": 7})}
	odd := append([]string{}, oddRepos...)
	r.Shuffle(len(odd), func(a, b int) { odd[a], odd[b] = odd[b], odd[a] })
	p.Repos = odd[:4]
	var done []interface{}
	dead := false
	bad := func(key, f string, a ...interface{}) {
		dead = true
		c.Violate(key, fmt.Sprintf(f, a...), map[string]interface{}{"history": done, "log": d.Log()})
	}
	prev, err := d.jobs()
	if err != nil {
		bad("status-fails", "status of a fresh daemon: %v", err)
		return
	}
	// what is expected of every operation: njobs new jobs of which the first is desc
	settle := func(what string, njobs int, desc string, wantFail bool) *jobView {
		v, err := d.waitIdle(60 * time.Second)
		if err != nil {
			bad("not-idle", "after %s: %v", what, err)
			return nil
		}
		nw := v.since(prev)
		prev = v
		if len(nw) != njobs {
			var l []string
			for _, j := range nw {
				l = append(l, fmt.Sprintf("%q", j.Description))
			}
			bad("njobs", "%s caused %d jobs (%s), expected %d", what, len(nw), strings.Join(l, ", "), njobs)
			return nil
		}
		if njobs == 0 {
			return v
		}
		j := nw[0]
		if j.Description != desc {
			bad("description", "%s was recorded as %q, expected %q", what, j.Description, desc)
			return nil
		}
		if j.Failed != wantFail {
			bad("outcome", "%s: failed=%v (%s), expected %v", what, j.Failed, j.Error, wantFail)
			return nil
		}
		if j.Failed == (j.Error == "") {
			bad("reason", "%s: failed=%v with the reason %q", what, j.Failed, j.Error)
			return nil
		}
		if j.Timing.Begin.Before(j.Timing.Queued) || j.Timing.End.Before(j.Timing.Begin) || j.Timing.Queued.Before(began.Add(-time.Minute)) {
			bad("timing", "%s: times %+v", what, j.Timing)
			return nil
		}
		return v
	}
	observeAll := func(what string) {
		// the manager's database belongs to the daemon
		if !d.Stop(60 * time.Second) {
			bad("stop", "the daemon did not stop: %s", d.quitDump())
			return
		}
		mm, err := core.NewManager(w.Dir)
		if err != nil {
			bad("reopen", "after %s: %v", what, err)
			return
		}
		var kd []string
		for id := range m.Deltas {
			kd = append(kd, id)
		}
		o := observe(mm, w.Dir, kd)
		mm.Close()
		ps := m.compare(o, Step{Op: "create"}, Outcome{})
		acc := cat.Accepted()
		ps = append(ps, checkInvariants(o, invOpts{Orphans: true, Accepted: acc})...)
		for rid, mr := range m.Repos {
			if mr.Fresh && o.Repos[rid] != nil {
				ps = append(ps, checkIndex(o, w.Dir, rid)...)
			}
		}
		c.Count("full_state_comparisons", 1)
		if len(ps) > 0 {
			bad("state:"+ps[0].Key, "after %s: %s", what, cut(ps.String(), 1500))
		}
	}
	steps := 14
	if !c.Quick() {
		steps = 24
	}
	serial := 0
	for k := 0; k < steps && !dead; k++ {
		// queries and refused command lines change nothing
		switch r.Intn(6) {
		case 0:
			rp := p.Repos[0]
			for id := range m.Repos {
				rp = id
			}
			a := badInvocations(r, rp)
			done = append(done, map[string]interface{}{"refused": a})
			out, eo, code := runCLI(dir, d.Sock, a...)
			c.Count("invalid_invocations", 1)
			if code == 0 {
				bad("bad-invocation", "ferryctl %q exited with 0 (%s%s)", a, out, eo)
				break
			}
			settle(fmt.Sprintf("the invalid ferryctl %q", a), 0, "", false)
		case 1:
			rawRefusals(c, r, d, m, p, bad, settle, &done, &prev)
		case 2:
			which := r.Intn(2)
			done = append(done, map[string]interface{}{"reset": which})
			var err error
			code := 0
			if r.Intn(2) == 0 {
				if which == 0 {
					err = d.Client().ResetFailed()
				} else {
					err = d.Client().ResetCompleted()
				}
			} else {
				_, _, code = runCLI(dir, d.Sock, "reset", []string{"failed", "completed"}[which])
			}
			if err != nil || code != 0 {
				bad("reset", "reset: %v, exit status %d", err, code)
				break
			}
			v, err := d.jobs()
			if err != nil {
				bad("status-fails", "%v", err)
				break
			}
			wf, wc := len(prev.Failed), len(prev.Completed)
			if which == 0 {
				wf = 0
			} else {
				wc = 0
			}
			if len(v.Failed) != wf || len(v.Completed) != wc || len(v.Active) != 0 {
				bad("reset", "after reset %d: %d failed, %d completed jobs; expected %d, %d", which, len(v.Failed), len(v.Completed), wf, wc)
				break
			}
			prev = v
			c.Count("resets", 1)
		}
		if dead {
			break
		}
		s := gen(r, m, p)
		if s.Op == "trim" && r.Intn(6) == 0 {
			s.N = []int{128, 300, 65536, 2147483647}[r.Intn(4)]
		}
		if s.Op == "import" && len(s.Pkgs) == 0 || s.Op == "upload" && len(s.Pkgs) == 0 {
			continue
		}
		if s.Op == "upload" && strings.ContainsAny(s.Repo, "\"\\\n\t") {
			continue // written as TOML; texts are C12's matter
		}
		if s.Op == "upload" && (i+k)%2 == 0 { // foreign repository
			if m.Repos[p.Repos[3]] == nil && r.Intn(4) == 0 && !strings.ContainsAny(p.Repos[3], "\"\\\n\t") {
				s.Repo = p.Repos[3]
			}
		}
		var paths []string
		via := "client"
		if r.Intn(2) == 0 {
			via = "cli"
		}
		switch s.Op {
		case "assets":
			if m.Repos[s.Repo] == nil {
				continue
			}
			setAssets(filepath.Join(w.Dir, "assets", s.Repo), assetVariants[s.N%len(assetVariants)])
			m.apply(s)
			done = append(done, s)
			continue
		case "import":
			serial++
			sub := filepath.Join(w.Stage, fmt.Sprint(serial))
			for x, id := range s.Pkgs {
				pd := filepath.Join(sub, fmt.Sprint("p ", x))
				must(os.MkdirAll(pd, 0755))
				b, err := os.ReadFile(cat.Pkgs[id].Path)
				must(err)
				must(os.WriteFile(filepath.Join(pd, id), b, 0644))
				paths = append(paths, filepath.Join(pd, id))
			}
		}
		before := m.clone()
		idxBefore, _, _, _ := sha1file(filepath.Join(w.Dir, "repo", s.Target, "eopkg-index.xml"))
		var cli []string
		if via == "cli" && s.Op != "upload" {
			if s.Op == "import" {
				a := paths
				switch r.Intn(3) {
				case 0: // a directory, searched recursively, with other files in it
					a = []string{filepath.Dir(filepath.Dir(paths[0]))}
					must(os.WriteFile(filepath.Join(a[0], "README"), []byte("x"), 0644))
					must(os.WriteFile(filepath.Join(a[0], "alpha-1-2-1-x86_64.delta.eopkg"), []byte("x"), 0644))
				case 1: // relative to the working directory
					a = nil
					for _, x := range paths {
						rel, err := filepath.Rel(dir, x)
						must(err)
						a = append(a, rel)
					}
				}
				cli = cliArgs(r, &s, a)
			} else {
				cli = cliArgs(r, &s, nil)
			}
		}
		oc := m.apply(s)
		done = append(done, map[string]interface{}{"step": s, "via": via, "cli": cli})
		what := fmt.Sprintf("%s via %s", s, via)
		wantJobs, desc := 1, describeStep(s)
		switch {
		case s.Op == "upload":
			// the watcher notices it
			name := fmt.Sprintf("up%d.tram", k)
			inc := filepath.Join(w.Dir, "incoming")
			for f := range tree(inc) {
				os.Remove(filepath.Join(inc, f))
			}
			desc = fmt.Sprintf("Process manifest '%s'", filepath.Join(inc, name))
			for _, id := range s.Pkgs {
				b, err := os.ReadFile(cat.Pkgs[id].Path)
				must(err)
				must(os.WriteFile(filepath.Join(inc, id), b, 0644))
			}
			if r.Intn(2) == 0 { // moved into place
				must(os.Rename(writeUploadManifest(dir, name, s.Repo, cat, s.Pkgs), filepath.Join(inc, name)))
			} else {
				writeUploadManifest(inc, name, s.Repo, cat, s.Pkgs)
			}
			for t0 := time.Now(); time.Since(t0) < 20*time.Second; time.Sleep(3 * time.Millisecond) {
				v, err := d.jobs()
				if err == nil && (len(v.Active) > 0 || len(v.since(prev)) > 0) {
					break
				}
			}
			c.Count("uploads", 1)
		case cli != nil:
			out, eo, code := runCLI(dir, d.Sock, cli...)
			c.Count("cli_invocations", 1)
			if s.Op == "trim" && s.N < 1 { // refused by the command line itself
				wantJobs = 0
				if code == 0 {
					bad("bad-invocation", "ferryctl %q exited with 0", cli)
				}
				break
			}
			if code != 0 || eo != "" {
				bad("cli-fails", "ferryctl %q: exit status %d: %s%s", cli, code, out, eo)
			}
		default:
			if err := viaClient(d.Client(), s, paths); err != nil {
				bad("client-fails", "%s: %v", what, err)
			}
			c.Count("client_calls", 1)
		}
		if dead {
			break
		}
		if s.Op == "deltarepo" && !oc.Fail {
			names := map[string]bool{}
			for id := range before.Repos[s.Repo].Pk {
				names[cat.Pkgs[id].Spec.Name] = true
			}
			wantJobs += len(names)
		}
		if wantJobs > 0 || s.Op == "trim" {
			if settle(what, wantJobs, desc, oc.Fail) == nil {
				break
			}
		}
		if s.Op == "copysrc" && s.Flag && m.Repos[s.Target] != nil {
			if x, _, _, _ := sha1file(filepath.Join(w.Dir, "repo", s.Target, "eopkg-index.xml")); x != idxBefore {
				bad("copy-indexed", "%s re-indexed %s although asked not to", what, s.Target)
				break
			}
			c.Count("copies_without_indexing", 1)
		}
		checkQueries(c, r, d, dir, m, bad, what, prev, began)
		if !dead && k == steps/2 {
			observeAll(what)
			if !dead {
				d = startDaemon(w.Dir, d.Sock, daemonOpts{})
				if !d.Ready(30 * time.Second) {
					bad("daemon-restart", "the daemon did not start again: %s", d.Err.String())
				}
			}
		}
	}
	if t := d.Trouble(); t != "" {
		bad("crash:"+panicSite(t), "the daemon crashed: %s", t)
	}
	if !dead {
		observeAll("the history")
	}
	b, _ := json.Marshal(done)
	c.Eval(sha1hex(b))
	c.State(m.digest())
	if i < 2 {
		c.Sample(done)
	}
}

// writeUploadManifest writes only the manifest.
func writeUploadManifest(dir, name, repo string, cat *Catalog, ids []string) string {
	var t strings.Builder
	fmt.Fprintf(&t, "[manifest]\nversion = \"1.0\"\ntarget = \"%s\"\n", repo)
	for _, id := range ids {
		b, err := os.ReadFile(cat.Pkgs[id].Path)
		must(err)
		fmt.Fprintf(&t, "\n[[file]]\npath = \"%s\"\nsha256 = \"%s\"\n", id, sha256hex(b))
	}
	p := filepath.Join(dir, name)
	// a child forked meanwhile would close the file, and so announce it, later
	syscall.ForkLock.RLock()
	err := os.WriteFile(p, []byte(t.String()), 0644)
	syscall.ForkLock.RUnlock()
	must(err)
	return p
}

// rawRefusals sends requests that are not what the client would send: either
// they are refused and cause nothing, or they are accepted and cause one job.
func rawRefusals(c *Ctx, r *rand.Rand, d *Daemon, m *Model, p Profile, bad func(string, string, ...interface{}), settle func(string, int, string, bool) *jobView, done *[]interface{}, prev **jobView) {
	posts := []string{"import", "clone", "copy/source", "pull", "remove/source", "trim/packages"}
	gets := []string{"create/repo", "remove/repo", "delta/repo", "index/repo", "trim/obsoletes"}
	bodies := []string{"", "{", "[]", "\"x\"", "{\"relno\": \"x\", \"maxPackages\": [], \"cloneName\": 1, \"source\": {}, \"path\": {}}", "\x00\xff", "{}}"[:1], "nul"}
	var method, path, body string
	switch r.Intn(4) {
	case 0, 1: // undecodable body
		method, path, body = "POST", "/api/v1/"+posts[r.Intn(len(posts))]+"/nosuch", bodies[r.Intn(len(bodies))]
	case 2: // wrong method
		if r.Intn(2) == 0 {
			method, path = "GET", "/api/v1/"+posts[r.Intn(len(posts))]+"/nosuch"
		} else {
			method, path = []string{"POST", "PUT", "DELETE"}[r.Intn(3)], "/api/v1/"+gets[r.Intn(len(gets))]+"/nosuch"
		}
	case 3: // no such route
		l := []string{"/", "/api", "/api/v1", "/api/v1/create/repo", "/api/v1/create/repo/", "/api/v1/create/repo/a/b", "/api/v1/import/", "/api/v1/remove/repo//", "/api/v2/create/repo/x", "/api/v1/nosuch/x", "/api/v1/list", "/api/v1/reset", "/api/v1/../v1/none"}
		method, path = []string{"GET", "POST"}[r.Intn(2)], l[r.Intn(len(l))]
	}
	*done = append(*done, map[string]interface{}{"raw": method + " " + path, "body": body})
	code, _, err := rawReq(d.Sock, method, path, []byte(body), 20*time.Second)
	if err != nil {
		bad("raw-no-answer", "%s %s with body %q: %v", method, path, body, err)
		return
	}
	c.Count("raw_requests", 1)
	if code == 200 {
		bad("raw-accepted", "%s %s with body %q was accepted", method, path, body)
		return
	}
	settle(fmt.Sprintf("the refused %s %s", method, path), 0, "", false)
}

// checkQueries compares what the queries say with the model and the daemon's status.
func checkQueries(c *Ctx, r *rand.Rand, d *Daemon, dir string, m *Model, bad func(string, string, ...interface{}), what string, v *jobView, began time.Time) {
	repos, err := d.Client().GetRepos()
	if err != nil {
		bad("list-repos", "%v", err)
		return
	}
	var want []string
	for id := range m.Repos {
		want = append(want, id)
	}
	sort.Strings(want)
	sort.Strings(repos)
	if strings.Join(repos, "\x00") != strings.Join(want, "\x00") || len(repos) != len(want) {
		bad("list-repos", "after %s: repositories %q, expected %q", what, repos, want)
		return
	}
	items, err := d.Client().GetPoolItems()
	if err != nil {
		bad("list-pool", "%v", err)
		return
	}
	got := map[string]int{}
	for _, it := range items {
		if _, dup := got[it.ID]; dup {
			bad("list-pool", "after %s: %s is listed twice", what, it.ID)
			return
		}
		got[it.ID] = it.RefCount
	}
	exp := map[string]int{}
	for _, mr := range m.Repos {
		for id := range mr.Pk {
			exp[id]++
		}
		for id := range mr.De {
			exp[id]++
		}
	}
	for id, n := range exp {
		if got[id] != n {
			bad("list-pool", "after %s: pool item %s has reference count %d, expected %d", what, id, got[id], n)
			return
		}
	}
	for id, n := range got {
		if exp[id] == 0 && n > 0 {
			// remembered as a delta that is not possible?
			if !m.Skip[id] {
				bad("list-pool", "after %s: unexpected pool item %s (%d)", what, id, n)
				return
			}
		}
	}
	c.Count("queries_compared", 2)
	if st, err := askStatus(d.Client()); err != nil || st.TimeStarted.After(time.Now().Add(time.Minute)) || st.TimeStarted.Before(began.Add(-time.Minute)) {
		bad("status", "status says started at %v: %v", st, err)
		return
	}
	switch r.Intn(4) {
	case 0:
		out, eo, code := runCLI(dir, d.Sock, "list", "repos")
		if code != 0 || eo != "" {
			bad("cli-list-repos", "exit status %d: %s", code, eo)
			return
		}
		// names may hold line breaks
		rest := out
		for _, id := range want {
			x := " * " + id + "\n"
			if !strings.Contains(rest, x) {
				bad("cli-list-repos", "after %s: repository %q is not in the output %q", what, id, out)
				return
			}
			rest = strings.Replace(rest, x, "", 1)
		}
		if strings.Contains(rest, " * ") {
			bad("cli-list-repos", "after %s: more than %q in the output %q", what, want, out)
			return
		}
		c.Count("cli_lists_compared", 1)
	case 1:
		out, eo, code := runCLI(dir, d.Sock, "list", "pool")
		if code != 0 || eo != "" {
			bad("cli-list-pool", "exit status %d: %s", code, eo)
			return
		}
		n := 0
		for _, l := range strings.Split(out, "\n") {
			var cnt int
			var id string
			if k, _ := fmt.Sscanf(l, " - RefCount: %d | %s", &cnt, &id); k == 2 {
				n++
				if g, ok := got[id]; !ok || g != cnt {
					bad("cli-list-pool", "after %s: the output says %q, the daemon %d", what, l, g)
					return
				}
			}
		}
		if n != len(got) {
			bad("cli-list-pool", "after %s: %d items in the output, the daemon has %d", what, n, len(got))
			return
		}
		c.Count("cli_lists_compared", 1)
	case 2:
		all := r.Intn(2) == 0
		a := []string{"status"}
		if all {
			a = append(a, []string{"-a", "--all"}[r.Intn(2)])
		}
		out, eo, code := runCLI(dir, d.Sock, a...)
		if code != 0 || eo != "" {
			bad("cli-status", "exit status %d: %s", code, eo)
			return
		}
		if x := judgeStatusOutput(out, all, v.Failed, v.Active, v.Completed); x != "" {
			bad("cli-status", "after %s: %s in the output:\n%s", what, x, out)
		}
		c.Count("cli_status_compared", 1)
	}
}

// judgeStatusOutput compares the tables of the status command with the jobs.
func judgeStatusOutput(out string, all bool, failed, active, completed []*libferry.Job) string {
	type row struct{ cells []string }
	var rows []row
	for _, l := range strings.Split(out, "\n") {
		f := strings.Split(l, "|")
		if len(f) < 4 {
			continue
		}
		st := strings.TrimSpace(f[0])
		if st == "STATUS" {
			continue
		}
		if st == "" && len(rows) > 0 {
			for i := range f {
				if i < len(rows[len(rows)-1].cells) {
					rows[len(rows)-1].cells[i] += strings.TrimSpace(f[i])
				}
			}
			continue
		}
		for i := range f {
			f[i] = strings.TrimSpace(f[i])
		}
		rows = append(rows, row{f})
	}
	squash := func(s string) string {
		return strings.Map(func(r rune) rune {
			if r == ' ' || r == '\n' || r == '\t' {
				return -1
			}
			return r
		}, s)
	}
	idx := 0
	sect := func(l []*libferry.Job, word string, newest bool, stamp func(*libferry.Job) time.Time, col int) string {
		if len(l) == 0 {
			return ""
		}
		if !strings.Contains(out, fmt.Sprintf("%s jobs: (%d tracked)", word, len(l))) {
			return fmt.Sprintf("no %q with %d tracked", word, len(l))
		}
		l = append([]*libferry.Job{}, l...)
		sort.SliceStable(l, func(a, b int) bool {
			if newest {
				return l[b].Timing.Queued.Before(l[a].Timing.Queued)
			}
			return l[a].Timing.Queued.Before(l[b].Timing.Queued)
		})
		if !all && len(l) > 10 {
			l = l[:10]
		}
		for _, j := range l {
			if idx >= len(rows) {
				return "missing rows, the next is " + j.Description
			}
			f := rows[idx].cells
			idx++
			want := "success"
			if word == "Failed" {
				want = "failed"
			} else if word == "Current/Active" {
				want = "running"
				if j.Timing.Begin.IsZero() {
					want = "queued"
				}
			}
			if f[0] != want {
				return fmt.Sprintf("row %q, expected status %s of %q", f, want, j.Description)
			}
			if strings.ContainsAny(j.Description+j.Error, "|") {
				continue
			}
			if f[1] != stamp(j).Format("2006-01-02 15:04:05") {
				return fmt.Sprintf("row %q, expected time %v of %q", f, stamp(j), j.Description)
			}
			if len(f) <= col || squash(f[col]) != squash(j.Description) {
				return fmt.Sprintf("row %q, expected description %q", f, j.Description)
			}
			if word == "Failed" && (len(f) <= col+1 || squash(f[col+1]) != squash(j.Error)) {
				return fmt.Sprintf("row %q, expected error %q", f, j.Error)
			}
		}
		return ""
	}
	if x := sect(failed, "Failed", true, func(j *libferry.Job) time.Time { return j.Timing.End }, 3); x != "" {
		return x
	}
	if x := sect(active, "Current/Active", false, func(j *libferry.Job) time.Time { return j.Timing.Queued }, 3); x != "" {
		return x
	}
	if x := sect(completed, "Completed", true, func(j *libferry.Job) time.Time { return j.Timing.End }, 4); x != "" {
		return x
	}
	if idx != len(rows) {
		return fmt.Sprintf("%d rows too many", len(rows)-idx)
	}
	return ""
}

// unstorable: a request that cannot be recorded must be reported as an error and never run.
func unstorable(c *Ctx, cat *Catalog, i int) {
	r := c.Rng("unstorable", i)
	dir := c.TempDir("u")
	defer os.RemoveAll(dir)
	base := filepath.Join(dir, "base")
	must(os.MkdirAll(base, 0755))
	ff := filepath.Join(dir, "fault")
	d := startDaemon(base, filepath.Join(dir, "s"), daemonOpts{Env: []string{"VERIF_FAIL_FILE=" + ff}})
	defer d.Kill()
	if !d.Ready(30 * time.Second) {
		c.Violate("daemon-start", "the daemon did not start: "+d.Err.String(), nil)
		return
	}
	var trace []string
	bad := func(key, f string, a ...interface{}) {
		c.Violate(key, fmt.Sprintf(f, a...), map[string]interface{}{"trace": trace, "log": d.Log()})
	}
	must2 := func(err error) {
		if err != nil {
			bad("client-fails", "%v", err)
		}
	}
	must2(d.Client().CreateRepo("r"))
	must2(d.Client().CreateRepo("r")) // fails
	if _, err := d.waitIdle(30 * time.Second); err != nil {
		bad("not-idle", "%v", err)
		return
	}
	steps := []Step{st("create", "new"), {Op: "clone", Repo: "r", Target: "cl"}, {Op: "pull", Repo: "r", Target: "r2"}, {Op: "import", Repo: "r", Pkgs: []string{"x"}}, {Op: "rmsrc", Repo: "r", Source: "alpha", N: 1},
		{Op: "copysrc", Repo: "r", Target: "r2", Source: "alpha", N: 1}, {Op: "trimobs", Repo: "r"}, {Op: "trim", Repo: "r", N: 1}, {Op: "delete", Repo: "r"}, {Op: "index", Repo: "r"}, {Op: "deltarepo", Repo: "r"}}
	r.Shuffle(len(steps), func(a, b int) { steps[a], steps[b] = steps[b], steps[a] })
	pkg := cat.Pkgs[cat.IDs[0]].Path
	for _, s := range steps {
		before, err := d.jobs()
		if err != nil {
			bad("status-fails", "%v", err)
			return
		}
		must(os.WriteFile(ff, []byte("fail /ferry_db_jobs/"), 0644))
		cli := r.Intn(2) == 0
		trace = append(trace, fmt.Sprint(s, " cli=", cli))
		refused := false
		if cli {
			a := cliArgs(r, &s, []string{pkg})
			_, eo, code := runCLI(dir, d.Sock, a...)
			refused = code != 0
			if code != 0 && eo == "" {
				bad("cli-silent", "ferryctl %q failed with exit status %d without saying why", a, code)
			}
		} else {
			refused = viaClient(d.Client(), s, []string{pkg}) != nil
		}
		must(os.Remove(ff))
		if !refused {
			bad("unstorable-accepted:"+s.Op, "%s could not be recorded (no space), yet the caller was told it was accepted", s)
		}
		v, err := d.waitIdle(30 * time.Second)
		if err != nil {
			bad("not-idle", "%v", err)
			return
		}
		if n := v.since(before); refused && len(n) > 0 {
			bad("unstorable-run:"+s.Op, "%s was refused, yet %q was run", s, n[0].Description)
		}
		c.Count("requests_that_could_not_be_recorded", 1)
	}
	// resets report failures too
	must(os.WriteFile(ff, []byte("fail /ferry_db_jobs/"), 0644))
	if err := d.Client().ResetCompleted(); err == nil {
		bad("unstorable-accepted:reset", "resetting the completed jobs could not be recorded, yet the caller was told it succeeded")
	}
	if err := d.Client().ResetFailed(); err == nil {
		bad("unstorable-accepted:reset", "resetting the failed jobs could not be recorded, yet the caller was told it succeeded")
	}
	must(os.Remove(ff))
	repos, err := d.Client().GetRepos()
	if err != nil || strings.Join(repos, ",") != "r" {
		bad("list-repos", "repositories %q (%v) after requests that were all refused", repos, err)
	}
	c.Eval(fmt.Sprint("unstorable", i, trace))
}

// ---- a scripted server ----

type scripted struct {
	mu    sync.Mutex
	code  int
	body  string
	mode  string
	seen  []string
	ln    net.Listener
	conns sync.WaitGroup
}

func (s *scripted) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.seen = append(s.seen, r.Method+" "+r.URL.String())
	if s.mode == "close" {
		h, _ := w.(http.Hijacker)
		cn, _, err := h.Hijack()
		if err == nil {
			cn.Close()
		}
		return
	}
	if s.mode == "cut" {
		h, _ := w.(http.Hijacker)
		cn, bw, err := h.Hijack()
		if err == nil {
			fmt.Fprintf(bw, "HTTP/1.1 200 OK\r\nContent-Type: text/plain\r\nContent-Length: 100\r\n\r\n{\"repos\"")
			bw.Flush()
			cn.Close()
		}
		return
	}
	w.WriteHeader(s.code)
	fmt.Fprint(w, s.body)
}

func (s *scripted) set(mode string, code int, body string) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.mode, s.code, s.body, s.seen = mode, code, body, nil
}

func (s *scripted) count() int { s.mu.Lock(); defer s.mu.Unlock(); return len(s.seen) }

func fakeServer(c *Ctx) {
	dir := c.TempDir("f")
	sock := filepath.Join(dir, "s")
	ln, err := net.Listen("unix", sock)
	must(err)
	sv := &scripted{ln: ln}
	hs := &http.Server{Handler: sv}
	go hs.Serve(ln)
	defer hs.Close()
	pkg := filepath.Join(dir, "x-1-1-1-x86_64.eopkg")
	must(os.WriteFile(pkg, []byte("x"), 0644))
	type call struct {
		name  string
		query bool
		do    func(cl *libferry.Client) error
		cli   []string
	}
	calls := []call{
		{"CreateRepo", false, func(cl *libferry.Client) error { return cl.CreateRepo("a") }, []string{"create-repo", "a"}},
		{"DeleteRepo", false, func(cl *libferry.Client) error { return cl.DeleteRepo("a") }, []string{"remove", "repo", "a"}},
		{"DeltaRepo", false, func(cl *libferry.Client) error { return cl.DeltaRepo("a") }, []string{"delta", "a"}},
		{"IndexRepo", false, func(cl *libferry.Client) error { return cl.IndexRepo("a") }, []string{"index", "a"}},
		{"ImportPackages", false, func(cl *libferry.Client) error { return cl.ImportPackages("a", []string{"x"}) }, []string{"import", "a", pkg}},
		{"CloneRepo", false, func(cl *libferry.Client) error { return cl.CloneRepo("a", "b", true) }, []string{"clone", "a", "b"}},
		{"PullRepo", false, func(cl *libferry.Client) error { return cl.PullRepo("a", "b") }, []string{"pull", "a", "b"}},
		{"RemoveSource", false, func(cl *libferry.Client) error { return cl.RemoveSource("a", "b", 1) }, []string{"remove", "source", "a", "b", "1"}},
		{"CopySource", false, func(cl *libferry.Client) error { return cl.CopySource("a", "b", "c", 1, false) }, []string{"copy", "source", "a", "b", "c"}},
		{"TrimPackages", false, func(cl *libferry.Client) error { return cl.TrimPackages("a", 1) }, []string{"trim", "packages", "a", "1"}},
		{"TrimObsolete", false, func(cl *libferry.Client) error { return cl.TrimObsolete("a") }, []string{"trim", "obsolete", "a"}},
		{"ResetFailed", false, func(cl *libferry.Client) error { return cl.ResetFailed() }, []string{"reset", "failed"}},
		{"ResetCompleted", false, func(cl *libferry.Client) error { return cl.ResetCompleted() }, []string{"reset", "completed"}},
		{"GetRepos", true, func(cl *libferry.Client) error { _, e := cl.GetRepos(); return e }, []string{"list", "repos"}},
		{"GetPoolItems", true, func(cl *libferry.Client) error { _, e := cl.GetPoolItems(); return e }, []string{"list", "pool"}},
		{"GetStatus", true, func(cl *libferry.Client) error { _, e := cl.GetStatus(); return e }, []string{"status"}},
	}
	msg := "thé reason <&> 42"
	ej, _ := json.Marshal(&libferry.Response{Error: true, ErrorString: msg})
	type reply struct {
		name, mode string
		code       int
		body       string
		wantErr    bool
		wantMsg    bool
		only       string // "", basic, query
	}
	replies := []reply{
		{"ok-empty", "", 200, "", false, false, "basic"},
		{"ok-json", "", 200, "{}", false, false, ""},
		{"stock-error", "", 400, string(ej), true, true, ""},
		{"error-in-success", "", 200, string(ej), true, true, "basic"},
		{"plain-500", "", 500, msg, true, true, ""},
		{"plain-404", "", 404, "404 page not found\n", true, false, ""},
		{"empty-503", "", 503, "", true, false, ""},
		{"garbage", "", 200, "<html>", true, false, ""},
		{"closed", "close", 0, "", true, false, ""},
		{"cut-short", "cut", 0, "", true, false, ""},
	}
	for _, cl := range calls {
		for _, rp := range replies {
			if rp.only == "basic" && cl.query || rp.only == "query" && !cl.query {
				continue
			}
			client := libferry.NewClient(sock)
			sv.set(rp.mode, rp.code, rp.body)
			err := cl.do(client)
			client.Close()
			n := sv.count()
			rep := map[string]string{"call": cl.name, "reply": rp.name, "body": rp.body}
			if (err != nil) != rp.wantErr {
				c.Violate("reply:"+rp.name, fmt.Sprintf("client %s, the daemon answers %s (%d %q): error %v", cl.name, rp.name, rp.code, rp.body, err), rep)
			}
			if err != nil && rp.wantMsg && !strings.Contains(err.Error(), msg) {
				c.Violate("reply-reason:"+rp.name, fmt.Sprintf("client %s, the daemon answers %d %q: the error is %q", cl.name, rp.code, rp.body, err), rep)
			}
			if n != 1 {
				c.Violate("requests", fmt.Sprintf("client %s sent %d requests", cl.name, n), rep)
			}
			c.Eval("fake " + cl.name + " " + rp.name)
			c.Count("scripted_replies", 1)
		}
	}
	c.Each(len(calls)*len(replies), 8, func(i int) {
		cl, rp := calls[i%len(calls)], replies[i/len(calls)]
		if rp.only == "basic" && cl.query {
			return
		}
		d2 := c.TempDir("fc")
		s2 := filepath.Join(d2, "s")
		l2, err := net.Listen("unix", s2)
		must(err)
		sv2 := &scripted{ln: l2}
		h2 := &http.Server{Handler: sv2}
		go h2.Serve(l2)
		defer h2.Close()
		sv2.set(rp.mode, rp.code, rp.body)
		out, eo, code := runCLI(d2, s2, cl.cli...)
		rep := map[string]string{"cli": strings.Join(cl.cli, " "), "reply": rp.name, "stdout": out, "stderr": eo}
		if (code != 0) != rp.wantErr {
			c.Violate("cli-reply:"+rp.name, fmt.Sprintf("ferryctl %q, the daemon answers %s (%d %q): exit status %d", cl.cli, rp.name, rp.code, rp.body, code), rep)
		}
		if code != 0 && rp.wantErr && eo == "" {
			c.Violate("cli-silent", fmt.Sprintf("ferryctl %q, the daemon answers %s: failed without a message", cl.cli, rp.name), rep)
		}
		if rp.wantMsg && !strings.Contains(eo, msg) {
			c.Violate("cli-reason:"+rp.name, fmt.Sprintf("ferryctl %q, the daemon answers %d %q: it says %q", cl.cli, rp.code, rp.body, eo), rep)
		}
		if n := sv2.count(); n != 1 {
			c.Violate("requests", fmt.Sprintf("ferryctl %q sent %d requests", cl.cli, n), rep)
		}
		c.Eval("fakecli " + strings.Join(cl.cli, " ") + rp.name)
		c.Count("scripted_replies_cli", 1)
	})
	// nobody there
	for _, cl := range calls {
		none := filepath.Join(dir, "none")
		client := libferry.NewClient(none)
		if err := cl.do(client); err == nil {
			c.Violate("no-daemon", "client "+cl.name+" succeeded without a daemon", nil)
		}
		client.Close()
		if _, eo, code := runCLI(dir, none, cl.cli...); code == 0 || eo == "" {
			c.Violate("no-daemon", fmt.Sprintf("ferryctl %q without a daemon: exit status %d, %q", cl.cli, code, eo), nil)
		}
		c.Eval("nodaemon " + cl.name)
	}
	// queries return what is served
	r := c.Rng("served")
	for i := 0; i < c.N(30, 400); i++ {
		client := libferry.NewClient(sock)
		var rq libferry.RepoListingRequest
		for k := r.Intn(5); k > 0; k-- {
			rq.Repository = append(rq.Repository, oddRepos[r.Intn(len(oddRepos))])
		}
		b, _ := json.Marshal(&rq)
		sv.set("", 200, string(b))
		got, err := client.GetRepos()
		if err != nil || strings.Join(got, "\x00") != strings.Join(rq.Repository, "\x00") {
			c.Violate("served-repos", fmt.Sprintf("served %q, client returned %q, %v", rq.Repository, got, err), nil)
		}
		var pq libferry.PoolListingRequest
		for k := r.Intn(5); k > 0; k-- {
			pq.Item = append(pq.Item, libferry.PoolItem{ID: fmt.Sprint("p", k, oddRepos[r.Intn(len(oddRepos))]), RefCount: r.Intn(1000)})
		}
		b, _ = json.Marshal(&pq)
		sv.set("", 200, string(b))
		items, err := client.GetPoolItems()
		if err != nil || fmt.Sprint(items) != fmt.Sprint(pq.Item) {
			c.Violate("served-pool", fmt.Sprintf("served %v, client returned %v, %v", pq.Item, items, err), nil)
		}
		// status through the client and the command line
		var sq libferry.StatusRequest
		sq.TimeStarted = time.Now().UTC().Add(-time.Duration(r.Intn(100000)) * time.Second)
		sq.Version = "1.2.3"
		base := time.Date(2020, 1, 1, 0, 0, 0, 0, time.UTC)
		mk := func(kind, k int) *libferry.Job {
			q := base.Add(time.Duration(r.Intn(1000000)) * time.Second)
			j := &libferry.Job{Description: fmt.Sprintf("Job %d of kind %d on '%s'", k, kind, "repo-"+fmt.Sprint(r.Intn(9)))}
			j.Timing.Queued = q
			switch kind {
			case 0:
				j.Failed, j.Error = true, fmt.Sprintf("reason %d", r.Intn(100))
				fallthrough
			case 2:
				j.Timing.Begin = q.Add(time.Duration(r.Intn(1000)) * time.Second)
				j.Timing.End = j.Timing.Begin.Add(time.Duration(r.Intn(1000)) * time.Second)
			case 1:
				if r.Intn(2) == 0 {
					j.Timing.Begin = q.Add(time.Second)
				}
			}
			return j
		}
		sets := []*libferry.JobSet{&sq.FailedJobs, &sq.CurrentJobs, &sq.CompletedJobs}
		for kind, s := range sets {
			n := []int{0, 1, 3, 10, 11, 25}[r.Intn(6)]
			for k := 0; k < n; k++ {
				*s = append(*s, mk(kind, k))
			}
		}
		b, _ = json.Marshal(&sq)
		sv.set("", 200, string(b))
		stt, err := askStatus(client)
		if err == nil {
			b2, _ := json.Marshal(stt)
			if string(b2) != string(b) {
				err = fmt.Errorf("different")
			}
		}
		if err != nil {
			c.Violate("served-status", fmt.Sprintf("the status served is not what the client returned: %v", err), string(b))
		}
		client.Close()
		all := r.Intn(2) == 0
		a := []string{"status"}
		if all {
			a = append(a, "-a")
		}
		out, eo, code := runCLI(dir, sock, a...)
		if code != 0 {
			c.Violate("served-cli-status", fmt.Sprintf("exit status %d: %s", code, eo), string(b))
		} else if x := judgeStatusOutput(out, all, sq.FailedJobs, sq.CurrentJobs, sq.CompletedJobs); x != "" {
			c.Violate("served-cli-status", x+" in the output:\n"+cut(out, 2000), string(b))
		} else if !strings.Contains(out, "1.2.3") {
			c.Violate("served-cli-status", "the version is missing in the output", out)
		}
		c.Eval(fmt.Sprint("served", i, len(sq.FailedJobs), len(sq.CurrentJobs), len(sq.CompletedJobs), all))
	}
}
