package main

// C18, second part: malformed requests and uploads against the running daemon,
// beside valid work.

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	"net/url"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/getsolus/ferryd/src/ferryd/core"
)

var postRoutes = []string{"import", "clone", "copy/source", "pull", "remove/source", "trim/packages"}
var getRoutes = []string{"create/repo", "remove/repo", "delta/repo", "index/repo", "trim/obsoletes"}

// rawSend writes bytes to the socket and waits for an answer, the end of the
// connection or a while.
func rawSend(sock string, b []byte, wait time.Duration) (answer string, err error) {
	cn, err := net.DialTimeout("unix", sock, 5*time.Second)
	if err != nil {
		return "", err
	}
	defer cn.Close()
	cn.SetDeadline(time.Now().Add(wait))
	cn.Write(b)
	buf := make([]byte, 4096)
	n, err := cn.Read(buf)
	return string(buf[:n]), err
}

func malformedBody(r *rand.Rand) (kind, body string) {
	good := []string{`{"path":["/no/such.eopkg"]}`, `{"cloneName":"x","copyAll":true}`, `{"source":"a","target":"b","relno":3,"skipIndex":true}`, `{"maxPackages":3}`}[r.Intn(4)]
	switch r.Intn(11) {
	case 0:
		return "cut", good[:r.Intn(len(good))]
	case 1:
		x := []byte(good)
		x[0] = byte(r.Intn(32))
		return "flip", string(x)
	case 2:
		x := make([]byte, 1+r.Intn(300))
		r.Read(x)
		x[0] = 0xff
		return "random", string(x)
	case 3:
		return "empty", ""
	case 4:
		return "deep", strings.Repeat("[", 20000) + strings.Repeat("]", 20000)
	case 5:
		return "deep-field", `{"x":` + strings.Repeat(`{"a":`, 12000) + "1" + strings.Repeat("}", 12000) + "}"
	case 6:
		return "types", `{"path":{"a":1},"cloneName":[1],"copyAll":"yes","source":7,"target":null,"relno":"3","maxPackages":"x","skipIndex":1}`
	case 7:
		return "array", `[1,2,3]`
	case 8:
		return "string", `"` + strings.Repeat("x", 100000) + `"`
	case 9:
		return "number", `{"path":1e999,"cloneName":1e999,"source":1e999,"maxPackages":99999999999999999999999}`
	}
	return "open", `{"path":["` + strings.Repeat("a", 50000)
}

func badID(r *rand.Rand) (kind, id string) {
	l := []struct{ k, v string }{{"dots", ".."}, {"dot", "."}, {"slash", "a/b"}, {"root", "/"}, {"escape", "../../etc"}, {"nul", "a\x00b"}, {"newline", "\n"}, {"utf8", "\xff\xfe"}, {"long", strings.Repeat("L", 300)}, {"longer", strings.Repeat("M", 100000)}, {"nosuch", fmt.Sprint("nosuch", r.Intn(1000))}, {"space", " "}}
	x := l[r.Intn(len(l))]
	return x.k, x.v
}

// cutOff: the server closed the connection before it had read the request.
func cutOff(err error) bool {
	return errors.Is(err, syscall.EPIPE) || errors.Is(err, syscall.ECONNRESET) || errors.Is(err, io.EOF) || errors.Is(err, io.ErrUnexpectedEOF)
}

// malformedDaemon: everything malformed goes in beside valid work; all valid
// work completes as if it had been alone.
func malformedDaemon(c *Ctx, cat *Catalog, i int) {
	s := newScn(c, "maldaemon", i)
	defer s.close()
	r := s.r
	d := s.up("the daemon", daemonOpts{})
	if d == nil {
		return
	}
	m := newModel(cat)
	stage := filepath.Join(s.dir, "stage")
	must(os.MkdirAll(stage, 0755))
	nst := 0
	nvalid := 0
	var descs []string
	send := func(st Step) {
		var paths []string
		for _, id := range st.Pkgs {
			nst++
			pd := filepath.Join(stage, fmt.Sprint(nst))
			must(os.MkdirAll(pd, 0755))
			b, err := os.ReadFile(cat.Pkgs[id].Path)
			must(err)
			must(os.WriteFile(filepath.Join(pd, id), b, 0644))
			paths = append(paths, filepath.Join(pd, id))
		}
		s.note("valid: %s", st)
		if err := viaClient(d.Client(), st, paths); err != nil {
			s.bad("valid-refused", "beside malformed input, %s: %v", st, err)
			return
		}
		descs = append(descs, describeStep(st))
		nvalid++
		m.apply(st)
	}
	send(st("create", "un"))
	send(st("create", "trash"))
	send(Step{Op: "import", Repo: "un", Pkgs: cat.IDs[:5]})
	if s.failed {
		return
	}
	if _, err := d.waitIdle(60 * time.Second); err != nil {
		s.bad("not-idle", "%v", err)
		return
	}
	// malformed traffic until told to stop
	stop := make(chan struct{})
	var wg sync.WaitGroup
	var mu sync.Mutex
	accepted, refused, manifests, maybe, doomed := 0, 0, 0, 0, 0
	fail := func(key, f string, a ...interface{}) {
		mu.Lock()
		defer mu.Unlock()
		if !s.failed {
			s.bad(key, f, a...)
		}
	}
	limit := 60
	for w := 0; w < 3; w++ {
		wr := c.Rng("malformed-traffic", i, w)
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			for k := 0; k < limit; k++ {
				select {
				case <-stop:
					if k > 15 {
						return
					}
				default:
				}
				if w == 2 {
					malformedUpload(c, wr, s, cat, k, &mu, &manifests, &maybe)
					time.Sleep(time.Duration(wr.Intn(6)) * time.Millisecond)
					continue
				}
				switch wr.Intn(6) {
				case 0, 1: // a body that cannot be decoded
					kind, body := malformedBody(wr)
					path := "/api/v1/" + postRoutes[wr.Intn(len(postRoutes))] + "/un"
					code, _, err := rawReq(s.sock, "POST", path, []byte(body), 20*time.Second)
					c.Count("malformed_bodies", 1)
					c.Eval("body|" + kind + "|" + path)
					if cutOff(err) && !d.Exited() { // answered before everything was read
						c.Count("bodies_cut_off", 1)
						continue
					}
					if err != nil {
						fail("no-answer", "POST %s with a malformed body (%s): %v", path, kind, err)
						return
					}
					if code < 400 {
						if kind == "types" || kind == "number" || kind == "deep-field" {
							mu.Lock()
							accepted++
							doomed++ // it names nothing that could be done
							mu.Unlock()
							continue
						}
						fail("accepted:body-"+kind, "POST %s with a malformed body (%s %q) is answered with %d", path, kind, cut(body, 60), code)
						return
					}
				case 2, 3: // names that are none
					kind, id := badID(wr)
					path := getRoutes[1+wr.Intn(len(getRoutes)-1)]
					if kind != "nosuch" && kind != "space" && wr.Intn(2) == 0 {
						path = getRoutes[0]
					}
					code, _, err := rawReq(s.sock, "GET", "/api/v1/"+path+"/"+url.PathEscape(id), nil, 20*time.Second)
					c.Count("malformed_names", 1)
					c.Eval("id|" + kind + "|" + path)
					mu.Lock()
					if err == nil && code == 200 {
						accepted++
						if (kind == "nosuch" || kind == "space") && path != getRoutes[0] {
							doomed++
						}
					} else {
						refused++
					}
					mu.Unlock()
					if err != nil {
						fail("no-answer", "GET %s/%q: %v", path, cut(id, 50), err)
						return
					}
				case 4: // no HTTP at all
					var b []byte
					switch wr.Intn(7) {
					case 0:
						b = make([]byte, 1+wr.Intn(2000))
						wr.Read(b)
					case 1:
						b = []byte("GET /api/v1/status HTTP/9.9\r\n\r\n")
					case 2:
						b = []byte("GET " + strings.Repeat("/", 70000) + " HTTP/1.1\r\nHost: x\r\n\r\n")
					case 3:
						b = []byte("GET /api/v1/status HTTP/1.1\r\nHost: x\r\n" + strings.Repeat("A: b\r\n", 200000) + "\r\n")
					case 4:
						b = []byte("POST /api/v1/import/un HTTP/1.1\r\nHost: x\r\nContent-Length: -5\r\n\r\n")
					case 5:
						b = []byte("POST /api/v1/import/un HTTP/1.1\r\nHost: x\r\nTransfer-Encoding: chunked\r\n\r\nzz\r\n")
					case 6:
						b = []byte("\x16\x03\x01\x02\x00\x01\x00\x01\xfc\x03\x03")
					}
					c.Count("malformed_streams", 1)
					rawSend(s.sock, b, 300*time.Millisecond)
				case 5: // given up in the middle
					cn, err := net.Dial("unix", s.sock)
					if err != nil {
						fail("no-answer", "connecting: %v", err)
						return
					}
					cn.Write([]byte("POST /api/v1/import/un HTTP/1.1\r\nHost: x\r\nContent-Length: 100\r\n\r\n{\"path\":[\"x"))
					if wr.Intn(2) == 0 {
						cn.(*net.UnixConn).CloseWrite()
						time.Sleep(time.Millisecond)
					}
					cn.Close()
					c.Count("abandoned_requests", 1)
				}
			}
		}(w)
	}
	p := Profile{Repos: []string{"un", "other", "more"}, Weights: map[string]int{"create": 3, "clone": 3, "import": 10, "pull": 3, "copysrc": 3, "rmsrc": 3, "trim": 2, "index": 2}}
	for k := 0; k < 10 && !s.failed; k++ {
		st := gen(r, m, p)
		if st.Repo == "trash" || st.Target == "trash" {
			continue
		}
		mm := m.clone()
		if oc := mm.apply(st); oc.Fail {
			continue // valid work only
		}
		send(st)
		if r.Intn(2) == 0 {
			d.Client().GetPoolItems()
			d.jobs()
		}
		time.Sleep(time.Duration(r.Intn(30)) * time.Millisecond)
	}
	close(stop)
	wg.Wait()
	if s.failed {
		return
	}
	if i%5 == 0 { // more events than the system keeps for a reader
		s.note("a burst of events")
		inc := filepath.Join(s.base, "incoming")
		var bg sync.WaitGroup
		for w := 0; w < 6; w++ {
			bg.Add(1)
			go func(w int) {
				defer bg.Done()
				for k := 0; k < 20000; k++ {
					syscall.ForkLock.RLock()
					fd, err := syscall.Open(filepath.Join(inc, fmt.Sprintf("burst%d", w)), syscall.O_CREAT|syscall.O_WRONLY|syscall.O_CLOEXEC, 0644)
					if err == nil {
						syscall.Close(fd)
					}
					syscall.ForkLock.RUnlock()
				}
			}(w)
		}
		bg.Wait()
		c.Count("event_bursts", 1)
	}
	v, err := d.waitIdle(120 * time.Second)
	if err != nil {
		s.bad("not-idle", "after malformed input: %v\n%s", err, d.quitDump())
		return
	}
	// work submitted afterwards, an upload included
	send(st("index", "un"))
	up := ""
	for _, id := range cat.IDs {
		pub := m.pub(m.Repos["un"])
		if q, ok := pub[m.sp(id).Name]; !m.Repos["un"].Pk[id] && (!ok || m.sp(q).Release < m.sp(id).Release) {
			up = id
			break
		}
	}
	if up != "" {
		inc := filepath.Join(s.base, "incoming")
		b, err := os.ReadFile(cat.Pkgs[up].Path)
		must(err)
		must(os.WriteFile(filepath.Join(inc, up), b, 0644))
		writeUploadManifest(inc, "last.tram", "un", cat, []string{up})
		m.apply(st("upload", "un", []string{up}))
		nvalid++
		for t0 := time.Now(); time.Since(t0) < 20*time.Second && fileExists(filepath.Join(inc, "last.tram")); time.Sleep(5 * time.Millisecond) {
		}
		if fileExists(filepath.Join(inc, "last.tram")) {
			s.bad("upload-ignored", "after malformed input a valid upload is not processed")
			return
		}
		c.Count("uploads_after_malformed", 1)
	}
	if v, err = d.waitIdle(60 * time.Second); err != nil {
		s.bad("not-idle", "%v", err)
		return
	}
	if t := d.Trouble(); t != "" || d.Exited() {
		s.bad("crash:"+panicSite(t), "the daemon crashed: %s", cut(d.Err.String(), 4000))
		return
	}
	// every valid operation succeeded, every failure has a reason
	okd := map[string]int{}
	for _, j := range v.Completed {
		okd[j.Description]++
	}
	for _, j := range v.Failed {
		if j.Error == "" {
			s.bad("no-reason", "%q failed without a reason", j.Description)
			return
		}
		for _, x := range descs {
			if j.Description == x && okd[x] == 0 {
				s.bad("valid-failed", "beside malformed input %q failed: %s", j.Description, j.Error)
				return
			}
		}
	}
	if nf, nc := len(v.Failed), len(v.Completed); nf < 100 && nc < 100 {
		if n := nvalid + accepted + manifests; nf+nc > n || nf+nc < n-maybe {
			s.bad("unaccounted", "%d jobs failed and %d completed; %d valid operations, %d malformed requests and %d malformed uploads were accepted", nf, nc, nvalid, accepted, manifests)
			return
		}
		if want := doomed + manifests - maybe; nf < want {
			s.bad("not-failed", "%d jobs are recorded as failed; %d malformed requests and %d malformed uploads cannot have succeeded", nf, doomed, manifests-maybe)
			return
		}
		c.Count("all_jobs_accounted_for", 1)
	}
	c.Count("malformed_jobs_failed", int64(len(v.Failed)))
	if !d.Stop(60 * time.Second) {
		s.bad("hang", "the daemon does not end after malformed input\n%s", d.quitDump())
		return
	}
	mgr, err := core.NewManager(s.base)
	must(err)
	o := observe(mgr, s.base, nil)
	mgr.Close()
	if x := o.Repos["trash"]; x != nil && len(x.IDs()) > 0 {
		s.bad("trash-taken", "damaged uploads brought in %v", x.IDs())
		return
	}
	m.Repos["trash"].Fresh = false
	for _, n := range []string{"\n", "\xff\xfe"} { // odd, but names
		delete(o.Repos, n)
	}
	ps := m.compare(o, st("index", "un"), Outcome{})
	ps = append(ps, checkInvariants(o, invOpts{Orphans: true, Accepted: cat.Accepted(), SharedCopy: true})...)
	ps = append(ps, checkIndex(o, s.base, "un")...)
	if len(ps) > 0 {
		s.bad("state:"+ps[0].Key, "valid work beside malformed input: %s", cut(ps.String(), 1500))
	}
	s.eval()
	if i < 1 {
		c.Sample(s.log)
	}
}

// malformedUpload places something damaged into the incoming area of the running
// daemon: a manifest that is none, or one naming files that are damaged.
func malformedUpload(c *Ctx, r *rand.Rand, s *scn, cat *Catalog, k int, mu *sync.Mutex, manifests, maybe *int) {
	inc := filepath.Join(s.base, "incoming")
	name := filepath.Join(inc, fmt.Sprintf("bad%d.tram", k))
	put := func(p string, b []byte) {
		syscall.ForkLock.RLock()
		err := os.WriteFile(p, b, 0644)
		syscall.ForkLock.RUnlock()
		must(err)
	}
	kind := ""
	// things that are no files are made in place or moved in
	made := name
	if r.Intn(2) == 0 {
		made = filepath.Join(s.dir, fmt.Sprintf("made%d.tram", k))
	}
	defer func() {
		if fi, err := os.Lstat(made); made != name && err == nil && fi != nil {
			must(os.Rename(made, name))
		}
	}()
	switch r.Intn(8) {
	case 0:
		kind = "directory"
		must(os.MkdirAll(made, 0755))
		put(filepath.Join(made, "x.tram"), []byte("x"))
	case 1:
		kind = "pipe"
		must(syscall.Mkfifo(made, 0644))
	case 2:
		kind = "symlink"
		must(os.Symlink([]string{"/dev/zero", "nowhere", "/", filepath.Base(name)}[r.Intn(4)], made))
	case 3:
		kind = "other-file"
		x := make([]byte, r.Intn(4000))
		r.Read(x)
		put(filepath.Join(inc, fmt.Sprintf("bad%d.%s", k, []string{"eopkg", "tram.part", "Tram", "tram ", "txt"}[r.Intn(5)])), x)
	case 4, 5: // damaged content, fine manifest
		kind = "package"
		sp := evilSpec(fmt.Sprint("evil", k), 1)
		var b []byte
		for refuse := false; !refuse; {
			_, b, refuse = evilPackage(r, sp)
		}
		put(filepath.Join(inc, sp.ID()), b)
		mu.Lock()
		*manifests++
		mu.Unlock()
		put(name, []byte(transitText("trash", map[string][]byte{sp.ID(): b}, []string{sp.ID()})))
	default:
		kind = "manifest"
		id := cat.IDs[r.Intn(len(cat.IDs))]
		b := []byte("not the file")
		t := transitText("trash", map[string][]byte{id: b}, []string{id}) // the file is missing in any case
		_, t = mangleText(r, t)
		mu.Lock()
		*manifests++
		mu.Unlock()
		put(name, bytes.ToValidUTF8([]byte(t), []byte("?")))
		if r.Intn(4) == 0 { // taken away again
			os.Remove(name)
			mu.Lock()
			*maybe++ // perhaps before it was noticed
			mu.Unlock()
			kind = "manifest-removed"
		}
	}
	c.Count("malformed_uploads", 1)
	c.Eval(fmt.Sprint("upload|", kind, "|", k))
}
