package main

import (
	"bufio"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/json"
	"encoding/pem"
	"fmt"
	"io"
	"math/big"
	mrand "math/rand"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"
)

// C27: the content delivery network is played by the harness (a proxy on the
// loopback which answers for any host), which records every request together
// with what the repository published at that moment.

func init() {
	register(&Check{ID: "C27", Level: "exploration",
		Rule:   "an evaluation is one history of operations, or one daemon session, during which every request to the CDN is recorded and judged against what was published; distinct by what was published and answered",
		Assume: []string{"the purge lists are read from /etc/ferryd (redirected to a scratch directory inside the process)", "requests go through the proxy named by HTTPS_PROXY and trust SSL_CERT_FILE, as Go programs do"},
		Run:    runC27})
}

// redirectPath is set by the instrumented build.
var redirectPath func(from, to string)

type cdnReq struct {
	What, Auth, Body string
	Key              string // the files asked for
	Seen             string // what was published at that moment
	Answer           string
}

type cdn struct {
	mu    sync.Mutex
	ln    net.Listener
	cert  *tls.Certificate
	ca    []byte
	lists map[string]*cdnList // by files
	odd   []cdnReq
}

// cdnList is what the CDN knows about one purge list.
type cdnList struct {
	dir    string // where the index is published
	reqs   []cdnReq
	answer []string // the next answers; the last one stays
}

func newCDN() *cdn {
	key, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	must(err)
	t := &x509.Certificate{SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: "api.cloudflare.com"}, NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(24 * time.Hour),
		DNSNames: []string{"api.cloudflare.com", "*.cloudflare.com"}, IsCA: true, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageCertSign | x509.KeyUsageDigitalSignature}
	der, err := x509.CreateCertificate(rand.Reader, t, t, &key.PublicKey, key)
	must(err)
	p := &cdn{cert: &tls.Certificate{Certificate: [][]byte{der}, PrivateKey: key}, lists: map[string]*cdnList{}}
	p.ca = pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der})
	p.ln, err = net.Listen("tcp", "127.0.0.1:0")
	must(err)
	go func() {
		for {
			c, err := p.ln.Accept()
			if err != nil {
				return
			}
			go p.serve(c)
		}
	}()
	return p
}

func (p *cdn) serve(c net.Conn) {
	defer c.Close()
	br := bufio.NewReader(c)
	req, err := http.ReadRequest(br)
	if err != nil {
		return
	}
	if req.Method != "CONNECT" {
		p.mu.Lock()
		p.odd = append(p.odd, cdnReq{What: req.Method + " " + req.URL.String()})
		p.mu.Unlock()
		return
	}
	io.WriteString(c, "HTTP/1.1 200 OK\r\n\r\n")
	t := tls.Server(c, &tls.Config{Certificates: []tls.Certificate{*p.cert}, NextProtos: []string{"http/1.1"}})
	host := req.Host
	tr := bufio.NewReader(t)
	for {
		q, err := http.ReadRequest(tr)
		if err != nil {
			return
		}
		body, err := io.ReadAll(q.Body)
		if err != nil {
			return
		}
		if !p.answer(t, host, q, string(body)) {
			return
		}
	}
}

func listKey(files []string) string {
	m := map[string]bool{}
	for _, f := range files {
		m[f] = true
	}
	var l []string
	for f := range m {
		l = append(l, f)
	}
	sort.Strings(l)
	return strings.Join(l, "\n")
}

// indexState describes the index files of a repository, and tells a republished
// one from the one before.
func indexState(dir string) string {
	var l []string
	for _, f := range []string{"", ".sha1sum", ".sha256sum", ".xz", ".xz.sha1sum", ".xz.sha256sum", ".zst", ".zst.sha1sum", ".zst.sha256sum"} {
		st, err := os.Stat(filepath.Join(dir, "eopkg-index.xml"+f))
		if err != nil {
			l = append(l, f+" absent")
			continue
		}
		l = append(l, fmt.Sprint(f, " ", st.Sys().(*syscall.Stat_t).Ino, " ", st.ModTime().UnixNano(), " ", st.Size()))
	}
	return strings.Join(l, "\n")
}

// answer records and answers one request; false: the connection is closed.
func (p *cdn) answer(w io.Writer, host string, q *http.Request, body string) bool {
	r := cdnReq{What: q.Method + " https://" + host + q.URL.RequestURI(), Auth: q.Header.Get("Authorization"), Body: body}
	var x struct {
		Files []string `json:"files"`
		Every bool     `json:"purge_everything"`
	}
	err := json.Unmarshal([]byte(body), &x)
	r.Key = listKey(x.Files)
	p.mu.Lock()
	l := p.lists[r.Key]
	if err != nil || x.Every || l == nil || len(x.Files) == 0 {
		r.Answer = "forbidden"
		p.odd = append(p.odd, r)
		l = nil
	} else {
		r.Seen = indexState(l.dir)
		r.Answer = "ok"
		if len(l.answer) > 0 {
			r.Answer = l.answer[0]
			if len(l.answer) > 1 {
				l.answer = l.answer[1:]
			}
		}
		l.reqs = append(l.reqs, r)
	}
	p.mu.Unlock()
	say := func(code int, text string) bool {
		fmt.Fprintf(w, "HTTP/1.1 %d %s\r\nContent-Type: application/json\r\nContent-Length: %d\r\n\r\n%s", code, http.StatusText(code), len(text), text)
		return true
	}
	switch r.Answer {
	case "ok":
		return say(200, `{"success":true,"errors":[],"messages":[],"result":{"id":"x"}}`)
	case "refused":
		return say(200, `{"success":false,"errors":[{"code":1,"message":"no such zone, sorry"}],"messages":[]}`)
	case "refused-bare":
		return say(200, `{"success":false}`)
	case "refused-empty":
		return say(200, `{"success":false,"errors":[],"messages":[]}`)
	case "forbidden":
		return say(403, `{"success":false,"errors":[{"code":10000,"message":"no such token, sorry"}]}`)
	case "bad-request":
		return say(400, `{"success":false,"errors":[{"code":1012,"message":"request must contain one of ..., sorry"}]}`)
	case "garbage":
		return say(200, `<html>`)
	case "garbage-error":
		return say(404, `<html>`)
	case "busy":
		return say(429, `{"success":false}`)
	case "down":
		return say(503, `<html>`)
	case "cut":
		io.WriteString(w, "HTTP/1.1 200 OK\r\nContent-Length: 100\r\n\r\n{\"success\":")
		return false
	case "silent":
		time.Sleep(10 * time.Minute)
	}
	return false // "closed"
}

// register makes the list of a repository known; returned is the file's text.
func (p *cdn) register(r *mrand.Rand, name, dir string) (*cdnList, string) {
	n := 1 + r.Intn(6)
	if r.Intn(8) == 0 {
		n = 25
	}
	var files []string
	text := strings.Repeat("\n", r.Intn(3))
	for k := 0; k < n; k++ {
		f := fmt.Sprintf("https://packages.example.org/%s/%s", name, []string{"eopkg-index.xml", "eopkg-index.xml.xz?a=1&b=<2>", "eopkg-index.xml.sha1sum", "æøå\"quoted\"", "with space.xz", "a%20b", "back\\slash", "semi;colon#frag"}[r.Intn(8)])
		if k > 7 {
			f += fmt.Sprint(k)
		}
		files = append(files, f)
		text += f
		if k < n-1 || r.Intn(3) > 0 {
			text += strings.Repeat("\n", 1+r.Intn(3))
		}
	}
	l := &cdnList{dir: dir}
	p.mu.Lock()
	p.lists[listKey(files)] = l
	p.mu.Unlock()
	return l, text
}

func (p *cdn) take(l *cdnList) []cdnReq {
	p.mu.Lock()
	defer p.mu.Unlock()
	x := l.reqs
	l.reqs = nil
	return x
}

func (p *cdn) set(l *cdnList, a ...string) {
	p.mu.Lock()
	l.answer = a
	p.mu.Unlock()
}

func (p *cdn) env(dir string) []string {
	ca := filepath.Join(dir, "ca.pem")
	must(os.WriteFile(ca, p.ca, 0644))
	none := filepath.Join(dir, "no-certs")
	must(os.MkdirAll(none, 0755))
	return []string{"HTTPS_PROXY=http://" + p.ln.Addr().String(), "SSL_CERT_FILE=" + ca, "SSL_CERT_DIR=" + none}
}

const cdnToken, cdnZone = "t0ken-ABC_1234567890abcdefghijklmnopqrst", "0123456789abcdef0123456789abcdef"

// judge checks the form of requests.
func (q cdnReq) judge() string {
	if want := "POST https://api.cloudflare.com:443/client/v4/zones/" + cdnZone + "/purge_cache"; q.What != want {
		return fmt.Sprintf("the request is %s", q.What)
	}
	if q.Auth != "Bearer "+cdnToken {
		return fmt.Sprintf("the request is authorised by %q", q.Auth)
	}
	return ""
}

// bad answers, and how often the CDN may have to be asked
var cdnBad = []string{"refused", "refused-bare", "refused-empty", "forbidden", "bad-request", "garbage", "garbage-error", "busy", "down", "cut", "closed"}

// answers after which another try is worth it
var cdnPassing = []string{"busy", "down", "closed"}

func runC27(c *Ctx) {
	if redirectPath == nil {
		must(fmt.Errorf("not the instrumented build"))
	}
	p := newCDN()
	etc := c.TempDir("etc")
	redirectPath("/etc/ferryd", etc)
	for _, e := range append(p.env(c.TempDir("ca")), "CLOUDFLARE_API_TOKEN="+cdnToken, "CLOUDFLARE_ZONE_ID="+cdnZone) {
		i := strings.IndexByte(e, '=')
		os.Setenv(e[:i], e[i+1:])
	}
	setTimeScale(2000)
	cat := newCatalog(filepath.Join(c.Dir, "w", "cat"), stdSpecs(false))
	c.Each(c.N(60, 2500), 0, func(i int) { purgeHistory(c, p, cat, etc, i) })
	c.Each(c.N(16, 400), 4, func(i int) { purgeTogether(c, p, cat, etc, i) })
	c.Each(c.N(20, 400), 5, func(i int) { purgeDaemon(c, p, i) })
	p.mu.Lock()
	defer p.mu.Unlock()
	for _, q := range p.odd {
		c.Violate("unexpected-request", fmt.Sprintf("a request that belongs to no purge list: %s %s", q.What, cut(q.Body, 500)), q)
	}
}

// purgeHistory: random operations; whatever published an index must have had the
// CDN purged, with that index in place.
func purgeHistory(c *Ctx, p *cdn, cat *Catalog, etc string, i int) {
	r := c.Rng("purge", i)
	h := newHist(c, cat, c.ID)
	defer h.close()
	h.SkipIndexCheck = true
	var names []string
	lists := map[string]*cdnList{}
	for k := 0; k < 4; k++ {
		n := fmt.Sprintf("%s%d", []string{"p", "q-p", "P", "z"}[k], i)
		names = append(names, n)
		if k == 0 || r.Intn(3) > 0 {
			l, text := p.register(r, n, filepath.Join(h.w.Dir, "repo", n))
			lists[n] = l
			must(os.WriteFile(filepath.Join(etc, n), []byte(text), 0644))
		} else if r.Intn(2) == 0 {
			must(os.WriteFile(filepath.Join(etc, n), []byte(strings.Repeat("\n", r.Intn(3))), 0644))
		}
	}
	pub := map[string]string{}
	var seen []string
	h.after = func(s Step) (ps Problems) {
		for _, n := range names {
			now := indexState(filepath.Join(h.w.Dir, "repo", n))
			reqs := []cdnReq{}
			if l := lists[n]; l != nil {
				reqs = p.take(l)
			}
			for _, q := range reqs {
				if e := q.judge(); e != "" {
					ps.add("C27", "request", "%s: %s", s, e)
				}
				c.Count("purges_judged", 1)
			}
			exists := !strings.HasPrefix(now, " absent")
			again := s.Op == "index" && s.Repo == n && exists
			if lists[n] != nil && exists && (now != pub[n] || again) {
				seen = append(seen, n)
				c.Count("publications", 1)
				if len(reqs) == 0 {
					ps.add("C27", "not-purged", "%s: the index of %s was published, the CDN was not asked to drop the old one", s, n)
				} else if q := reqs[len(reqs)-1]; q.Seen != now {
					ps.add("C27", "purged-early", "%s: when the CDN was last asked to drop the files of %s, the index published now was not yet (all) in place:\nthen %s\nnow %s", s, n, q.Seen, now)
				}
			}
			pub[n] = now
		}
		return
	}
	pr := Profile{Repos: names, Weights: weights(map[string]int{"delta": 14, "mkdelta": 3, "assets": 2, "index": 8, "clone": 5}), JobPct: 50}
	for k := 0; k < 16 && !h.Dead; k++ {
		h.step(gen(r, h.m, pr))
	}
	// one publication with a CDN that doesn't do as asked
	for _, n := range names {
		l := lists[n]
		if l == nil || h.m.Repos[n] == nil || h.Dead {
			continue
		}
		a := cdnBad[r.Intn(len(cdnBad))]
		p.set(l, a)
		c.purgeRefused(p, h.w, n, l, a, h.Done)
		pass := cdnPassing[r.Intn(len(cdnPassing))]
		p.set(l, pass, "ok")
		old := indexState(l.dir)
		err := h.w.M.Index(n)
		reqs := p.take(l)
		if err != nil || len(reqs) != 2 || reqs[1].Seen != indexState(l.dir) || old == indexState(l.dir) {
			c.Violate("not-retried", fmt.Sprintf("%s: the CDN answers %q once and would do as asked the next time: %d requests, %v", n, pass, len(reqs), err), h.Done)
		}
		c.Count("purges_retried", 1)
		seen = append(seen, n, a, pass)
	}
	for _, n := range names {
		os.Remove(filepath.Join(etc, n))
	}
	if i < 2 {
		c.Sample(map[string]interface{}{"history": h.Done, "published_then_refused": seen})
	}
	c.Eval(fmt.Sprint(i, seen))
	for s := range h.states {
		c.State(s)
	}
}

// purgeRefused: a publication which the CDN doesn't follow is complete, but
// reported as a failure.
func (c *Ctx) purgeRefused(p *cdn, w *World, n string, l *cdnList, a string, replay interface{}) {
	old := indexState(l.dir)
	err := w.M.Index(n)
	reqs := p.take(l)
	if err == nil {
		c.Violate("refusal-hidden:"+a, fmt.Sprintf("%s: the CDN answers %q, but indexing reports success", n, a), replay)
	} else if (a == "refused" || a == "forbidden" || a == "bad-request") && !strings.Contains(err.Error(), "sorry") {
		c.Violate("reason-lost", fmt.Sprintf("%s: the CDN answers %q with a reason, what is reported is: %v", n, a, err), replay)
	}
	if len(reqs) == 0 || indexState(l.dir) == old || reqs[len(reqs)-1].Seen != indexState(l.dir) {
		c.Violate("not-published:"+a, fmt.Sprintf("%s: the CDN answers %q to %d requests, the new index is not in place", n, a, len(reqs)), replay)
	}
	o := observe(w.M, w.Dir, nil)
	for _, x := range checkIndex(o, w.Dir, n) {
		c.Violate("index:"+a, fmt.Sprintf("the CDN answers %q, afterwards %s", a, x.Msg), replay)
	}
	for f := range tree(l.dir) {
		if strings.Contains(f, ".new") {
			c.Violate("leftover:"+a, fmt.Sprintf("the CDN answers %q, %s is left", a, f), replay)
		}
	}
	c.Count("purges_refused", 1)
}

// purgeTogether: several threads index several repositories at once.
func purgeTogether(c *Ctx, p *cdn, cat *Catalog, etc string, i int) {
	r := c.Rng("purge2", i)
	w := newWorld(c.TempDir("p"), cat)
	defer os.RemoveAll(filepath.Dir(w.Dir))
	defer func() { w.M.Close() }()
	var names []string
	var lists []*cdnList
	for k := 0; k < 3; k++ {
		n := fmt.Sprintf("t%d-%d", i, k)
		must(w.M.CreateRepo(n))
		must(w.M.AddPackages(n, w.stageAll(cat.idsOf("alpha", 2, 9)), false))
		l, text := p.register(r, n, filepath.Join(w.Dir, "repo", n))
		must(os.WriteFile(filepath.Join(etc, n), []byte(text), 0644))
		defer os.Remove(filepath.Join(etc, n))
		names, lists = append(names, n), append(lists, l)
	}
	var wg sync.WaitGroup
	for k := 0; k < 6; k++ {
		rr := c.Rng("purge2", i, k)
		wg.Add(1)
		go func() {
			defer wg.Done()
			for x := 0; x < 4; x++ {
				if err := w.M.Index(names[rr.Intn(3)]); err != nil {
					c.Violate("index-fails", fmt.Sprintf("several threads index: %v", err), i)
				}
			}
		}()
	}
	wg.Wait()
	tot := 0
	for k, l := range lists {
		reqs := p.take(l)
		for _, q := range reqs {
			if e := q.judge(); e != "" {
				c.Violate("request", e, q)
			}
		}
		tot += len(reqs)
		now := indexState(l.dir)
		if strings.HasPrefix(now, " absent") {
			continue
		}
		if len(reqs) == 0 || reqs[len(reqs)-1].Seen != now {
			c.Violate("purged-early", fmt.Sprintf("several threads index %s: the last of %d requests to the CDN came before the last publication", names[k], len(reqs)), i)
		}
	}
	if tot < 24 {
		c.Violate("not-purged", fmt.Sprintf("24 publications, but only %d requests to the CDN", tot), i)
	}
	c.Count("purges_judged", int64(tot))
	c.Eval(fmt.Sprint("together", i))
}

// purgeDaemon: the daemon with and without what it needs, and with a CDN that
// misbehaves: every job's outcome tells, and the jobs after it go on.
func purgeDaemon(c *Ctx, p *cdn, i int) {
	s := newScn(c, "purged", i)
	defer s.close()
	etc := filepath.Join(s.dir, "etc")
	must(os.MkdirAll(etc, 0755))
	env := append(p.env(s.dir), "VERIF_ETC="+etc, "VERIF_SCALE_AFTER=1", "CLOUDFLARE_API_TOKEN="+cdnToken, "CLOUDFLARE_ZONE_ID="+cdnZone)
	active := true
	how := "configured"
	switch i % 10 {
	case 0:
		env, active, how = append(env, "CLOUDFLARE_API_TOKEN="), false, "no token"
	case 1:
		env, active, how = append(env, "CLOUDFLARE_ZONE_ID="), false, "no zone"
	}
	s.note("start, %s", how)
	d := s.up("with a CDN", daemonOpts{Env: env})
	if d == nil {
		return
	}
	cl := d.Client()
	lists := map[string]*cdnList{}
	var names []string
	for k := 0; k < 3; k++ {
		n := fmt.Sprintf("d%d-%d", i, k)
		names = append(names, n)
		l, text := p.register(s.r, n, filepath.Join(s.base, "repo", n))
		if k < 2 {
			lists[n] = l
			must(os.WriteFile(filepath.Join(etc, n), []byte(text), 0644))
		}
		if err := cl.CreateRepo(n); err != nil {
			s.bad("client-fails", "creating %s: %v", n, err)
			return
		}
	}
	prev, err := d.waitIdle(30 * time.Second)
	if err != nil {
		s.bad("not-idle", "%v", err)
		return
	}
	if len(prev.Failed) > 0 {
		s.bad("job-failed", "%q failed: %s", prev.Failed[0].Description, prev.Failed[0].Error)
		return
	}
	for _, l := range lists {
		p.take(l)
	}
	if s.r.Intn(2) == 0 && active { // a list that can't be read
		must(os.Mkdir(filepath.Join(etc, names[2]), 0755))
	}
	for k := 0; k < 6 && !s.failed; k++ {
		n := names[s.r.Intn(2)]
		a := []string{"ok", "ok", cdnBad[s.r.Intn(len(cdnBad))], "silent"}[s.r.Intn(4)]
		if k == 5 {
			n, a = names[2], "ok"
		}
		s.note("index %s, the CDN answers %s", n, a)
		l := lists[n]
		if l != nil {
			p.set(l, a)
		}
		old := indexState(filepath.Join(s.base, "repo", n))
		if err := cl.IndexRepo(n); err != nil {
			s.bad("client-fails", "indexing %s: %v", n, err)
			return
		}
		v, err := d.waitIdle(60 * time.Second)
		if err != nil {
			s.bad("stalled:"+a, "the CDN answers %q: %v", a, err)
			return
		}
		done := v.since(prev)
		prev = v
		if len(done) != 1 {
			s.bad("jobs", "one job was submitted, %d are done", len(done))
			return
		}
		now := indexState(filepath.Join(s.base, "repo", n))
		if now == old || strings.Contains(now, "absent") {
			s.bad("not-published:"+a, "%s was indexed, but no new index is in place (%q)", n, done[0].Error)
		}
		fail := active && a != "ok"
		if l == nil {
			_, err := os.Stat(filepath.Join(etc, n))
			fail = err == nil
		} else {
			reqs := p.take(l)
			switch {
			case !active && len(reqs) > 0:
				s.bad("unasked", "%s: the CDN got %d requests", how, len(reqs))
			case active && len(reqs) == 0:
				s.bad("not-purged", "%s was indexed, the CDN got no request", n)
			case active && reqs[len(reqs)-1].Seen != now:
				s.bad("purged-early", "%s: the CDN was asked before the index was in place", n)
			}
			for _, q := range reqs {
				if e := q.judge(); e != "" {
					s.bad("request", "%s", e)
				}
			}
			c.Count("purges_judged", int64(len(reqs)))
		}
		if fail != (done[0].Error != "") {
			s.bad("outcome:"+a, "%s, the CDN answers %q: the job's outcome is %q", how, a, done[0].Error)
		}
		for f := range tree(filepath.Join(s.base, "repo", n)) {
			if strings.Contains(f, ".new") {
				s.bad("leftover:"+a, "%s is left", f)
			}
		}
	}
	if !s.failed && !d.Stop(20*time.Second) {
		s.bad("no-stop", "the daemon does not stop")
	}
	s.eval()
}
