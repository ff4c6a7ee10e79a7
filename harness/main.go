// vh is the verification harness: it drives the real ferryd code under
// generated workloads while monitors judge what they observe.
package main

import (
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	log "github.com/sirupsen/logrus"
)

const unprivUID = 65534

// Check describes one property's monitor.
type Check struct {
	ID, Level string
	Rule      string
	Assume    []string
	Run       func(c *Ctx)
}

var checks = map[string]*Check{}

func register(c *Check) { checks[c.ID] = c }

// Finding is one observed violation.
type Finding struct {
	Key    string // stable identity (known findings match on it)
	Msg    string
	Replay interface{}
}

// Ctx is what a check gets.
type Ctx struct {
	*Check
	Tier    string
	Seed    int64
	Dir     string // scratch directory of this run
	mu      sync.Mutex
	evals   int64
	dist    map[string]struct{}
	samples []interface{}
	extra   map[string]interface{}
	counts  map[string]int64
	finds   []Finding
	seen    map[string]bool
	ndir    int64
	states  map[string]struct{}
	known   map[string]bool // keys of listed findings: they do not end the run early
	limit   int
}

func (c *Ctx) Quick() bool { return c.Tier != "thorough" }

// N picks a size by tier.
func (c *Ctx) N(quick, thorough int) int {
	if c.Quick() {
		return quick
	}
	return thorough
}

// Rng returns a generator determined by the seed and the given labels only.
func (c *Ctx) Rng(parts ...interface{}) *rand.Rand {
	s := fmt.Sprint(append([]interface{}{c.ID, c.Seed}, parts...)...)
	h := uint64(1469598103934665603)
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 1099511628211
	}
	return rand.New(rand.NewSource(int64(h)))
}

func (c *Ctx) TempDir(prefix string) string {
	n := atomic.AddInt64(&c.ndir, 1)
	d := filepath.Join(c.Dir, "w", fmt.Sprintf("%s%d", prefix, n))
	must(os.MkdirAll(d, 0755))
	return d
}

// Eval records one executed case; key identifies it when non-trivial ("" = trivial).
func (c *Ctx) Eval(key string) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.evals++
	if key != "" {
		c.dist[key] = struct{}{}
	}
}

func (c *Ctx) Count(name string, n int64) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.counts[name] += n
}

func (c *Ctx) Sample(v interface{}) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if len(c.samples) < 5 {
		c.samples = append(c.samples, v)
	}
}

// State records a distinct state that was observed.
func (c *Ctx) State(s string) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.states[s] = struct{}{}
}

func (c *Ctx) NStates() int {
	c.mu.Lock()
	defer c.mu.Unlock()
	return len(c.states)
}

func (c *Ctx) Extra(k string, v interface{}) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.extra[k] = v
}

// Violate records a violation (first occurrence per key).
func (c *Ctx) Violate(key, msg string, replay interface{}) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.counts["violations_observed"]++
	if c.seen[key] || len(c.finds) > 200 {
		return
	}
	c.seen[key] = true
	c.finds = append(c.finds, Finding{key, msg, replay})
}

// Enough reports whether so many different violations were found that going on
// adds nothing.
func (c *Ctx) Enough() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	n := 0
	for _, f := range c.finds {
		if !c.known[f.Key] {
			n++
		}
		if f.Key == "hang" { // every further case would take as long
			return true
		}
	}
	return n >= c.limit
}

// Each runs fn(i) for i in [0,n) on several goroutines; a panic in the code
// under test becomes a violation of the case.
func (c *Ctx) Each(n, par int, fn func(i int)) {
	if par <= 0 {
		par = runtime.NumCPU()
	}
	if par > 8 {
		par = 8
	}
	var next int64 = -1
	var wg sync.WaitGroup
	for w := 0; w < par; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				i := int(atomic.AddInt64(&next, 1))
				if i >= n || c.Enough() {
					return
				}
				c.Guard(fmt.Sprintf("case %d", i), func() { fn(i) })
			}
		}()
	}
	wg.Wait()
}

// Guard runs fn turning a panic of the code under test into a violation and a
// hang (no completion for a very long time) too.
func (c *Ctx) Guard(what string, fn func()) {
	done := make(chan struct{})
	go func() {
		defer close(done)
		defer func() {
			if r := recover(); r != nil {
				if h, ok := r.(harnessErr); ok {
					harnessFatal(what, h.error, debug.Stack())
				}
				st := string(debug.Stack())
				if panicSite(st) == "?" {
					harnessFatal(what, fmt.Errorf("%v", r), debug.Stack())
				}
				c.Violate("panic:"+panicSite(st), fmt.Sprintf("%s: panic: %v", what, r), map[string]interface{}{"case": what, "stack": st})
			}
		}()
		fn()
	}()
	// short sleeps: timers of a second and more may be scaled down
	for t0 := time.Now(); ; {
		select {
		case <-done:
			return
		case <-time.After(500 * time.Millisecond):
		}
		if time.Since(t0) < hangLimit {
			continue
		}
		buf := make([]byte, 1<<20)
		buf = buf[:runtime.Stack(buf, true)]
		c.Violate("hang", what+": an operation never completed", map[string]interface{}{"case": what, "goroutines": string(buf)})
		return
	}
}

var hangLimit = 300 * time.Second

func harnessFatal(what string, err error, st []byte) {
	fmt.Fprintf(os.Stderr, "HARNESS-ERROR %s: %v\n%s\n", what, err, st)
	os.Exit(3)
}

// panicSite names the innermost ferryd frame of a stack.
func panicSite(st string) string {
	for _, l := range strings.Split(st, "\n") {
		if strings.Contains(l, "getsolus/ferryd") && strings.Contains(l, "(") && !strings.HasPrefix(l, "\t") {
			l = l[strings.LastIndex(l, "/")+1:]
			if i := strings.Index(l, "("); i > 0 {
				return strings.TrimRight(l[:strings.LastIndex(l, "(")], "(")
			}
			return l
		}
	}
	return "?"
}

type result struct {
	Evidence map[string]interface{}
	Finds    []Finding
}

func childMain(id, tier string, seed int64, dir string) {
	syscall.Umask(022)
	ck := checks[id]
	if ck == nil {
		fmt.Fprintf(os.Stderr, "unknown property %s\n", id)
		os.Exit(3)
	}
	log.SetOutput(io.Discard)
	c := &Ctx{Check: ck, Tier: tier, Seed: seed, Dir: dir, dist: map[string]struct{}{}, extra: map[string]interface{}{}, counts: map[string]int64{}, seen: map[string]bool{}, states: map[string]struct{}{}, known: map[string]bool{}, limit: 12}
	if kb, err := os.ReadFile(filepath.Join(dir, "known")); err == nil {
		for _, k := range strings.Fields(string(kb)) {
			c.known[k] = true
		}
	}
	if n, err := strconv.Atoi(os.Getenv("VERIF_ENOUGH")); err == nil {
		c.limit = n
	}
	start := time.Now()
	func() {
		defer func() {
			if r := recover(); r != nil {
				if h, ok := r.(harnessErr); ok {
					harnessFatal("setup", h.error, debug.Stack())
				}
				st := string(debug.Stack())
				if panicSite(st) == "?" {
					harnessFatal("check", fmt.Errorf("%v", r), debug.Stack())
				}
				c.Violate("panic:"+panicSite(st), fmt.Sprintf("panic: %v", r), map[string]interface{}{"stack": st})
			}
		}()
		ck.Run(c)
	}()
	if c.samples == nil {
		c.samples = []interface{}{"none kept"}
	}
	cov := map[string]interface{}{
		"evaluations":         c.evals,
		"distinct_nontrivial": len(c.dist),
		"rule":                ck.Rule,
		"samples":             c.samples,
		"monitor":             c.counts,
	}
	for k, v := range c.extra {
		cov[k] = v
	}
	ev := map[string]interface{}{
		"property": id, "tier": tier, "seed": seed, "level": ck.Level,
		"coverage": cov, "assumptions": ck.Assume,
		"wall_s": time.Since(start).Seconds(),
	}
	sort.Slice(c.finds, func(i, j int) bool { return c.finds[i].Key < c.finds[j].Key })
	b, err := json.MarshalIndent(result{ev, c.finds}, "", " ")
	must(err)
	must(os.WriteFile(filepath.Join(dir, "result.json"), b, 0644))
	if c.evals == 0 && len(c.finds) == 0 {
		fmt.Fprintln(os.Stderr, "HARNESS-ERROR nothing was observed")
		os.Exit(3)
	}
}

func loadKnown(path, prop string) map[string]string {
	m := map[string]string{}
	b, _ := os.ReadFile(path)
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known: property="+prop+" key=") {
			continue
		}
		l = strings.TrimPrefix(l, "known: property="+prop+" key=")
		k, what, _ := strings.Cut(l, " ")
		m[k] = what
	}
	return m
}

func parentMain(id, verif string) int {
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if seed == 0 {
		seed = 1
	}
	dir, err := os.MkdirTemp("", "vh-"+id+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	dir, _ = filepath.Abs(dir)
	if os.Getenv("VERIF_KEEP") == "" {
		defer os.RemoveAll(dir)
	}
	os.Chmod(dir, 0755)
	for _, s := range []string{"tmp", "w"} {
		os.Mkdir(filepath.Join(dir, s), 0755)
	}
	known := loadKnown(filepath.Join(verif, "KNOWN_FINDINGS"), id)
	var kl []string
	for k := range known {
		kl = append(kl, k)
	}
	os.WriteFile(filepath.Join(dir, "known"), []byte(strings.Join(kl, "\n")), 0644)
	exe, _ := os.Executable()
	cmd := exec.Command(exe, "child", id, tier, strconv.FormatInt(seed, 10), dir)
	cmd.Env = append(os.Environ(), "HOME="+dir, "TMPDIR="+filepath.Join(dir, "tmp"), "GOTRACEBACK=all", "GORACE=halt_on_error=0 exitcode=0 log_path="+filepath.Join(dir, "race"))
	if os.Getuid() == 0 {
		for _, s := range []string{"", "tmp", "w"} {
			if err := os.Chown(filepath.Join(dir, s), unprivUID, unprivUID); err != nil {
				fmt.Fprintln(os.Stderr, err)
				return 2
			}
		}
		cmd.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: unprivUID, Gid: unprivUID}}
	} else {
		cmd.SysProcAttr = &syscall.SysProcAttr{}
	}
	cmd.SysProcAttr.Pdeathsig = syscall.SIGKILL
	cmd.Dir = dir
	ef, err := os.Create(filepath.Join(dir, "stderr.txt"))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	cmd.Stdout = os.Stdout
	cmd.Stderr = ef
	start := time.Now()
	if err := cmd.Start(); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	limit := 840 * time.Second
	if tier == "thorough" {
		limit = 4 * time.Hour
	}
	timer := time.AfterFunc(limit, func() { cmd.Process.Signal(syscall.SIGQUIT) })
	werr := cmd.Wait()
	timer.Stop()
	eb, _ := os.ReadFile(filepath.Join(dir, "stderr.txt"))
	tail := func(n int) string {
		if len(eb) > n {
			return string(eb[len(eb)-n:])
		}
		return string(eb)
	}
	var res result
	if b, err := os.ReadFile(filepath.Join(dir, "result.json")); err == nil {
		if err := json.Unmarshal(b, &res); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
	}
	if werr != nil {
		if strings.Contains(string(eb), "HARNESS-ERROR") {
			os.Stderr.WriteString(tail(6000))
			fmt.Fprintf(os.Stderr, "check %s: harness error\n", id)
			return 2
		}
		s := string(eb)
		if strings.Contains(s, "panic:") || strings.Contains(s, "fatal error:") {
			i := strings.Index(s, "panic:")
			if j := strings.Index(s, "fatal error:"); i < 0 || (j >= 0 && j < i) {
				i = j
			}
			s = s[i:]
			if len(s) > 20000 {
				s = s[:20000]
			}
			res.Finds = append(res.Finds, Finding{"crash:" + panicSite(s), "the process running ferryd's code crashed: " + strings.SplitN(s, "\n", 2)[0], map[string]string{"stderr": s}})
		} else {
			os.Stderr.WriteString(tail(6000))
			fmt.Fprintf(os.Stderr, "check %s: no verdict: %v\n", id, werr)
			return 2
		}
	}
	if res.Evidence == nil {
		res.Evidence = map[string]interface{}{"property": id, "tier": tier, "seed": seed, "level": checks[id].Level,
			"coverage": map[string]interface{}{"evaluations": 0, "distinct_nontrivial": 0, "rule": "the run did not finish", "samples": []string{}}, "wall_s": time.Since(start).Seconds()}
	}
	rdir := filepath.Join(verif, "replays")
	rc := 0
	nviol := 0
	printed := map[string]bool{}
	for _, f := range res.Finds {
		if what, ok := known[f.Key]; ok {
			if !printed[f.Key] {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, what)
				printed[f.Key] = true
			}
			continue
		}
		nviol++
		os.MkdirAll(rdir, 0755)
		rp := filepath.Join(rdir, fmt.Sprintf("%s-%s-%d-%d.json", id, tier, seed, nviol))
		b, _ := json.MarshalIndent(map[string]interface{}{"property": id, "seed": seed, "tier": tier, "key": f.Key, "message": f.Msg, "replay": f.Replay}, "", " ")
		os.WriteFile(rp, b, 0644)
		msg := f.Msg
		if len(msg) > 600 {
			msg = msg[:600] + "..."
		}
		fmt.Printf("violation: [%s] %s\n", f.Key, msg)
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, rp)
		rc = 1
	}
	res.Evidence["violations"] = nviol
	b, _ := json.MarshalIndent(res.Evidence, "", " ")
	os.MkdirAll(filepath.Join(verif, "evidence"), 0755)
	if err := os.WriteFile(filepath.Join(verif, "evidence", id+".json"), append(b, '\n'), 0644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	cov, _ := res.Evidence["coverage"].(map[string]interface{})
	fmt.Printf("%s %s seed=%d: %v evaluations, %v distinct, %d violations, %.1fs\n", id, tier, seed, cov["evaluations"], cov["distinct_nontrivial"], nviol, time.Since(start).Seconds())
	return rc
}

// workers are sub-process entry points used by some checks.
var workers = map[string]func(args []string){}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: vh run ID VERIFDIR")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "run":
		os.Exit(parentMain(os.Args[2], os.Args[3]))
	case "child":
		seed, _ := strconv.ParseInt(os.Args[4], 10, 64)
		childMain(os.Args[2], os.Args[3], seed, os.Args[5])
	case "w":
		log.SetOutput(io.Discard)
		workers[os.Args[2]](os.Args[3:])
	default:
		os.Exit(2)
	}
}
