package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/getsolus/ferryd/src/libdb"
)

func init() {
	register(&Check{ID: "C23", Level: "exploration",
		Rule: "an evaluation is one generated history of put, delete, get, has, iterate, nested bucket, batched update (committed, failed, nested in buckets), sequence and reopen operations on a real database, judged after every operation against a map per bucket path; plus crash images (the files as they are after an operation, the log cut at an arbitrary byte) that must reopen to the state after some prefix of the commits",
		Assume: []string{"the operating system keeps the bytes a process wrote before it was killed (the log is not synced by default)",
			"buckets whose names make one joined path a dash-extension of another are exercised only by the directed cases of KNOWN_FINDINGS"},
		Run: runC23})
}

type dbObj struct {
	S string
	N int64
	B []byte
	L []string
	M map[string]int
	F bool
}

func genObj(r *rand.Rand) *dbObj {
	o := &dbObj{S: genKey(r), N: r.Int63() - r.Int63(), F: r.Intn(2) == 0}
	if r.Intn(2) == 0 {
		o.B = make([]byte, 1+r.Intn(40))
		r.Read(o.B)
	}
	if r.Intn(30) == 0 { // a value spanning several journal blocks
		o.B = make([]byte, 20000+r.Intn(90000))
		r.Read(o.B)
	}
	for i := r.Intn(4); i > 0; i-- {
		o.L = append(o.L, genKey(r))
	}
	if r.Intn(3) == 0 {
		o.M = map[string]int{genKey(r): r.Int(), "x": 1}
	}
	return o
}

func genKey(r *rand.Rand) string {
	alpha := []string{"a", "b", "ab", "-", "|", "|bucket", "|rootBucket", "bucket|", "\x00", "\xff", "\xff\xff", "package", "Z", "é", "/", " ", "0", "%s", "%d", "repo"}
	var b strings.Builder
	for i := r.Intn(4); i >= 0; i-- {
		b.WriteString(alpha[r.Intn(len(alpha))])
	}
	return b.String()
}

func reservedKey(k string) bool {
	return strings.HasPrefix(k, "|bucket|") || strings.HasPrefix(k, "|rootBucket|-")
}

// dbModel is the reference: contents per bucket path (depth and joined names).
type dbModel map[string]map[string]*dbObj

func (m dbModel) clone() dbModel {
	o := dbModel{}
	for b, kv := range m {
		o[b] = map[string]*dbObj{}
		for k, v := range kv {
			o[b][k] = v
		}
	}
	return o
}

func pathKey(p []string) string { return fmt.Sprintf("%d:%q", len(p), p) }

func openPath(db libdb.Database, p []string) libdb.Database {
	for _, s := range p {
		db = db.Bucket([]byte(s))
	}
	return db
}

// dbObserve reads a whole bucket by iteration.
func dbObserve(b libdb.Database) (keys []string, m map[string]*dbObj, err error) {
	m = map[string]*dbObj{}
	err = b.ForEach(func(k, v []byte) error {
		o := &dbObj{}
		if e := b.Decode(v, o); e != nil {
			return fmt.Errorf("cannot decode %q: %v", k, e)
		}
		keys = append(keys, string(k))
		m[string(k)] = o
		return nil
	})
	return
}

func dbDiff(want map[string]*dbObj, keys []string, got map[string]*dbObj) string {
	if !sort.StringsAreSorted(keys) {
		return fmt.Sprintf("keys are not in order: %q", keys)
	}
	if len(keys) != len(got) {
		return fmt.Sprintf("a key is shown twice: %q", keys)
	}
	for k, v := range want {
		g := got[k]
		if g == nil {
			return fmt.Sprintf("key %q is missing", k)
		}
		if !reflect.DeepEqual(g, v) {
			return fmt.Sprintf("key %q reads back different", k)
		}
	}
	for k := range got {
		if want[k] == nil {
			return fmt.Sprintf("foreign or deleted key %q is shown", k)
		}
	}
	return ""
}

func runC23(c *Ctx) {
	c.Each(c.N(150, 6000), 0, func(i int) { dbHistory(c, i) })
	c.Each(c.N(12, 200), 0, func(i int) { dbConcurrent(c, i) })
	dbCollisions(c)
	c.Extra("distinct_states", c.NStates())
}

// dbPaths draws bucket paths none of which is a dash-extension of another one of
// the same depth.
func dbPaths(r *rand.Rand) [][]string {
	base := []string{"a", "ab", "abc", "b", "|", "|bucket|", "", "repo", "repo2", "Async", "Sync", "SyncX", "\xff", "\xff\xff", "a\x00", "x-y", "x-", "|rootBucket|-a"}
	paths := [][]string{{}}
	for tries := 0; len(paths) < 4+r.Intn(5) && tries < 60; tries++ {
		var p []string
		switch {
		case len(paths) > 1 && r.Intn(3) == 0: // child of a known one
			p = append(append([]string{}, paths[1+r.Intn(len(paths)-1)]...), base[r.Intn(len(base))])
		default:
			p = []string{base[r.Intn(len(base))]}
		}
		if len(p) > 3 {
			continue
		}
		j := strings.Join(p, "-") + "-"
		ok := true
		for _, q := range paths {
			if len(q) == len(p) && len(p) > 0 {
				k := strings.Join(q, "-") + "-"
				if strings.HasPrefix(j, k) || strings.HasPrefix(k, j) {
					ok = false
				}
			}
		}
		if ok {
			paths = append(paths, p)
		}
	}
	return paths
}

var errDbStop = errors.New("stop here")

func dbHistory(c *Ctx, i int) {
	r := c.Rng("hist", i)
	dir := c.TempDir("db")
	db, err := libdb.Open(filepath.Join(dir, "d"))
	must(err)
	defer func() { db.Close(); os.RemoveAll(dir) }()
	paths := dbPaths(r)
	model := dbModel{}
	for _, p := range paths {
		model[pathKey(p)] = map[string]*dbObj{}
	}
	seqPath := []string{"sequence"}
	model[pathKey(seqPath)] = map[string]*dbObj{}
	all := append(append([][]string{}, paths...), seqPath)
	snaps := []dbModel{model.clone()}
	var log []string
	bad := func(key, f string, a ...interface{}) {
		c.Violate(key, fmt.Sprintf(f, a...), map[string]interface{}{"case": i, "seed": c.Seed, "paths": paths, "ops": log})
	}
	knownKey := func(r *rand.Rand, p []string) string {
		m := model[pathKey(p)]
		if len(m) > 0 && r.Intn(2) == 0 {
			var ks []string
			for k := range m {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			return ks[r.Intn(len(ks))]
		}
		for {
			k := genKey(r)
			if !reservedKey(k) {
				return k
			}
		}
	}
	note := func(f string, a ...interface{}) { log = append(log, fmt.Sprintf(f, a...)) }
	check := func() bool {
		for _, p := range all {
			b := openPath(db, p)
			keys, got, err := dbObserve(b)
			if err != nil {
				bad("iterate", "iterating bucket %q: %v", p, err)
				return false
			}
			if d := dbDiff(model[pathKey(p)], keys, got); d != "" {
				bad("isolation", "bucket %q: %s after %s", p, d, log[len(log)-1])
				return false
			}
		}
		c.Count("bucket_observations", int64(len(all)))
		return true
	}
	steps := 30 + r.Intn(30)
	for s := 0; s < steps; s++ {
		p := paths[r.Intn(len(paths))]
		b := openPath(db, p)
		m := model[pathKey(p)]
		switch r.Intn(11) {
		case 0, 1, 2:
			k, o := knownKey(r, p), genObj(r)
			note("put %q %q", p, k)
			if err := b.PutObject([]byte(k), o); err != nil {
				bad("put", "storing %q in %q: %v", k, p, err)
				return
			}
			m[k] = o
		case 3:
			k := knownKey(r, p)
			note("delete %q %q", p, k)
			if err := b.DeleteObject([]byte(k)); err != nil {
				bad("delete", "deleting %q in %q: %v", k, p, err)
				return
			}
			delete(m, k)
		case 4:
			k := knownKey(r, p)
			note("get %q %q", p, k)
			o := &dbObj{}
			err := b.GetObject([]byte(k), o)
			has, err2 := b.HasObject([]byte(k))
			if w := m[k]; w != nil {
				if err != nil || err2 != nil || !has || !reflect.DeepEqual(w, o) {
					bad("get", "get/has of stored key %q in %q: %v %v %v", k, p, err, has, err2)
				}
			} else if err == nil || has || err2 != nil {
				bad("get", "get/has of absent key %q in %q: err=%v has=%v %v", k, p, err, has, err2)
			}
		case 5, 6, 7: // batched update over several buckets
			fail := r.Intn(3) == 0
			next := model.clone()
			n := 1 + r.Intn(6)
			// an update may start at a bucket and see only below it
			root := r.Intn(3) > 0
			note("update n=%d fail=%v root=%v %q", n, fail, root, p)
			target := db
			if !root {
				target = b
			}
			err := target.Update(func(tx libdb.Database) error {
				for j := 0; j < n; j++ {
					q := p
					h := tx
					if root {
						q = paths[r.Intn(len(paths))]
						h = openPath(tx, q)
					}
					k := knownKey(r, q)
					if r.Intn(3) == 0 {
						if e := h.DeleteObject([]byte(k)); e != nil {
							return e
						}
						delete(next[pathKey(q)], k)
					} else {
						o := genObj(r)
						if e := h.PutObject([]byte(k), o); e != nil {
							return e
						}
						next[pathKey(q)][k] = o
					}
				}
				if fail {
					return errDbStop
				}
				return nil
			})
			if fail && err != errDbStop {
				bad("update-error", "an update whose function failed returned %v", err)
				return
			}
			if !fail && err != nil {
				bad("update", "update failed: %v", err)
				return
			}
			if !fail {
				model = next
			}
		case 8: // sequence keys
			b := openPath(db, seqPath)
			m := model[pathKey(seqPath)]
			k := b.NextSequence()
			note("sequence -> %x", k)
			if len(k) != 8 {
				bad("sequence", "sequence key %x", k)
				return
			}
			for e := range m {
				if bytes.Compare(k, []byte(e)) <= 0 {
					bad("sequence", "sequence key %x is not greater than present key %x", k, e)
				}
			}
			o := genObj(r)
			if r.Intn(4) == 0 { // jump ahead
				k = append([]byte{}, k...)
				binary.BigEndian.PutUint64(k, binary.BigEndian.Uint64(k)+uint64(r.Intn(70000)))
			}
			if err := b.PutObject(k, o); err != nil {
				bad("put", "storing sequence key: %v", err)
				return
			}
			m[string(k)] = o
			if r.Intn(3) == 0 { // drop a random one
				for e := range m {
					if e != string(k) || r.Intn(4) == 0 {
						note("sequence delete %x", e)
						snaps = append(snaps, model.clone())
						must(b.DeleteObject([]byte(e)))
						delete(m, e)
						break
					}
				}
			}
		case 9:
			note("iterate with a failing function %q", p)
			n := 0
			stop := r.Intn(3)
			err := b.View(func(v libdb.ReadOnlyView) error {
				return v.ForEach(func(k, val []byte) error {
					if n == stop {
						return errDbStop
					}
					n++
					return nil
				})
			})
			if len(m) > stop && err != errDbStop || len(m) <= stop && (err != nil || n != len(m)) {
				bad("foreach-error", "iteration over %d keys stopped at %d returned %v after %d", len(m), stop, err, n)
			}
		case 10:
			if r.Intn(2) == 0 {
				k := []string{"|bucket|", "|bucket|x", "|bucket|-|rootBucket|-a", "|rootBucket|-", "|rootBucket|-k"}[r.Intn(5)]
				note("put reserved %q %q", p, k)
				if err := b.PutObject([]byte(k), genObj(r)); err == nil {
					bad("reserved", "reserved key %q was accepted", k)
					return
				}
				break
			}
			note("reopen")
			db.Close()
			db, err = libdb.Open(filepath.Join(dir, "d"))
			if err != nil {
				bad("reopen", "reopening: %v", err)
				return
			}
		}
		c.Count("operations", 1)
		if !check() {
			return
		}
		snaps = append(snaps, model.clone())
	}
	for _, p := range all {
		c.State(fmt.Sprint(p, len(model[pathKey(p)])))
	}
	c.Eval(fmt.Sprint("hist", i, len(log)))
	if i < 3 {
		c.Sample(map[string]interface{}{"paths": paths, "ops": log[:8]})
	}
	// crash images
	for t := 0; t < 3; t++ {
		img := filepath.Join(dir, fmt.Sprint("img", t))
		must(os.Mkdir(img, 0755))
		var cut string
		for name, by := range dbFiles(filepath.Join(dir, "d")) {
			if strings.HasSuffix(name, ".log") && t > 0 && len(by) > 0 {
				n := r.Intn(len(by) + 1)
				cut += fmt.Sprintf("%s cut from %d to %d", name, len(by), n)
				by = by[:n]
			}
			must(os.WriteFile(filepath.Join(img, name), by, 0644))
		}
		d2, err := libdb.Open(img)
		if err != nil {
			bad("crash-open", "the database of a killed process (%s) does not open: %v", cut, err)
			continue
		}
		obs := dbModel{}
		for _, p := range all {
			keys, got, err := dbObserve(openPath(d2, p))
			if err != nil {
				bad("crash-iterate", "after a crash (%s) bucket %q: %v", cut, p, err)
			}
			obs[pathKey(p)] = got
			if d := dbDiff(got, keys, got); d != "" {
				bad("crash-iterate", "after a crash (%s) bucket %q: %s", cut, p, d)
			}
		}
		d2.Close()
		match := -1
		for k := len(snaps) - 1; k >= 0; k-- {
			if reflect.DeepEqual(map[string]map[string]*dbObj(snaps[k]), map[string]map[string]*dbObj(obs)) {
				match = k
				break
			}
		}
		c.Count("crash_images", 1)
		if t == 0 && !reflect.DeepEqual(map[string]map[string]*dbObj(model), map[string]map[string]*dbObj(obs)) {
			bad("crash-lost", "a committed write is gone after the process was killed")
		} else if match < 0 {
			bad("crash-partial", "after a crash (%s) the contents match no prefix of the commits", cut)
		}
	}
}

// dbFiles reads all files of a database directory, waiting out compactions.
func dbFiles(dir string) map[string][]byte {
	for {
		one := dbFilesOnce(dir)
		two := dbFilesOnce(dir)
		if one != nil && reflect.DeepEqual(one, two) {
			return one
		}
		time.Sleep(10 * time.Millisecond)
	}
}

func dbFilesOnce(dir string) map[string][]byte {
	m := map[string][]byte{}
	ents, err := os.ReadDir(dir)
	must(err)
	for _, e := range ents {
		if e.Name() == "LOCK" || e.Name() == "LOG" {
			continue
		}
		by, err := os.ReadFile(filepath.Join(dir, e.Name()))
		if err != nil {
			return nil
		}
		m[e.Name()] = by
	}
	return m
}

// dbConcurrent: readers see batches whole while writers commit and abandon them.
func dbConcurrent(c *Ctx, i int) {
	r := c.Rng("conc", i)
	dir := c.TempDir("dbc")
	defer os.RemoveAll(dir)
	db, err := libdb.Open(filepath.Join(dir, "d"))
	must(err)
	defer db.Close()
	const nb = 4
	nk := 2 + r.Intn(6)
	write := func(bk string, v int64, fail bool) error {
		return db.Update(func(tx libdb.Database) error {
			for k := 0; k < nk; k++ {
				if e := tx.Bucket([]byte(bk)).PutObject([]byte(fmt.Sprint("k", k)), &dbObj{N: v}); e != nil {
					return e
				}
			}
			if fail {
				return errDbStop
			}
			return nil
		})
	}
	var committed [nb]int64
	var wg sync.WaitGroup
	var stop int32
	for b := 0; b < nb; b++ {
		b := b
		must(write(fmt.Sprint("b", b), 0, false))
		wg.Add(1)
		go func() {
			defer wg.Done()
			for v := int64(1); v <= 150; v++ {
				fail := v%3 == 0
				val := v
				if fail {
					val = -v
				}
				write(fmt.Sprint("b", b), val, fail)
				if !fail {
					atomic.StoreInt64(&committed[b], v)
				}
			}
		}()
	}
	var rg sync.WaitGroup
	for q := 0; q < 4; q++ {
		b := q % nb
		rg.Add(1)
		go func() {
			defer rg.Done()
			for atomic.LoadInt32(&stop) == 0 {
				lo := atomic.LoadInt64(&committed[b])
				_, m, err := dbObserve(db.Bucket([]byte(fmt.Sprint("b", b))))
				vals := map[int64]bool{}
				for _, o := range m {
					vals[o.N] = true
				}
				if err != nil || len(m) != nk || len(vals) != 1 {
					c.Violate("torn-batch", fmt.Sprintf("a reader saw part of a batch: %d of %d keys, values %v, %v", len(m), nk, vals, err), i)
					return
				}
				for v := range vals {
					if v < 0 {
						c.Violate("aborted-batch", "a reader saw an abandoned batch", i)
					}
					if v < lo {
						c.Violate("stale-read", fmt.Sprintf("a reader saw value %d after %d was committed", v, lo), i)
					}
				}
				c.Count("concurrent_reads", 1)
			}
		}()
	}
	wg.Wait()
	atomic.StoreInt32(&stop, 1)
	rg.Wait()
	c.Eval(fmt.Sprint("conc", i))
}

// dbCollisions exercises bucket names that are dash-extensions of each other.
func dbCollisions(c *Ctx) {
	for n, t := range []struct{ a, b []string }{
		{[]string{"a"}, []string{"a-b"}},
		{[]string{"repo", "x", "package"}, []string{"repo", "x-package-y", "package"}},
	} {
		dir := c.TempDir("dbx")
		db, err := libdb.Open(dir)
		must(err)
		must(openPath(db, t.b).PutObject([]byte("c"), &dbObj{N: 1}))
		ks, _, err := dbObserve(openPath(db, t.a))
		if len(ks) > 0 || err != nil {
			c.Violate(fmt.Sprintf("dash:%s|%s", strings.Join(t.a, ","), strings.Join(t.b, ",")), fmt.Sprintf("bucket %q shows key %q of bucket %q", t.a, ks, t.b), n)
		}
		db.Close()
		os.RemoveAll(dir)
		c.Eval(fmt.Sprint("dash", n))
	}
}
