package main

import (
	"fmt"
	"path/filepath"
)

// C01-C07: random and directed histories of operations on the real manager and
// job handlers, in lock step with a reference model; after every operation the
// full observable state (queries, pool tree, repository trees, assets, index)
// is judged.

const histRule = "an execution is one whole history; it counts as non-trivial when it contains at least two operations, and as distinct by its number and final model state"

var histAssume = []string{
	"packages of one name and release are one and the same package (release ties are exercised only where stated)",
	"the reference model and the independent index parser in /verif/harness are right",
}

func init() {
	reg := func(id, prop string, quick, thorough int, p Profile, noTar bool, script func(i int, h *Hist) bool) {
		register(&Check{ID: id, Level: "exploration", Rule: histRule, Assume: histAssume, Run: func(c *Ctx) {
			if prop == "C11" && installBuildMonitor != nil {
				installBuildMonitor()
			}
			cat := newCatalog(filepath.Join(c.Dir, "w", "cat"), stdSpecs(noTar))
			runHistories(c, prop, cat, c.N(quick, thorough), p, script)
			if prop == "C06" {
				dashRepos(c, cat)
			}
			if prop == "C05" || prop == "C04" || prop == "C03" {
				twins(c, prop, c.N(60, 2000))
			}
		}})
	}
	L := 26
	reg("C01", "C01", 400, 12000, Profile{Weights: weights(map[string]int{"mkdelta": 9, "clone": 10, "delete": 5, "rmsrc": 10, "delta": 10, "copysrc": 10}), Len: L, JobPct: 50}, false, directed)
	reg("C02", "C02", 400, 12000, Profile{Weights: weights(map[string]int{"mkdelta": 4, "import": 24, "copysrc": 12, "clone": 8}), Len: L, JobPct: 50}, false, directed)
	reg("C03", "C03", 400, 12000, Profile{Weights: weights(map[string]int{"import": 30, "upload": 10, "rmsrc": 14, "clone": 5, "delta": 4}), Len: L, JobPct: 40}, false, directed)
	reg("C04", "C04", 400, 12000, Profile{Weights: weights(map[string]int{"clone": 12, "pull": 18, "copysrc": 18, "delete": 8}), Len: L, JobPct: 40}, false, directed)
	reg("C05", "C05", 400, 12000, Profile{Weights: weights(map[string]int{"mkdelta": 4, "rmsrc": 16, "trim": 14, "trimobs": 14, "assets": 10, "delete": 6}), Len: L, JobPct: 50}, false, directed)
	reg("C06", "C06", 400, 12000, Profile{Weights: weights(map[string]int{"mkdelta": 9, "clone": 10, "delete": 9, "create": 5}), Len: L, JobPct: 50, Repos: []string{"a", "ab", "a-b", "a-", "A", "unstable", "unstable-x", "un"}}, false, directed)
	reg("C11", "C11", 300, 8000, Profile{Weights: weights(map[string]int{"mkdelta": 10, "delta": 45, "deltarepo": 10, "import": 22, "rmsrc": 12, "clone": 8, "assets": 1}), Len: L, JobPct: 50}, false, directed)
	reg("C07", "C07", 400, 12000, Profile{Weights: weights(map[string]int{"mkdelta": 4, "assets": 14, "delta": 16, "index": 6, "trimobs": 2}), Len: L, JobPct: 50}, false, directed)
}

func st(op, repo string, rest ...interface{}) Step {
	s := Step{Op: op, Repo: repo}
	for _, x := range rest {
		switch v := x.(type) {
		case string:
			switch {
			case op == "clone" || op == "pull" || op == "copysrc" && s.Target == "":
				s.Target = v
			case op == "rmsrc" || op == "copysrc":
				s.Source = v
			case op == "delta":
				s.Name = v
			}
		case int:
			s.N = v
		case bool:
			s.Flag = v
		case []string:
			s.Pkgs = v
		}
	}
	return s
}

// idsOf returns the ids of the given name with the given releases.
func (c *Catalog) idsOf(name string, rels ...int) []string {
	var l []string
	for _, p := range c.ByNm[name] {
		for _, r := range rels {
			if p.Spec.Release == r {
				l = append(l, p.ID)
			}
		}
	}
	if len(l) != len(rels) {
		panic(harnessErr{fmt.Errorf("catalogue lacks %s %v", name, rels)})
	}
	return l
}

// directed histories: situations random play reaches rarely.
func directed(i int, h *Hist) bool {
	c := h.w.cat
	all := func(n string) []string { return c.idsOf(n, 2, 9, 10, 11) }
	var steps []Step
	j := i / 2
	switch j {
	case 0: // deltas, then newer imports, clones and removals around them
		steps = []Step{st("create", "unstable"), st("import", "unstable", all("alpha")), st("delta", "unstable", "alpha", true),
			st("import", "unstable", c.idsOf("alpha", 100)), st("delta", "unstable", "alpha", true), st("delta", "unstable", "alpha", true),
			st("clone", "unstable", "stable", true), st("rmsrc", "unstable", "alpha", 11), st("rmsrc", "stable", "alpha", 100), st("index", "stable"),
			st("delta", "stable", "alpha", true), st("delete", "unstable"), st("index", "stable"), st("rmsrc", "stable", "alpha", -1), st("delete", "stable")}
	case 1: // import order and repetition
		steps = []Step{st("create", "un"), st("import", "un", c.idsOf("alpha", 10)), st("import", "un", c.idsOf("alpha", 9)), st("import", "un", c.idsOf("alpha", 100)),
			st("import", "un", c.idsOf("alpha", 2, 11)), st("import", "un", c.idsOf("alpha", 100)), st("rmsrc", "un", "alpha", 100), st("rmsrc", "un", "alpha", 11),
			st("import", "un", c.idsOf("alpha", 11)), st("rmsrc", "un", "alpha", 10), st("upload", "un", c.idsOf("alpha", 11)), st("upload", "un", c.idsOf("alpha", 10)), st("upload", "un", c.idsOf("alpha", 100)),
			st("clone", "un", "stable", false), st("trim", "un", 1), st("trim", "un", 1)}
	case 2: // re-imports of packages held elsewhere, copies with and without index
		steps = []Step{st("create", "a"), st("create", "A"), st("import", "a", all("beta")), st("import", "A", c.idsOf("beta", 9)), st("import", "a", all("beta")),
			st("copysrc", "a", "A", "Beta", 10, true), st("index", "A"), st("copysrc", "a", "A", "Beta", 11, false), st("copysrc", "a", "A", "Beta", -1, false),
			st("copysrc", "a", "A", "beta", -1, false), st("rmsrc", "a", "Beta", 10), st("import", "a", c.idsOf("beta", 10)), st("delete", "a"), st("import", "A", all("beta")), st("rmsrc", "A", "Beta", 0)}
	case 3: // obsoletes
		steps = []Step{st("create", "stable"), st("import", "stable", append(append(all("alpha"), all("alpha-dbginfo")...), all("alpha-devel")...)), st("import", "stable", append(all("libfoo"), all("libfoo-dbginfo")...)),
			st("trimobs", "stable"), st("assets", "stable", 3), st("index", "stable"), st("trimobs", "stable"), st("assets", "stable", 5), st("index", "stable"),
			st("import", "stable", append(all("libfoo"), all("libfoo-dbginfo")...)), st("trimobs", "stable"), st("trimobs", "stable"), st("assets", "stable", 6), st("import", "stable", all("zed-x")), st("trimobs", "stable")}
	case 4: // pulls in both directions
		steps = []Step{st("create", "unstable"), st("import", "unstable", append(c.idsOf("alpha", 2, 9), c.idsOf("beta", 9)...)), st("assets", "unstable", 1), st("clone", "unstable", "stable", false),
			st("import", "unstable", append(c.idsOf("alpha", 10, 11), c.idsOf("libfoo", 2)...)), st("pull", "unstable", "stable"), st("pull", "unstable", "stable"),
			st("import", "stable", c.idsOf("beta", 10)), st("pull", "unstable", "stable"), st("import", "unstable", c.idsOf("beta", 10)), st("assets", "unstable", 2), st("pull", "unstable", "stable"),
			st("rmsrc", "stable", "alpha", -1), st("pull", "unstable", "stable"), st("pull", "nope", "stable"), st("pull", "stable", "nope"), st("clone", "unstable", "stable", true), st("clone", "nope", "x", true)}
	case 5: // trimming, with deltas
		steps = []Step{st("create", "un"), st("import", "un", append(all("alpha"), c.idsOf("alpha", 100)...)), st("import", "un", all("lib")), st("delta", "un", "alpha", false), st("delta", "un", "lib", true), st("trim", "un", 0), st("trim", "un", -3),
			st("trim", "un", 10), st("trim", "un", 5), st("trim", "un", 4), st("trim", "un", 3), st("clone", "un", "stable", true), st("trim", "un", 2), st("trim", "un", 1), st("index", "stable"), st("trim", "stable", 1)}
	case 6: // delta reuse, pointless pairs, mismatched pairs
		steps = []Step{st("create", "un"), st("create", "stable"), st("import", "un", append(all("beta"), c.idsOf("beta", 12)...)), st("delta", "un", "beta", true), st("rmsrc", "un", "Beta", 12), st("delta", "un", "beta", true),
			st("import", "stable", c.idsOf("beta", 2, 11)), st("delta", "stable", "beta", true), st("index", "stable"), st("import", "un", c.idsOf("alpha2", 2, 9, 10)), st("delta", "un", "alpha2", true), st("delta", "un", "alpha2", true), st("deltarepo", "un"), st("deltarepo", "un"), st("deltarepo", "stable"),
			st("import", "un", c.idsOf("alpha2", 11)), st("delta", "un", "alpha2", true), st("rmsrc", "un", "Beta", 2), st("delta", "stable", "beta", true), st("reopen", ""), st("delta", "un", "lib", true), st("rmsrc", "stable", "Beta", 11), st("rmsrc", "un", "Beta", -1)}
	case 7: // deleting and re-creating
		steps = []Step{st("create", "un"), st("import", "un", all("alpha")), st("delta", "un", "alpha", true), st("clone", "un", "unstable", true), st("delete", "un"), st("create", "un"), st("index", "un"), st("import", "un", c.idsOf("alpha", 9)),
			st("delete", "un"), st("reopen", ""), st("clone", "unstable", "un", true), st("delete", "unstable"), st("delete", "unstable"), st("reopen", ""), st("rmsrc", "un", "alpha", 2), st("index", "un"), st("delete", "un")}
	case 8: // unusual but valid arguments
		steps = []Step{st("create", "un"), st("create", "un"), st("import", "un", append(all("alpha"), append(all("alpha"), all("alpha2")...)...)), st("rmsrc", "un", "alph", -1), st("rmsrc", "un", "alpha", 3), st("rmsrc", "un", "alpha2", 9), st("rmsrc", "un", "", -1),
			st("index", "nope"), st("trim", "nope", 1), st("trimobs", "nope"), st("rmsrc", "nope", "alpha", -1), st("import", "nope", all("alpha")), st("copysrc", "un", "nope", "alpha", -1, false), st("copysrc", "nope", "un", "alpha", -1, false), st("delete", "nope"),
			st("import", "un", all("zed-x")), st("rmsrc", "un", "alp", -1), st("trim", "un", 2), st("reopen", ""), st("index", "un")}
	default:
		return false
	}
	for _, s := range steps {
		s.Job = i%2 == 1
		h.step(s)
	}
	return true
}

// twins: several builds (versions, architectures) with one and the same release
// number. Which of them is published is not defined, so that only operations
// which do not depend on it are performed.
func twins(c *Ctx, prop string, n int) {
	var specs []*PkgSpec
	for _, x := range [][2]string{{"alpha", "alpha"}, {"alpha-devel", "alpha"}, {"beta", "Beta"}} {
		for rel := 9; rel < 12; rel++ {
			for _, v := range []string{"1.0", "2.0"} {
				for _, arch := range []string{"x86_64", "aarch64"} {
					specs = append(specs, &PkgSpec{Name: x[0], Source: x[1], Release: rel, Version: v, Arch: arch, NoTar: true, Salt: fmt.Sprint(x, rel, v, arch)})
				}
			}
		}
	}
	cat := newCatalog(filepath.Join(c.Dir, "w", "twins"), specs)
	p := Profile{Weights: map[string]int{"create": 3, "import": 20, "clone": 4, "rmsrc": 14, "copysrc": 14, "delete": 2, "index": 1, "reopen": 1, "assets": 3, "trimobs": 4}, Repos: stdRepos, JobPct: 50}
	c.Each(n, 0, func(i int) {
		h := newHist(c, cat, prop)
		defer h.close()
		h.SkipIndexCheck = true
		r := c.Rng("twins", i)
		for k := 0; k < 26 && !h.Dead; k++ {
			s := gen(r, h.m, p)
			if s.Op == "clone" {
				s.Flag = true
			}
			h.step(s)
		}
		c.Eval(fmt.Sprint("twins", i, h.m.digest()))
		for s := range h.states {
			c.State(s)
		}
	})
	c.Count("histories_with_several_builds_of_a_release", int64(n))
}

// dashRepos: one repository name extended by "-package" gives another; their
// database buckets overlap (see KNOWN_FINDINGS).
func dashRepos(c *Ctx, cat *Catalog) {
	w := newWorld(c.TempDir("dash"), cat)
	defer w.M.Close()
	must(w.M.CreateRepo("x"))
	must(w.M.CreateRepo("x-package"))
	must(w.M.AddPackages("x-package", w.stageAll(cat.idsOf("alpha", 2)), false))
	r, err := w.M.GetRepo("x")
	must(err)
	names, err := w.M.GetPackageNames("x")
	_ = r
	if err != nil || len(names) > 0 {
		c.Violate("dash-ids:x|x-package", fmt.Sprintf("repository x lists %q after an import into x-package (%v)", names, err), nil)
	}
	c.Eval("dash-ids")
}
