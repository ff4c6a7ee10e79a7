package core_test

import (
	"archive/tar"
	"archive/zip"
	"bytes"
	"crypto/sha1"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"testing"

	"github.com/getsolus/ferryd/src/ferryd/core"
)

// mk writes name-version-release-1-x86_64.eopkg into dir.
func mk(t *testing.T, dir, name, source string, rel int, files map[string]string) string {
	t.Helper()
	src := fmt.Sprintf("<Source><Name>%s</Name><Packager><Name>P</Name><Email>p@x.org</Email></Packager></Source>", source)
	meta := fmt.Sprintf("<PISI>%s<Package><Name>%s</Name><Summary xml:lang=\"en\">s</Summary><Description xml:lang=\"en\">d</Description><PartOf>system.base</PartOf><License>MIT</License><History><Update release=\"%d\"><Date>2024-01-01</Date><Version>1.%d</Version><Comment>c</Comment><Name>P</Name><Email>p@x.org</Email></Update></History><BuildHost>b</BuildHost><Distribution>Solus</Distribution><DistributionRelease>1</DistributionRelease><Architecture>x86_64</Architecture><InstalledSize>10</InstalledSize><PackageFormat>1.2</PackageFormat>%s</Package></PISI>", src, name, rel, rel, src)
	var fx, tb bytes.Buffer
	tw := tar.NewWriter(&tb)
	fx.WriteString("<Files>")
	var names []string
	for n := range files {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		c := files[n]
		fmt.Fprintf(&fx, "<File><Path>%s</Path><Type>data</Type><Size>%d</Size><Uid>0</Uid><Gid>0</Gid><Mode>0644</Mode><Hash>%x</Hash></File>", n, len(c), sha1.Sum([]byte(c)))
		tw.WriteHeader(&tar.Header{Name: n, Typeflag: tar.TypeReg, Mode: 0644, Size: int64(len(c))})
		tw.Write([]byte(c))
	}
	tw.Close()
	fx.WriteString("</Files>")
	xz := exec.Command("xz", "-0", "-c")
	xz.Stdin = &tb
	inst, err := xz.Output()
	if err != nil {
		t.Fatal(err)
	}
	var zb bytes.Buffer
	zw := zip.NewWriter(&zb)
	for _, e := range []struct {
		n string
		b []byte
	}{{"metadata.xml", []byte(meta)}, {"files.xml", fx.Bytes()}, {"install.tar.xz", inst}} {
		w, _ := zw.Create(e.n)
		w.Write(e.b)
	}
	zw.Close()
	os.MkdirAll(dir, 0755)
	p := filepath.Join(dir, fmt.Sprintf("%s-1.%d-%d-1-x86_64.eopkg", name, rel, rel))
	if err := os.WriteFile(p, zb.Bytes(), 0644); err != nil {
		t.Fatal(err)
	}
	return p
}

func manager(t *testing.T) (*core.Manager, string) {
	t.Helper()
	d := t.TempDir()
	m, err := core.NewManager(d)
	if err != nil {
		t.Fatal(err)
	}
	t.Cleanup(m.Close)
	return m, d
}

func ok(t *testing.T, err error) {
	t.Helper()
	if err != nil {
		t.Fatal(err)
	}
}

func index(t *testing.T, d, repo string) string {
	t.Helper()
	b, err := os.ReadFile(filepath.Join(d, "repo", repo, "eopkg-index.xml"))
	ok(t, err)
	return string(b)
}

// listed: the releases of name that repo lists, "2 9 10".
func listed(t *testing.T, m *core.Manager, repo, name string) string {
	t.Helper()
	ps, err := m.GetPackages(repo, name)
	if err != nil {
		return ""
	}
	var r []int
	for _, p := range ps {
		r = append(r, p.GetRelease())
	}
	sort.Ints(r)
	return strings.Trim(fmt.Sprint(r), "[]")
}

func refs(t *testing.T, m *core.Manager, id string) uint64 {
	t.Helper()
	es, err := m.GetPoolItems()
	ok(t, err)
	for _, e := range es {
		if e.Name == id {
			return e.RefCount
		}
	}
	return 0
}

func exists(p string) bool { _, err := os.Stat(p); return err == nil }

var _ = index
var _ = listed
var _ = refs
var _ = exists
var _ = mk
