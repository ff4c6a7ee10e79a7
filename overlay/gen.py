#!/usr/bin/env python3
"""Generate a `go build -overlay` description that instruments the Go standard
library (never /repo) with

  * a hook before every file-system mutating system call
    (syscall.VerifHook, nil unless a monitor installs one),
  * an offset on the clock (time.VerifSetClock), and
  * scaling of long timers (environment variable VERIF_TIME_SCALE), so that the
    daemon's poll interval does not dominate a run.

usage: gen.py GOROOT OUTDIR [REPO]

With REPO, the overlay also adds one file to package main of the daemon which
installs the monitor from environment variables (fshook/env.go).
"""
import json, os, sys

goroot, out = sys.argv[1], sys.argv[2]
repo = sys.argv[3] if len(sys.argv) > 3 else None
here = os.path.dirname(os.path.abspath(__file__))
os.makedirs(out, exist_ok=True)
replace = {}

def patch(rel, edits, tail=""):
    src = open(os.path.join(goroot, "src", rel)).read()
    for sig, ins in edits:
        if src.count(sig) != 1:
            sys.exit("overlay: cannot find %r in %s" % (sig, rel))
        src = src.replace(sig, sig + "\n" + ins)
    dst = os.path.join(out, rel.replace("/", "_"))
    with open(dst, "w") as f:
        f.write(src + tail)
    replace[os.path.join(goroot, "src", rel)] = dst

CALL = "\tif VerifHook != nil {\n\t\tif e := VerifHook(%s); e != 0 {\n\t\t\t%s\n\t\t}\n\t}\n"
VP = "\tif VerifPath != nil {\n\t\tpath = VerifPath(path)\n\t}\n"
def sc(args, ret):
    return CALL % (args, ret)

patch("syscall/zsyscall_linux_amd64.go", [
    ("func linkat(olddirfd int, oldpath string, newdirfd int, newpath string, flags int) (err error) {",
     sc('"link", olddirfd, oldpath, newdirfd, newpath, flags', "return e")),
    ("func symlinkat(oldpath string, newdirfd int, newpath string) (err error) {",
     sc('"symlink", -100, oldpath, newdirfd, newpath, 0', "return e")),
    ("func openat(dirfd int, path string, flags int, mode uint32) (fd int, err error) {",
     VP + sc('"open", dirfd, path, -1, "", flags', "return -1, e")),
    ("func fstatat(fd int, path string, stat *Stat_t, flags int) (err error) {",
     VP + sc('"stat", fd, path, -1, "", flags', "return e")),
    ("func read(fd int, p []byte) (n int, err error) {",
     sc('"read", fd, "", -1, "", len(p)', "return -1, e")),
    ("func pread(fd int, p []byte, offset int64) (n int, err error) {",
     sc('"pread", fd, "", -1, "", len(p)', "return -1, e")),
    ("func Getdents(fd int, buf []byte) (n int, err error) {",
     sc('"getdents", fd, "", -1, "", len(buf)', "return -1, e")),
    ("func faccessat(dirfd int, path string, mode uint32) (err error) {", VP),
    ("func readlinkat(dirfd int, path string, buf []byte) (n int, err error) {", VP),
    ("func unlinkat(dirfd int, path string, flags int) (err error) {",
     sc('"unlink", dirfd, path, -1, "", flags', "return e")),
    ("func Mkdirat(dirfd int, path string, mode uint32) (err error) {",
     sc('"mkdir", dirfd, path, -1, "", int(mode)', "return e")),
    ("func Flock(fd int, how int) (err error) {",
     sc('"flock", fd, "", -1, "", how', "return e")),
    ("func write(fd int, p []byte) (n int, err error) {",
     sc('"write", fd, "", -1, "", len(p)', "return -1, e")),
    ("func pwrite(fd int, p []byte, offset int64) (n int, err error) {",
     sc('"write", fd, "", -1, "", len(p)', "return -1, e")),
    ("func Ftruncate(fd int, length int64) (err error) {",
     sc('"ftruncate", fd, "", -1, "", int(length)', "return e")),
    ("func Truncate(path string, length int64) (err error) {",
     sc('"truncate", -100, path, -1, "", int(length)', "return e")),
    ("func Renameat(olddirfd int, oldpath string, newdirfd int, newpath string) (err error) {",
     sc('"rename", olddirfd, oldpath, newdirfd, newpath, 0', "return e")),
], tail='''
// VerifHook, when set, is called before every file-system mutating system call;
// a non-zero result makes the call fail with it.
var VerifHook func(op string, dirfd int, path string, dirfd2 int, path2 string, arg int) Errno

// VerifPath, when set, says what file is really opened or looked at.
var VerifPath func(path string) string
''')

CALL = "\tif syscall.VerifHook != nil {\n\t\tif e := syscall.VerifHook(%s); e != 0 {\n\t\t\t%s\n\t\t}\n\t}\n"
patch("internal/syscall/unix/at.go", [
    ("func Unlinkat(dirfd int, path string, flags int) error {",
     sc('"unlink", dirfd, path, -1, "", flags', "return e")),
    ("func Openat(dirfd int, path string, flags int, perm uint32) (int, error) {",
     sc('"open", dirfd, path, -1, "", flags', "return -1, e")),
    ("func Mkdirat(dirfd int, path string, mode uint32) error {",
     sc('"mkdir", dirfd, path, -1, "", int(mode)', "return e")),
    ("func Renameat(olddirfd int, oldpath string, newdirfd int, newpath string) error {",
     sc('"rename", olddirfd, oldpath, newdirfd, newpath, 0', "return e")),
    ("func Linkat(olddirfd int, oldpath string, newdirfd int, newpath string, flag int) error {",
     sc('"link", olddirfd, oldpath, newdirfd, newpath, flag', "return e")),
])
patch("internal/syscall/unix/copy_file_range_unix.go", [
    ("func CopyFileRange(rfd int, roff *int64, wfd int, woff *int64, len int, flags int) (n int, err error) {",
     sc('"write", wfd, "", -1, "", len', "return -1, e")),
])
patch("time/sleep.go", [
    ("func NewTimer(d Duration) *Timer {", "\td = verifScaled(d)\n"),
    ("func (t *Timer) Reset(d Duration) bool {", "\td = verifScaled(d)\n"),
    ("func AfterFunc(d Duration, f func()) *Timer {", "\tif verifAfter {\n\t\td = verifScaled(d)\n\t}\n"),
])
patch("time/time.go", [
    ("\tsec, nsec, mono := runtimeNow()", "\tsec += verifWall\n\tmono += verifMono\n"),
    ("func Since(t Time) Duration {", "\tif verifMono != 0 && t.wall&hasMonotonic != 0 {\n\t\treturn subMono(runtimeNano()-startNano+verifMono, t.ext)\n\t}\n"),
    ("func Until(t Time) Duration {", "\tif verifMono != 0 && t.wall&hasMonotonic != 0 {\n\t\treturn subMono(t.ext, runtimeNano()-startNano+verifMono)\n\t}\n"),
])
patch("time/tick.go", [
    ("func NewTicker(d Duration) *Ticker {", "\td = verifScaled(d)\n"),
])
patch("time/zoneinfo.go", [], tail='''
var verifScale Duration = verifReadScale()

// verifAfter: AfterFunc (and with it contexts) is scaled as well.
var verifAfter = func() bool { _, ok := syscall.Getenv("VERIF_SCALE_AFTER"); return ok }()

func verifReadScale() Duration {
	s, ok := syscall.Getenv("VERIF_TIME_SCALE")
	if !ok {
		return 1
	}
	var n Duration
	for i := 0; i < len(s); i++ {
		if s[i] < '0' || s[i] > '9' {
			return 1
		}
		n = n*10 + Duration(s[i]-'0')
	}
	if n < 1 {
		n = 1
	}
	return n
}

var verifWall, verifMono int64

// VerifSetClock: the clock reads so many seconds more than it is, of which so
// many seem to have gone by.
func VerifSetClock(wall, gone int64) { verifWall, verifMono = wall, gone*int64(Second) }

// VerifSetScale changes the divisor applied to timers of a second or more.
func VerifSetScale(n int64) { verifScale = Duration(n) }

func verifScaled(d Duration) Duration {
	if verifScale > 1 && d >= Second {
		return d / verifScale
	}
	return d
}
''')
if repo:
    replace[os.path.join(repo, "src/ferryd/zz_verif_monitor.go")] = os.path.join(out, "daemon_monitor.go")
    src = open(os.path.join(here, "..", "harness", "fshook", "fshook.go")).read()
    src = src.replace("//go:build ov", "").replace("package fshook", "package main", 1)
    src += "\nfunc init() { fshookFromEnv() }\n"
    with open(os.path.join(out, "daemon_monitor.go"), "w") as f:
        f.write(src)
with open(os.path.join(out, "overlay.json"), "w") as f:
    json.dump({"Replace": replace}, f, indent=1)
