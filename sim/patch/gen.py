#!/usr/bin/env python3
"""Generate the overlay used to build the simulation binary.

usage: gen.py GOROOT REPO OUTDIR SIMDIR

Every patch is an exact-match replacement in a pristine GOROOT (or module
cache) file; a patch that does not match exactly once is an error.  Nothing in
/repo is edited: the harness (package main) is mapped to /repo/zzsim/ by the
overlay, and all of /repo's own code is compiled exactly as it is.
"""
import json, os, subprocess, sys

goroot, repo, out, simdir = sys.argv[1:5]
modcache = os.environ.get("GOMODCACHE", "/root/go/pkg/mod")
replace = {}
here = os.path.dirname(os.path.abspath(__file__))


def patch(path, edits):
    src = open(path).read()
    for old, new in edits:
        if src.count(old) != 1:
            sys.exit("patch does not apply exactly once to %s (%d):\n%s" % (path, src.count(old), old))
        src = src.replace(old, new)
    rel = path.strip("/").replace("/", "__")
    dst = os.path.join(out, "patched", rel)
    os.makedirs(os.path.dirname(dst), exist_ok=True)
    write(dst, src)
    replace[path] = dst


def write(dst, src):
    try:
        if open(dst).read() == src:
            return
    except OSError:
        pass
    with open(dst, "w") as f:
        f.write(src)


def std(rel, edits):
    patch(os.path.join(goroot, "src", rel), edits)


def add(target, src):
    replace[target] = os.path.join(here, src)


R = os.path.join(goroot, "src")

# ---------------------------------------------------------------- raft
# Snapshots and log truncation come after thousands of entries, which is hours
# of signing: a plan may bring them closer. The defaults stay what they are.
import re
m = re.search(r"^\s*github.com/hashicorp/raft (v\S+)", open(os.path.join(repo, "go.mod")).read(), re.M)
patch(os.path.join(modcache, "github.com/hashicorp/raft@" + m.group(1), "config.go"), [
    ("// DefaultConfig returns a Config with usable defaults.\n",
     "var SimTrailing, SimThreshold, SimInterval uint64 = 10240, 8192, 120000\n\n// DefaultConfig returns a Config with usable defaults.\n"),
    ("		TrailingLogs:       10240,\n		SnapshotInterval:   120 * time.Second,\n		SnapshotThreshold:  8192,\n",
     "		TrailingLogs:       SimTrailing,\n		SnapshotInterval:   time.Duration(SimInterval) * time.Millisecond,\n		SnapshotThreshold:  SimThreshold,\n"),
])

# A known defect of raft v1.3.3 (see DESIGN.md): a second transfer to a peer that does
# not answer is never given up when the leader loses its leadership meanwhile. Only noted.
if m.group(1) == "v1.3.3":
    patch(os.path.join(modcache, "github.com/hashicorp/raft@v1.3.3", "raft.go"), [
        ("		repl.triggerDeferErrorCh <- err\n", "		runtime.SimXfer(1)\n		repl.triggerDeferErrorCh <- err\n		runtime.SimXfer(-1)\n"),
        ('	"io/ioutil"\n', '	"io/ioutil"\n	"runtime"\n'),
    ])

# A goroutine of a killed process may run on until it reaches a seam. It must
# not read its old mapping of a store the next incarnation is writing.
m = re.search(r"^\s*github.com/boltdb/bolt (v\S+)", open(os.path.join(repo, "go.mod")).read(), re.M)
bolt = os.path.join(modcache, "github.com/boltdb/bolt@" + (m.group(1) if m else ""), "db.go")
if os.path.exists(bolt):
    patch(bolt, [
        ("func (db *DB) beginTx() (*Tx, error) {\n", "func (db *DB) beginTx() (*Tx, error) {\n	runtime.SimParkIfDead()\n"),
        ("func (db *DB) beginRWTx() (*Tx, error) {\n", "func (db *DB) beginRWTx() (*Tx, error) {\n	runtime.SimParkIfDead()\n"),
    ])

# A known defect of grpc v1.44.0 (see DESIGN.md): a connection that closes right
# after the server's preface can leave the client connecting for ever. Only noted.
grpc = os.path.join(modcache, "google.golang.org/grpc@v1.44.0", "clientconn.go")
if " google.golang.org/grpc v1.44.0" in open(os.path.join(repo, "go.mod")).read() or "\tgoogle.golang.org/grpc v1.44.0" in open(os.path.join(repo, "go.mod")).read():
    patch(grpc, [
        ("		case <-prefaceReceived.Done():\n			return nil\n		default:\n", "		case <-prefaceReceived.Done():\n			runtime.SimNote()\n			return nil\n		default:\n"),
        ('	"reflect"\n', '	"reflect"\n	"runtime"\n'),
    ])

# ---------------------------------------------------------------- runtime
add(R + "/runtime/zsim.go", "zsim_runtime.go")
add(R + "/runtime/time_fake.go", "time_fake.go")
std("runtime/runtime2.go", [(
    "	lockedm       muintptr\n	sig           uint32\n",
    "	lockedm       muintptr\n	simNode       int32\n	simPrio       uint32\n	sig           uint32\n")])
std("runtime/rand.go", [
    ("func bootstrapRand() uint64 {\n", "func bootstrapRand() uint64 {\n	if true {\n		return simMix(&simRand4)\n	}\n"),
    # draws that depend on which thread runs, or on threads being created,
    # come from a stream of their own
    ("	mp.cheaprand = rand()\n", "	mp.cheaprand = simMix(&simRand4)\n"),
    ("func rand() uint64 {\n", "func rand() uint64 {\n	if true {\n		return simMix(&simRand1)\n	}\n"),
    ("func cheaprand() uint32 {\n", "func cheaprand() uint32 {\n	if true {\n		return uint32(simMix(&simRand1))\n	}\n"),
])
std("runtime/signal_unix.go", [("func sigpanic() {\n	gp := getg()\n", "func sigpanic() {\n	gp := getg()\n	if simActive && gp.simNode != 0 && simDeadN[gp.simNode] {\n		SimPark()\n	}\n")])
std("runtime/traceback.go", [('	print("goroutine ", gp.goid)\n', '	print("goroutine ", gp.goid, " node=", gp.simNode)\n')])
std("runtime/mprof.go", [
    ("	if int64(cheaprand())%lt.timeRate == 0 {\n", "	if int64(simMix(&simRand4)>>32)%lt.timeRate == 0 {\n"),
    ("		prevScore := uint64(cheaprand64()) % uint64(prev)\n		thisScore := uint64(cheaprand64()) % uint64(cycles)\n",
     "		prevScore := simMix(&simRand4) % uint64(prev)\n		thisScore := simMix(&simRand4) % uint64(cycles)\n"),
])
std("runtime/symtab.go", [("				ci := cheaprandn(uint32(len(cache.entries[ck])))\n", "				ci := uint32(simMix(&simRand4) % uint64(len(cache.entries[ck])))\n")])
std("runtime/malloc.go", [(
    "	if size == 0 {\n		return unsafe.Pointer(&zerobase)\n	}\n\n	// It's possible for any malloc to trigger sweeping, which may in\n",
    "	if size == 0 {\n		return unsafe.Pointer(&zerobase)\n	}\n	simMallocHook(size)\n\n	// It's possible for any malloc to trigger sweeping, which may in\n")])
std("runtime/panic.go", [
    ("	preprintpanics(&p)\n\n	fatalpanic(&p)   // should not return\n",
     "	preprintpanics(&p)\n\n	if gp.simNode != 0 {\n		runningPanicDefers.Add(-1)\n		SimDie(p.arg, 2)\n	}\n	fatalpanic(&p)   // should not return\n"),
    ("func fatal(s string) {\n",
     "func fatal(s string) {\n	if gp := getg(); gp.simNode != 0 && gp.m != nil && gp.m.curg == gp && gp.m.locks == 0 {\n		simFatal(gp, s)\n	}\n"),
])
std("runtime/time.go", [
    ("	blocked uint32 // number of goroutines blocked on timer's channel\n",
     "	blocked uint32 // number of goroutines blocked on timer's channel\n	simNode int32\n"),
    ("	t := new(timeTimer)\n	t.timer.init(nil, nil)\n",
     "	t := new(timeTimer)\n	t.timer.simNode = getg().simNode\n	t.timer.init(nil, nil)\n"),
    ("	gp.sleepWhen = when\n", "	gp.sleepWhen = when\n	t.simNode = gp.simNode\n"),
    ("	f := t.f\n	arg := t.arg\n	seq := t.seq\n	var next int64\n",
     "	f := t.f\n	arg := t.arg\n	seq := t.seq\n	simNd := t.simNode\n	if simNd != 0 && simDeadN[simNd] {\n		f = func(any, uintptr, int64) {}\n		t.period = 0\n	}\n	var next int64\n"),
    ("	f(arg, seq, delay)\n\n	if !async && t.isChan {\n",
     "	getg().simNode = simNd\n	f(arg, seq, delay)\n	getg().simNode = 0\n\n	if !async && t.isChan {\n"),
])
std("runtime/mgcpacer.go", [(
    "	p := gogetenv(\"GOGC\")\n", "	p := \"off\"\n")])
std("runtime/proc.go", [
    ("	procs := ncpu\n	if n, ok := atoi32(gogetenv(\"GOMAXPROCS\")); ok && n > 0 {\n		procs = n\n	}\n	if procresize(procs)",
     "	procs := int32(1)\n	if procresize(procs)"),
    ('const haveSysmon = GOARCH != "wasm"\n', 'const haveSysmon = GOARCH == "wasm"\n'),
    ("	// local runq\n	if gp, inheritTime := runqget(pp); gp != nil {\n		return gp, inheritTime, false\n	}\n\n	// global runq\n",
     "	if gp := simSched(pp, pollUntil); gp != nil {\n		return gp, false, false\n	}\n	if simActive {\n		simAdvance(pp, pollUntil)\n		goto top\n	}\n	// local runq\n	if gp, inheritTime := runqget(pp); gp != nil {\n		return gp, inheritTime, false\n	}\n\n	// global runq\n"),
    ("	newg.parentGoid = callergp.goid\n", "	newg.parentGoid = callergp.goid\n	newg.simNode = callergp.simNode\n	newg.simPrio = 0\n"),
])

# ---------------------------------------------------------------- syscall / os
std("syscall/time_fake.go", [("const faketime = true", "const faketime = false")])
# mapping addresses are hashed by the mmapper's table: pick them ourselves
std("syscall/syscall_unix.go", [
    ("	addr, errno := m.mmap(0, uintptr(length), prot, flags, fd, offset)\n",
     "	m.Lock()\n	hint := simMapHint\n	simMapHint += (uintptr(length) + 1<<30) &^ (1<<20 - 1)\n	m.Unlock()\n	addr, errno := m.mmap(hint, uintptr(length), prot, flags, fd, offset)\n"),
    ("type mmapper struct {\n", "var simMapHint uintptr = 0x100000000000\n\ntype mmapper struct {\n"),
])
add(R + "/os/zsim.go", "zsim_os.go")
std("os/proc.go", [("func Exit(code int) {\n",
                    "func Exit(code int) {\n	if runtime.SimNode() != 0 {\n		runtime.SimDie(\"os.Exit\", code)\n	}\n")])
std("os/exec.go", [
    ("func StartProcess(name string, argv []string, attr *ProcAttr) (*Process, error) {\n",
     "func StartProcess(name string, argv []string, attr *ProcAttr) (*Process, error) {\n	if runtime.SimNode() != 0 {\n		return nil, &PathError{Op: \"fork/exec\", Path: name, Err: ErrPermission}\n	}\n"),
    ("func Getpid() int { return syscall.Getpid() }", "func Getpid() int { return 4242 }")])
std("os/exec/exec.go", [("func (c *Cmd) Output() ([]byte, error) {\n",
                         "func (c *Cmd) Output() ([]byte, error) {\n	if SimOutput != nil {\n		return SimOutput(c)\n	}\n")])
add(R + "/os/exec/zsim.go", "zsim_exec.go")
std("os/file.go", [
    ("	testlog.Open(name)\n	f, err := openFileNolog(name, flag, perm)\n	if err != nil {\n		return nil, err\n	}\n	f.appendMode = flag&O_APPEND != 0\n",
     "	testlog.Open(name)\n	if simFS() {\n		if _, err := simPre(\"open\", name, \"\", flag, 0); err != nil {\n			return nil, &PathError{Op: \"open\", Path: name, Err: err}\n		}\n	}\n	f, err := openFileNolog(name, flag, perm)\n	if err != nil {\n		return nil, err\n	}\n	f.appendMode = flag&O_APPEND != 0\n	if simFS() {\n		f.simFlag = flag\n		simPost(\"open\", name, \"\", flag, f)\n	}\n"),
    ("		return 0, err\n	}\n	n, e := f.write(b)\n	if n < 0 {\n",
     "		return 0, err\n	}\n	if simFS() {\n		if f.name == \"/dev/stdout\" || f.name == \"/dev/stderr\" {\n			return SimHooks.Stdio(f.name, b), nil\n		}\n		lim, err := simPre(\"write\", f.name, \"\", f.simFlag, len(b))\n		if err != nil {\n			if lim > 0 {\n				n, _ = f.write(b[:lim])\n			}\n			simPost(\"write\", f.name, \"\", f.simFlag, f)\n			return n, &PathError{Op: \"write\", Path: f.name, Err: err}\n		}\n		defer simPost(\"write\", f.name, \"\", f.simFlag, f)\n	}\n	n, e := f.write(b)\n	if n < 0 {\n"),
    ("	if f.appendMode {\n		return 0, errWriteAtInAppendMode\n	}\n",
     "	if f.appendMode {\n		return 0, errWriteAtInAppendMode\n	}\n	if simFS() {\n		lim, err := simPre(\"writeat\", f.name, \"\", f.simFlag, len(b))\n		if err != nil {\n			if lim > 0 {\n				n, _ = f.pwrite(b[:lim], off)\n			}\n			simPost(\"writeat\", f.name, \"\", f.simFlag, f)\n			return n, &PathError{Op: \"write\", Path: f.name, Err: err}\n		}\n		defer simPost(\"writeat\", f.name, \"\", f.simFlag, f)\n	}\n"),
    ("func Rename(oldpath, newpath string) error {\n	return rename(oldpath, newpath)\n",
     "func Rename(oldpath, newpath string) error {\n	if simFS() {\n		if _, err := simPre(\"rename\", newpath, oldpath, 0, 0); err != nil {\n			return &LinkError{\"rename\", oldpath, newpath, err}\n		}\n		err := rename(oldpath, newpath)\n		if err == nil {\n			simPost(\"rename\", newpath, oldpath, 0, nil)\n		}\n		return err\n	}\n	return rename(oldpath, newpath)\n"),
])
std("os/file_posix.go", [
    ("	if e := f.pfd.Fsync(); e != nil {\n		return f.wrapErr(\"sync\", e)\n	}\n	return nil\n",
     "	if simFS() {\n		if _, err := simPre(\"sync\", f.name, \"\", f.simFlag, 0); err != nil {\n			return &PathError{Op: \"sync\", Path: f.name, Err: err}\n		}\n		simPost(\"sync\", f.name, \"\", f.simFlag, f)\n		return nil\n	}\n	if e := f.pfd.Fsync(); e != nil {\n		return f.wrapErr(\"sync\", e)\n	}\n	return nil\n"),
    ("func (f *File) Truncate(size int64) error {\n",
     "func (f *File) Truncate(size int64) error {\n	if simFS() && f != nil {\n		if _, err := simPre(\"truncate\", f.name, \"\", f.simFlag, 0); err != nil {\n			return &PathError{Op: \"truncate\", Path: f.name, Err: err}\n		}\n		defer simPost(\"truncate\", f.name, \"\", f.simFlag, f)\n	}\n"),
    ("	if f == nil {\n		return ErrInvalid\n	}\n	return f.file.close()\n",
     "	if f == nil {\n		return ErrInvalid\n	}\n	if simFS() {\n		simPre(\"close\", f.name, \"\", f.simFlag, 0)\n		err := f.file.close()\n		simPost(\"close\", f.name, \"\", f.simFlag, f)\n		return err\n	}\n	return f.file.close()\n"),
])
std("os/file_unix.go", [
    ("func Remove(name string) error {\n",
     "func Remove(name string) error {\n	if simFS() {\n		if _, err := simPre(\"remove\", name, \"\", 0, 0); err != nil {\n			return &PathError{Op: \"remove\", Path: name, Err: err}\n		}\n		defer simPost(\"remove\", name, \"\", 0, nil)\n	}\n"),
    ("func Truncate(name string, size int64) error {\n",
     "func Truncate(name string, size int64) error {\n	if simFS() {\n		if _, err := simPre(\"truncate\", name, \"\", 0, 0); err != nil {\n			return &PathError{Op: \"truncate\", Path: name, Err: err}\n		}\n		defer simPost(\"truncate\", name, \"\", 0, nil)\n	}\n"),
    ("	appendMode  bool                    // whether file is opened for appending\n",
     "	appendMode  bool                    // whether file is opened for appending\n	simFlag     int\n"),
])
std("os/signal/signal.go", [(
    "		panic(\"os/signal: Notify using nil channel\")\n	}\n\n	handlers.Lock()\n",
    "		panic(\"os/signal: Notify using nil channel\")\n	}\n	if SimNotify != nil {\n		SimNotify(c, sig)\n		return\n	}\n\n	handlers.Lock()\n")])
add(R + "/os/signal/zsim.go", "zsim_signal.go")

# ---------------------------------------------------------------- net
add(R + "/net/zsim.go", "zsim_net.go")
std("net/dial.go", [
    ("	if ctx == nil {\n		panic(\"nil context\")\n	}\n	deadline := d.deadline(ctx, time.Now())\n",
     "	if ctx == nil {\n		panic(\"nil context\")\n	}\n	if SimDial != nil {\n		return SimDial(ctx, d, network, address)\n	}\n	deadline := d.deadline(ctx, time.Now())\n"),
    ("func (lc *ListenConfig) Listen(ctx context.Context, network, address string) (Listener, error) {\n",
     "func (lc *ListenConfig) Listen(ctx context.Context, network, address string) (Listener, error) {\n	if SimListen != nil {\n		return SimListen(network, address)\n	}\n"),
])

# ---------------------------------------------------------------- crypto/rand
std("crypto/rand/rand_unix.go", [
    ("	boring.Unreachable()\n	if r.used.CompareAndSwap(0, 1) {\n",
     "	boring.Unreachable()\n	if true {\n		runtime.SimCryptoRead(b)\n		return len(b), nil\n	}\n	if r.used.CompareAndSwap(0, 1) {\n"),
    ('	"os"\n	"sync"\n', '	"os"\n	"runtime"\n	"sync"\n'),
])

# ---------------------------------------------------------------- crypto/rsa
add(R + "/crypto/rsa/zsim.go", "zsim_rsa.go")
std("crypto/rsa/rsa.go", [
    ("func GenerateKey(random io.Reader, bits int) (*PrivateKey, error) {\n",
     "func GenerateKey(random io.Reader, bits int) (*PrivateKey, error) {\n	if SimKey != nil {\n		if k := SimKey(bits); k != nil {\n			return k, nil\n		}\n	}\n")])

# ---------------------------------------------------------------- harness
hx = os.path.join(simdir, "hx")
for f in sorted(os.listdir(hx)):
    if f.endswith(".go"):
        replace[os.path.join(repo, "zzsim", f)] = os.path.join(hx, f)
plan = os.path.join(simdir, "plan")
for f in sorted(os.listdir(plan)):
    if f.endswith(".go") and not f.endswith("_test.go"):
        replace[os.path.join(repo, "zzsim", "plan", f)] = os.path.join(plan, f)

write(os.path.join(out, "overlay.json"), json.dumps({"Replace": replace}, indent=1))
