//go:build go1.22

package main

// Simulated disk: the node's files are real files in the scratch directory;
// every operation is a fault point, and unsynced data is tracked so that a
// power loss can take it away.

import (
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"syscall"
	"time"
)

type fnode struct {
	durable []byte
	exists  bool // durable state: file present
	dirty   bool
	prev    *fnode // what the path durably held before a rename of unsynced data
}

type fsSim struct {
	w     *world
	files map[string]*fnode
}

func (s *fsSim) track(p string) *fnode {
	if f := s.files[p]; f != nil {
		return f
	}
	f := &fnode{}
	if b, err := os.ReadFile(p); err == nil {
		f.durable, f.exists = b, true
	}
	s.files[p] = f
	return f
}

// durableContent is what a power loss right now is guaranteed to keep.
func (s *fsSim) durableContent(p string) ([]byte, bool) {
	p = filepath.Clean(p)
	if f := s.files[p]; f != nil && f.dirty {
		return f.durable, f.exists
	}
	b, err := os.ReadFile(p)
	return b, err == nil
}

func fsClass(p string) string {
	b := filepath.Base(p)
	switch {
	case strings.HasSuffix(b, "_share_sign_state.json"):
		return "share"
	case strings.HasSuffix(b, "_priv_validator_state.json"):
		return "priv"
	case b == "config.yaml":
		return "config"
	case strings.Contains(p, "/raft/"):
		return "raft"
	case strings.Contains(p, "/state/"):
		return "tmp"
	case strings.HasSuffix(b, ".json"):
		return "key"
	}
	return "other"
}

func (s *fsSim) Pre(op, path, old string, flag, n int) (int, error) {
	nid := runtime.SimNode()
	runtime.SimParkIfDead()
	runtime.SimSetNode(0)
	nd := s.w.byNid[nid]
	if nd == nil {
		runtime.SimSetNode(nid)
		return n, nil
	}
	p := filepath.Clean(path)
	cl := fsClass(p)
	if cl != "raft" {
		switch op {
		case "open":
			if flag&(os.O_CREATE|os.O_TRUNC|os.O_WRONLY|os.O_RDWR) != 0 {
				s.track(p)
			}
		case "write", "writeat", "truncate":
			s.track(p)
		case "rename":
			s.track(p)
			s.track(filepath.Clean(old))
		}
	}
	s.w.stats["fsop"]++
	wr := op == "write" || op == "writeat" || op == "rename" || op == "sync" || op == "truncate" ||
		(op == "open" && flag&(os.O_CREATE|os.O_TRUNC|os.O_WRONLY|os.O_RDWR) != 0)
	if wr && nd.diskDelay > 0 && now() < nd.diskSlowUntil && cl != "other" {
		s.w.faults["slow_disk_op"]++
		d := nd.diskDelay/2 + s.w.rng.n64(nd.diskDelay)
		runtime.SimSetNode(nid)
		time.Sleep(time.Duration(d))
		runtime.SimParkIfDead()
		runtime.SimSetNode(0)
	}
	var ferr error
	lim := n
	eop := op
	if op == "open" && !wr {
		eop = "ropen"
	}
	if wr || op == "close" || op == "remove" || eop == "ropen" && cl != "other" {
		// injected errors
		for i := range nd.ioerrs {
			e := &nd.ioerrs[i]
			if (e.op == eop || e.op == "" && wr) && (e.class == cl || e.class == "") && e.op != "close" {
				e.ct--
				if e.ct > 0 {
					continue
				}
				if e.sticky {
					e.ct = 1
				} else {
					nd.ioerrs = append(nd.ioerrs[:i:i], nd.ioerrs[i+1:]...)
				}
				ferr = syscall.Errno(e.errno)
				lim = 0
				if n > 0 && e.short {
					lim = s.w.rng.n(n)
				}
				nd.ioHit = true
				s.w.faults["io_error_"+eop]++
				s.w.fired(e.item)
				break
			}
		}
	}
	if ferr == nil {
		s.w.event("fs:"+op+":"+cl+":pre", nd)
		if runtime.SimDead(nid) {
			runtime.SimSetNode(nid)
			if n > 0 && (op == "write" || op == "writeat") && cl != "raft" {
				// torn write: a prefix reached the file
				k := s.w.rng.n(n + 1)
				if k > 0 {
					return k, syscall.EIO
				}
			}
			runtime.SimPark()
		}
	}
	runtime.SimSetNode(nid)
	return lim, ferr
}

func (s *fsSim) Post(op, path, old string, flag int, f *os.File) {
	nid := runtime.SimNode()
	// Even for a process that died in Pre: a torn write must be accounted.
	runtime.SimSetNode(0)
	nd := s.w.byNid[nid]
	if nd == nil {
		runtime.SimSetNode(nid)
		return
	}
	p := filepath.Clean(path)
	cl := fsClass(p)
	if cl == "raft" && op == "open" && f != nil {
		nd.raftFiles = append(nd.raftFiles, f)
	}
	if cl != "raft" {
		switch op {
		case "open":
			if flag&os.O_TRUNC != 0 || (flag&os.O_CREATE != 0 && s.files[p] != nil && !s.files[p].exists) {
				s.files[p].dirty = true
			}
		case "write", "writeat", "truncate":
			fn := s.track(p)
			if flag&os.O_SYNC == os.O_SYNC {
				s.settle(p, fn)
			} else {
				fn.dirty = true
			}
		case "sync":
			if fn := s.files[p]; fn != nil {
				s.settle(p, fn)
			}
		case "rename":
			o := filepath.Clean(old)
			nw, of := s.files[p], s.files[o]
			if of == nil {
				of = &fnode{}
			}
			delete(s.files, o)
			if of.dirty {
				of.prev = nw
			} else if b, err := os.ReadFile(p); err == nil {
				of.durable, of.exists = b, true
			}
			s.files[p] = of
		case "remove":
			delete(s.files, p)
		}
	}
	if runtime.SimDead(nid) {
		s.w.checkFiles(nd, "crash during "+op)
		runtime.SimSetNode(nid)
		runtime.SimPark()
	}
	if (cl == "share" || cl == "priv") && (op == "open" && flag&(os.O_CREATE|os.O_TRUNC) != 0 || op == "write" || op == "writeat" || op == "truncate" || op == "rename" || op == "remove") {
		s.w.checkFiles(nd, "after "+op)
	}
	if nd.lost && cl == "share" {
		s.w.checkLost(nd)
	}
	s.w.event("fs:"+op+":"+cl+":post", nd)
	runtime.SimSetNode(nid)
	runtime.SimParkIfDead()
}

func (s *fsSim) settle(p string, fn *fnode) {
	if b, err := os.ReadFile(p); err == nil {
		fn.durable, fn.exists = b, true
	}
	fn.dirty = false
	fn.prev = nil
}

// powerLoss drops unsynced data below dir.
func (s *fsSim) powerLoss(dir string) {
	dir = filepath.Clean(dir) + "/"
	for _, p := range sortedKeys(s.files) {
		fn := s.files[p]
		if !strings.HasPrefix(p, dir) || !fn.dirty {
			continue
		}
		s.w.faults["unsynced_data_lost"]++
		cur, err := os.ReadFile(p)
		switch s.w.rng.n(3) {
		case 0: // old content (or no file)
			o := fn
			if fn.prev != nil {
				o = fn.prev
			}
			if o.exists {
				os.WriteFile(p, o.durable, 0600)
			} else if fn.prev == nil && !fn.exists {
				os.Remove(p)
			} else {
				os.WriteFile(p, nil, 0600)
			}
		case 1: // a prefix of the new content
			if err == nil {
				os.WriteFile(p, cur[:s.w.rng.n(len(cur)+1)], 0600)
			}
		case 2: // it made it after all
		}
		delete(s.files, p)
	}
	for _, p := range sortedKeys(s.files) {
		if strings.HasPrefix(p, dir) {
			delete(s.files, p)
		}
	}
}

func (s *fsSim) Stdio(name string, b []byte) int {
	nid := runtime.SimNode()
	runtime.SimSetNode(0)
	if nd := s.w.byNid[nid]; nd != nil && !runtime.SimDead(nid) {
		s.w.output(nd, b)
	}
	runtime.SimSetNode(nid)
	return len(b)
}

type ioFault struct {
	op, class string
	ct        int
	errno     int
	short     bool
	sticky    bool
	item      int
}
