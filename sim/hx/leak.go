//go:build go1.22

package main

// C24: what a signer holds does not grow with what it has been through.

import (
	"fmt"
	"io/fs"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"time"
)

const fileBound = 24 // files below one home directory

// goBounds is what a process in peace may run: goroutines created at one place,
// and altogether. On the code as it is the most seen is 3 and 5 for a single
// signer, 3n and 12n for one of n cosigners.
func (w *world) goBounds() (int, int) {
	if w.p.Mode == "single" {
		return 3*len(w.p.Sentry) + 8, 5*len(w.p.Sentry) + 16
	}
	return 3*w.p.N + 6 + len(w.p.Sentry), 12*w.p.N + 20 + len(w.p.Sentry)
}

// goSites counts the goroutines of a process by the function that created them.
func goSites(nid int32) (map[string]int, int) {
	buf := make([]uintptr, 20000)
	k := runtime.SimGoroutines(nid, buf)
	m := map[string]int{}
	for _, pc := range buf[:k] {
		name := "?"
		if f := runtime.FuncForPC(pc - 1); f != nil {
			name = f.Name()
		}
		m[name]++
	}
	return m, k
}

func topSites(m map[string]int) (string, string, int) {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return m[ks[i]] > m[ks[j]] || m[ks[i]] == m[ks[j]] && ks[i] < ks[j] })
	var o []string
	for i, k := range ks {
		if i < 5 {
			o = append(o, fmt.Sprintf("%d by %s", m[k], k))
		}
	}
	if len(ks) == 0 {
		return "", "", 0
	}
	return strings.Join(o, ", "), ks[0], m[ks[0]]
}

func countFiles(dir string) (n int, odd string) {
	filepath.WalkDir(dir, func(p string, d fs.DirEntry, err error) error {
		if err == nil && !d.IsDir() {
			n++
			odd = p
		}
		return nil
	})
	return
}

func (w *world) finalC24() {
	nodes := w.nodes
	if len(nodes) > 1 {
		nodes = nodes[1:]
	}
	siteMax, totalMax := w.goBounds()
	for try := 0; ; try++ {
		time.Sleep(60 * time.Second)
		bad := 0
		for _, n := range nodes {
			if n == nil || !n.alive || !n.up {
				continue
			}
			m, total := goSites(n.nid)
			s, _, most := topSites(m)
			files, last := countFiles(n.dir)
			w.stats["c24_checks"]++
			w.stats["c24_max_site"] = max(w.stats["c24_max_site"], most)
			w.stats["c24_max_total"] = max(w.stats["c24_max_total"], total)
			w.stats["c24_max_files"] = max(w.stats["c24_max_files"], files)
			w.tr("n%d (started %d times): %d goroutines (%s), %d files", n.id, n.inc, total, s, files)
			if most > siteMax || total > totalMax {
				bad++
				if try >= 2 {
					w.violate("C24", "goroutines", "n%d has been left in peace for %d s and still runs %d goroutines: %s", n.id, 60*(try+1), total, s)
				}
			}
			if files > fileBound+4*n.inc {
				bad++
				if try >= 2 {
					w.violate("C24", "files", "the home of n%d, started %d times, holds %d files, such as %s", n.id, n.inc, files, filepath.Base(last))
				}
			}
		}
		if bad == 0 || try >= 2 {
			return
		}
	}
}
