package os

import "runtime"

// SimFS is implemented by the simulation harness. Pre may return an error to
// inject (with a short-write limit for writes); Post runs after the operation.
type SimFS interface {
	Pre(op, path, old string, flag, n int) (int, error)
	Post(op, path, old string, flag int, f *File)
	Stdio(name string, b []byte) int
}

var SimHooks SimFS

func simFS() bool { return SimHooks != nil && runtime.SimNode() != 0 }

func simPre(op, path, old string, flag, n int) (int, error) {
	return SimHooks.Pre(op, path, old, flag, n)
}

func simPost(op, path, old string, flag int, f *File) {
	SimHooks.Post(op, path, old, flag, f)
}
