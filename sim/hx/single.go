//go:build go1.22

package main

// Single-signer mode: one process with the whole key (C15, parts of C03 C04 C05 C12 C17).

import (
	"fmt"
)

func (w *world) setupSingle() *node {
	makeKeys(w.p.Seed, 0, 0)
	nd := w.newNode(1, "n1", "10.0.0.1", 1)
	nd.args = []string{"signer", "start"}
	var names []int
	for k := range w.p.Sentry {
		names = append(names, k+1)
	}
	w.writeSingleHome(nd, names)
	w.nodes = append(w.nodes, nd)
	for k := range w.p.Sentry {
		s := w.addSentry(k + 1)
		s.listen()
		w.addLink(s, nd)
	}
	return nd
}

func (w *world) runSingle() {
	nd := w.setupSingle()
	go w.start(nd)
	w.loadItems()
	w.sleepUntil(w.p.Horizon)
	w.stopFaults()
	nd.held = false
	if !nd.alive {
		go w.start(nd)
	}
	w.drain()
	switch w.p.Final {
	case "C12":
		w.finalC12()
	case "C23":
		w.finalC23()
	case "C24":
		w.finalC24()
	case "C25":
		w.finalC25()
	case "C07":
		// service after hostile input
		if p, _ := w.signEverywhere(90000); len(p) > 0 {
			w.violate("C17", "no-service", "90 s after the last bad message the signer does not sign for sentry %d", p[0].s.k)
		}
	default:
		w.finalSign()
	}
	w.checkFiles(nd, "at the end")
}

type rel struct {
	h   hrs
	at  int64
	msg []byte
}

// singleRelease: the signer let a valid signature out.
func (o *oracles) singleRelease(a *answer, h hrs, canon string) {
	w := o.w
	msg := a.retMsg
	if !valPub.VerifySignature(msg, a.sig) {
		msg = a.msg
	}
	for _, p := range o.rels {
		if h.less(p.h) && p.at < a.sentAt {
			w.violate("C15", "regress", "a signature for %v was released (asked t=%dms) after one for %v (t=%dms)", h, (a.sentAt-w.t0)/1e6, p.h, (p.at-w.t0)/1e6)
			break
		}
	}
	if len(o.rels) < 3000 {
		o.rels = append(o.rels, rel{h, a.at, msg})
	}
	w.states[fmt.Sprintf("single@%v", h)] = true
	// the answer arrives after it was released: the file can only be further
	o.checkDurable(a.l.n, "priv", h, canon, msg, "released a validator signature")
}
