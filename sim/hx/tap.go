//go:build go1.22

package main

// HTTP/2 tap on cosigner-to-cosigner connections: every frame is parsed where
// it is written, so each RPC message is an event (and a fault point) before it
// leaves and when it arrives.

import (
	"encoding/binary"
	"strings"

	"golang.org/x/net/http2/hpack"
)

type rpc struct {
	id         int
	conn       int
	stream     uint32
	method     string // short name
	from, to   int32  // nids
	fromH, toH *host
	req, resp  []byte // message bytes as written by the source
	status     string
	tReqOut    int64
	tReqIn     int64
	tRespOut   int64
	delivered  []byte // request as delivered, if altered in transit
	corrupted  bool   // request or response was altered in transit
	reqDone    bool
	respDone   bool
}

type h2conn struct {
	w       *world
	cli     *simConn
	streams map[uint32]*h2stream
}

type h2stream struct {
	r        *rpc
	reqBuf   []byte
	respBuf  []byte
	nReq     int
	nResp    int
	reqSkip  bool
	respSkip bool
}

type tapDir struct {
	h      *h2conn
	client bool // direction client->server
	buf    []byte
	pre    bool // preface seen
	dec    *hpack.Decoder
	hdr    []hpack.HeaderField
	cont   uint32
	hbuf   []byte
	hend   bool
	dead   bool
}

func (w *world) installTap(c *simConn) {
	if c.raddr.Port != 2222 {
		return
	}
	h := &h2conn{w: w, cli: c, streams: map[uint32]*h2stream{}}
	a := &tapDir{h: h, client: true}
	b := &tapDir{h: h, pre: true}
	a.dec = hpack.NewDecoder(4096, func(f hpack.HeaderField) { a.hdr = append(a.hdr, f) })
	b.dec = hpack.NewDecoder(4096, func(f hpack.HeaderField) { b.hdr = append(b.hdr, f) })
	c.out.tap = a
	c.in.tap = b
}

func (t *tapDir) flush(p *pipe) {
	if len(t.buf) > 0 {
		p.send(t.buf, false, false, nil)
		t.buf = nil
	}
}

const preface = "PRI * HTTP/2.0\r\n\r\nSM\r\n\r\n"

func (t *tapDir) feed(p *pipe, b []byte) {
	if t.dead {
		p.send(b, false, false, nil)
		return
	}
	t.buf = append(t.buf, b...)
	var out []byte
	var evs []func()
	push := func() {
		if len(out) > 0 && !p.src.closed {
			p.send(out, false, false, evs)
		}
		out, evs = nil, nil
	}
	if !t.pre {
		if len(t.buf) < len(preface) {
			return
		}
		if string(t.buf[:len(preface)]) != preface {
			t.dead = true
			p.send(t.buf, false, false, nil)
			t.buf = nil
			return
		}
		t.pre = true
		out = append(out, t.buf[:len(preface)]...)
		t.buf = t.buf[len(preface):]
	}
	for len(t.buf) >= 9 {
		l := int(t.buf[0])<<16 | int(t.buf[1])<<8 | int(t.buf[2])
		if len(t.buf) < 9+l {
			break
		}
		f := append([]byte(nil), t.buf[:9+l]...)
		t.buf = t.buf[9+l:]
		ev := t.frame(p, f)
		if ev == nil {
			out = append(out, f...)
			continue
		}
		// event frame: everything before it leaves first
		push()
		if p.src.closed {
			t.buf = nil
			return
		}
		if !ev.pre() || p.src.closed {
			t.buf = nil
			return
		}
		out = append(out, f...)
		evs = append(evs, ev.in)
		push()
		ev.post()
		if p.src.closed {
			t.buf = nil
			return
		}
	}
	push()
}

type frameEv struct {
	pre  func() bool // before it leaves; false: drop the connection's output
	post func()      // after it left
	in   func()      // on arrival
}

func (t *tapDir) frame(p *pipe, f []byte) *frameEv {
	typ, flags := f[3], f[4]
	sid := binary.BigEndian.Uint32(f[5:9]) & 0x7fffffff
	pl := f[9:]
	switch typ {
	case 0: // DATA
		off := 0
		end := len(pl)
		if flags&8 != 0 && end > 0 {
			off = 1
			end -= int(pl[0])
		}
		if end < off {
			return nil
		}
		return t.data(p, sid, pl[off:end], flags&1 != 0)
	case 1: // HEADERS
		off := 0
		end := len(pl)
		if flags&8 != 0 {
			off = 1
			end -= int(pl[0])
		}
		if flags&0x20 != 0 {
			off += 5
		}
		if off > end {
			t.dead = true
			return nil
		}
		t.hbuf = append([]byte(nil), pl[off:end]...)
		t.cont = sid
		t.hend = flags&1 != 0
		if flags&4 != 0 {
			return t.headers(p)
		}
	case 9: // CONTINUATION
		t.hbuf = append(t.hbuf, pl...)
		if flags&4 != 0 {
			return t.headers(p)
		}
	case 4: // SETTINGS
	}
	return nil
}

func (t *tapDir) headers(p *pipe) *frameEv {
	t.hdr = t.hdr[:0]
	if _, err := t.dec.Write(t.hbuf); err != nil {
		t.dead = true
		return nil
	}
	t.dec.Close()
	sid := t.cont
	st := t.h.streams[sid]
	if t.client {
		if st == nil {
			r := &rpc{conn: t.h.cli.id, stream: sid, from: p.src.nid, to: p.dst.nid, fromH: p.src.h, toH: p.dst.h}
			for _, f := range t.hdr {
				if f.Name == ":path" {
					r.method = f.Value[strings.LastIndexByte(f.Value, '/')+1:]
				}
			}
			st = &h2stream{r: r}
			t.h.streams[sid] = st
		}
		return nil
	}
	if st == nil {
		return nil
	}
	for _, f := range t.hdr {
		if f.Name == "grpc-status" {
			st.r.status = f.Value
		}
		if f.Name == "grpc-message" && t.h.w.p.Prop == "C19" {
			t.h.w.o.sentText(st.r.toH, "error status", []byte(f.Value))
		}
	}
	if t.hend {
		r := st.r
		delete(t.h.streams, sid)
		w := t.h.w
		if r.status != "0" && !r.respDone {
			return &frameEv{
				pre:  func() bool { w.onRPC("resp:out-pre", r, nil); return true },
				post: func() { w.onRPC("resp:out-post", r, nil) },
				in:   func() { w.onRPC("resp:in", r, nil) },
			}
		}
	}
	return nil
}

func (t *tapDir) data(p *pipe, sid uint32, b []byte, end bool) *frameEv {
	st := t.h.streams[sid]
	if st == nil || len(b) == 0 {
		return nil
	}
	r := st.r
	w := t.h.w
	if t.client {
		st.reqBuf = append(st.reqBuf, b...)
		if m, ok := takeMsg(&st.reqBuf); ok {
			st.nReq++
			if st.nReq > 1 { // streaming: a new rpc record per message
				r = &rpc{conn: r.conn, stream: sid, method: r.method, from: r.from, to: r.to, fromH: r.fromH, toH: r.toH}
				st.r = r
			}
			r.req = m
			r.reqDone = true
			r.tReqOut = now()
			w.nRPC++
			r.id = w.nRPC
			var body []byte
			if len(b) >= len(m) {
				body = b[len(b)-len(m):]
			}
			return &frameEv{
				pre:  func() bool { return w.onRPC("req:out-pre", r, body) },
				post: func() { w.onRPC("req:out-post", r, nil) },
				in:   func() { r.tReqIn = now(); w.onRPC("req:in", r, nil) },
			}
		}
		return nil
	}
	st.respBuf = append(st.respBuf, b...)
	if m, ok := takeMsg(&st.respBuf); ok {
		st.nResp++
		r.resp = m
		r.respDone = true
		r.status = "0"
		r.tRespOut = now()
		var body []byte
		if len(b) >= len(m) {
			body = b[len(b)-len(m):]
		}
		return &frameEv{
			pre:  func() bool { return w.onRPC("resp:out-pre", r, body) },
			post: func() { w.onRPC("resp:out-post", r, nil) },
			in:   func() { w.onRPC("resp:in", r, nil) },
		}
	}
	return nil
}

// takeMsg extracts one complete gRPC message.
func takeMsg(b *[]byte) ([]byte, bool) {
	x := *b
	if len(x) < 5 {
		return nil, false
	}
	l := int(binary.BigEndian.Uint32(x[1:5]))
	if len(x) < 5+l {
		return nil, false
	}
	m := append([]byte(nil), x[5:5+l]...)
	*b = append([]byte(nil), x[5+l:]...)
	return m, true
}
