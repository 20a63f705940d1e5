package main

import (
	"fmt"

	"github.com/funny-falcon/go-iproto"
	nt "github.com/funny-falcon/go-iproto/net"
	"github.com/funny-falcon/go-iproto/net/server"
	"verif/mc"
)

type codeMap = map[iproto.RetCode]iproto.RetCode

// maps is the family of code maps; every entry maps from an internal code.
var maps = []codeMap{
	nil,
	{},
	{iproto.RcTimeout: iproto.RcOK},
	{iproto.RcTimeout: 0x3701, iproto.RcIOError: 0x0001, 0x0003: 0x0002, 0xfff3: 0xfff2, 0x000b: 0x000c},
	{0x12340003: 0x00000007, 0xffffff03: 0xfffffff8, 0x0103: 0x0104},
}

// want is the code that has to arrive at the client, from the rules.
func want(m codeMap, c iproto.RetCode) iproto.RetCode {
	if c%8 != 3 {
		return c
	}
	for k, v := range m {
		if k == c {
			return v
		}
	}
	return c - 3 + 2
}

func init() {
	all := func(name, doc string, high []uint32, nchunk int, n uint32, deepOnly bool) {
		b := mc.Bound{D: 0, MaxSteps: 50000000}
		d := b
		d.D = -1
		d.Sec = 1200
		add(mc.Scenario{Name: name, Doc: doc, Quick: b, Deep: d, DeepOnly: deepOnly, Run: func() {
			m := maps[mc.ChooseFree(len(maps))]
			rc := []nt.RCType{nt.RC4byte, nt.RC1byte}[mc.ChooseFree(2)]
			hi := high[mc.ChooseFree(len(high))]
			from := uint32(mc.ChooseFree(nchunk)) * (65536 / uint32(nchunk))
			sf := iproto.SF(func(r *iproto.Request) {
				r.Respond(iproto.RetCode(hi|(from+r.Id)), iproto.Body("x"))
			})
			g := newRig(server.Config{RCType: rc, RCMap: m, EndPoint: sf}, nil)
			c := dial()
			begin()
			for i := uint32(0); i < n; i += 64 {
				var l []packet
				for j := uint32(0); j < 64; j++ {
					l = append(l, packet{uint32(msgA), i + j, ""})
				}
				c.send(l...)
				for j := uint32(0); j < 64; j++ {
					k, err := c.next()
					mc.Check(err == nil, "connection ended with %v", err)
					a := k.answer(rc)
					code := iproto.RetCode(hi | (from + a.id))
					w := wireCode(rc, want(m, code))
					mc.Check(a.code == w && a.body == "x" && a.id == i+j, "service answered %#x, client got %#x, want %#x (map %v, code type %d)", uint32(code), uint32(a.code), uint32(w), m, rc)
					mc.Check(rc != nt.RC4byte || a.code%8 != 3, "internal code %#x sent to a client", uint32(a.code))
				}
			}
			mc.End()
			g.srv.Stop()
			g.stopped()
		}})
	}
	high := []uint32{0x00010000, 0x12340000, 0x7fff0000, 0x80000000, 0xffff0000}
	all("C17.codes", "all 16-bit codes under every map, sent as four bytes and as one", []uint32{0}, 16, 4096, false)
	all("C17.high", "codes with high bits, 64 of every 1024", high, 64, 64, false)
	all("C17.highall", "all codes with those high bits", high, 16, 4096, true)

	// failures: completions which no service chose
	add(mc.Scenario{Name: "C17.failures", Doc: "requests completed by timeout, cancellation, shutdown or I/O error inside of the server, mapped or not",
		Quick: mc.Bound{D: 3}, Deep: mc.Bound{D: 4}, Run: func() {
			m := maps[mc.ChooseFree(4)]
			svc := &service{work: make(chan *handled, 16)}
			g := newRig(server.Config{RCMap: m}, svc)
			c := dial()
			kind := mc.ChooseFree(5)
			begin()
			c.send(packet{uint32(msgA), 1, "q"})
			go func() {
				h := <-svc.work
				switch kind {
				case 0:
					h.r.Expire()
				case 1:
					h.r.Cancel()
				case 2:
					h.r.IOError()
				case 3:
					h.r.ShutDown()
				case 4:
					h.r.SetTimeout(5 * ms)
				}
			}()
			k, err := c.next()
			mc.Check(err == nil, "connection ended with %v", err)
			a := k.answer(nt.RC4byte)
			raw := []iproto.RetCode{iproto.RcTimeout, iproto.RcCanceled, iproto.RcIOError, iproto.RcShutdown, iproto.RcTimeout}[kind]
			if kind == 3 {
				raw = iproto.RcShutdown
			}
			mc.Check(a.code == want(m, raw) && a.id == 1 && a.body == "", "request failed with %#x, client got id %d code %#x body %q, want %#x (map %v)", uint32(raw), a.id, uint32(a.code), a.body, uint32(want(m, raw)), m)
			mc.End()
			g.srv.Stop()
			g.stopped()
		}})

	add(mc.Scenario{Name: "C17.maps", Doc: "every map of up to two entries over keys and values of all kinds is accepted or refused",
		Quick: mc.Bound{D: 0, MaxSteps: 5000000}, Deep: mc.Bound{D: -1, MaxSteps: 5000000}, Run: func() {
			kinds := mc.ChooseFree(8)
			var codes []iproto.RetCode
			for _, base := range []uint32{0, 0x100, 0xfd00, 0x10000, 0xffffff00, 0x80000008} {
				for k := uint32(0); k < 8; k++ {
					codes = append(codes, iproto.RetCode(base|k))
				}
			}
			try := func(m codeMap) {
				bad := false
				for k, v := range m {
					bad = bad || k%8 != 3 || v%8 == 3
				}
				refused := func() (p bool) {
					defer func() { p = recover() != nil }()
					(&server.Config{Network: "tcp", Address: addr, EndPoint: iproto.SF(func(*iproto.Request) {}), RCMap: m}).NewServer()
					return
				}()
				mc.Check(refused == bad, "map %s: refused %v, should be %v", fmt.Sprint(m), refused, bad)
			}
			for _, k := range codes {
				if int(k%8) != kinds {
					continue
				}
				for _, v := range codes {
					try(codeMap{k: v})
					for _, good := range []iproto.RetCode{3, 0xfd03} {
						if good != k {
							try(codeMap{good: 0xfd02, k: v})
						}
					}
				}
			}
			try(nil)
			try(codeMap{})
		}})
}
