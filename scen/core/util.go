// Package main (group core): scenarios over the root package iproto.
package main

import (
	"time"

	"github.com/funny-falcon/go-iproto"
	"verif/mc"
)

var scenarios []mc.Scenario

func add(s mc.Scenario) { scenarios = append(scenarios, s) }

const ms = time.Millisecond

// probe is a Responder that insists on being called at most once.
type probe struct {
	o    mc.Obj
	name string
	n    int
	res  *iproto.Response
	code iproto.RetCode
	body string
	at   int64
	gate chan bool
}

func (p *probe) Respond(r *iproto.Response) {
	p.o.TouchRel()
	p.n++
	mc.Check(p.n == 1, "%s: request completed %d times", p.name, p.n)
	mc.Check(r != nil, "%s: completed with a nil response", p.name)
	p.res, p.code, p.body = r, r.Code, string(r.Body)
	p.at = mc.Now()
	mc.Note("%s completed code=%#x body=%q", p.name, uint32(r.Code), p.body)
}

func (p *probe) done() bool {
	p.o.Touch()
	return p.n > 0
}

// once checks that exactly one completion arrived, for request r.
func (p *probe) once(id uint32, msg iproto.RequestType) {
	p.o.TouchAcq()
	mc.Check(p.n == 1, "%s: request completed %d times, want exactly 1", p.name, p.n)
	mc.Check(p.res.Id == id && p.res.Msg == msg, "%s: response carries id %d msg %#x, request has id %d msg %#x", p.name, p.res.Id, uint32(p.res.Msg), id, uint32(msg))
	mc.Check(p.res.Code == p.code && string(p.res.Body) == p.body, "%s: response changed after completion: %#x %q, was %#x %q", p.name, uint32(p.res.Code), string(p.res.Body), uint32(p.code), p.body)
}

// counter is a shared counter whose reads and writes are ordered.
type counter struct {
	o mc.Obj
	n int
}

func (c *counter) inc() int { c.o.Touch(); c.n++; return c.n }
func (c *counter) dec() int { c.o.Touch(); c.n--; return c.n }
func (c *counter) get() int { c.o.Touch(); return c.n }

// group runs functions in parallel threads and waits for all of them.
func parallel(fs ...func()) {
	done := make(chan bool, len(fs))
	for _, f := range fs {
		f := f
		go func() {
			f()
			done <- true
		}()
	}
	for range fs {
		<-done
	}
}

func internal(c iproto.RetCode) bool { return c&iproto.RcKindMask == iproto.RcInternal }

// begin lets the library's background threads settle, then starts branching.
func begin() {
	mc.Idle(0)
	mc.Begin()
}
