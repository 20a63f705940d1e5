package main

import (
	"bytes"
	"fmt"
	"reflect"

	"github.com/funny-falcon/go-iproto"
	"github.com/funny-falcon/go-iproto/marshal"
	"verif/mc"
)

// value is something a body is made of, with its specified encoding.
type value struct {
	v    interface{}
	want string
	into func() interface{} // fresh target to read it back into; nil: cannot be read back
}

type valPair struct {
	A uint8
	B string
}

type rawValue string

func (r rawValue) IWrite(w *marshal.Writer) { w.Bytes([]byte(r)) }

// halfValue writes some bytes and then fails.
type halfValue struct{}

func (halfValue) IWrite(w *marshal.Writer) {
	w.Bytes([]byte("half"))
	panic("cannot be encoded")
}

// boxedValue is request data that encodes like the value in it.
type boxedValue struct{ V interface{} }

func (boxedValue) IMsg() iproto.RequestType { return msgA }

func values() []value {
	seven := uint32(7)
	return []value{
		{uint32(7), "\x07\x00\x00\x00", func() interface{} { return new(uint32) }},
		{"ab", "\x02\x00\x00\x00ab", func() interface{} { return new(string) }},
		{[]byte("cde"), "\x03\x00\x00\x00cde", func() interface{} { return new([]byte) }},
		{iproto.Body("raw"), "raw", nil},
		{valPair{1, "x"}, "\x01\x01\x00\x00\x00x", func() interface{} { return new(valPair) }},
		{[]uint16{1, 2}, "\x02\x00\x00\x00\x01\x00\x02\x00", func() interface{} { return new([]uint16) }},
		{&seven, "\x07\x00\x00\x00", func() interface{} { return new(*uint32) }},
		{rawValue("own"), "own", nil},
		{iproto.Body(""), "", nil},
		{nil, "", nil},
	}
}

func (v value) check(what string, b iproto.Body) {
	mc.Check(string(b) == v.want, "%s %#v arrived as %q, its encoding is %q", what, v.v, string(b), v.want)
	if v.into == nil {
		return
	}
	t := v.into()
	err := b.Read(t)
	mc.Check(err == nil && reflect.DeepEqual(reflect.ValueOf(t).Elem().Interface(), v.v), "%s %#v is read back as %#v (%v)", what, v.v, reflect.ValueOf(t).Elem().Interface(), err)
	t = v.into()
	r := b.Reader()
	r.Read(t)
	mc.Check(r.Err == nil && len(r.Body) == 0 && reflect.DeepEqual(reflect.ValueOf(t).Elem().Interface(), v.v), "%s %#v is read by a reader as %#v (%v), %d bytes are left", what, v.v, reflect.ValueOf(t).Elem().Interface(), r.Err, len(r.Body))
}

// fails runs f, which must panic.
func fails(what string, f func()) {
	defer func() {
		mc.Check(recover() != nil, "%s: encoding a value that cannot be encoded did not fail", what)
	}()
	f()
}

func init() {
	add(mc.Scenario{
		Name:  "C01.values",
		Doc:   "requests and answers of every kind of value through every sending call, handled inline, in a thread or by a parallel service, after an attempt to send something that cannot be encoded: bodies are the encodings of those values, nothing else, and stay so",
		Quick: mc.Bound{D: 0, MaxSteps: 20000},
		Deep:  mc.Bound{D: 1, MaxSteps: 20000},
		Run: func() {
			vals := values()
			how := mc.ChooseFree(11)
			svc := mc.ChooseFree(3)
			bad := mc.ChooseFree(4)
			ask := vals[mc.ChooseFree(len(vals))]
			ans := vals[mc.ChooseFree(len(vals))]
			cannot := []interface{}{nil, halfValue{}, []interface{}{uint32(9), make(chan int)}, nil}[bad]
			var bodies []iproto.Body
			var copies [][]byte
			keep := func(b iproto.Body) {
				bodies = append(bodies, b)
				copies = append(copies, append([]byte(nil), b...))
			}
			var served counter
			answer := func(r *iproto.Request) {
				served.inc()
				mc.Check(r.Msg == msgA, "request arrived with type %#x", uint32(r.Msg))
				ask.check("request", r.Body)
				keep(r.Body)
			}
			var s iproto.Service
			switch svc {
			case 0:
				s = iproto.SF(func(r *iproto.Request) { answer(r); r.Respond(iproto.RcOK, ans.v) })
			case 1:
				s = iproto.SF(func(r *iproto.Request) { go func() { answer(r); r.Respond(iproto.RcOK, ans.v) }() })
			case 2:
				inner := iproto.SF(func(r *iproto.Request) {
					mc.Check(string(r.Body) == "\x05\x00\x00\x00", "a request made by a handler arrived with body %q", string(r.Body))
					keep(r.Body)
					r.Respond(iproto.RcOK, uint8(6))
				})
				s = iproto.BF{N: 1}.New(func(cx *iproto.Context, r *iproto.Request) (iproto.RetCode, interface{}) {
					if r.Msg != msgA {
						cx.SendMsgBody(inner, msgA, halfValue{})
					}
					res := cx.CallMsgBody(inner, msgA, uint32(5))
					mc.Check(string(res.Body) == "\x06" && res.Code == iproto.RcOK, "a handler's own call was answered with code %#x body %q", uint32(res.Code), string(res.Body))
					answer(r)
					return iproto.RcOK, ans.v
				})
			}
			cx := &iproto.Context{}
			m := &iproto.MultiRequest{}
			if how == 5 {
				m = cx.NewMulti()
			}
			data := func(v interface{}) iproto.RequestData { return boxedValue{v} }
			send := func(v interface{}) (r *iproto.Request, res *iproto.Response) {
				var ch <-chan *iproto.Response
				switch how {
				case 0:
					r, ch = iproto.SendMsgBody(s, msgA, v)
				case 1:
					res = iproto.CallMsgBody(s, msgA, v)
				case 2:
					r, ch = cx.SendMsgBody(s, msgA, v)
				case 3:
					res = cx.CallMsgBody(s, msgA, v)
				case 4, 5:
					r = m.SendMsgBody(s, msgA, v)
				case 6:
					r, ch = iproto.Send(s, data(v))
				case 7:
					res = iproto.Call(s, data(v))
				case 8:
					r, ch = cx.Send(s, data(v))
				case 9:
					res = cx.Call(s, data(v))
				case 10:
					r = m.Send(s, data(v))
				}
				if ch != nil {
					res = <-ch
				}
				return
			}
			mc.Begin()
			if cannot != nil {
				fails("request", func() { send(cannot) })
			}
			if bad == 3 && svc == 2 {
				p := &probe{name: "failing handler"}
				r := &iproto.Request{Id: 1, Msg: msgA + 1, Responder: p}
				s.Send(r)
				mc.Idle(0)
				p.once(1, msgA+1)
				mc.Check(p.code == iproto.RcInternalError, "a handler that panics completes its request with %#x", uint32(p.code))
			}
			var res []*iproto.Response
			for i := 0; i < 2; i++ {
				r, one := send(ask.v)
				if one != nil {
					res = append(res, one)
					mc.Check(r == nil || r.Id == one.Id, "response id differs from the request's")
				}
			}
			if how == 4 || how == 5 || how == 10 {
				for _, one := range m.Results() {
					if cannot == nil || one.Code == iproto.RcOK {
						res = append(res, one)
					}
				}
			}
			mc.Check(len(res) == 2 && served.get() == 2, "%d responses, %d requests served, want 2", len(res), served.get())
			for _, one := range res {
				mc.Check(one.Code == iproto.RcOK && one.Msg == msgA && one.Valid() && !one.Restartable(), "answered with code %#x type %#x", uint32(one.Code), uint32(one.Msg))
				ans.check("answer", one.Body)
				keep(one.Body)
			}
			cx.Done()
			other := &iproto.Context{}
			other.CallMsgBody(iproto.SF(func(r *iproto.Request) {
				mc.Check(string(r.Body) == "\x01\x02\x00\x00\x00zz", "a request of another context arrived with body %q", string(r.Body))
				r.Respond(iproto.RcOK, fmt.Sprint("x"))
			}), msgA, valPair{1, "zz"})
			mc.Idle(0)
			for i, b := range bodies {
				mc.Check(bytes.Equal(b, copies[i]), "a body changed later from %q to %q", string(copies[i]), string(b))
			}
		},
	})
}
