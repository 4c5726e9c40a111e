package props

import (
	"container/list"
	"fmt"
	"reflect"
	"strings"
	"time"

	"github.com/use-go/gosips/core"
	"github.com/use-go/gosips/sip/header"
	"github.com/use-go/gosips/sip/message"
	"pgregory.net/rapid"

	"verif/harness/fw"
)

// ------------------------------------------------------------------- C12

// cloneMut is one change of a copy: Path leads through getters and list
// elements to a part of the value, and Method picks one of its setters; both
// are taken modulo what there is.
type cloneMut struct {
	Path   []int `json:",omitempty"`
	Method int
	S      string
	I      int
	B      bool `json:",omitempty"`
}

type cloneCase struct {
	What     string // header, uri, address, request-line, status-line, host-port, parameters
	H        *hdrM  `json:",omitempty"`
	Built    bool   `json:",omitempty"`
	AsList   bool   `json:",omitempty"`
	U        *uriM  `json:",omitempty"`
	A        *addrM `json:",omitempty"`
	Host     *hpCase
	P        []hparam `json:",omitempty"`
	Method   string   `json:",omitempty"`
	Code     int      `json:",omitempty"`
	Original bool     `json:",omitempty"` // change the original, not the clone
	Again    bool     `json:",omitempty"` // a clone of the clone
	Muts     []cloneMut
}

func genCloneCase(t *rapid.T) cloneCase {
	c := cloneCase{What: pick(t, "what", "header", "header", "header", "header", "header", "header", "uri", "uri", "address", "request-line", "status-line", "host-port", "parameters")}
	switch c.What {
	case "header":
		h := genHdr(t, pick(t, "kind", kindNames...), 3)
		if c.Built = rapid.Bool().Draw(t, "built"); c.Built {
			h = h.plain()
		}
		c.AsList = rapid.Bool().Draw(t, "aslist")
		c.H = &h
	case "uri", "request-line":
		u := genURI(t, true)
		c.U = &u
		c.Method = genMethod(t)
	case "address":
		a := genNameAddr(t)
		c.A = &a
	case "status-line":
		c.Code = intr(t, "code", 100, 699)
	case "host-port":
		c.Host = &hpCase{H: genHost(t), Port: genPort(t)}
	case "parameters":
		c.P = genParams(t, 4)
	}
	c.Original, c.Again = rapid.Bool().Draw(t, "original"), chance(t, "again", 4)
	for n := intr(t, "muts", 1, 6); n > 0; n-- {
		m := cloneMut{Method: intr(t, "method", 0, 60), S: genToken(t, "s"), I: intr(t, "i", 0, 999), B: rapid.Bool().Draw(t, "b")}
		for d := intr(t, "depth", 0, 4); d > 0; d-- {
			m.Path = append(m.Path, intr(t, "step", 0, 30))
		}
		c.Muts = append(c.Muts, m)
	}
	return c
}

func (c cloneCase) value() (interface{}, error) {
	switch c.What {
	case "header":
		if c.Built {
			return buildAs(*c.H, c.AsList)
		}
		g, err := parseHdr(c.H.text())
		if l, ok := g.(header.Lister); ok && err == nil && !c.AsList && l.Len() == 1 {
			return l.Front().Value, nil
		}
		return g, err
	case "uri":
		return c.U.build()
	case "address":
		return buildNameAddr(*c.A)
	case "request-line":
		u, err := c.U.build()
		l := header.NewRequestLine()
		l.SetMethod(c.Method)
		l.SetUri(u)
		return l, err
	case "status-line":
		l := header.NewStatusLine()
		l.SetStatusCode(c.Code)
		l.SetReasonPhrase("Some Reason")
		return l, nil
	case "host-port":
		hp := core.NewHostPort()
		hp.SetHost(core.NewHost(c.Host.H.Text))
		if c.Host.Port >= 0 {
			hp.SetPort(c.Host.Port)
		}
		return hp, nil
	}
	l := core.NewNameValueList("p")
	for _, p := range c.P {
		nv := core.NewNameValue(p.N, p.V)
		if p.K == "q" {
			nv.SetQuotedValue()
		}
		l.SetNameValue(nv)
	}
	return l, nil
}

func encodingOf(v interface{}) string { return v.(fmt.Stringer).String() }

func isOurs(t reflect.Type) bool {
	for t.Kind() == reflect.Ptr {
		t = t.Elem()
	}
	return strings.HasPrefix(t.PkgPath(), "github.com/use-go/gosips/") || t == reflect.TypeOf(list.List{})
}

func isNilValue(v reflect.Value) bool {
	return !v.IsValid() || (v.Kind() == reflect.Ptr || v.Kind() == reflect.Interface) && v.IsNil()
}

// partsOf lists what a value leads to.
func partsOf(v reflect.Value) (r []reflect.Value) {
	add := func(x reflect.Value) {
		for !isNilValue(x) && x.Kind() == reflect.Interface {
			x = x.Elem()
		}
		if !isNilValue(x) && x.Kind() == reflect.Ptr && isOurs(x.Type()) {
			r = append(r, x)
		}
	}
	if l, ok := v.Interface().(interface {
		Front() *list.Element
		Len() int
	}); ok {
		for e, n := l.Front(), l.Len(); n > 0 && e != nil; e, n = e.Next(), n-1 {
			add(reflect.ValueOf(e.Value))
		}
	}
	for i := 0; i < v.NumMethod(); i++ {
		n, f := v.Type().Method(i).Name, v.Method(i)
		if strings.HasPrefix(n, "Get") && f.Type().NumIn() == 0 && f.Type().NumOut() == 1 {
			fw.Try(func() { add(f.Call(nil)[0]) })
		}
	}
	return
}

var cloneArgs = []func() interface{}{
	func() interface{} { return core.NewHost("changed.example") },
	func() interface{} {
		hp := core.NewHostPort()
		hp.SetHost(core.NewHost("changed.example"))
		return hp
	},
	func() interface{} {
		u, _ := (uriM{Kind: "sip", Sip: sipM{Scheme: "sip", User: "changed", Host: hostM{Text: "h", Kind: "name"}, Port: -1}}).build()
		return u
	},
	func() interface{} { return mediaRange("changed", "type") },
}

// mutatorsOf lists the calls that may change a value.
func mutatorsOf(v reflect.Value, m cloneMut) (r []func()) {
	switch l := v.Interface().(type) {
	case *list.List:
		r = append(r, func() { l.Remove(l.Front()) }, func() { l.PushBack(m.S) }, func() { l.PushFront(m.S) }, func() { l.Init() })
	case header.Lister:
		r = append(r, func() { l.Remove(l.Front()) }, func() { l.PushBack(l.Front().Value.(interface{ Clone() interface{} }).Clone()) },
			func() { l.MoveToBack(l.Front()) }, func() { l.Init() })
	}
	if d, ok := v.Interface().(*header.Date); ok && d.GetDate() != nil {
		r = append(r, func() { *d.GetDate() = d.GetDate().Add(time.Hour) })
	}
	for i := 0; i < v.NumMethod(); i++ {
		n, f := v.Type().Method(i).Name, v.Method(i)
		ok := false
		for _, p := range []string{"Set", "Add", "Remove", "Delete", "Clear", "Unset"} {
			ok = ok || strings.HasPrefix(n, p)
		}
		if _, isList := v.Interface().(*list.List); isList || !ok || n == "Remove" {
			continue
		}
		var args []reflect.Value
		for k := 0; k < f.Type().NumIn(); k++ {
			at := f.Type().In(k)
			var a reflect.Value
			switch at.Kind() {
			case reflect.String:
				a = reflect.ValueOf(pick2(k == 0, m.S, "v"+m.S)).Convert(at)
			case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
				a = reflect.ValueOf(m.I).Convert(at)
			case reflect.Float32, reflect.Float64:
				a = reflect.ValueOf(float64(m.I) / 1000).Convert(at)
			case reflect.Bool:
				a = reflect.ValueOf(m.B).Convert(at)
			case reflect.Interface:
				if at.NumMethod() == 0 {
					a = reflect.ValueOf(m.S)
				}
			}
			for _, s := range cloneArgs {
				if x := reflect.ValueOf(s()); !a.IsValid() && x.Type().AssignableTo(at) {
					a = x
				}
			}
			if !a.IsValid() {
				ok = false
				break
			}
			args = append(args, a)
		}
		if ok {
			r = append(r, func() { f.Call(args) })
		}
	}
	return
}

// change applies one change; what the code does with odd arguments, a panic
// included, is not the point here.
func (m cloneMut) change(g interface{}) {
	v := reflect.ValueOf(g)
	for _, p := range m.Path {
		l := partsOf(v)
		if len(l) == 0 {
			break
		}
		v = l[p%len(l)]
	}
	if l := mutatorsOf(v, m); len(l) > 0 {
		fw.Try(l[m.Method%len(l)])
	}
}

type cloner interface{ Clone() interface{} }

func init() {
	fw.Add("C12", "clone", "a header of any kind (element or list, parsed or assembled), start line, address, URI, host and port or parameter list; cloned, perhaps twice, then 1-6 changes through any setter of one side or of a part its getters lead to; non-trivial: the changed side's encoding changed", 4000, 250000,
		genCloneCase, func(x *fw.Ctx, c cloneCase) error {
			x.Class(c.What)
			g, err := c.value()
			if err != nil {
				return err
			}
			want := encodingOf(g)
			cl := g.(cloner).Clone()
			if c.Again {
				cl = cl.(cloner).Clone()
			}
			if err := firstErr(eq("type of the clone", fmt.Sprintf("%T", cl), fmt.Sprintf("%T", g)),
				eq("encoding of the clone", encodingOf(cl), want), eq("the original after cloning", encodingOf(g), want)); err != nil {
				return err
			}
			if c.What == "header" {
				if h, ok := cl.(header.Header); ok {
					if err := eq("name of the clone", h.GetName(), g.(header.Header).GetName()); err != nil {
						return err
					}
					if _, ok := cl.(header.Lister); ok == c.H.kind().list {
						if err := checkHdr(h, *c.H); err != nil {
							return errf("the clone: %v", err)
						}
					}
				}
			}
			changed, kept, side := cl, g, "the original after a change of the clone"
			if c.Original {
				changed, kept, side = g, cl, "the clone after a change of the original"
			}
			for i, m := range c.Muts {
				m.change(changed)
				if err := eq(fmt.Sprintf("%s, change %d", side, i), encodingOf(kept), want); err != nil {
					return err
				}
			}
			fw.Try(func() {
				if encodingOf(changed) != want {
					x.NonTrivial()
				}
			})
			return nil
		})
}

type deriveOp struct {
	How    string
	Code   int    `json:",omitempty"`
	Change string `json:",omitempty"` // a change of the derived message
	Name   string `json:",omitempty"`
	Body   fw.S   `json:",omitempty"`
}

func init() {
	type cs struct {
		M     msgM
		Built bool
		Ops   []deriveOp
	}
	fw.Add("C12", "derive", "a request, parsed or assembled, from which 1-4 responses and requests are derived, each then given another status, header or body, or relieved of a header; the request compared with its model and its first encoding after each; non-trivial: at least two derived messages and a change", 1500, 60000,
		func(t *rapid.T) cs {
			c := cs{M: genRequest(t, 4, 3), Built: rapid.Bool().Draw(t, "built")}
			for n := intr(t, "ops", 1, 4); n > 0; n-- {
				o := deriveOp{How: pick(t, "how", "response", "CANCEL", "ACK", "ACK of a transaction", "BYE", "BYE back"), Change: pick(t, "change", "", "status", "remove", "subject", "content")}
				o.Code = intr(t, "code", 100, 699)
				switch o.Change {
				case "remove":
					o.Name = pick(t, "name", "Via", "From", "To", "Call-ID", "CSeq", "Max-Forwards", "Route", "Record-Route", "Timestamp", "Contact")
				case "content":
					o.Body = genBody(t)
				}
				c.Ops = append(c.Ops, o)
			}
			return c
		}, func(x *fw.Ctx, c cs) error {
			g, err := deriveCase{M: c.M, Built: c.Built}.source()
			if err != nil {
				return err
			}
			before := g.String()
			changes := 0
			for i, o := range c.Ops {
				x.Class(o.How)
				var d sipMsg
				switch o.How {
				case "response":
					d = g.CreateResponse(o.Code)
				case "CANCEL":
					d = g.CreateCancelRequest()
				case "ACK":
					d = g.CreateAckRequest(nil)
				case "ACK of a transaction":
					d = g.CreateACKRequest()
				default:
					d = g.CreateBYERequest(o.How == "BYE back")
				}
				_ = d.String()
				switch o.Change {
				case "status":
					if r, ok := d.(*message.SIPResponse); ok {
						r.SetStatusCode(o.Code)
						r.SetReasonPhrase("Changed")
					} else {
						d.(*message.SIPRequest).SetMethod("CHANGED")
					}
				case "remove":
					d.RemoveHeader(o.Name)
				case "subject":
					h := header.NewSubject()
					h.SetSubject("changed")
					d.AddHeader(h)
				case "content":
					ct := header.NewContentType()
					ct.SetContentType("changed")
					ct.SetContentSubType("type")
					d.SetContent(string(o.Body), ct)
				}
				if o.Change != "" {
					changes++
					x.Class("changed: " + o.Change)
				}
				if err := eq(fmt.Sprintf("the request after %d: %s", i, o.How), g.String(), before); err != nil {
					return err
				}
			}
			if changes > 0 && len(c.Ops) > 1 {
				x.NonTrivial()
			}
			return checkMsg(g, c.M)
		})
}
