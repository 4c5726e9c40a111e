package props

import (
	"container/list"
	"strings"

	"github.com/use-go/gosips/sip/header"
	"pgregory.net/rapid"

	"verif/harness/fw"
)

type listOp struct {
	Op   string
	I    int    `json:",omitempty"` // position
	J    int    `json:",omitempty"`
	Top  bool   `json:",omitempty"`
	Tags []elem `json:",omitempty"` // elements to add
}

type listCase struct {
	Kind string
	Ops  []listOp
}

// listKinds are the kinds a list can be made of; challenges are not
// comma-separated, so they are not the text of one header.
var challengeLists = map[string]func() header.SIPHeaderLister{
	"WWW-Authenticate":   func() header.SIPHeaderLister { return header.NewWWWAuthenticateList() },
	"Proxy-Authenticate": func() header.SIPHeaderLister { return header.NewProxyAuthenticateList() },
}

func newListOf(kind string) header.SIPHeaderLister {
	if f := challengeLists[kind]; f != nil {
		return f()
	}
	return kinds[kind].newList()
}

func genListCase(t *rapid.T) listCase {
	var names []string
	for _, n := range kindNames {
		if kinds[n].list || challengeLists[n] != nil {
			names = append(names, n)
		}
	}
	c := listCase{Kind: pick(t, "kind", names...)}
	el := func() elem { return genHdr(t, c.Kind, 1).plain().Elems[0] }
	for n := intr(t, "ops", 1, 12); n > 0; n-- {
		op := listOp{Op: pick(t, "op", "back", "back", "front", "front", "remove", "concat", "concat", "insert-before", "insert-after", "to-front", "to-back", "move-before", "move-after", "self", "clear", "methods", "contact"), I: intr(t, "i", 0, 7), J: intr(t, "j", 0, 7), Top: rapid.Bool().Draw(t, "top")}
		switch op.Op {
		case "back", "front", "insert-before", "insert-after", "contact":
			op.Tags = []elem{el()}
		case "concat", "methods":
			for k := intr(t, "k", 0, 3); k > 0; k-- {
				op.Tags = append(op.Tags, el())
			}
		case "clear", "self":
			if !chance(t, "rare", 4) {
				op.Op = "back"
				op.Tags = []elem{el()}
			}
		}
		if chance(t, "many", 200) {
			c.Ops = append(c.Ops, listOp{Op: "fill", Tags: []elem{el()}, J: intr(t, "fill", 2, 300)})
		}
		c.Ops = append(c.Ops, op)
	}
	return c
}

func element(l header.Lister, i int) *list.Element {
	e := l.Front()
	for ; i > 0; i-- {
		e = e.Next()
	}
	return e
}

func insertAt(m []header.Header, i int, h header.Header) []header.Header {
	m = append(m, nil)
	copy(m[i+1:], m[i:])
	m[i] = h
	return m
}

func runListCase(x *fw.Ctx, c listCase) error {
	x.Class(c.Kind)
	l := newListOf(c.Kind)
	var m []header.Header
	if err := checkList(c.Kind, l, m); err != nil {
		return errf("new list: %v", err)
	}
	for i, op := range c.Ops {
		var hs []header.Header
		for _, e := range op.Tags {
			h, err := kinds[c.Kind].build(e)
			if err != nil {
				return err
			}
			hs = append(hs, h)
		}
		at := 0
		if len(m) > 0 {
			at = op.I % len(m)
		} else if strings.Contains(op.Op, "-") || op.Op == "remove" {
			continue
		}
		x.Class(op.Op)
		switch op.Op {
		case "back":
			if e := l.PushBack(hs[0]); e == nil || e.Value != interface{}(hs[0]) {
				return errf("operation %d: PushBack gives another element", i)
			}
			m = append(m, hs[0])
		case "contact":
			cl, ok := l.(*header.ContactList)
			if !ok {
				continue
			}
			if err := cl.AddContact(hs[0].(*header.Contact)); err != nil {
				return errf("operation %d: AddContact: %v", i, err)
			}
			m = append(m, hs[0])
		case "fill":
			for ; op.J > 0; op.J-- {
				h, err := kinds[c.Kind].build(op.Tags[0])
				if err != nil {
					return err
				}
				l.PushBack(h)
				m = append(m, h)
			}
		case "front":
			l.PushFront(hs[0])
			m = insertAt(m, 0, hs[0])
		case "insert-before":
			l.InsertBefore(hs[0], element(l, at))
			m = insertAt(m, at, hs[0])
		case "insert-after":
			l.InsertAfter(hs[0], element(l, at))
			m = insertAt(m, at+1, hs[0])
		case "remove":
			if v := l.Remove(element(l, at)); v != interface{}(m[at]) {
				return errf("operation %d: Remove gives another element", i)
			}
			m = append(m[:at:at], m[at+1:]...)
		case "to-front", "to-back", "move-before", "move-after":
			h, j := m[at], op.J%len(m)
			e, f := element(l, at), element(l, j)
			switch op.Op {
			case "to-front":
				l.MoveToFront(e)
				m = insertAt(append(m[:at:at], m[at+1:]...), 0, h)
			case "to-back":
				l.MoveToBack(e)
				m = append(append(m[:at:at], m[at+1:]...), h)
			case "move-before", "move-after":
				if j == at {
					break
				}
				k := j
				if at < j {
					k--
				}
				if op.Op == "move-after" {
					k++
					l.MoveAfter(e, f)
				} else {
					l.MoveBefore(e, f)
				}
				m = insertAt(append(m[:at:at], m[at+1:]...), k, h)
			}
		case "self":
			l.Concatenate(l, op.Top)
			m = append(append([]header.Header{}, m...), m...)
		case "concat":
			o := newListOf(c.Kind)
			for _, h := range hs {
				o.PushBack(h)
			}
			if op.J == 7 && len(hs) == 0 {
				l.Concatenate(nil, op.Top)
			} else {
				l.Concatenate(o, op.Top)
			}
			if err := checkList(c.Kind, o, hs); err != nil {
				return errf("operation %d: the list added: %v", i, err)
			}
			if op.Top {
				m = append(append([]header.Header{}, hs...), m...)
			} else {
				m = append(m, hs...)
			}
		case "clear":
			l.Init()
			m = nil
		case "methods":
			ml, ok := l.(interface {
				SetMethods(*list.List) error
			})
			if !ok {
				continue
			}
			v := list.New()
			for _, e := range op.Tags {
				v.PushBack(e.S[0])
			}
			if op.J < 2 { // a name that is refused
				v.PushBack("")
				if err := ml.SetMethods(v); err == nil {
					return errf("operation %d: SetMethods takes an empty name", i)
				}
				break
			}
			if err := ml.SetMethods(v); err != nil {
				return errf("operation %d: SetMethods: %v", i, err)
			}
			if l.Len() != len(hs) {
				return errf("operation %d: SetMethods gives %d elements of %d", i, l.Len(), len(hs))
			}
			m = nil
			for e, k := l.Front(), 0; e != nil; e, k = e.Next(), k+1 {
				h, _ := e.Value.(header.Header)
				if h == nil || h.EncodeBody() != op.Tags[k].S[0] {
					return errf("operation %d: SetMethods: element %d is %v", i, k, e.Value)
				}
				m = append(m, h)
			}
		}
		if err := checkList(c.Kind, l, m); err != nil {
			return errf("after operation %d, %s: %v", i, op.Op, err)
		}
		if len(m) >= 3 {
			x.NonTrivial()
		}
	}
	return nil
}

// checkList compares a list with the sequence of headers it should hold.
func checkList(kind string, l header.SIPHeaderLister, m []header.Header) error {
	if err := firstErr(eq("length", l.Len(), len(m)), eq("name", l.GetName(), (hdrM{Kind: kind, Elems: []elem{{S: []string{kind}}}}).canonName()), eq("is a list", l.IsHeaderList(), true)); err != nil {
		return err
	}
	var bodies, texts []string
	e := l.Front()
	for i, h := range m {
		if e == nil || e.Value != interface{}(h) {
			return errf("element %d is not the one expected", i)
		}
		bodies, texts = append(bodies, h.EncodeBody()), append(texts, h.String())
		e = e.Next()
	}
	if e != nil {
		return errf("more elements than expected")
	}
	e = l.Back()
	for i := len(m) - 1; i >= 0; i-- {
		if e == nil || e.Value != interface{}(m[i]) {
			return errf("backwards, element %d is not the one expected", i)
		}
		e = e.Prev()
	}
	text := l.GetName() + ": " + strings.Join(bodies, ",") + "\r\n"
	if len(m) == 0 {
		text = l.GetName() + ":\r\n"
	} else if challengeLists[kind] != nil {
		text = strings.Join(texts, "")
	}
	if err := firstErr(eq("text", l.String(), text), eq("body", l.EncodeBody(), strings.Join(bodies, ",")), eqStrings("encoded headers", listStrings(l.GetHeadersAsEncodedStrings()), texts)); err != nil {
		return err
	}
	switch t := l.(type) {
	case *header.ContactList:
		cs := t.GetContacts()
		if len(cs) != len(m) {
			return errf("GetContacts gives %d of %d", len(cs), len(m))
		}
		for i := range cs {
			if interface{}(cs[i]) != interface{}(m[i]) {
				return errf("contact %d is not the one expected", i)
			}
		}
	case *header.AcceptLanguageList:
		// an empty one gives a new header
		first, last := t.GetFirst(), t.GetLast()
		if first == nil || last == nil || len(m) > 0 && (first != m[0] || last != m[len(m)-1]) {
			return errf("first or last is not the one expected")
		}
	case *header.AllowList:
		return eqStrings("methods", listStrings(t.GetMethods()), bodies)
	case *header.AllowEventsList:
		return eqStrings("methods", listStrings(t.GetMethods()), bodies)
	}
	return nil
}

func init() {
	fw.Add("C21", "model", "a history of adding at either end and in the middle, removing, moving, clearing, concatenating (also with itself and nothing) and setting methods on a header list of each kind, against a slice: size, iteration both ways, first and last, text and encoded headers after every step; non-trivial: three elements at some time", 15000, 500000,
		genListCase, runListCase)
}
