package props

import (
	"container/list"
	"strings"

	"github.com/use-go/gosips/sip/header"
	"github.com/use-go/gosips/sip/message"
	"pgregory.net/rapid"

	"verif/harness/fw"
)

// ------------------------------------------------------------------- C08

type tableOp struct {
	Op   string
	H    *hdrM  `json:",omitempty"` // what is added or set
	List bool   `json:",omitempty"` // as a list even when it has one element
	Name string `json:",omitempty"` // what is removed, in some letter case
	Top  bool   `json:",omitempty"`
	Tag  string `json:",omitempty"`
}

type tableCase struct {
	Req   bool
	Parse *msgM `json:",omitempty"` // start from this message instead of an empty one
	Ops   []tableOp
}

// entry is one name of the model of the table.
type entry struct {
	h     hdrM
	moved bool // its place is not specified
}

type table struct{ l []*entry }

func (tb *table) find(name string) int {
	for i, e := range tb.l {
		if strings.EqualFold(e.h.canonName(), name) {
			return i
		}
	}
	return -1
}

func (tb *table) remove(i int) { tb.l = append(tb.l[:i:i], tb.l[i+1:]...) }

func (tb *table) add(h hdrM, top bool) {
	i := tb.find(h.canonName())
	if i < 0 {
		h.Elems = append([]elem{}, h.Elems...)
		tb.l = append(tb.l, &entry{h: h})
		return
	}
	e := tb.l[i]
	if top {
		e.h.Elems = append(append([]elem{}, h.Elems...), e.h.Elems...)
	} else {
		e.h.Elems = append(append([]elem{}, e.h.Elems...), h.Elems...)
	}
}

func (tb *table) set(h hdrM) {
	if i := tb.find(h.canonName()); i >= 0 {
		tb.remove(i)
		h.Elems = append([]elem{}, h.Elems...)
		tb.l = append(tb.l, &entry{h: h, moved: true})
		return
	}
	tb.add(h, false)
}

var tableKinds = []string{"Via", "Route", "Record-Route", "Contact", "From", "To", "Call-ID", "CSeq", "Max-Forwards", "Expires", "Allow", "Supported", "Warning", "WWW-Authenticate", "Proxy-Authorization", "Content-Type", "Extension", "Extension"}

func randomCase(t *rapid.T, s string) string {
	switch intr(t, "case", 0, 3) {
	case 0:
		return strings.ToUpper(s)
	case 1:
		return strings.ToLower(s)
	}
	return s
}

func genTableCase(t *rapid.T) tableCase {
	c := tableCase{Req: rapid.Bool().Draw(t, "request")}
	if chance(t, "parsed", 3) {
		m := genMsgN(t, 3, 2)
		c.Parse, c.Req = &m, m.Req
	}
	var used []string
	// a few names take part, so that the operations meet
	var pool []string
	for n := intr(t, "names", 1, 4); n > 0; n-- {
		if chance(t, "any", 3) {
			k := pick(t, "kind", kindNames...)
			if k == "Content-Length" { // not the caller's
				k = "Subject"
			}
			pool = append(pool, k)
		} else {
			pool = append(pool, pick(t, "kind", tableKinds...))
		}
	}
	ext := []string{"X-" + genWord(t, "ext"), "X-B"}
	hdr := func() *hdrM {
		h := genHdr(t, pick(t, "poolkind", pool...), 3).plain()
		h.Name = ""
		if h.Kind == "Extension" {
			h.Elems[0].S[0] = randomCase(t, pick(t, "extname", ext...))
		}
		used = append(used, h.canonName())
		return &h
	}
	for n := intr(t, "ops", 1, 14); n > 0; n-- {
		op := tableOp{Op: pick(t, "op", "add", "add", "add", "attach", "attach-add", "top", "set", "set", "attach-replace", "replace", "remove", "remove-one", "remove-one", "typed", "headers", "tag", "call-id", "set-list", "empty-list", "nil"), List: rapid.Bool().Draw(t, "list"), Top: rapid.Bool().Draw(t, "top")}
		switch op.Op {
		case "remove", "remove-one":
			n := append([]string{}, used...)
			for _, k := range pool {
				n = append(n, k)
			}
			if c.Parse != nil {
				for _, h := range c.Parse.Hdrs {
					n = append(n, h.canonName())
				}
			}
			op.Name = randomCase(t, pick(t, "rm", n...))
		case "typed":
			h := genHdr(t, pick(t, "typedkind", "Via", "To", "From", "Call-ID", "CSeq", "Max-Forwards", "Expires", "Content-Disposition", "Content-Encoding", "Content-Language", "Min-Expires"), 3).plain()
			h.Name = ""
			if h.Kind != "Via" {
				h.Elems = h.Elems[:1]
			}
			op.H = &h
		case "tag":
			op.Name = pick(t, "side", "From", "To")
			op.Tag = genWord(t, "tag")
		case "call-id":
			op.Tag = genWord(t, "callid")
			if chance(t, "host", 2) {
				op.Tag += "@" + genWord(t, "callhost")
			}
		case "empty-list", "nil":
			if op.H = hdr(); !chance(t, "rare", 3) {
				op.Op = "add"
			}
		default:
			op.H = hdr()
		}
		c.Ops = append(c.Ops, op)
	}
	return c
}

func newMsg(req bool) sipMsg {
	if req {
		return message.NewSIPRequest()
	}
	return message.NewSIPResponse()
}

// buildAs assembles a header, as a list when asked for and possible.
func buildAs(h hdrM, asList bool) (header.Header, error) {
	k := h.kind()
	var l header.SIPHeaderLister
	switch {
	case k.list && (asList || len(h.Elems) > 1):
		l = k.newList()
	case challengeLists[h.Kind] != nil && asList:
		l = challengeLists[h.Kind]()
	default:
		return k.build(h.Elems[0])
	}
	for _, e := range h.Elems {
		x, err := k.build(e)
		if err != nil {
			return nil, err
		}
		l.PushBack(x)
	}
	return l, nil
}

func runTable(x *fw.Ctx, c tableCase) error {
	var g sipMsg
	tb := &table{}
	var m msgM
	if c.Parse != nil {
		var err error
		m = *c.Parse
		if g, err = parseMsg(m.text()); err != nil {
			return err
		}
		for _, gr := range m.groups() {
			tb.add(gr.h.plainName(), false)
		}
		x.Class("parsed message")
	} else {
		g = newMsg(c.Req)
	}
	if err := tb.check(g, string(m.Body)); err != nil {
		return errf("at first: %v", err)
	}
	met := 0
	for i, op := range c.Ops {
		present := op.H != nil && tb.find(op.H.canonName()) >= 0
		kind := op.Op
		// adding a second header of a single kind is an error of the caller
		if present && !op.H.multi() {
			switch op.Op {
			case "add", "attach", "attach-add", "top", "headers":
				kind = "set"
			}
		}
		if present || op.Name != "" && tb.find(op.Name) >= 0 {
			met++
		}
		x.Class(kind)
		var h header.Header
		if op.H != nil {
			var err error
			if h, err = buildAs(*op.H, op.List); err != nil {
				return err
			}
		}
		switch kind {
		case "add":
			g.AddHeader(h)
			tb.add(*op.H, op.H.Kind == "Via")
		case "attach":
			if err := g.AttachHeader(h); err != nil {
				return errf("operation %d: %v", i, err)
			}
			tb.add(*op.H, false)
		case "attach-add":
			g.AttachHeader2(h, false)
			tb.add(*op.H, false)
		case "top":
			if err := g.AttachHeader3(h, false, op.Top); err != nil {
				return errf("operation %d: %v", i, err)
			}
			tb.add(*op.H, op.Top)
		case "set":
			g.SetHeader(h)
			tb.set(*op.H)
		case "attach-replace":
			g.AttachHeader2(h, true)
			tb.set(*op.H)
		case "replace":
			if err := g.AttachHeader3(h, true, op.Top); err != nil {
				return errf("operation %d: %v", i, err)
			}
			tb.set(*op.H)
		case "remove":
			g.RemoveHeader(op.Name)
			if j := tb.find(op.Name); j >= 0 {
				tb.remove(j)
			}
		case "remove-one":
			g.RemoveHeader2(op.Name, op.Top)
			if j := tb.find(op.Name); j >= 0 {
				e := tb.l[j]
				switch n := len(e.h.Elems); {
				case n == 1 || !e.h.multi():
					tb.remove(j)
				case op.Top:
					e.h.Elems = e.h.Elems[1:]
				default:
					e.h.Elems = e.h.Elems[:n-1]
				}
			}
		case "typed":
			setTyped(g, *op.H, h)
			tb.set(*op.H)
		case "headers":
			l := list.New()
			l.PushBack(h)
			g.(interface{ SetHeaders(*list.List) }).SetHeaders(l)
			tb.add(*op.H, false)
		case "tag":
			set := g.SetFromTag
			if op.Name == "To" {
				set = g.SetToTag
			}
			set(op.Tag)
			if j := tb.find(op.Name); j >= 0 {
				e := tb.l[j]
				el := e.h.Elems[0]
				el.P = setTag(el.P, op.Tag)
				e.h.Elems = []elem{el}
			}
		case "call-id":
			g.(interface{ SetCallIdFromString(string) }).SetCallIdFromString(op.Tag)
			if j := tb.find("Call-ID"); j >= 0 {
				el := tb.l[j].h.Elems[0]
				el.S = append([]string{}, el.S...)
				el.S[0] = op.Tag
				tb.l[j].h.Elems = []elem{el}
			} else {
				tb.add(hdrM{Kind: "Call-ID", Elems: []elem{{S: []string{op.Tag}}}}, false)
			}
		case "set-list":
			if l, ok := h.(header.SIPHeaderLister); ok {
				g.(interface {
					SetHeaderFromSIPHeaderList(header.SIPHeaderLister)
				}).SetHeaderFromSIPHeaderList(l)
			} else {
				g.SetHeader(h)
			}
			tb.set(*op.H)
		case "empty-list":
			if k := op.H.kind(); k.list {
				if err := g.AttachHeader(k.newList()); err != nil {
					return errf("operation %d: %v", i, err)
				}
			}
		case "nil":
			if err := g.AttachHeader(nil); err == nil {
				return errf("operation %d: a nil header attached", i)
			}
		}
		if err := tb.check(g, string(m.Body)); err != nil {
			return errf("after operation %d (%s %s%s): %v", i, kind, opName(op), op.Name, err)
		}
	}
	if met > 0 {
		x.NonTrivial()
	}
	return nil
}

func opName(op tableOp) string {
	if op.H == nil {
		return ""
	}
	return op.H.canonName()
}

func setTag(ps []hparam, v string) (r []hparam) {
	done := false
	for _, p := range ps {
		if strings.EqualFold(p.N, "tag") {
			p = hparam{N: p.N, V: v}
			done = true
		}
		r = append(r, p)
	}
	if !done {
		r = append(r, hparam{N: "tag", V: v})
	}
	return
}

// setTyped sets a header with the setter of its type.
func setTyped(g sipMsg, h hdrM, x header.Header) {
	if l, ok := x.(header.SIPHeaderLister); ok && h.Kind != "Via" {
		x = l.Front().Value.(header.Header)
	}
	switch h.Kind {
	case "Via":
		l, ok := x.(*header.ViaList)
		if !ok {
			l = header.NewViaList()
			l.PushBack(x)
		}
		own := header.NewViaList()
		for e := l.Front(); e != nil; e = e.Next() {
			own.PushBack(e.Value)
		}
		g.SetVia(own)
		own.Init() // the list stays the caller's
	case "To":
		g.SetTo(x.(header.ToHeader))
	case "From":
		g.SetFrom(x.(header.FromHeader))
	case "Call-ID":
		g.SetCallId(x.(header.CallIdHeader))
	case "CSeq":
		g.SetCSeq(x.(header.CSeqHeader))
	case "Max-Forwards":
		g.SetMaxForwards(x.(header.MaxForwardsHeader))
	case "Expires":
		g.SetExpires(x.(header.ExpiresHeader))
	case "Content-Disposition":
		g.SetContentDisposition(x.(header.ContentDispositionHeader))
	case "Content-Encoding":
		g.SetContentEncoding(x.(header.ContentEncodingHeader))
	case "Content-Language":
		g.SetContentLanguage(x.(header.ContentLanguageHeader))
	case "Min-Expires":
		g.(interface {
			SetMinExpiresHeader(header.MinExpiresHeader)
		}).SetMinExpiresHeader(x.(header.MinExpiresHeader))
	}
}

// check compares the message with the table.
func (tb *table) check(g sipMsg, body string) error {
	// names: those whose place is known in their order, the others anywhere
	var names, known, want []string
	for _, n := range listStrings(g.GetHeaderNames()) {
		if !strings.EqualFold(n, "Content-Length") {
			names = append(names, strings.ToLower(n))
		}
	}
	pos := map[string]int{}
	for i, n := range names {
		if _, dup := pos[n]; dup {
			return errf("header name %q twice in %q", n, names)
		}
		pos[n] = i
	}
	if err := eq("number of header names", len(names), len(tb.l)); err != nil {
		return errf("%v: %q", err, names)
	}
	at := make([]*entry, len(names))
	for _, e := range tb.l {
		n := strings.ToLower(e.h.canonName())
		i, ok := pos[n]
		if !ok {
			return errf("header %q missing among %q", n, names)
		}
		at[i] = e
		if !e.moved {
			want = append(want, n)
		}
	}
	for _, e := range at {
		if !e.moved {
			known = append(known, strings.ToLower(e.h.canonName()))
		}
	}
	if err := eqStrings("order of headers", known, want); err != nil {
		return err
	}
	m := msgM{Body: fw.S(body)}
	for _, e := range at {
		m.Hdrs = append(m.Hdrs, e.h)
		if err := checkGroup(g, &group{name: strings.ToLower(e.h.canonName()), h: e.h}); err != nil {
			return err
		}
	}
	for _, n := range append(absentNames, tableKinds...) {
		if tb.find(n) < 0 && n != "Extension" && (g.HasHeader(n) || g.GetHeader(n) != nil || g.GetHeaders(n).Len() != 0 || len(listerHeaders(g.GetHeaderList(n))) != 0) {
			return errf("%s present", n)
		}
	}
	tag := func(n string) string {
		if i := tb.find(n); i >= 0 {
			return hpVal(tb.l[i].h.Elems[0].P, "tag")
		}
		return ""
	}
	if err := firstErr(checkTyped(g), eq("From tag", g.GetFromTag(), tag("From")), eq("To tag", g.GetToTag(), tag("To"))); err != nil {
		return err
	}
	return checkEncodedTable(g, m)
}

// checkEncodedTable is checkEncoded for a message that may have no start line.
func checkEncodedTable(g sipMsg, m msgM) error {
	s := g.String()
	first := g.GetFirstLine()
	if !strings.HasPrefix(s, first) {
		return errf("%q does not start with the first line %q", s, first)
	}
	i := strings.Index(s, "\r\n\r\n")
	if i < 0 {
		return errf("no blank line in %q", s)
	}
	lines := strings.Split(s[len(first):i], "\r\n")
	var want, got []string
	for _, gr := range m.groups() {
		name := gr.h.canonName()
		var bodies []string
		for i, x := range listerHeaders(g.GetHeaders(name)) {
			bodies = append(bodies, x.EncodeBody())
			if gr.h.Kind == "Extension" {
				want = append(want, gr.h.Elems[i].S[0]+": "+x.EncodeBody())
			} else if gr.h.perLine() {
				want = append(want, name+": "+x.EncodeBody())
			}
		}
		if !gr.h.perLine() {
			want = append(want, name+": "+strings.Join(bodies, ","))
		}
	}
	n := 0
	for _, l := range lines {
		if strings.HasPrefix(l, "Content-Length: ") {
			n++
			continue
		}
		got = append(got, l)
	}
	return firstErr(eqStrings("encoded header lines", got, want), eq("Content-Length lines", n, 1), eq("body", s[i+4:], string(m.Body)))
}

func (h hdrM) plainName() hdrM { h.Name = ""; return h }

// onlyIn tells the headers that belong to one sort of message.
var onlyIn = map[string]string{"Alert-Info": "request", "In-Reply-To": "request", "Authorization": "request", "Max-Forwards": "request", "Priority": "request",
	"Proxy-Authorization": "request", "Proxy-Require": "request", "Route": "request", "Subject": "request",
	"Error-Info": "response", "Proxy-Authenticate": "response", "Server": "response", "Unsupported": "response", "Retry-After": "response", "Warning": "response", "WWW-Authenticate": "response"}

type unparsedCase struct {
	Req      bool
	H        hdrM
	List     bool
	Unparsed []fw.S
}

func runUnparsed(x *fw.Ctx, c unparsedCase) error {
	type extra interface {
		IsRequestHeader(header.Header) bool
		IsResponseHeader(header.Header) bool
		AddUnparsed(string)
		GetUnrecognizedHeaders() *list.List
	}
	g := newMsg(c.Req)
	e := g.(extra)
	h, err := buildAs(c.H, c.List)
	if err != nil {
		return err
	}
	before := g.String()
	want := make([]string, len(c.Unparsed))
	for i, u := range c.Unparsed {
		want[i] = string(u)
		e.AddUnparsed(string(u))
	}
	only := onlyIn[c.H.Kind]
	if only != "" || len(want) > 0 {
		x.NonTrivial()
	}
	got := []string{}
	for li := e.GetUnrecognizedHeaders().Front(); li != nil; li = li.Next() {
		got = append(got, li.Value.(string))
	}
	return firstErr(eqStrings("unrecognized headers", got, want),
		eq("encoding", g.String(), before),
		eq("IsRequestHeader", e.IsRequestHeader(h), only == "request"),
		eq("IsResponseHeader", e.IsResponseHeader(h), only == "response"))
}

func init() {
	fw.Add("C08", "unparsed", "a header of any type, alone or as a list, asked whether it belongs to requests or responses only, and 0-4 (rarely 60) lines noted as unparsed; non-trivial: such a header or a noted line", 1500, 40000,
		func(t *rapid.T) unparsedCase {
			k := pick(t, "kind", kindNames...)
			if chance(t, "only", 2) {
				k = pick(t, "onlykind", "Alert-Info", "In-Reply-To", "Authorization", "Max-Forwards", "Priority", "Proxy-Authorization", "Proxy-Require", "Route", "Subject", "Error-Info", "Proxy-Authenticate", "Server", "Unsupported", "Retry-After", "Warning", "WWW-Authenticate")
			}
			c := unparsedCase{Req: rapid.Bool().Draw(t, "request"), H: genHdr(t, k, 3).plain(), List: rapid.Bool().Draw(t, "list")}
			c.H.Name = ""
			for n := amount(t, "unparsed", 0, 4, 60); n > 0; n-- {
				c.Unparsed = append(c.Unparsed, fw.S(genText(t, 0, 4)))
			}
			return c
		}, runUnparsed)
	fw.Add("C08", "operations", "a history of up to 14 operations on the headers of a request or response, new or parsed: adding (at the end or on top), setting, replacing, removing all or one element by a name in any letter case, with headers of all types as single elements and as lists, the typed setters and tags; after each operation every lookup, the typed accessors, the order of names and the encoded lines compared with a model; non-trivial: an operation on a name that is there", 2500, 100000, genTableCase, runTable)
}
