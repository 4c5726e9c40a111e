package props

import (
	"container/list"
	"fmt"
	"strconv"
	"strings"
	"time"

	"github.com/use-go/gosips/core"
	"github.com/use-go/gosips/sip/address"
	"github.com/use-go/gosips/sip/header"
	"github.com/use-go/gosips/sip/parser"
	"pgregory.net/rapid"

	"verif/harness/fw"
)

// ------------------------------------------------------------ header model

// hparam is a header parameter; V is the value inside its quotes.
type hparam struct {
	N, V string
	K    string // "" token, q quoted, f flag
}

// elem is one element of a header: its parts, whatever they are for its kind.
type elem struct {
	S []string `json:",omitempty"`
	I []int    `json:",omitempty"`
	A *addrM   `json:",omitempty"`
	U *uriM    `json:",omitempty"`
	H *hostM   `json:",omitempty"`
	P []hparam `json:",omitempty"`
	W []string `json:",omitempty"` // white space around the separators
}

// hdrM is a header field.
type hdrM struct {
	Kind  string
	Elems []elem
	Name  string // as spelled; "" for the canonical name
	W     []string
}

// wr writes text, with the element's white space where it may stand.
type wr struct {
	strings.Builder
	ws []string
	n  int
}

func (w *wr) sp() *wr {
	if len(w.ws) > 0 {
		w.WriteString(w.ws[w.n%len(w.ws)])
		w.n++
	}
	return w
}

// lws is white space that must be there.
func (w *wr) lws() *wr {
	n := w.Len()
	if w.sp(); w.Len() == n {
		w.WriteString(" ")
	}
	return w
}

// num writes a number, at times with leading zeros where the spelling is free.
func (w *wr) num(n int) *wr { return w.t(w.zeros(), strconv.Itoa(n)) }

func (w *wr) zeros() string {
	if len(w.ws) == 0 {
		return ""
	}
	n := w.n
	for _, s := range w.ws {
		n += len(s)
	}
	return []string{"", "0", "", "00", "", "", "000"}[n%7]
}

func (w *wr) t(s ...string) *wr {
	for _, x := range s {
		w.WriteString(x)
	}
	return w
}

func (w *wr) params(ps []hparam) *wr {
	for _, p := range ps {
		w.sp().t(";").sp()
		w.param(p)
	}
	return w
}

func (w *wr) param(p hparam) *wr {
	w.t(p.N)
	switch p.K {
	case "q":
		w.sp().t("=").sp().t(`"`, p.V, `"`)
	case "":
		w.sp().t("=").sp().t(p.V)
	}
	return w
}

// kind is a type of header.
type kind struct {
	name    string
	short   string
	prop    string
	list    bool
	gen     func(t *rapid.T) elem
	text    func(w *wr, e elem)
	check   func(h header.Header, e elem) error
	build   func(e elem) (header.Header, error)
	newList func() header.SIPHeaderLister
}

var (
	kinds     = map[string]*kind{}
	kindNames []string
)

func addKind(k *kind) {
	kinds[k.name] = k
	kindNames = append(kindNames, k.name)
}

func (h hdrM) kind() *kind { return kinds[h.Kind] }

func (h hdrM) name() string {
	if h.Name != "" {
		return h.Name
	}
	if h.Kind == "Extension" {
		return h.Elems[0].S[0]
	}
	return h.Kind
}

// canonName is the name the library gives the header.
func (h hdrM) canonName() string {
	h.Name = ""
	return h.name()
}

// body is the text of the value; each element is spaced with its own W.
func (h hdrM) body() string {
	var parts []string
	for _, e := range h.Elems {
		parts = append(parts, h.elemText(e))
	}
	w := &wr{ws: h.W}
	for i, p := range parts {
		if i > 0 {
			w.sp().t(",").sp()
		}
		w.t(p)
	}
	return w.String()
}

func (h hdrM) elemText(e elem) string {
	w := &wr{ws: e.W}
	h.kind().text(w, e)
	return w.String()
}

// text is the header's line without its end.
func (h hdrM) text() string {
	w := &wr{ws: h.W}
	return w.t(h.name()).sp().t(":").sp().String() + h.body()
}

// plain drops the free white space.
func (h hdrM) plain() hdrM {
	h.W = nil
	es := append([]elem{}, h.Elems...)
	for i := range es {
		es[i].W = nil
		if es[i].A != nil {
			a := *es[i].A
			a.WS = nil
			es[i].A = &a
		}
	}
	h.Elems = es
	return h
}

func genWS(t *rapid.T, n int) []string {
	if !chance(t, "ws?", 3) {
		return nil
	}
	var l []string
	for i := 0; i < n; i++ {
		l = append(l, pick(t, "w", "", "", " ", "\t", "  "))
	}
	return l
}

// genHdr draws a header of the kind with up to max elements.
func genHdr(t *rapid.T, name string, max int) hdrM {
	k := kinds[name]
	h := hdrM{Kind: name}
	n := 1
	if k.list {
		n = intr(t, "elems", 1, max)
		if max > 1 && chance(t, "many elements", 60) {
			n = pick(t, "elems", intr(t, "elems", max, 40), 70, 140, 270)
		}
	}
	for ; n > 0; n-- {
		e := k.gen(t)
		e.W = genWS(t, 5)
		h.Elems = append(h.Elems, e)
	}
	h.W = genWS(t, 4)
	return h
}

// checkHdr compares a parsed or built header with the model.
func checkHdr(g header.Header, h hdrM) error {
	k := h.kind()
	if g == nil {
		return errf("%s: nil", h.Kind)
	}
	name := h.Kind
	if h.Kind == "Extension" {
		name = h.Elems[0].S[0]
	}
	if !k.list {
		if _, ok := g.(header.SIPHeaderLister); ok {
			return errf("%s is a list", h.Kind)
		}
		if err := firstErr(eq("name", g.GetName(), name), eq("is a list", g.IsHeaderList(), false), k.check(g, h.Elems[0]), encodedForm(g, name)); err != nil {
			return errf("%s: %v", h.Kind, err)
		}
		return nil
	}
	l, ok := g.(header.SIPHeaderLister)
	if !ok {
		return errf("%s is a %T, not a list", h.Kind, g)
	}
	if err := firstErr(eq("name", l.GetName(), name), eq("is a list", l.IsHeaderList(), true), eq("elements", l.Len(), len(h.Elems))); err != nil {
		return errf("%s: %v", h.Kind, err)
	}
	i := 0
	var bodies []string
	for e := l.Front(); e != nil; e = e.Next() {
		x, ok := e.Value.(header.Header)
		if !ok {
			return errf("%s: element %d is a %T", h.Kind, i, e.Value)
		}
		if err := firstErr(eq("name", x.GetName(), name), k.check(x, h.Elems[i]), encodedForm(x, name)); err != nil {
			return errf("%s element %d: %v", h.Kind, i, err)
		}
		bodies = append(bodies, x.EncodeBody())
		i++
	}
	if strings.Contains(name, "uth") && strings.HasSuffix(name, "e") { // challenges are not comma-separated
		return nil
	}
	return firstErr(eq("list body", l.EncodeBody(), strings.Join(bodies, ",")), encodedForm(g, name))
}

// encodedForm relates the different ways to get at the text of a header.
func encodedForm(g header.Header, name string) error {
	b := g.EncodeBody()
	v, ok := g.(interface {
		GetHeaderName() string
		GetHeaderValue() string
	})
	if !ok {
		return errf("a %T has no name and value", g)
	}
	return firstErr(eq("text", g.String(), name+": "+b+"\r\n"), eq("value", g.GetValue(), strings.TrimSpace(b)), eq("header value", v.GetHeaderValue(), strings.TrimSpace(b)), eq("header name", v.GetHeaderName(), name))
}

// parseHdr parses the text of one header.
func parseHdr(text string) (g header.Header, err error) {
	if g, err = parser.NewStringMsgParser().ParseSIPHeader(text); err != nil {
		return nil, errf("%q refused: %v", text, err)
	}
	return g, nil
}

// asList gives a list of one for a single element of a list header.
func hdrText(g header.Header) string { return strings.TrimRight(g.String(), "\r\n") }

// roundTrip checks a header against the model and again after encoding it.
func roundTrip(g header.Header, h hdrM) error {
	if err := checkHdr(g, h); err != nil {
		return err
	}
	g2, err := parseHdr(hdrText(g))
	if err != nil {
		return errf("encoding: %v", err)
	}
	if err := checkHdr(g2, h); err != nil {
		return errf("encoding %q: %v", g.String(), err)
	}
	// a flag may read back as a parameter with an empty value
	flags := strings.NewReplacer("=;", ";", "=\r", "\r", "=,", ",")
	return eq("second encoding", strings.ToLower(flags.Replace(g2.String())), strings.ToLower(flags.Replace(g.String())))
}

// ------------------------------------------------------------- parameters

type paramsHeader interface {
	GetParameter(string) string
	GetParameterValue(string) string
	GetParameterNames() *list.List
	HasParameters() bool
	HasParameter(string) bool
	GetParameters() *core.NameValueList
	GetNameValue(string) *core.NameValue
}

func hpIndex(l []hparam, n string) int {
	for i, p := range l {
		if strings.EqualFold(p.N, n) {
			return i
		}
	}
	return -1
}

func hpVal(l []hparam, n string) string {
	if i := hpIndex(l, n); i >= 0 {
		return l[i].V
	}
	return ""
}

func hpDel(l []hparam, n string) []hparam {
	if i := hpIndex(l, n); i >= 0 {
		return append(append([]hparam{}, l[:i]...), l[i+1:]...)
	}
	return l
}

// hpSet replaces the value in place, or adds the parameter at the end.
func hpSet(l []hparam, p hparam) []hparam {
	l = append([]hparam{}, l...)
	if i := hpIndex(l, p.N); i >= 0 {
		if l[i].K == "q" {
			p.K = "q"
		}
		l[i].V, l[i].K = p.V, p.K
		return l
	}
	return append(l, p)
}

func checkParams(g paramsHeader, ps []hparam) error {
	var names []string
	for _, p := range ps {
		names = append(names, p.N)
	}
	if err := firstErr(eqStrings("parameter names", lowers(listStrings(g.GetParameterNames())), lowers(names)), eq("has parameters", g.HasParameters(), len(ps) > 0),
		eq("parameter count", g.GetParameters().Len(), len(ps)), eq("has an absent parameter", g.HasParameter("absent"), false), eq("an absent parameter", g.GetParameter("absent"), "")); err != nil {
		return err
	}
	for _, p := range ps {
		if err := firstErr(eq("parameter "+p.N, g.GetParameter(p.N), p.V), eq("parameter "+p.N, g.GetParameterValue(strings.ToUpper(p.N)), p.V),
			eq("has parameter "+p.N, g.HasParameter(strings.ToLower(p.N)), true)); err != nil {
			return err
		}
	}
	return nil
}

func lowers(l []string) (r []string) {
	for _, s := range l {
		r = append(r, strings.ToLower(s))
	}
	return
}

// genParams draws parameters of which none has a name in avoid.
func genParams(t *rapid.T, max int, avoid ...string) []hparam {
	var l []hparam
	n := intr(t, "hparams", 0, max)
	if max > 1 {
		n = amount(t, "hparams", n, n, 80)
	}
	for ; n > 0; n-- {
		p := hparam{N: pick(t, "hpn", "x", "foo", "bar", genToken(t, "hpn2"))}
		switch pick(t, "hpk", "", "", "q", "f") {
		case "":
			p.V = genToken(t, "hpv")
		case "q":
			p.V, p.K = genQuotedInner(t, "hpq"), "q"
		case "f":
			p.K = "f"
		}
		l = addParam(l, p, avoid)
	}
	return l
}

func addParam(l []hparam, p hparam, avoid []string) []hparam {
	for _, a := range append([]string{"absent"}, avoid...) {
		if strings.EqualFold(a, p.N) {
			return l
		}
	}
	if hpIndex(l, p.N) >= 0 {
		return l
	}
	return append(l, p)
}

// withParam puts a parameter at a random place among others, in half the cases.
func withParam(t *rapid.T, l []hparam, p hparam) []hparam {
	if hpIndex(l, p.N) >= 0 || !rapid.Bool().Draw(t, "with-"+p.N) {
		return l
	}
	i := intr(t, "at", 0, len(l))
	if chance(t, "upper", 5) {
		p.N = strings.ToUpper(p.N)
	}
	return append(append(append([]hparam{}, l[:i]...), p), l[i:]...)
}

func setParams(g interface {
	GetParameters() *core.NameValueList
	SetParameter(string, string) error
}, q func(string, string), ps []hparam) error {
	for _, p := range ps {
		if p.K == "q" {
			q(p.N, p.V)
		} else if p.K == "f" {
			g.GetParameters().SetNameValue(core.NewNameValue(p.N, nil))
		} else if err := g.SetParameter(p.N, p.V); err != nil {
			return errf("SetParameter(%q, %q): %v", p.N, p.V, err)
		}
	}
	return nil
}

// ------------------------------------------------------- address headers

type addrHeader interface {
	header.Header
	paramsHeader
	GetAddress() address.Address
	SetAddress(address.Address)
	SetParameter(string, string) error
	SetQuotedParameter(string, string)
}

// genHeaderAddr draws the address of a header; spec says whether it may be bare.
func genHeaderAddr(t *rapid.T) *addrM {
	a := genNameAddr(t)
	if len(a.WS) > 0 {
		a.WS[0] = ""
	}
	return &a
}

func addrHeaderText(w *wr, e elem) { w.t(e.A.text()).params(e.P) }

// checkHeaderAddr allows a bare address to read as one in brackets.
func checkHeaderAddr(g address.Address, a addrM) error {
	ai, ok := g.(*address.AddressImpl)
	if !ok || ai == nil {
		return errf("address is a %T", g)
	}
	b := a
	if a.Form == "spec" && ai.GetAddressType() == address.NAME_ADDR {
		b.Form = "angle"
	}
	return checkAddr(ai, b)
}

func checkAddrHeader(g header.Header, e elem) error {
	h, ok := g.(addrHeader)
	if !ok {
		return errf("a %T", g)
	}
	return firstErr(checkHeaderAddr(h.GetAddress(), *e.A), checkParams(h, e.P))
}

func buildAddrHeader(g addrHeader, e elem) (header.Header, error) {
	return buildAddr(g, e, address.NAME_ADDR)
}

// buildAddr gives the header an address of that type.
func buildAddr(g addrHeader, e elem, kind int) (header.Header, error) {
	a := *e.A
	if a.Form == "spec" {
		a.Form = "angle"
	}
	ai := address.NewAddressImpl()
	ai.SetAddressType(kind)
	u, err := a.URI.build()
	if err != nil {
		return nil, err
	}
	ai.SetURI(u)
	if a.name() != "" {
		ai.SetDisplayName(a.name())
	}
	g.SetAddress(ai)
	return g, setParams(g, g.SetQuotedParameter, e.P)
}

// newAddrHeader gives an empty header of those that have an address.
var newAddrHeader = map[string]func() addrHeader{
	"From":         func() addrHeader { return header.NewFrom() },
	"To":           func() addrHeader { return header.NewTo() },
	"Reply-To":     func() addrHeader { return header.NewReplyTo() },
	"Refer-To":     func() addrHeader { return header.NewReferTo() },
	"Contact":      func() addrHeader { return header.NewContact() },
	"Route":        func() addrHeader { return header.NewRoute() },
	"Record-Route": func() addrHeader { return header.NewRecordRoute() },
}

func init() {
	type bareCase struct {
		Kind string
		E    elem
		Name bool // with a display name
	}
	fw.Add("C14", "bare", "a From, To, Reply-To, Refer-To, Contact, Route or Record-Route header, alone or in a list header, whose address was made without brackets (type ADDRESS_SPEC) and whose URI has parameters or headers of its own, with 0..3 header parameters: the encoding parses to the same URI and the same header parameters; non-trivial: a SIP URI with parameters or headers", 5000, 150000,
		func(t *rapid.T) bareCase {
			c := bareCase{Kind: pick(t, "kind", "From", "To", "Reply-To", "Refer-To", "Contact", "Route", "Record-Route")}
			a := addrM{Form: "spec", URI: genURI(t, true)}
			c.Name = chance(t, "name", 5)
			if c.Name {
				a.Form, a.Name = "quoted", genWord(t, "dn")
			}
			c.E = elem{A: &a, P: genParams(t, 3)}
			return c
		}, func(x *fw.Ctx, c bareCase) error {
			x.Class(c.Kind)
			if u := c.E.A.URI.Sip; len(u.Params)+len(u.Heads) > 0 {
				x.NonTrivial()
			}
			g, err := buildAddr(newAddrHeader[c.Kind](), c.E, address.ADDRESS_SPEC)
			if err != nil {
				return err
			}
			text := hdrText(g)
			p, err := parseHdr(text)
			if err != nil {
				return err
			}
			if k := kinds[c.Kind]; k.list {
				l, ok := p.(header.SIPHeaderLister)
				if !ok || l.Len() != 1 {
					return errf("%q is a %T of several elements", text, p)
				}
				if p, ok = l.Front().Value.(header.Header); !ok {
					return errf("%q has a %T in its list", text, l.Front().Value)
				}
			}
			h, ok := p.(addrHeader)
			if !ok {
				return errf("%q is a %T", text, p)
			}
			a := *c.E.A
			if err := firstErr(checkHeaderAddr(h.GetAddress(), a), checkParams(h, c.E.P)); err != nil {
				return errf("%q: %v", text, err)
			}
			return nil
		})
}

func (a addrM) userAtHostPort() string {
	if a.URI.Kind != "sip" {
		return a.URI.canon()
	}
	u := a.URI.Sip
	if u.User != "" {
		return u.User + "@" + u.hostPort()
	}
	return u.hostPort()
}

func genQ(t *rapid.T) string {
	return pick(t, "q", "0", "1", "0.5", "0.1", "0.25", "0.875", "1.0", "0.0")
}

func qOf(ps []hparam) (float32, bool) {
	if hpIndex(ps, "q") < 0 {
		return -1, false
	}
	f, _ := strconv.ParseFloat(hpVal(ps, "q"), 32)
	return float32(f), true
}

type qHeader interface {
	GetQValue() float32
	HasQValue() bool
}

func checkQ(h qHeader, ps []hparam) error {
	q, ok := qOf(ps)
	if !ok {
		return eq("has q", h.HasQValue(), false)
	}
	return firstErr(eq("has q", h.HasQValue(), true), eq("q", h.GetQValue(), q))
}

func init() {
	for _, n := range []string{"From", "To"} {
		n := n
		addKind(&kind{name: n, short: strings.ToLower(n[:1]), prop: "C14",
			gen: func(t *rapid.T) elem {
				return elem{A: genHeaderAddr(t), P: withParam(t, genParams(t, 2, "tag"), hparam{N: "tag", V: genToken(t, "tag")})}
			},
			text: addrHeaderText,
			check: func(g header.Header, e elem) error {
				type ft interface {
					GetDisplayName() string
					GetTag() string
					HasTag() bool
					GetUserAtHostPort() string
					GetHostPort() (*core.HostPort, error)
				}
				h, ok := g.(ft)
				if !ok {
					return errf("a %T", g)
				}
				if err := firstErr(checkAddrHeader(g, e), eq("display name", h.GetDisplayName(), e.A.name()), eq("tag", h.GetTag(), hpVal(e.P, "tag")),
					eq("has tag", h.HasTag(), hpIndex(e.P, "tag") >= 0), eq("user@host:port", h.GetUserAtHostPort(), e.A.userAtHostPort())); err != nil {
					return err
				}
				if e.A.URI.Kind == "sip" {
					hp, err := h.GetHostPort()
					if err != nil {
						return err
					}
					return eq("host:port", hp.String(), e.A.URI.Sip.hostPort())
				}
				return nil
			},
			build: func(e elem) (header.Header, error) {
				if n == "From" {
					return buildAddrHeader(header.NewFrom(), e)
				}
				return buildAddrHeader(header.NewTo(), e)
			}})
	}
	addKind(&kind{name: "Reply-To", prop: "C14",
		gen:  func(t *rapid.T) elem { return elem{A: genHeaderAddr(t), P: genParams(t, 3)} },
		text: addrHeaderText,
		check: func(g header.Header, e elem) error {
			h, ok := g.(*header.ReplyTo)
			if !ok {
				return errf("a %T", g)
			}
			return firstErr(checkAddrHeader(g, e), eq("display name", h.GetDisplayName(), e.A.name()))
		},
		build: func(e elem) (header.Header, error) { return buildAddrHeader(header.NewReplyTo(), e) }})
	addKind(&kind{name: "Refer-To", short: "r", prop: "C14",
		gen:   func(t *rapid.T) elem { return elem{A: genHeaderAddr(t), P: genParams(t, 3)} },
		text:  addrHeaderText,
		check: checkAddrHeader,
		build: func(e elem) (header.Header, error) { return buildAddrHeader(header.NewReferTo(), e) }})
	addKind(&kind{name: "Contact", short: "m", prop: "C14", list: true,
		gen: func(t *rapid.T) elem {
			e := elem{A: genHeaderAddr(t)}
			// parameters of a bare address stay with the URI (a known finding)
			if e.A.Form != "spec" {
				e.P = withParam(t, genParams(t, 2, "q", "expires"), hparam{N: "q", V: genQ(t)})
				e.P = withParam(t, e.P, hparam{N: "expires", V: genDigits(t, "expires", 0, 1<<31-1)})
			}
			return e
		},
		text: addrHeaderText,
		check: func(g header.Header, e elem) error {
			h, ok := g.(*header.Contact)
			if !ok {
				return errf("a %T", g)
			}
			if err := firstErr(checkAddrHeader(g, e), checkQ(h, e.P), eq("wildcard", h.GetWildCardFlag(), false)); err != nil {
				return err
			}
			if v := hpVal(e.P, "expires"); v != "" {
				return eq("expires", h.GetExpires(), atoi(v))
			}
			return nil
		},
		build:   func(e elem) (header.Header, error) { return buildAddrHeader(header.NewContact(), e) },
		newList: func() header.SIPHeaderLister { return header.NewContactList() }})
	for _, n := range []string{"Route", "Record-Route"} {
		n := n
		addKind(&kind{name: n, prop: "C14", list: true,
			gen: func(t *rapid.T) elem {
				e := elem{A: genHeaderAddr(t)}
				if e.A.Form != "spec" {
					e.P = genParams(t, 3)
				}
				return e
			},
			text: addrHeaderText, check: checkAddrHeader,
			build: func(e elem) (header.Header, error) {
				if n == "Route" {
					return buildAddrHeader(header.NewRoute(), e)
				}
				return buildAddrHeader(header.NewRecordRoute(), e)
			},
			newList: func() header.SIPHeaderLister {
				if n == "Route" {
					return header.NewRouteList()
				}
				return header.NewRecordRouteList()
			}})
	}
}

// -------------------------------------------------------------------- Via

func genComment(t *rapid.T, name string) string {
	var b strings.Builder
	for n := amount(t, name+"-clen", 0, 5, 60); n > 0; n-- {
		b.WriteString(pick(t, name+"-c", "a", "B", "7", " ", ",", ";", "=", ":", "@", "/", "<", ">", "(x)", "((y) z)", `\)`, `\(`, `\\`, "\xc3\xa9", "'"))
	}
	s := strings.TrimSpace(b.String())
	if s == "" {
		s = "c"
	}
	if chance(t, name+"-deep", 50) {
		n := intr(t, name+"-depth", 2, 40)
		s = strings.Repeat("(", n) + s + strings.Repeat(")", n)
	}
	return s
}

func genViaHost(t *rapid.T) *hostM { h := genHost(t); return &h }

func init() {
	// S: protocol, version, transport, comment; I: port
	addKind(&kind{name: "Via", short: "v", prop: "C15", list: true,
		gen: func(t *rapid.T) elem {
			e := elem{H: genViaHost(t), I: []int{genPort(t)}}
			e.S = []string{"SIP", "2.0", pick(t, "trans", "UDP", "TCP", "TLS", "SCTP", "WS", "TLS-SCTP"), ""}
			if chance(t, "comment", 4) {
				e.S[3] = genComment(t, "comment")
			}
			e.P = genParams(t, 2, "branch", "received", "maddr", "ttl", "rport", "q")
			e.P = withParam(t, e.P, hparam{N: "branch", V: "z9hG4bK" + genToken(t, "branch")})
			e.P = withParam(t, e.P, hparam{N: "received", V: pick(t, "received", "192.0.2.1", "10.0.0.255", "2001:db8::1", "::1", "fe80::1:2")})
			e.P = withParam(t, e.P, hparam{N: "maddr", V: genHost(t).Text})
			e.P = withParam(t, e.P, hparam{N: "ttl", V: genDigits(t, "ttl", 0, 255)})
			if chance(t, "rport", 3) {
				if rapid.Bool().Draw(t, "rport-flag") {
					e.P = append(e.P, hparam{N: "rport", K: "f"})
				} else {
					e.P = append(e.P, hparam{N: "rport", V: strconv.Itoa(intr(t, "rport", 1, 65535))})
				}
			}
			return e
		},
		text: func(w *wr, e elem) {
			w.t(e.S[0]).sp().t("/").sp().t(e.S[1]).sp().t("/").sp().t(e.S[2]).lws().t(e.H.Text)
			if e.I[0] >= 0 {
				w.t(":", strconv.Itoa(e.I[0]))
			}
			// the library writes a comment before the parameters and reads it on either side
			first := e.S[3] != "" && len(e.W)%2 == 0
			if first {
				w.lws().t("(", e.S[3], ")")
			}
			w.params(e.P)
			if e.S[3] != "" && !first {
				w.lws().t("(", e.S[3], ")")
			}
		},
		check: func(g header.Header, e elem) error {
			h, ok := g.(*header.Via)
			if !ok {
				return errf("a %T", g)
			}
			if h.GetSentProtocol() == nil || h.GetSentBy() == nil {
				return errf("no protocol or sent-by")
			}
			ttl := -1
			if v := hpVal(e.P, "ttl"); v != "" {
				ttl, _ = strconv.Atoi(v)
			}
			if err := firstErr(eq("protocol", h.GetProtocol(), e.S[0]), eq("version", h.GetProtocolVersion(), e.S[1]), eq("transport", h.GetTransport(), e.S[2]),
				eq("protocol", h.GetSentProtocol().String(), e.S[0]+"/"+e.S[1]+"/"+e.S[2]),
				checkHost("sent-by", h.GetSentBy().GetHost(), *e.H), eqHost(h.GetHost(), *e.H), eq("port", h.GetPort(), e.I[0]), eq("has port", h.HasPort(), e.I[0] >= 0),
				eq("comment", h.GetComment(), e.S[3]), eq("has comment", h.HasComment(), e.S[3] != ""),
				eq("branch", h.GetBranch(), hpVal(e.P, "branch")), eq("received", h.GetReceived(), hpVal(e.P, "received")), eq("maddr", h.GetMAddr(), hpVal(e.P, "maddr")),
				eq("ttl", h.GetTTL(), ttl), checkParams(h, e.P), eq("parameters", h.GetViaParms().Len(), len(e.P))); err != nil {
				return err
			}
			if m := hpVal(e.P, "maddr"); m != "" {
				if h.GetMaddr() == nil {
					return errf("no maddr host")
				}
				return eq("maddr host", h.GetMaddr().String(), m)
			} else if h.GetMaddr() != nil {
				return errf("maddr host without maddr")
			}
			return nil
		},
		build: func(e elem) (header.Header, error) {
			v := header.NewVia()
			v.SetProtocolVersion(e.S[1])
			if err := firstErr(v.SetProtocol(e.S[0]), v.SetTransport(e.S[2])); err != nil {
				return nil, err
			}
			v.SetHost(core.NewHost(e.H.Text))
			if e.I[0] >= 0 {
				v.SetPort(e.I[0])
			}
			v.SetComment(e.S[3])
			for _, p := range e.P {
				var err error
				switch strings.ToLower(p.N) {
				case "branch":
					err = v.SetBranch(p.V)
				case "received":
					err = v.SetReceived(p.V)
				case "maddr":
					err = v.SetMAddr(hostM{p.V, map[bool]string{true: "v6"}[p.V[0] == '[']}.arg(len(e.P)%2 > 0))
				default:
					if p.K == "q" {
						v.SetQuotedParameter(p.N, p.V)
					} else if p.K == "f" {
						v.GetParameters().AddNameValue(core.NewNameValue(p.N, nil))
					} else {
						err = v.SetParameter(p.N, p.V)
					}
				}
				if err != nil {
					return nil, err
				}
			}
			return v, nil
		},
		newList: func() header.SIPHeaderLister { return header.NewViaList() }})
}

// ---------------------------------------------------------- authentication

var authQuoted = []string{"realm", "domain", "nonce", "opaque", "username", "response", "cnonce", "qop", "algorithm"}

func genAuthParams(t *rapid.T, names ...string) []hparam {
	var l []hparam
	for n := intr(t, "aparams", 1, 6); n > 0; n-- {
		p := hparam{N: pick(t, "apn", append(names, genToken(t, "apn2"))...)}
		switch strings.ToLower(p.N) {
		case "realm", "domain", "nonce", "opaque", "username", "cnonce", "nextnonce":
			p.V, p.K = genQuotedInner(t, "apq"), "q"
		case "uri":
			p.V, p.K = genSip(t).encode("sip"), "q"
		case "response", "rspauth":
			p.V, p.K = pick(t, "resp", "dfe56131d1958046689d83306477ecc", "7587245234b3434cc3412213e5f113a5", "0", ""), "q"
		case "qop":
			p.V, p.K = pick(t, "qop", "auth", "auth-int", "auth,auth-int"), "q"
			if !strings.Contains(p.V, ",") && rapid.Bool().Draw(t, "qopq") {
				p.K = ""
			}
		case "algorithm":
			p.V = pick(t, "alg", "MD5", "MD5-sess", "SHA-256", genToken(t, "alg2"))
		case "stale":
			p.V = pick(t, "stale", "true", "false", "TRUE", "False")
		case "nc":
			p.V = fmt.Sprintf("%08x", pick(t, "nc", 0, 1, 0x10, 0xabcdef, 0xffffffff))
		default:
			if rapid.Bool().Draw(t, "apquoted") {
				p.V, p.K = genQuotedInner(t, "apq"), "q"
			} else {
				p.V = genToken(t, "apv")
			}
		}
		l = addParam(l, p, nil)
	}
	return l
}

func authText(w *wr, ps []hparam) {
	for i, p := range ps {
		if i > 0 {
			w.sp().t(",").sp()
		}
		w.param(p)
	}
}

func checkAuthQuotes(body string, ps []hparam) error {
	for _, p := range ps {
		n := strings.ToLower(p.N)
		must := p.K == "q" && (strings.Contains(" realm domain nonce opaque username uri response cnonce nextnonce rspauth ", " "+n+" ") || strings.Trim(p.V, tokenChars) != "" || p.V == "")
		never := n == "stale" || n == "nc"
		q, u := p.N+`="`+p.V+`"`, p.N+"="+p.V
		if must && !strings.Contains(body, q) {
			return errf("%q lacks %q", body, q)
		}
		if never && !strings.Contains(body, u) {
			return errf("%q lacks %q", body, u)
		}
	}
	return nil
}

type authHeader interface {
	header.Header
	paramsHeader
	GetScheme() string
	SetScheme(string)
	GetRealm() string
	GetNonce() string
	GetURI() address.URI
	GetAlgorithm() string
	GetQop() string
	GetOpaque() string
	GetDomain() string
	IsStale() bool
	GetCNonce() string
	GetNonceCount() int
	GetResponse() string
	GetUsername() string
	SetParameter(string, string) error
	SetRealm(string) error
	SetNonce(string) error
	SetURI(address.URI) error
	SetAlgorithm(string) error
	SetQop(string) error
	SetOpaque(string) error
	SetDomain(string) error
	SetStale(bool)
	SetCNonce(string) error
	SetNonceCount(int) error
	SetResponse(string) error
	SetUsername(string) error
}

func ncOf(ps []hparam) int {
	n, err := strconv.ParseInt(hpVal(ps, "nc"), 16, 64)
	if err != nil {
		return -1
	}
	return int(n)
}

func checkAuth(g header.Header, e elem) error {
	h, ok := g.(authHeader)
	if !ok {
		return errf("a %T", g)
	}
	ps := e.P
	if err := firstErr(eq("scheme", h.GetScheme(), e.S[0]), checkParams(h, ps), eq("realm", h.GetRealm(), hpVal(ps, "realm")), eq("nonce", h.GetNonce(), hpVal(ps, "nonce")),
		eq("algorithm", h.GetAlgorithm(), hpVal(ps, "algorithm")), eq("qop", h.GetQop(), hpVal(ps, "qop")), eq("opaque", h.GetOpaque(), hpVal(ps, "opaque")),
		eq("domain", h.GetDomain(), hpVal(ps, "domain")), eq("stale", h.IsStale(), strings.EqualFold(hpVal(ps, "stale"), "true")), eq("cnonce", h.GetCNonce(), hpVal(ps, "cnonce")),
		eq("nc", h.GetNonceCount(), ncOf(ps)), eq("response", h.GetResponse(), hpVal(ps, "response")), eq("username", h.GetUsername(), hpVal(ps, "username")),
		checkAuthQuotes(h.EncodeBody(), ps)); err != nil {
		return err
	}
	u := h.GetURI()
	if v := hpVal(ps, "uri"); v == "" {
		if u != nil {
			return errf("a URI without a uri parameter")
		}
	} else if u == nil || u.String() != v {
		return errf("URI: got %v, want %q", u, v)
	}
	return nil
}

func newAuth(n string) authHeader {
	switch n {
	case "WWW-Authenticate":
		return header.NewWWWAuthenticate()
	case "Proxy-Authenticate":
		return header.NewProxyAuthenticate()
	case "Authorization":
		return header.NewAuthorization()
	}
	return header.NewProxyAuthorization()
}

func init() {
	for _, n := range []string{"WWW-Authenticate", "Proxy-Authenticate", "Authorization", "Proxy-Authorization"} {
		n := n
		addKind(&kind{name: n, prop: "C16",
			gen: func(t *rapid.T) elem {
				e := elem{S: []string{pick(t, "scheme", "Digest", "Digest", "Basic", "X-Other")}}
				e.P = genAuthParams(t, "realm", "nonce", "domain", "opaque", "username", "uri", "response", "cnonce", "qop", "algorithm", "stale", "nc", "Realm", "NC", "x")
				return e
			},
			text: func(w *wr, e elem) {
				w.t(e.S[0]).lws()
				authText(w, e.P)
			},
			check: checkAuth,
			build: func(e elem) (header.Header, error) {
				g := newAuth(n)
				g.SetScheme(e.S[0])
				for _, p := range e.P {
					if err := g.SetParameter(p.N, p.V); err != nil {
						return nil, errf("SetParameter(%q, %q): %v", p.N, p.V, err)
					}
				}
				return g, nil
			}})
	}
	addKind(&kind{name: "Authentication-Info", prop: "C16",
		gen: func(t *rapid.T) elem {
			return elem{P: genAuthParams(t, "nextnonce", "qop", "rspauth", "cnonce", "nc", "x")}
		},
		text: func(w *wr, e elem) { authText(w, e.P) },
		check: func(g header.Header, e elem) error {
			h, ok := g.(*header.AuthenticationInfo)
			if !ok {
				return errf("a %T", g)
			}
			ps := e.P
			if err := firstErr(checkParams(h, ps), eq("nextnonce", h.GetNextNonce(), hpVal(ps, "nextnonce")), eq("qop", h.GetQop(), hpVal(ps, "qop")),
				eq("rspauth", h.GetResponse(), hpVal(ps, "rspauth")), eq("cnonce", h.GetCNonce(), hpVal(ps, "cnonce")), eq("nc", h.GetNonceCount(), ncOf(ps)),
				eq("info", h.GetAuthenticationInfo(), h.EncodeBody()), checkAuthQuotes(h.EncodeBody(), ps)); err != nil {
				return err
			}
			for _, p := range ps {
				if nv := h.GetAuthInfo(p.N); nv == nil || nv.GetValue() != p.V {
					return errf("auth-info %s: %v", p.N, nv)
				}
			}
			return nil
		},
		build: func(e elem) (header.Header, error) {
			g := header.NewAuthenticationInfo()
			for _, p := range e.P {
				if err := g.SetParameter(p.N, p.V); err != nil {
					return nil, errf("SetParameter(%q, %q): %v", p.N, p.V, err)
				}
			}
			return g, nil
		}})
}

// ----------------------------------------------------------- list headers

// tokenKind is a list of single tokens.
func tokenKind(name, short string, gen func(t *rapid.T) string, get func(header.Header) (string, bool), build func(string) (header.Header, error), nl func() header.SIPHeaderLister) {
	addKind(&kind{name: name, short: short, prop: "C17", list: true,
		gen:  func(t *rapid.T) elem { return elem{S: []string{gen(t)}} },
		text: func(w *wr, e elem) { w.t(e.S[0]) },
		check: func(g header.Header, e elem) error {
			s, ok := get(g)
			if !ok {
				return errf("a %T", g)
			}
			return firstErr(eq("value", s, e.S[0]), eq("body", g.EncodeBody(), e.S[0]))
		},
		build:   func(e elem) (header.Header, error) { return build(e.S[0]) },
		newList: nl})
}

func genTok(t *rapid.T) string { return genToken(t, "token") }

func genLang(t *rapid.T) string {
	return pick(t, "lang", "en", "fr", "de-CH", "i-klingon", "x-a-b", "zh-Hant-TW", "*"[:0]+"da", genWord(t, "lw"))
}

func init() {
	tokenKind("Allow", "", func(t *rapid.T) string {
		return pick(t, "m", "INVITE", "ACK", "BYE", "OPTIONS", "foo", genToken(t, "tok"))
	},
		func(g header.Header) (string, bool) {
			if h, ok := g.(*header.Allow); ok {
				return h.GetMethod(), true
			}
			return "", false
		},
		func(s string) (header.Header, error) { h := header.NewAllow(); return h, h.SetMethod(s) }, func() header.SIPHeaderLister { return header.NewAllowList() })
	tokenKind("Allow-Events", "u", genTok, func(g header.Header) (string, bool) {
		if h, ok := g.(*header.AllowEvents); ok {
			return h.GetEventType(), true
		}
		return "", false
	}, func(s string) (header.Header, error) { h := header.NewAllowEvents(); return h, h.SetEventType(s) }, func() header.SIPHeaderLister { return header.NewAllowEventsList() })
	tokenKind("Require", "", genTok, func(g header.Header) (string, bool) {
		if h, ok := g.(*header.Require); ok {
			return h.GetOptionTag(), true
		}
		return "", false
	}, func(s string) (header.Header, error) { h := header.NewRequire(); return h, h.SetOptionTag(s) }, func() header.SIPHeaderLister { return header.NewRequireList() })
	tokenKind("Proxy-Require", "", genTok, func(g header.Header) (string, bool) {
		if h, ok := g.(*header.ProxyRequire); ok {
			return h.GetOptionTag(), true
		}
		return "", false
	}, func(s string) (header.Header, error) { h := header.NewProxyRequire(); return h, h.SetOptionTag(s) }, func() header.SIPHeaderLister { return header.NewProxyRequireList() })
	tokenKind("Supported", "k", genTok, func(g header.Header) (string, bool) {
		if h, ok := g.(*header.Supported); ok {
			return h.GetOptionTag(), true
		}
		return "", false
	}, func(s string) (header.Header, error) { h := header.NewSupported(); return h, h.SetOptionTag(s) }, func() header.SIPHeaderLister { return header.NewSupportedList() })
	tokenKind("Unsupported", "", genTok, func(g header.Header) (string, bool) {
		if h, ok := g.(*header.Unsupported); ok {
			return h.GetOptionTag(), true
		}
		return "", false
	}, func(s string) (header.Header, error) { h := header.NewUnsupported(); return h, h.SetOptionTag(s) }, func() header.SIPHeaderLister { return header.NewUnsupportedList() })
	tokenKind("Content-Encoding", "e", genTok, func(g header.Header) (string, bool) {
		if h, ok := g.(*header.ContentEncoding); ok {
			return h.GetEncoding(), true
		}
		return "", false
	}, func(s string) (header.Header, error) { h := header.NewContentEncoding(); return h, h.SetEncoding(s) }, func() header.SIPHeaderLister { return header.NewContentEncodingList() })
	tokenKind("Content-Language", "", genLang, func(g header.Header) (string, bool) {
		if h, ok := g.(*header.ContentLanguage); ok {
			return h.GetContentLanguage(), h.GetContentLanguage() == h.GetLanguageTag()
		}
		return "", false
	}, func(s string) (header.Header, error) {
		h := header.NewContentLanguage()
		h.SetContentLanguage(s)
		return h, nil
	}, func() header.SIPHeaderLister { return header.NewContentLanguageList() })
	tokenKind("In-Reply-To", "", func(t *rapid.T) string {
		s := genToken(t, "irt")
		if rapid.Bool().Draw(t, "at") {
			s += "@" + genToken(t, "irt2")
		}
		return s
	}, func(g header.Header) (string, bool) {
		if h, ok := g.(*header.InReplyTo); ok {
			return h.GetCallId(), true
		}
		return "", false
	}, func(s string) (header.Header, error) { h := header.NewInReplyTo(); return h, h.SetCallId(s) }, func() header.SIPHeaderLister { return header.NewInReplyToList() })

	// Accept: S type, subtype
	addKind(&kind{name: "Accept", prop: "C17", list: true,
		gen: func(t *rapid.T) elem {
			e := elem{S: []string{pick(t, "type", "application", "text", "*", genToken(t, "ty")), pick(t, "sub", "sdp", "*", "html", genToken(t, "su"))}}
			e.P = withParam(t, genParams(t, 2, "q"), hparam{N: "q", V: genQ(t)})
			return e
		},
		text: func(w *wr, e elem) { w.t(e.S[0]).sp().t("/").sp().t(e.S[1]).params(e.P) },
		check: func(g header.Header, e elem) error {
			h, ok := g.(*header.Accept)
			if !ok {
				return errf("a %T", g)
			}
			if h.GetMediaRange() == nil {
				return errf("no media range")
			}
			return firstErr(eq("type", h.GetContentType(), e.S[0]), eq("subtype", h.GetContentSubType(), e.S[1]), eq("range", h.GetMediaRange().String(), e.S[0]+"/"+e.S[1]),
				eq("all types", h.AllowsAllContentTypes(), e.S[0] == "*"), eq("all subtypes", h.AllowsAllContentSubTypes(), e.S[1] == "*"), checkParams(h, e.P), checkQ(h, e.P))
		},
		build: func(e elem) (header.Header, error) {
			h := header.NewAccept()
			h.SetContentType(e.S[0])
			h.SetContentSubType(e.S[1])
			return h, setParams(h, h.SetQuotedParameter, e.P)
		},
		newList: func() header.SIPHeaderLister { return header.NewAcceptList() }})
	addKind(&kind{name: "Accept-Encoding", prop: "C17", list: true,
		gen: func(t *rapid.T) elem {
			e := elem{S: []string{pick(t, "enc", "gzip", "*", "identity", genToken(t, "en"))}}
			e.P = withParam(t, genParams(t, 1, "q"), hparam{N: "q", V: pick(t, "q", "0", "1", "0.5", "0.25")})
			return e
		},
		text: func(w *wr, e elem) { w.t(e.S[0]).params(e.P) },
		check: func(g header.Header, e elem) error {
			h, ok := g.(*header.AcceptEncoding)
			if !ok {
				return errf("a %T", g)
			}
			return firstErr(eq("encoding", h.GetEncoding(), e.S[0]), checkParams(h, e.P), checkQ(h, e.P))
		},
		build: func(e elem) (header.Header, error) {
			h := header.NewAcceptEncoding()
			return h, firstErr(h.SetEncoding(e.S[0]), setParams(h, h.SetQuotedParameter, e.P))
		},
		newList: func() header.SIPHeaderLister { return header.NewAcceptEncodingList() }})
	addKind(&kind{name: "Accept-Language", prop: "C17", list: true,
		gen: func(t *rapid.T) elem {
			e := elem{S: []string{pick(t, "l", genLang(t), "*")}}
			e.P = withParam(t, genParams(t, 1, "q"), hparam{N: "q", V: pick(t, "q", "0", "1", "0.5", "0.25")})
			return e
		},
		text: func(w *wr, e elem) { w.t(e.S[0]).params(e.P) },
		check: func(g header.Header, e elem) error {
			h, ok := g.(*header.AcceptLanguage)
			if !ok {
				return errf("a %T", g)
			}
			return firstErr(eq("language", h.GetAcceptLanguage(), e.S[0]), eq("range", h.GetLanguageRange(), e.S[0]), checkParams(h, e.P), checkQ(h, e.P))
		},
		build: func(e elem) (header.Header, error) {
			h := header.NewAcceptLanguage()
			h.SetLanguageRange(e.S[0])
			return h, setParams(h, h.SetQuotedParameter, e.P)
		},
		newList: func() header.SIPHeaderLister { return header.NewAcceptLanguageList() }})

	infoKind := func(name string, avoid []string, extra func(t *rapid.T, l []hparam) []hparam, get func(g header.Header, e elem) (address.URI, error), build func(u address.URI) header.Header, nl func() header.SIPHeaderLister) {
		addKind(&kind{name: name, prop: "C17", list: true,
			gen: func(t *rapid.T) elem {
				u := genURI(t, true)
				return elem{U: &u, P: extra(t, genParams(t, 2, avoid...))}
			},
			text: func(w *wr, e elem) { w.t("<", e.U.text(), ">").params(e.P) },
			check: func(g header.Header, e elem) error {
				u, err := get(g, e)
				if err != nil {
					return err
				}
				return firstErr(e.U.check("URI", u), checkParams(g.(paramsHeader), e.P))
			},
			build: func(e elem) (header.Header, error) {
				u, err := e.U.build()
				if err != nil {
					return nil, err
				}
				h := build(u)
				return h, setParams(h.(interface {
					GetParameters() *core.NameValueList
					SetParameter(string, string) error
				}), h.(interface{ SetQuotedParameter(string, string) }).SetQuotedParameter, e.P)
			},
			newList: nl})
	}
	infoKind("Alert-Info", nil, func(t *rapid.T, l []hparam) []hparam { return l }, func(g header.Header, e elem) (address.URI, error) {
		if h, ok := g.(*header.AlertInfo); ok {
			return h.GetAlertInfo(), nil
		}
		return nil, errf("a %T", g)
	}, func(u address.URI) header.Header { h := header.NewAlertInfo(); h.SetAlertInfo(u); return h }, func() header.SIPHeaderLister { return header.NewAlertInfoList() })
	infoKind("Call-Info", []string{"purpose"}, func(t *rapid.T, l []hparam) []hparam {
		return withParam(t, l, hparam{N: "purpose", V: pick(t, "purpose", "icon", "info", "card", "x")})
	}, func(g header.Header, e elem) (address.URI, error) {
		if h, ok := g.(*header.CallInfo); ok {
			return h.GetInfo(), eq("purpose", h.GetPurpose(), hpVal(e.P, "purpose"))
		}
		return nil, errf("a %T", g)
	}, func(u address.URI) header.Header { h := header.NewCallInfo(); h.SetInfo(u); return h }, func() header.SIPHeaderLister { return header.NewCallInfoList() })
	infoKind("Error-Info", []string{"message"}, func(t *rapid.T, l []hparam) []hparam {
		return withParam(t, l, hparam{N: "message", V: genQuotedInner(t, "msg"), K: "q"})
	}, func(g header.Header, e elem) (address.URI, error) {
		if h, ok := g.(*header.ErrorInfo); ok {
			return h.GetErrorInfo(), eq("message", h.GetErrorMessage(), hpVal(e.P, "message"))
		}
		return nil, errf("a %T", g)
	}, func(u address.URI) header.Header { h := header.NewErrorInfo(); h.SetErrorInfo(u); return h }, func() header.SIPHeaderLister { return header.NewErrorInfoList() })

	addKind(&kind{name: "Reason", prop: "C17", list: true,
		gen: func(t *rapid.T) elem {
			e := elem{S: []string{pick(t, "proto", "SIP", "Q.850", "Preemption", genToken(t, "pr"))}}
			e.P = withParam(t, genParams(t, 1, "cause", "text"), hparam{N: "cause", V: genDigits(t, "cause", 0, 999)})
			e.P = withParam(t, e.P, hparam{N: "text", V: genQuotedInner(t, "text"), K: "q"})
			return e
		},
		text: func(w *wr, e elem) { w.t(e.S[0]).params(e.P) },
		check: func(g header.Header, e elem) error {
			h, ok := g.(*header.Reason)
			if !ok {
				return errf("a %T", g)
			}
			if err := firstErr(eq("protocol", h.GetProtocol(), e.S[0]), checkParams(h, e.P), eq("text", h.GetText(), hpVal(e.P, "text"))); err != nil {
				return err
			}
			if v := hpVal(e.P, "cause"); v != "" {
				return eq("cause", h.GetCause(), atoi(v))
			}
			return nil
		},
		build: func(e elem) (header.Header, error) {
			h := header.NewReason()
			return h, firstErr(h.SetProtocol(e.S[0]), setParams(h, h.SetQuotedParameter, e.P))
		},
		newList: func() header.SIPHeaderLister { return header.NewReasonList() }})
	// Warning: S agent, text; I code
	addKind(&kind{name: "Warning", prop: "C17", list: true,
		gen: func(t *rapid.T) elem {
			ag := genToken(t, "pseudo")
			if rapid.Bool().Draw(t, "hostagent") {
				ag = genHost(t).Text
				if p := genPort(t); p >= 0 {
					ag += ":" + strconv.Itoa(p)
				}
			}
			tx := genQuotedInner(t, "wtext")
			if tx == "" {
				tx = "x"
			}
			return elem{S: []string{ag, tx}, I: []int{intr(t, "code", 300, 399)}}
		},
		text: func(w *wr, e elem) { w.t(strconv.Itoa(e.I[0])).lws().t(e.S[0]).lws().t(`"`, e.S[1], `"`) },
		check: func(g header.Header, e elem) error {
			h, ok := g.(*header.Warning)
			if !ok {
				return errf("a %T", g)
			}
			return firstErr(eq("code", h.GetCode(), e.I[0]), eq("agent", h.GetAgent(), e.S[0]), eq("text", h.GetText(), e.S[1]))
		},
		build: func(e elem) (header.Header, error) {
			h := header.NewWarning()
			return h, firstErr(h.SetCode(e.I[0]), h.SetAgent(e.S[0]), h.SetText(e.S[1]))
		},
		newList: func() header.SIPHeaderLister { return header.NewWarningList() }})
}

// -------------------------------------------------- single-valued headers

// genDigits is a number from lo to hi in digits, at times with leading zeros.
func genDigits(t *rapid.T, name string, lo, hi int) string {
	s := strconv.Itoa(intr(t, name, lo, hi))
	if chance(t, name+"-zeros", 5) {
		s = pick(t, name+"-z", "0", "00", "0000") + s
	}
	return s
}

func atoi(s string) int {
	n, err := strconv.Atoi(s)
	if err != nil {
		panic(err)
	}
	return n
}

func genNum(t *rapid.T, name string) int {
	if chance(t, name+"-big", 3) {
		return pick(t, name+"-b", 1<<31-1, 1<<31-2, 1<<16, 1<<20)
	}
	return intr(t, name, 0, 9999)
}

func numKind(name, short string, min, max int, get func(header.Header) (int, bool), build func(int) (header.Header, error)) {
	addKind(&kind{name: name, short: short, prop: "C18",
		gen: func(t *rapid.T) elem {
			n := genNum(t, name)
			if n < min {
				n = min
			}
			if max > 0 && n > max {
				n = max - n%2
			}
			return elem{I: []int{n}}
		},
		text: func(w *wr, e elem) { w.num(e.I[0]) },
		check: func(g header.Header, e elem) error {
			n, ok := get(g)
			if !ok {
				return errf("a %T", g)
			}
			return firstErr(eq("value", n, e.I[0]), eq("body", g.EncodeBody(), strconv.Itoa(e.I[0])))
		},
		build: func(e elem) (header.Header, error) { return build(e.I[0]) }})
}

// genLine draws free text of a header value.
func genLine(t *rapid.T, name string) string {
	var b strings.Builder
	for n := intr(t, name+"-n", 1, 8); n > 0; n-- {
		b.WriteString(pick(t, name+"-w", "a", "Bc", "7", " ", ",", ";", "=", ":", "@", "/", "<", ">", `"`, "\xc3\xa9", "(", ")", "?", "%41", "  ", "*", `\`,
			" // ", "//", " -- ", "#", "&", "|", "[", "]", "{", "}", "'", "!", "$", "+", "^", "`", "~", ".", "-", "_", "\t", "\u20ac", "\x7f", "http://x/y", "=?utf-8?q?x?="))
	}
	if chance(t, name+"-long", 60) {
		b.WriteString(strings.Repeat(pick(t, name+"-lw", "abc ", "x", "a,b;c "), intr(t, name+"-ln", 20, 300)))
	}
	s := strings.TrimSpace(b.String())
	if s == "" {
		s = "t"
	}
	return s
}

func textKind(name, short string, gen func(t *rapid.T) string, get func(header.Header) (string, bool), build func(string) (header.Header, error)) {
	addKind(&kind{name: name, short: short, prop: "C18",
		gen:  func(t *rapid.T) elem { return elem{S: []string{gen(t)}} },
		text: func(w *wr, e elem) { w.t(e.S[0]) },
		check: func(g header.Header, e elem) error {
			s, ok := get(g)
			if !ok {
				return errf("a %T", g)
			}
			return firstErr(eq("value", s, e.S[0]), eq("body", g.EncodeBody(), e.S[0]))
		},
		build: func(e elem) (header.Header, error) { return build(e.S[0]) }})
}

const callIDWord = "-.!%*_+`'~()<>:\\/[]?{}\""

func genCallID(t *rapid.T) string {
	word := func(n string) string {
		var b strings.Builder
		for k := intr(t, n+"-n", 1, 8); k > 0; k-- {
			if chance(t, n+"-s", 5) {
				b.WriteByte(callIDWord[intr(t, n+"-i", 0, len(callIDWord)-1)])
			} else {
				b.WriteByte(alnum[intr(t, n+"-c", 0, len(alnum)-1)])
			}
		}
		return b.String()
	}
	s := word("cid")
	if rapid.Bool().Draw(t, "at") {
		s += "@" + word("cidh")
	}
	return s
}

// typeKind has a token and parameters.
func typeKind(name, short string, gen func(t *rapid.T) elem, check func(g header.Header, e elem) error, build func(e elem) (header.Header, error)) {
	addKind(&kind{name: name, short: short, prop: "C18", gen: gen,
		text: func(w *wr, e elem) { w.t(e.S[0]).params(e.P) }, check: check, build: build})
}

func genProducts(t *rapid.T) elem {
	// tokens separated by slashes, the library's unit; they may hold comments
	var e elem
	for n := intr(t, "products", 1, 4); n > 0; n-- {
		if len(e.S) > 0 && chance(t, "empty product", 8) {
			e.S = append(e.S, "")
			continue
		}
		s := genToken(t, "prod")
		if chance(t, "more", 3) {
			s += " " + genToken(t, "prod2")
		}
		if chance(t, "pcomment", 4) {
			s += " (" + genComment(t, "pc") + ")"
		}
		e.S = append(e.S, s)
	}
	return e
}

func init() {
	textKind("Call-ID", "i", genCallID, func(g header.Header) (string, bool) {
		h, ok := g.(*header.CallID)
		if !ok || h.GetCallIdentifer() == nil {
			return "", false
		}
		id := h.GetCallIdentifer()
		s := h.GetCallId()
		host := ""
		if i := strings.Index(s, "@"); i >= 0 {
			host = s[i+1:]
			return s, id.GetLocalId() == s[:i] && id.GetHost() == host && id.String() == s
		}
		return s, id.GetLocalId() == s && id.GetHost() == "" && id.String() == s
	}, func(s string) (header.Header, error) { return header.NewCallID(s) })
	// CSeq: methods are upper-case words (others are a known finding)
	addKind(&kind{name: "CSeq", prop: "C18",
		gen: func(t *rapid.T) elem {
			n := genNum(t, "cseq")
			if n > 1<<31-1 {
				n = 1<<31 - 1
			}
			return elem{I: []int{n}, S: []string{pick(t, "m", "INVITE", "ACK", "BYE", "CANCEL", "REGISTER", "OPTIONS", "PRACK", strings.ToUpper(genToken(t, "meth")))}}
		},
		text: func(w *wr, e elem) { w.num(e.I[0]).lws().t(e.S[0]) },
		check: func(g header.Header, e elem) error {
			h, ok := g.(*header.CSeq)
			if !ok {
				return errf("a %T", g)
			}
			return firstErr(eq("number", h.GetSequenceNumber(), e.I[0]), eq("method", h.GetMethod(), e.S[0]), eq("body", h.EncodeBody(), fmt.Sprintf("%d %s", e.I[0], e.S[0])))
		},
		build: func(e elem) (header.Header, error) {
			h := header.NewCSeq(0, "")
			return h, firstErr(h.SetMethod(e.S[0]), h.SetSequenceNumber(e.I[0]))
		}})
	typeKind("Content-Disposition", "", func(t *rapid.T) elem {
		e := elem{S: []string{pick(t, "d", "session", "render", "icon", genToken(t, "dt"))}}
		e.P = withParam(t, genParams(t, 2, "handling"), hparam{N: "handling", V: pick(t, "ha", "optional", "required", "x")})
		return e
	}, func(g header.Header, e elem) error {
		h, ok := g.(*header.ContentDisposition)
		if !ok {
			return errf("a %T", g)
		}
		return firstErr(eq("type", h.GetDispositionType(), e.S[0]), eq("handling", h.GetHandling(), hpVal(e.P, "handling")), checkParams(h, e.P))
	}, func(e elem) (header.Header, error) {
		h := header.NewContentDisposition()
		return h, firstErr(h.SetDispositionType(e.S[0]), setParams(h, h.SetQuotedParameter, e.P))
	})
	numKind("Content-Length", "l", 0, 0, func(g header.Header) (int, bool) {
		if h, ok := g.(*header.ContentLength); ok {
			return h.GetContentLength(), true
		}
		return 0, false
	}, func(n int) (header.Header, error) { h := header.NewContentLength(); return h, h.SetContentLength(n) })
	addKind(&kind{name: "Content-Type", short: "c", prop: "C18",
		gen: func(t *rapid.T) elem {
			e := elem{S: []string{pick(t, "type", "application", "text", "multipart", genToken(t, "ty")), pick(t, "sub", "sdp", "html", "mixed", genToken(t, "su"))}}
			e.P = withParam(t, genParams(t, 2, "charset"), hparam{N: "charset", V: pick(t, "cs", "UTF-8", "iso-8859-1")})
			return e
		},
		text: func(w *wr, e elem) { w.t(e.S[0]).sp().t("/").sp().t(e.S[1]).params(e.P) },
		check: func(g header.Header, e elem) error {
			h, ok := g.(*header.ContentType)
			if !ok {
				return errf("a %T", g)
			}
			mt := e.S[0] + "/" + e.S[1]
			return firstErr(eq("type", h.GetContentType(), e.S[0]), eq("subtype", h.GetContentSubType(), e.S[1]), eq("media type", h.GetMediaType(), e.S[0]), eq("media subtype", h.GetMediaSubType(), e.S[1]),
				eq("range", h.GetMediaRange().String(), mt), eq("matches itself", h.CompareMediaRange(strings.ToUpper(mt)), true), eq("matches another", h.CompareMediaRange(mt+"x"), false),
				eq("charset", h.GetCharSet(), hpVal(e.P, "charset")), checkParams(h, e.P))
		},
		build: func(e elem) (header.Header, error) {
			h := header.NewContentType()
			return h, firstErr(h.SetContentType(e.S[0]), h.SetContentSubType(e.S[1]), setParams(h, h.SetQuotedParameter, e.P))
		}})
	addKind(&kind{name: "Date", prop: "C18",
		gen: func(t *rapid.T) elem {
			return elem{I: []int{intr(t, "unix", 0, 1<<33)}}
		},
		text: func(w *wr, e elem) {
			w.t(time.Unix(int64(e.I[0]), 0).UTC().Format("Mon, 02 Jan 2006 15:04:05 ") + "GMT")
		},
		check: func(g header.Header, e elem) error {
			h, ok := g.(*header.Date)
			if !ok || h.GetDate() == nil {
				return errf("a %T", g)
			}
			return firstErr(eq("time", h.GetDate().Unix(), int64(e.I[0])), eq("body", h.EncodeBody(), time.Unix(int64(e.I[0]), 0).UTC().Format("Mon, 02 Jan 2006 15:04:05 ")+"GMT"))
		},
		build: func(e elem) (header.Header, error) {
			h := header.NewDate()
			d := time.Unix(int64(e.I[0]), 0).In(time.FixedZone("X", 3*3600))
			h.SetDate(&d)
			return h, nil
		}})
	typeKind("Event", "o", func(t *rapid.T) elem {
		e := elem{S: []string{pick(t, "ev", "presence", "refer", "a.b.c", genToken(t, "evt"))}}
		e.P = withParam(t, genParams(t, 2, "id"), hparam{N: "id", V: genToken(t, "id")})
		return e
	}, func(g header.Header, e elem) error {
		h, ok := g.(*header.Event)
		if !ok {
			return errf("a %T", g)
		}
		return firstErr(eq("type", h.GetEventType(), e.S[0]), eq("id", h.GetEventId(), hpVal(e.P, "id")), checkParams(h, e.P))
	}, func(e elem) (header.Header, error) {
		h := header.NewEvent()
		return h, firstErr(h.SetEventType(e.S[0]), setParams(h, h.SetQuotedParameter, e.P))
	})
	numKind("Expires", "", 0, 0, func(g header.Header) (int, bool) {
		if h, ok := g.(*header.Expires); ok {
			return h.GetExpires(), true
		}
		return 0, false
	}, func(n int) (header.Header, error) { h := header.NewExpires(); return h, h.SetExpires(n) })
	numKind("Max-Forwards", "", 0, 255, func(g header.Header) (int, bool) {
		if h, ok := g.(*header.MaxForwards); ok {
			return h.GetMaxForwards(), h.HasReachedZero() == (h.GetMaxForwards() == 0)
		}
		return 0, false
	}, func(n int) (header.Header, error) { h := header.NewMaxForwards(); return h, h.SetMaxForwards(n) })
	addKind(&kind{name: "MIME-Version", prop: "C18",
		gen:  func(t *rapid.T) elem { return elem{I: []int{intr(t, "major", 0, 20), intr(t, "minor", 0, 20)}} },
		text: func(w *wr, e elem) { w.num(e.I[0]).t(".").num(e.I[1]) },
		check: func(g header.Header, e elem) error {
			h, ok := g.(*header.MimeVersion)
			if !ok {
				return errf("a %T", g)
			}
			return firstErr(eq("major", h.GetMajorVersion(), e.I[0]), eq("minor", h.GetMinorVersion(), e.I[1]), eq("body", h.EncodeBody(), fmt.Sprintf("%d.%d", e.I[0], e.I[1])))
		},
		build: func(e elem) (header.Header, error) {
			h := header.NewMimeVersion()
			return h, firstErr(h.SetMajorVersion(e.I[0]), h.SetMinorVersion(e.I[1]))
		}})
	numKind("Min-Expires", "", 0, 0, func(g header.Header) (int, bool) {
		if h, ok := g.(*header.MinExpires); ok {
			return h.GetExpires(), true
		}
		return 0, false
	}, func(n int) (header.Header, error) { h := header.NewMinExpires(); return h, h.SetExpires(n) })
	textKind("Organization", "", func(t *rapid.T) string { return genLine(t, "org") }, func(g header.Header) (string, bool) {
		if h, ok := g.(*header.Organization); ok {
			return h.GetOrganization(), true
		}
		return "", false
	}, func(s string) (header.Header, error) { h := header.NewOrganization(); return h, h.SetOrganization(s) })
	textKind("Priority", "", func(t *rapid.T) string {
		return pick(t, "prio", "emergency", "urgent", "normal", "non-urgent", genToken(t, "pt"))
	}, func(g header.Header) (string, bool) {
		if h, ok := g.(*header.Priority); ok {
			return h.GetPriority(), true
		}
		return "", false
	}, func(s string) (header.Header, error) { h := header.NewPriority(); return h, h.SetPriority(s) })
	addKind(&kind{name: "RAck", prop: "C18",
		gen: func(t *rapid.T) elem {
			e := elem{I: []int{1 + genNum(t, "rseq")%(1<<31-1), genNum(t, "cseq") % (1 << 31)}, S: []string{pick(t, "m", "INVITE", "foo", genToken(t, "meth"))}}
			return e
		},
		text: func(w *wr, e elem) { w.num(e.I[0]).lws().num(e.I[1]).lws().t(e.S[0]) },
		check: func(g header.Header, e elem) error {
			h, ok := g.(*header.RAck)
			if !ok {
				return errf("a %T", g)
			}
			return firstErr(eq("rseq", h.GetRSeqNumber(), e.I[0]), eq("cseq", h.GetCSeqNumber(), e.I[1]), eq("method", h.GetMethod(), e.S[0]), eq("body", h.EncodeBody(), fmt.Sprintf("%d %d %s", e.I[0], e.I[1], e.S[0])))
		},
		build: func(e elem) (header.Header, error) {
			h := header.NewRAck()
			return h, firstErr(h.SetRSeqNumber(e.I[0]), h.SetCSeqNumber(e.I[1]), h.SetMethod(e.S[0]))
		}})
	numKind("RSeq", "", 1, 1<<31-1, func(g header.Header) (int, bool) {
		if h, ok := g.(*header.RSeq); ok {
			return h.GetSequenceNumber(), true
		}
		return 0, false
	}, func(n int) (header.Header, error) { h := header.NewRSeq(); return h, h.SetSequenceNumber(n) })
	// Retry-After: I seconds; S comment
	addKind(&kind{name: "Retry-After", prop: "C18",
		gen: func(t *rapid.T) elem {
			e := elem{I: []int{genNum(t, "ra")}, S: []string{""}}
			if chance(t, "comment", 3) {
				e.S[0] = genComment(t, "rc")
			}
			e.P = withParam(t, genParams(t, 2, "duration"), hparam{N: "duration", V: strconv.Itoa(genNum(t, "dur"))})
			return e
		},
		text: func(w *wr, e elem) {
			w.num(e.I[0])
			if e.S[0] != "" {
				w.sp().t("(", e.S[0], ")")
			}
			w.params(e.P)
		},
		check: func(g header.Header, e elem) error {
			h, ok := g.(*header.RetryAfter)
			if !ok {
				return errf("a %T", g)
			}
			if err := firstErr(eq("seconds", h.GetRetryAfter(), e.I[0]), eq("comment", h.GetComment(), e.S[0]), eq("has comment", h.HasComment(), e.S[0] != ""), checkParams(h, e.P)); err != nil {
				return err
			}
			if v := hpVal(e.P, "duration"); v != "" {
				return eq("duration", strconv.Itoa(h.GetDuration()), v)
			}
			return nil
		},
		build: func(e elem) (header.Header, error) {
			h := header.NewRetryAfter()
			if err := h.SetRetryAfter(e.I[0]); err != nil {
				return nil, err
			}
			if e.S[0] != "" {
				if err := h.SetComment(e.S[0]); err != nil {
					return nil, err
				}
			}
			return h, setParams(h, h.SetQuotedParameter, e.P)
		}})
	for _, n := range []string{"Server", "User-Agent"} {
		n := n
		addKind(&kind{name: n, prop: "C18", gen: genProducts,
			text: func(w *wr, e elem) { w.t(strings.Join(e.S, "/")) },
			check: func(g header.Header, e elem) error {
				h, ok := g.(interface {
					GetProduct() *list.List
					EncodeProduct() string
				})
				if !ok || h.GetProduct() == nil {
					return errf("a %T", g)
				}
				return firstErr(eqStrings("products", listStrings(h.GetProduct()), e.S), eq("body", g.EncodeBody(), strings.Join(e.S, "/")), eq("product", h.EncodeProduct(), strings.Join(e.S, "/")))
			},
			build: func(e elem) (header.Header, error) {
				l := list.New()
				l.PushBack(e.S[0])
				if n == "Server" {
					h := header.NewServer()
					err := h.SetProduct(l)
					for _, s := range e.S[1:] {
						h.AddProductToken(s)
					}
					return h, err
				}
				h := header.NewUserAgent()
				err := h.SetProduct(l)
				for _, s := range e.S[1:] {
					h.AddProductToken(s)
				}
				return h, err
			}})
	}
	textKind("Subject", "s", func(t *rapid.T) string { return genLine(t, "subj") }, func(g header.Header) (string, bool) {
		if h, ok := g.(*header.Subject); ok {
			return h.GetSubject(), true
		}
		return "", false
	}, func(s string) (header.Header, error) { h := header.NewSubject(); return h, h.SetSubject(s) })
	// Subscription-State: S state, reason; I retry-after, expires (-1 absent)
	addKind(&kind{name: "Subscription-State", prop: "C18",
		gen: func(t *rapid.T) elem {
			e := elem{S: []string{pick(t, "st", "active", "pending", "terminated", genToken(t, "stt")), ""}, I: []int{-1, -1}, P: genParams(t, 2, "reason", "retry-after", "expires")}
			if rapid.Bool().Draw(t, "reason") {
				e.S[1] = pick(t, "rc", "deactivated", "probation", "rejected", "timeout", "giveup", "noresource", genToken(t, "rct"))
			}
			for i := range e.I {
				if rapid.Bool().Draw(t, "sec") {
					e.I[i] = genNum(t, "secs")
				}
			}
			return e
		},
		text: func(w *wr, e elem) {
			ps := append([]hparam{}, e.P...)
			add := func(n, v string, i int) {
				if v != "" && v != "-1" {
					if i >= 0 && n != "reason" {
						v = w.zeros() + v
					}
					i %= len(ps) + 1
					ps = append(ps[:i:i], append([]hparam{{N: n, V: v}}, ps[i:]...)...)
				}
			}
			add("reason", e.S[1], len(e.S[1]))
			add("retry-after", strconv.Itoa(e.I[0]), e.I[0]&3)
			add("expires", strconv.Itoa(e.I[1]), e.I[1]&3)
			w.t(e.S[0]).params(ps)
		},
		check: func(g header.Header, e elem) error {
			h, ok := g.(*header.SubscriptionState)
			if !ok {
				return errf("a %T", g)
			}
			return firstErr(eq("state", h.GetState(), e.S[0]), eq("reason", h.GetReasonCode(), e.S[1]), eq("retry-after", h.GetRetryAfter(), e.I[0]), eq("expires", h.GetExpires(), e.I[1]), checkParams(h, e.P))
		},
		build: func(e elem) (header.Header, error) {
			h := header.NewSubscriptionState()
			err := h.SetState(e.S[0])
			if e.S[1] != "" {
				err = firstErr(err, h.SetReasonCode(e.S[1]))
			}
			if e.I[0] >= 0 {
				err = firstErr(err, h.SetRetryAfter(e.I[0]))
			}
			if e.I[1] >= 0 {
				err = firstErr(err, h.SetExpires(e.I[1]))
			}
			return h, firstErr(err, setParams(h, h.SetQuotedParameter, e.P))
		}})
	// Timestamp: at most six significant digits (the accessors are float32)
	addKind(&kind{name: "Timestamp", prop: "C18",
		gen: func(t *rapid.T) elem {
			num := func(n string) string {
				if chance(t, n+"-extreme", 15) { // such that a float32 holds them
					return pick(t, n, extremeTimes...)
				}
				s := strconv.Itoa(intr(t, n, 0, 9999))
				if rapid.Bool().Draw(t, n+"-frac") {
					s += "." + pick(t, n+"-f", "5", "25", "01", "9", "00", "")
				}
				return s
			}
			e := elem{S: []string{num("ts"), ""}}
			if rapid.Bool().Draw(t, "delay") {
				e.S[1] = num("delay")
			}
			return e
		},
		text: func(w *wr, e elem) {
			w.t(e.S[0])
			if e.S[1] != "" {
				w.lws().t(e.S[1])
			}
		},
		check: func(g header.Header, e elem) error {
			h, ok := g.(*header.TimeStamp)
			if !ok {
				return errf("a %T", g)
			}
			f := func(s string) float32 { v, _ := strconv.ParseFloat(s, 32); return float32(v) }
			if err := firstErr(eq("timestamp", h.GetTimeStamp(), f(e.S[0])), eq("has delay", h.HasDelay(), e.S[1] != "")); err != nil {
				return err
			}
			if e.S[1] != "" {
				return eq("delay", h.GetDelay(), f(e.S[1]))
			}
			return nil
		},
		build: func(e elem) (header.Header, error) {
			h := header.NewTimeStamp()
			f := func(s string) float32 { v, _ := strconv.ParseFloat(s, 32); return float32(v) }
			err := h.SetTimeStamp(f(e.S[0]))
			if e.S[1] != "" {
				err = firstErr(err, h.SetDelay(f(e.S[1])))
			}
			return h, err
		}})
	// Extension: S name, value
	addKind(&kind{name: "Extension", prop: "C18",
		gen: func(t *rapid.T) elem {
			return elem{S: []string{pick(t, "xn", "X-Foo", "P-Asserted-Identity", "x", "Path", "X-"+genWord(t, "xw")), genLine(t, "xv")}}
		},
		text: func(w *wr, e elem) { w.t(e.S[1]) },
		check: func(g header.Header, e elem) error {
			return firstErr(eq("value", g.GetValue(), e.S[1]), eq("body", g.EncodeBody(), e.S[1]))
		},
		build: func(e elem) (header.Header, error) {
			h := header.NewExtension(e.S[0])
			h.SetValue(e.S[1])
			return h, nil
		}})
}

// ------------------------------------------------------------ the checks

// kindsOf lists the kinds of a property.
func kindsOf(prop string) (l []string) {
	for _, n := range kindNames {
		if kinds[n].prop == prop {
			l = append(l, n)
		}
	}
	return
}

func (h hdrM) parts() int {
	n := len(h.Elems) - 1
	for _, e := range h.Elems {
		n += len(e.P)
		if e.A != nil && e.A.name() != "" {
			n++
		}
		for _, s := range e.S {
			if s != "" {
				n++
			}
		}
		n += len(e.I)
	}
	return n
}

func init() {
	for _, prop := range []string{"C14", "C15", "C16", "C17", "C18"} {
		names := kindsOf(prop)
		fw.Add(prop, "parse", "the text of a header of "+strings.Join(names, ", ")+" built from a model of its parts, with its long or short name and optional white space around separators: parsed, every accessor compared with the model, encoded, parsed and compared again; non-trivial: at least two parts, elements or parameters", 12000, 400000,
			func(t *rapid.T) hdrM {
				h := genHdr(t, pick(t, "kind", names...), 4)
				if h.kind().short != "" && chance(t, "short", 4) {
					h.Name = h.kind().short
				}
				return h
			}, func(x *fw.Ctx, h hdrM) error {
				x.Class(h.Kind)
				if h.parts() >= 2 {
					x.NonTrivial()
				}
				g, err := parseHdr(h.text())
				if err != nil {
					return err
				}
				if err := roundTrip(g, h); err != nil {
					return errf("%q: %v", h.text(), err)
				}
				return nil
			})
		fw.Add(prop, "build", "a header of "+strings.Join(names, ", ")+" assembled from the model's parts with setters: every accessor compared, encoded, parsed and compared again; non-trivial: at least two parts, elements or parameters", 8000, 250000,
			func(t *rapid.T) hdrM { return genHdr(t, pick(t, "kind", names...), 4).plain() },
			func(x *fw.Ctx, h hdrM) error {
				x.Class(h.Kind)
				if h.parts() >= 2 {
					x.NonTrivial()
				}
				g, err := buildHdr(h)
				if err != nil {
					return err
				}
				return roundTrip(g, h)
			})
	}
}

// buildHdr assembles the header through its setters.
func buildHdr(h hdrM) (header.Header, error) {
	k := h.kind()
	if !k.list {
		return k.build(h.Elems[0])
	}
	l := k.newList()
	for _, e := range h.Elems {
		x, err := k.build(e)
		if err != nil {
			return nil, err
		}
		l.PushBack(x)
	}
	return l, nil
}
