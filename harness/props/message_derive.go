package props

import (
	"strings"

	"github.com/use-go/gosips/sip/address"
	"github.com/use-go/gosips/sip/header"
	"github.com/use-go/gosips/sip/message"
	"pgregory.net/rapid"

	"verif/harness/fw"
)

// ------------------------------------------------------------------- C10

// phraseWords has a word of each defined reason phrase, in lower case.
var phraseWords = map[int]string{100: "trying", 180: "ringing", 181: "forwarded", 182: "queued", 183: "progress", 200: "ok", 202: "accepted", 300: "multiple", 301: "permanently", 302: "temporarily", 305: "proxy", 380: "alternative",
	400: "bad request", 401: "unauthorized", 402: "payment", 403: "forbidden", 404: "not found", 405: "method not", 406: "not acceptable", 407: "proxy authentication", 408: "timeout", 410: "gone", 413: "entity too large", 414: "uri too l", 415: "media type", 416: "uri scheme", 420: "bad extension", 421: "required", 423: "brief",
	480: "unavailable", 481: "does not exist", 482: "loop", 483: "too many hops", 484: "incomplete", 485: "ambiguous", 486: "busy here", 487: "terminated", 488: "here", 489: "bad event", 491: "pending", 493: "undecipherable",
	500: "internal error", 501: "not implemented", 502: "bad gateway", 503: "service unavailable", 504: "timeout", 505: "version not supported", 513: "message too large", 600: "busy everywhere", 603: "decline", 604: "anywhere", 606: "not acceptable"}

var phraseCodes []int

func init() {
	for c := 100; c < 700; c++ {
		if phraseWords[c] != "" {
			phraseCodes = append(phraseCodes, c)
		}
	}
}

type deriveCase struct {
	M      msgM
	Built  bool
	How    string
	Code   int
	Reason string
	To     *hdrM `json:",omitempty"` // the To header of a response to it
	Method string
	URI    *uriM `json:",omitempty"`
	Switch bool
}

// source is the request to derive from.
func (c deriveCase) source() (*message.SIPRequest, error) {
	var g sipMsg
	var err error
	if c.Built {
		g, err = buildMsg(c.M)
	} else {
		g, err = parseMsg(c.M.text())
	}
	if err != nil {
		return nil, err
	}
	return g.(*message.SIPRequest), nil
}

func genRequest(t *rapid.T, extra, elems int) msgM {
	u := genURI(t, true)
	m := msgM{Req: true, Method: "INVITE", URI: &u, CL: -1}
	if chance(t, "other method", 4) {
		m.Method = genMethod(t)
	}
	m.Hdrs = genHdrs(t, true, m.Method, extra, elems)
	for i := range m.Hdrs {
		m.Hdrs[i] = m.Hdrs[i].plain()
		m.Hdrs[i].Name = ""
	}
	// what matters for derived messages
	for _, k := range []string{"Route", "Record-Route", "Timestamp", "Content-Type", "Require", "Via", "Contact", "Proxy-Require", "Proxy-Authorization"} {
		h := hdrM{Kind: k}
		if (m.find(k) == nil || h.multi() && k == "Via") && chance(t, "with "+k, 3) {
			h := genHdr(t, k, 2).plain()
			h.Name = ""
			m.Hdrs = append(m.Hdrs, h)
		}
	}
	m.Body = genBody(t)
	return m
}

// only picks the groups of the kinds named, in their order.
func (m msgM) only(kinds ...string) (hs []hdrM) {
	for _, gr := range m.groups() {
		for _, k := range kinds {
			if gr.h.Kind == k {
				hs = append(hs, gr.h.plainName())
			}
		}
	}
	return
}

// checkDerived compares a derived message with the model of what it must be;
// may lists headers that may be there too.
func checkDerived(g sipMsg, want msgM, may ...string) error {
	if err := checkStart(g, want); err != nil {
		return err
	}
	ok := map[string]bool{"content-length": true}
	for _, n := range may {
		ok[strings.ToLower(n)] = true
	}
	for _, gr := range want.groups() {
		ok[gr.name] = true
		if err := checkGroup(g, gr); err != nil {
			return err
		}
	}
	for _, n := range listStrings(g.GetHeaderNames()) {
		if !ok[strings.ToLower(n)] {
			return errf("a header %s", n)
		}
	}
	if err := firstErr(checkTyped(g), eq("content", g.GetContent(), ""), eq("validates", g.CheckHeaders(), nil)); err != nil {
		return err
	}
	if cl := g.GetContentLength(); cl != nil && cl.GetContentLength() != 0 {
		return errf("Content-Length %d without a body", cl.GetContentLength())
	}
	s := g.String()
	g2, err := parseMsg(s)
	if err != nil {
		return err
	}
	if err := checkStart(g2, want); err != nil {
		return errf("parsed back: %v", err)
	}
	for _, gr := range want.groups() {
		if err := checkGroup(g2, gr); err != nil {
			return errf("parsed back: %v", err)
		}
	}
	return firstErr(eq("content parsed back", g2.GetContent(), ""), eq("parsed back validates", g2.CheckHeaders(), nil),
		eq("second encoding", strings.ToLower(flagForms.Replace(g2.String())), strings.ToLower(flagForms.Replace(s))))
}

func classDerive(x *fw.Ctx, c deriveCase) {
	x.Class(c.How)
	x.Class(pick2(c.Built, "from an assembled request", "from a parsed request"))
	if v := c.M.only("Via"); len(v) > 0 && len(v[0].Elems) > 1 {
		x.NonTrivial()
		x.Class("several Vias")
	}
	for _, k := range []string{"Route", "Record-Route", "Timestamp"} {
		if c.M.find(k) != nil {
			x.NonTrivial()
			x.Class("with " + k)
		}
	}
}

func init() {
	fw.Add("C10", "response", "a request, parsed or assembled, and a status code with or without reason: the response compared with a model made of the request's Via, From, To, Call-ID, CSeq, Record-Route and Timestamp, encoded and parsed back; the request's encoding unchanged; non-trivial: several Vias, Record-Route or Timestamp", 3000, 120000,
		func(t *rapid.T) deriveCase {
			c := deriveCase{M: genRequest(t, 4, 3), Built: rapid.Bool().Draw(t, "built"), How: pick(t, "how", "CreateResponse", "CreateResponse2", "CreateResponse2 without reason")}
			if rapid.Bool().Draw(t, "defined") {
				c.Code = pick(t, "code", phraseCodes...)
			} else {
				c.Code = intr(t, "anycode", 100, 699)
			}
			if c.How == "CreateResponse2" {
				c.Reason = pick(t, "reason", "OK", genLine(t, "reasontext"))
			}
			return c
		}, func(x *fw.Ctx, c deriveCase) error {
			classDerive(x, c)
			g, err := c.source()
			if err != nil {
				return err
			}
			before := g.String()
			var r *message.SIPResponse
			want := msgM{Code: c.Code, Reason: c.Reason, Hdrs: c.M.only("Via", "From", "To", "Call-ID", "CSeq", "Record-Route", "Timestamp")}
			if c.How == "CreateResponse" {
				r = g.CreateResponse(c.Code)
			} else {
				r = g.CreateResponse2(c.Code, c.Reason)
			}
			if r == nil {
				return errf("no response")
			}
			if c.Reason == "" {
				want.Reason = r.GetReasonPhrase()
				if w := phraseWords[c.Code]; !strings.Contains(strings.ToLower(want.Reason), w) {
					return errf("reason phrase %q for %d", want.Reason, c.Code)
				}
				if err := eq("default reason phrase", want.Reason, message.NewSIPResponse().GetReasonPhraseFromInt(c.Code)); err != nil {
					return err
				}
			}
			if err := checkDerived(r, want, "Max-Forwards"); err != nil {
				return err
			}
			return eq("the request afterwards", g.String(), before)
		})
	fw.Add("C11", "requests", "a request, parsed or assembled, from which CANCEL, ACK (with and without the To of a response), BYE and other requests are derived: compared with a model made of the request's parts, encoded, validated and parsed back; the request's encoding unchanged; non-trivial: several Vias, Route, Record-Route or Timestamp", 3000, 120000,
		func(t *rapid.T) deriveCase {
			c := deriveCase{M: genRequest(t, 4, 3), Built: rapid.Bool().Draw(t, "built"), Switch: rapid.Bool().Draw(t, "switch"), How: pick(t, "how", "CANCEL", "ACK", "ACK with To", "ACK of a transaction", "BYE", "other")}
			switch c.How {
			case "ACK with To":
				h := genHdr(t, "To", 1).plain()
				h.Name = ""
				c.To = &h
			case "other":
				c.Method = genMethod(t)
				u := genURI(t, true)
				c.URI = &u
			}
			return c
		}, func(x *fw.Ctx, c deriveCase) error {
			classDerive(x, c)
			g, err := c.source()
			if err != nil {
				return err
			}
			before := g.String()
			if err := checkDerivedRequest(g, c); err != nil {
				return err
			}
			return eq("the request afterwards", g.String(), before)
		})
}

func checkDerivedRequest(g *message.SIPRequest, c deriveCase) error {
	want := msgM{Req: true, URI: c.M.URI}
	top := c.M.only("Via")[0]
	top.Elems = top.Elems[:1]
	cseq := c.M.only("CSeq")[0]
	method := func(m string) {
		want.Method = m
		e := cseq.Elems[0]
		e.S = append([]string{}, e.S...)
		e.S[0] = m
		cseq.Elems = []elem{e}
	}
	switch c.How {
	case "CANCEL":
		method("CANCEL")
		r := g.CreateCancelRequest()
		want.Hdrs = append(c.M.only("From", "To", "Call-ID", "Max-Forwards", "Route"), top, cseq)
		var may []string
		for _, h := range c.M.Hdrs { // any other header is copied but these
			if h.Kind != "Require" && h.Kind != "Proxy-Require" && h.Kind != "Content-Type" {
				may = append(may, h.canonName())
			}
		}
		if err := checkDerived(r, want, may...); err != nil {
			return err
		}
		return sameTransaction(r, g)
	case "ACK", "ACK with To":
		method("ACK")
		var to *header.To
		want.Hdrs = append(c.M.only("From", "Call-ID", "Max-Forwards"), top, cseq)
		if c.To != nil {
			h, err := buildAs(*c.To, false)
			if err != nil {
				return err
			}
			to = h.(*header.To)
			want.Hdrs = append(want.Hdrs, *c.To)
		} else {
			want.Hdrs = append(want.Hdrs, c.M.only("To")...)
		}
		r := g.CreateAckRequest(to)
		var may []string
		for _, h := range c.M.Hdrs {
			if h.Kind != "Content-Type" {
				may = append(may, h.canonName())
			}
		}
		if err := checkDerived(r, want, may...); err != nil {
			return err
		}
		return sameTransaction(r, g)
	}
	var r *message.SIPRequest
	switch c.How {
	case "BYE":
		method("BYE")
		r = g.CreateBYERequest(c.Switch)
	case "ACK of a transaction":
		c.Switch = false
		method("ACK")
		r = g.CreateACKRequest()
	default:
		method(c.Method)
		want.URI = c.URI
		u, err := c.URI.build()
		if err != nil {
			return err
		}
		l := header.NewRequestLine()
		l.SetMethod(c.Method)
		l.SetUri(u)
		r = g.CreateSIPRequest(l, c.Switch)
	}
	if r == nil {
		return errf("no request")
	}
	// whether tags and the branch are taken over is the caller's business
	from, to, via := c.M.only("From")[0], c.M.only("To")[0], top
	if c.Switch {
		from, to = to, from
		from.Kind, to.Kind = "From", "To"
	}
	from, to, via = from.without("tag"), to.without("tag"), via.without("branch")
	r.GetFrom().(*header.From).RemoveTag()
	r.GetTo().(*header.To).RemoveTag()
	vl := r.GetViaHeaders()
	if vl == nil || vl.Len() != 1 {
		return errf("Via headers %v", vl)
	}
	r.GetTopmostVia().RemoveParameter("branch")
	want.Hdrs = append(c.M.only("Call-ID", "Max-Forwards"), from, to, via, cseq)
	return checkDerived(r, want)
}

type fromResponseCase struct {
	M      msgM
	Built  bool
	Method string
	URI    uriM
	Via    elem
	Branch string // of the response's topmost Via, none if empty
	Seq    int
}

// responseKinds are the headers that a response only has.
var responseKinds = map[string]bool{"Error-Info": true, "Proxy-Authenticate": true, "Server": true, "Unsupported": true, "Retry-After": true, "Warning": true, "WWW-Authenticate": true}

func genFromResponse(t *rapid.T) fromResponseCase {
	c := fromResponseCase{M: msgM{Code: intr(t, "code", 100, 699), Reason: pick(t, "reason", "OK", "Busy here"), CL: -1}, Built: rapid.Bool().Draw(t, "built")}
	c.Method = pick(t, "method", "ACK", "ACK", "CANCEL", "BYE", "PRACK", genMethod(t))
	c.M.Hdrs = genHdrs(t, false, "INVITE", 8, 2)
	for i := range c.M.Hdrs {
		c.M.Hdrs[i] = c.M.Hdrs[i].plain()
		c.M.Hdrs[i].Name = ""
	}
	for _, k := range []string{"Record-Route", "Content-Type", "Server", "Via", "Contact", "Warning", "Max-Forwards", "Route", "Extension"} {
		h := hdrM{Kind: k}
		if (c.M.find(k) == nil || h.multi() && k == "Via") && chance(t, "with "+k, 3) {
			h := genHdr(t, k, 2).plain()
			h.Name = ""
			c.M.Hdrs = append(c.M.Hdrs, h)
		}
	}
	c.M.Body = genBody(t)
	c.URI = uriM{Kind: "sip", Sip: genSip(t)}
	via := genHdr(t, "Via", 1).plain()
	c.Via = via.Elems[0]
	if chance(t, "branch", 2) {
		c.Branch = pick(t, "cookie", "z9hG4bK", "b") + genToken(t, "branchtext")
	}
	c.M = c.M.withParam("Via", "branch", c.Branch)
	c.Seq = intr(t, "seq", 0, 1<<30)
	return c
}

func runFromResponse(x *fw.Ctx, c fromResponseCase) error {
	x.Class(pick2(c.Built, "from an assembled response", "from a parsed response"))
	x.Class(pick2(c.Method == "ACK" || c.Method == "CANCEL", c.Method, "another method"))
	var g sipMsg
	var err error
	if c.Built {
		g, err = buildMsg(c.M)
	} else {
		g, err = parseMsg(c.M.text())
	}
	if err != nil {
		return err
	}
	before := g.String()
	u, err := c.URI.build()
	if err != nil {
		return err
	}
	viaH := hdrM{Kind: "Via", Elems: []elem{c.Via}}
	v, err := buildAs(viaH, false)
	if err != nil {
		return err
	}
	cseqH := hdrM{Kind: "CSeq", Elems: []elem{{S: []string{c.Method}, I: []int{c.Seq}}}}
	cs, err := buildAs(cseqH, false)
	if err != nil {
		return err
	}
	r := g.(*message.SIPResponse).CreateRequest(u.(address.SipURI), v.(*header.Via), cs.(*header.CSeq))
	if r == nil {
		return errf("no request")
	}
	want := msgM{Req: true, Method: c.Method, URI: &c.URI}
	if (c.Method == "ACK" || c.Method == "CANCEL") && c.Branch != "" { // they belong to the transaction
		viaH = msgM{Hdrs: []hdrM{viaH}}.withParam("Via", "branch", c.Branch).Hdrs[0]
		if err := eq("branch", r.GetTopmostVia().GetBranch(), c.Branch); err != nil {
			return err
		}
		x.Class("with the branch of the response")
	}
	want.Hdrs = []hdrM{viaH, cseqH}
	var may []string
	for _, h := range c.M.Hdrs {
		switch {
		case responseKinds[h.Kind]:
			x.NonTrivial()
			x.Class("with headers of responses only")
		case h.Kind == "Record-Route", h.Kind == "Content-Type", h.Kind == "Via":
			x.NonTrivial()
		case h.Kind == "CSeq":
		case strings.HasPrefix(h.Kind, "Content-"):
			may = append(may, h.canonName())
		default:
			want.Hdrs = append(want.Hdrs, h)
		}
	}
	if r.GetMaxForwards() == nil { // for a response need not have one
		mf := header.NewMaxForwards()
		mf.SetMaxForwards(70)
		r.SetMaxForwards(mf)
		want.Hdrs = append(want.Hdrs, hdrM{Kind: "Max-Forwards", Elems: []elem{{I: []int{70}}}})
	}
	if err := checkDerived(r, want, may...); err != nil {
		return err
	}
	// nothing is shared with the response
	r.SetMethod("OTHER")
	if f, ok := r.GetFrom().(*header.From); ok {
		f.SetTag("changed")
		f.GetAddress().SetDisplayName("Changed")
	}
	r.GetTo().(*header.To).RemoveParameter("tag")
	r.GetTo().(*header.To).SetParameter("changed", "1")
	r.GetCallId().SetCallId("changed@host")
	r.RemoveHeader("Contact")
	return eq("the response afterwards", g.String(), before)
}

func init() {
	fw.Add("C11", "from-response", "a response, parsed or assembled, from which a request with a given URI, Via and CSeq is made: compared with a model made of these and of the response's headers but those of responses only, Record-Route, Content-Length and Content-Type, ACK and CANCEL with the response's branch; encoded, validated and parsed back; changes of it do not change the response's encoding; non-trivial: the response has headers that must not be copied", 2000, 80000, genFromResponse, runFromResponse)
}

func (h hdrM) without(param string) hdrM {
	h.Elems = append([]elem{}, h.Elems...)
	var ps []hparam
	for _, p := range h.Elems[0].P {
		if !strings.EqualFold(p.N, param) {
			ps = append(ps, p)
		}
	}
	h.Elems[0].P = ps
	return h
}

// sameTransaction compares the identifiers of requests with the same branch.
func sameTransaction(r, g *message.SIPRequest) error {
	if v := g.GetTopmostVia(); v != nil && strings.HasPrefix(v.GetBranch(), "z9hG4bK") {
		return eq("transaction identifier", r.GetTransactionId(), g.GetTransactionId())
	}
	return nil
}
