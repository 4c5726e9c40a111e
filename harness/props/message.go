package props

import (
	"container/list"
	"strconv"
	"strings"

	"github.com/use-go/gosips/sip/address"
	"github.com/use-go/gosips/sip/header"
	"github.com/use-go/gosips/sip/message"
	"github.com/use-go/gosips/sip/parser"
	"pgregory.net/rapid"

	"verif/harness/fw"
)

// ----------------------------------------------------------- message model

// msgM is a well-formed message.  Hdrs are its lines in order, without
// Content-Length; a list header may have several lines.
type msgM struct {
	Req    bool
	Method string `json:",omitempty"`
	URI    *uriM  `json:",omitempty"`
	Code   int    `json:",omitempty"`
	Reason string `json:",omitempty"`
	Hdrs   []hdrM
	CL     int  // before which line Content-Length stands, -1 for none
	Body   fw.S `json:",omitempty"`
	Extra  fw.S `json:",omitempty"` // what follows the body Content-Length frames
}

// multi tells whether a message may have several elements of the kind.
func (h hdrM) multi() bool { return h.kind().list || h.perLine() }

// perLine tells whether each element is encoded on a line of its own.
func (h hdrM) perLine() bool {
	switch h.Kind {
	case "WWW-Authenticate", "Proxy-Authenticate", "Authorization", "Proxy-Authorization", "Extension":
		return true
	}
	return false
}

// firstLine is the start line without its end.
func (m msgM) firstLine() string {
	if m.Req {
		return m.Method + " " + m.URI.text() + " SIP/2.0"
	}
	return "SIP/2.0 " + strconv.Itoa(m.Code) + " " + m.Reason
}

// lines are the start line and the header lines.
func (m msgM) lines() []string {
	l := []string{m.firstLine()}
	for i, h := range m.Hdrs {
		if i == m.CL {
			l = append(l, "Content-Length: "+strconv.Itoa(len(m.Body)))
		}
		l = append(l, h.text())
	}
	if m.CL >= len(m.Hdrs) {
		l = append(l, "l:"+strconv.Itoa(len(m.Body)))
	}
	return l
}

func (m msgM) text() string {
	return strings.Join(m.lines(), "\r\n") + "\r\n\r\n" + string(m.Body) + string(m.Extra)
}

// group is all there is of one header name in a message.
type group struct {
	name  string // lower case
	h     hdrM   // Elems holds all elements
	lines int
}

func (m msgM) groups() (l []*group) {
	by := map[string]*group{}
	for _, h := range m.Hdrs {
		n := strings.ToLower(h.canonName())
		g := by[n]
		if g == nil {
			g = &group{name: n, h: h}
			g.h.Elems = append([]elem{}, h.Elems...)
			by[n] = g
			l = append(l, g)
		} else {
			g.h.Elems = append(g.h.Elems, h.Elems...)
		}
		g.lines++
	}
	return
}

func (m msgM) find(kind string) *hdrM {
	for i := range m.Hdrs {
		if m.Hdrs[i].Kind == kind {
			return &m.Hdrs[i]
		}
	}
	return nil
}

func genMethod(t *rapid.T) string {
	return pick(t, "method", "INVITE", "ACK", "BYE", "CANCEL", "REGISTER", "OPTIONS", "MESSAGE", "SUBSCRIBE", pick(t, "like a keyword", "SIP", "SIPS", "SIP-2.0", "TO", "VIA", "TEL", "DATE"), strings.ToUpper(genToken(t, "methtok")))
}

func genBody(t *rapid.T) fw.S {
	if chance(t, "nobody", 4) {
		return ""
	}
	var b strings.Builder
	for n := intr(t, "body-n", 1, 8); n > 0; n-- {
		b.WriteString(pick(t, "body", "v=0\r\n", "a", " ", "\r\n", "\r\n\r\n", "\n", "\r", "\x00", "\xff\xfe", "\x80", "\xc3\xa9", "INVITE sip:a@b SIP/2.0\r\n", "Content-Length: 3\r\n", "\t", "\n\n", "--x\r\n", "SIP/2.0 200 OK", "%00", "0123456789"))
	}
	if chance(t, "large body", 12) {
		return fw.S(long(t, "body", b.String(), 70000))
	}
	return fw.S(long(t, "body", b.String(), 1500))
}

// genHdrs draws the header lines of a message: the mandatory ones and extra.
func genHdrs(t *rapid.T, req bool, method string, extra, elems int) []hdrM {
	var l []hdrM
	put := func(h hdrM) {
		i := intr(t, "pos", 0, len(l))
		l = append(l[:i:i], append([]hdrM{h}, l[i:]...)...)
	}
	spelled := func(h hdrM) hdrM {
		n := h.name()
		if h.kind().short != "" && chance(t, "short", 6) {
			n = h.kind().short
		}
		switch pick(t, "case", 0, 0, 0, 1, 2) {
		case 1:
			n = strings.ToUpper(n)
		case 2:
			n = strings.ToLower(n)
		}
		// the name of an unknown header is its own
		if n != h.name() && h.Kind != "Extension" {
			h.Name = n
		}
		return h
	}
	one := func(kind string) {
		h := spelled(genHdr(t, kind, elems))
		if kind == "CSeq" && req {
			h.Elems[0].S[0] = method
		}
		put(h)
	}
	used := map[string]bool{"Content-Length": true}
	for _, k := range []string{"From", "To", "Call-ID", "CSeq", "Via", "Max-Forwards"} {
		if k == "Max-Forwards" && !req {
			continue
		}
		one(k)
		used[k] = true
	}
	n := intr(t, "extra", 0, extra)
	if extra > 1 && chance(t, "many headers", 60) {
		n = pick(t, "extra", intr(t, "extra", extra, 100), 150, 300)
	}
	many := n > extra
	for ; n > 0; n-- {
		k := pick(t, "kind", kindNames...)
		if many && n%8 != 0 { // most may stand more than once
			k, elems = pick(t, "kind", "Extension", "Supported", "Via", "Route", "Warning", "Allow"), 1
		}
		if used[k] && !(hdrM{Kind: k}).multi() {
			continue
		}
		used[k] = true
		one(k)
	}
	return l
}

func genStart(t *rapid.T, m *msgM) {
	m.Req = rapid.Bool().Draw(t, "request")
	if m.Req {
		u := genURI(t, true)
		m.Method, m.URI = genMethod(t), &u
		return
	}
	m.Code = intr(t, "code", 100, 699)
	if !chance(t, "noreason", 6) {
		m.Reason = pick(t, "reason", "OK", "Ringing", genLine(t, "reasontext"))
	}
}

func genMsg(t *rapid.T) msgM { return genMsgN(t, 6, 3) }

func genMsgN(t *rapid.T, extra, elems int) msgM {
	m := msgM{CL: -1}
	genStart(t, &m)
	m.Hdrs = genHdrs(t, m.Req, m.Method, extra, elems)
	m.Body = genBody(t)
	if rapid.Bool().Draw(t, "cl") {
		m.CL = intr(t, "clpos", 0, len(m.Hdrs))
		if chance(t, "after", 4) {
			m.Extra = genBody(t)
		}
	}
	return m
}

// sipMsg is what requests and responses have in common.
type sipMsg interface {
	message.Message
	GetMessageAsEncodedStrings() *list.List
	EncodeAsBytes() []byte
	GetFirstLine() string
	CheckHeaders() error
	HasHeader(string) bool
	HasContent() bool
	GetMessageContent() string
	GetHeaderList(string) header.Lister
	GetFrom() header.FromHeader
	GetTo() header.ToHeader
	GetCSeq() header.CSeqHeader
	GetCSeqNumber() int
	GetCallId() header.CallIdHeader
	GetCallIdentifier() string
	GetMaxForwards() header.MaxForwardsHeader
	GetTopmostVia() *header.Via
	GetViaHeaders() *header.ViaList
	GetContactHeaders() *header.ContactList
	GetErrorInfoHeaders() *header.ErrorInfoList
	GetRouteHeaders() *header.RouteList
	GetRecordRouteHeaders() *header.RecordRouteList
	GetAuthorization() *header.Authorization
	GetProxyAuthorizationHeader() *header.ProxyAuthorization
	GetMinExpires() *header.MinExpires
	GetOrganizationHeader() *header.Organization
	GetPriorityHeader() *header.Priority
	GetContentTypeHeader() header.ContentTypeHeader
	HasFromTag() bool
	HasToTag() bool
	GetFromTag() string
	GetToTag() string
	SetFromTag(string)
	SetToTag(string)
	AttachHeader(header.Header) error
	AttachHeader2(header.Header, bool)
	AttachHeader3(header.Header, bool, bool) error
	SetVia(*header.ViaList)
	SetTo(header.ToHeader)
	SetFrom(header.FromHeader)
	SetCallId(header.CallIdHeader)
	SetCSeq(header.CSeqHeader)
	SetMaxForwards(header.MaxForwardsHeader)
	RemoveHeader2(string, bool)
	SetMessageContent(string)
	SetMessageContentFromString(string, string, string)
	SetMessageContent3(string, string, []byte)
	GetDialogId(bool) string
	GetDialogId2(bool, string) string
	GetTransactionId() string
}

func parseMsg(text string) (sipMsg, error) {
	g, err := parser.NewStringMsgParser().ParseSIPMessage(text)
	if err != nil {
		return nil, errf("%q refused: %v", text, err)
	}
	return g.(sipMsg), nil
}

// absentNames are names of headers never drawn together in one message.
var absentNames = []string{"Absent", "Max-Forwards", "Contact", "Route", "Record-Route", "Authorization", "Proxy-Authorization", "Min-Expires", "Organization", "Priority", "Content-Type", "Expires", "Content-Disposition", "Content-Encoding", "Content-Language", "Error-Info", "Subject", "Date"}

func checkStart(g sipMsg, m msgM) error {
	if m.Req {
		r, ok := g.(*message.SIPRequest)
		if !ok {
			return errf("a %T", g)
		}
		if r.GetRequestLine() == nil {
			return errf("no request line")
		}
		return firstErr(eq("method", r.GetMethod(), m.Method), m.URI.check("request URI", r.GetRequestURI()), eq("version", r.GetSIPVersion(), "SIP/2.0"),
			eq("major version", r.GetRequestLine().GetVersionMajor(), "2"), eq("minor version", r.GetRequestLine().GetVersionMinor(), "0"),
			eq("first line", r.GetFirstLine(), m.Method+" "+m.URI.canon()+" SIP/2.0\r\n"))
	}
	r, ok := g.(*message.SIPResponse)
	if !ok {
		return errf("a %T", g)
	}
	if r.GetStatusLine() == nil {
		return errf("no status line")
	}
	return firstErr(eq("status code", r.GetStatusCode(), m.Code), eq("reason phrase", r.GetReasonPhrase(), m.Reason), eq("version", r.GetSIPVersion(), "SIP/2.0"),
		eq("major version", r.GetStatusLine().GetVersionMajor(), "2"), eq("minor version", r.GetStatusLine().GetVersionMinor(), "0"),
		eq("final", r.IsFinalResponse(), m.Code >= 200), eq("first line", strings.TrimRight(r.GetFirstLine(), " \r\n"), strings.TrimRight(m.firstLine(), " ")))
}

func isNilHeader(h header.Header) bool { return h == nil }

func listerHeaders(l header.Lister) (r []header.Header) {
	if l == nil {
		return nil
	}
	for e := l.Front(); e != nil; e = e.Next() {
		h, _ := e.Value.(header.Header)
		r = append(r, h)
	}
	return
}

// checkGroup compares what the message has under a name with the model.
func checkGroup(g sipMsg, gr *group) error {
	name := gr.h.canonName()
	k := gr.h.kind()
	hs := listerHeaders(g.GetHeaders(name))
	if err := firstErr(eq("has "+name, g.HasHeader(name), true), eq("has "+name, g.HasHeader(strings.ToUpper(name)), true), eq(name+" elements", len(hs), len(gr.h.Elems)),
		eq(name+" header list", len(listerHeaders(g.GetHeaderList(strings.ToLower(name)))), len(gr.h.Elems))); err != nil {
		return err
	}
	for i, x := range hs {
		if x == nil {
			return errf("%s element %d is nil", name, i)
		}
		n := name
		if gr.h.Kind == "Extension" {
			n = gr.h.Elems[i].S[0]
		}
		if err := firstErr(eq("name", x.GetName(), n), k.check(x, gr.h.Elems[i]), encodedForm(x, n)); err != nil {
			return errf("%s element %d: %v", name, i, err)
		}
	}
	if g.GetHeader(strings.ToLower(name)) != hs[0] {
		return errf("%s: GetHeader is not the first element", name)
	}
	return nil
}

func sameHeader(what string, typed header.Header, present bool, h header.Header) error {
	if !present {
		return nil
	}
	if typed != h {
		return errf("%s is not the message's header", what)
	}
	return nil
}

// checkTyped compares the accessors of single headers with the lookup by name.
func checkTyped(g sipMsg) error {
	type acc struct {
		name string
		h    header.Header
		nil  bool
	}
	var l []acc
	add := func(n string, h header.Header, isNil bool) { l = append(l, acc{n, h, isNil}) }
	add("From", g.GetFrom(), g.GetFrom() == nil)
	add("To", g.GetTo(), g.GetTo() == nil)
	add("CSeq", g.GetCSeq(), g.GetCSeq() == nil)
	add("Call-ID", g.GetCallId(), g.GetCallId() == nil)
	add("Max-Forwards", g.GetMaxForwards(), g.GetMaxForwards() == nil)
	add("Via", g.GetTopmostVia(), g.GetTopmostVia() == nil)
	add("Authorization", g.GetAuthorization(), g.GetAuthorization() == nil)
	add("Proxy-Authorization", g.GetProxyAuthorizationHeader(), g.GetProxyAuthorizationHeader() == nil)
	add("Min-Expires", g.GetMinExpires(), g.GetMinExpires() == nil)
	add("Organization", g.GetOrganizationHeader(), g.GetOrganizationHeader() == nil)
	add("Priority", g.GetPriorityHeader(), g.GetPriorityHeader() == nil)
	add("Content-Type", g.GetContentTypeHeader(), g.GetContentTypeHeader() == nil)
	add("Expires", g.GetExpires(), g.GetExpires() == nil)
	add("Content-Disposition", g.GetContentDisposition(), g.GetContentDisposition() == nil)
	add("Content-Encoding", g.GetContentEncoding(), g.GetContentEncoding() == nil)
	add("Content-Language", g.GetContentLanguage(), g.GetContentLanguage() == nil)
	for _, a := range l {
		want := g.GetHeader(a.name)
		if a.nil != isNilHeader(want) {
			return errf("%s accessor nil: %v, header present: %v", a.name, a.nil, want != nil)
		}
		if !a.nil && a.h != want {
			return errf("the %s accessor is not the message's header", a.name)
		}
	}
	lists := []struct {
		name string
		l    header.Lister
		nil  bool
	}{
		{"Via", g.GetViaHeaders(), g.GetViaHeaders() == nil},
		{"Contact", g.GetContactHeaders(), g.GetContactHeaders() == nil},
		{"Route", g.GetRouteHeaders(), g.GetRouteHeaders() == nil},
		{"Record-Route", g.GetRecordRouteHeaders(), g.GetRecordRouteHeaders() == nil},
		{"Error-Info", g.GetErrorInfoHeaders(), g.GetErrorInfoHeaders() == nil},
	}
	for _, a := range lists {
		n := len(listerHeaders(g.GetHeaders(a.name)))
		if a.nil {
			if n != 0 {
				return errf("no %s list, %d headers", a.name, n)
			}
			continue
		}
		if err := eq(a.name+" list", a.l.Len(), n); err != nil {
			return err
		}
	}
	return nil
}

// splitText takes the text of an encoded message apart.
func splitText(s string) (first string, hdrs []string, body string, err error) {
	i := strings.Index(s, "\r\n\r\n")
	if i < 0 {
		return "", nil, "", errf("no blank line in %q", s)
	}
	l := strings.Split(s[:i], "\r\n")
	return l[0], l[1:], s[i+4:], nil
}

// checkEncoded compares the text of a message with its headers and body.
func checkEncoded(g sipMsg, m msgM) error {
	s := g.String()
	first, lines, body, err := splitText(s)
	if err != nil {
		return err
	}
	if err := firstErr(eq("first line", first+"\r\n", g.GetFirstLine()), eq("EncodeAsBytes", string(g.EncodeAsBytes()), s), eq("encoded body", body, string(m.Body))); err != nil {
		return err
	}
	var want, each []string
	for _, gr := range m.groups() {
		name := gr.h.canonName()
		var bodies []string
		for i, x := range listerHeaders(g.GetHeaders(name)) {
			n := name
			if gr.h.Kind == "Extension" {
				n = gr.h.Elems[i].S[0]
			}
			bodies = append(bodies, x.EncodeBody())
			each = append(each, n+": "+x.EncodeBody()+"\r\n")
			if gr.h.perLine() {
				want = append(want, n+": "+x.EncodeBody())
			}
		}
		if !gr.h.perLine() {
			want = append(want, name+": "+strings.Join(bodies, ","))
		}
	}
	var got []string
	n := 0
	for _, l := range lines {
		if strings.HasPrefix(l, "Content-Length: ") {
			n++
			if err := eq("encoded Content-Length", l, "Content-Length: "+strconv.Itoa(len(m.Body))); err != nil {
				return err
			}
			continue
		}
		got = append(got, l)
	}
	var enc []string
	for i, x := range listStrings(g.GetMessageAsEncodedStrings()) {
		if i == 0 || !strings.HasPrefix(x, "Content-Length: ") {
			enc = append(enc, x)
		}
	}
	return firstErr(eq("Content-Length lines", n, 1), eqStrings("encoded header lines", got, want), eqStrings("encoded strings", enc, append([]string{first + "\r\n"}, each...)))
}

// checkMsg compares a message with the model, and its text with its parts.
func checkMsg(g sipMsg, m msgM) error {
	if err := checkStart(g, m); err != nil {
		return err
	}
	var names []string
	for _, gr := range m.groups() {
		if err := checkGroup(g, gr); err != nil {
			return err
		}
		names = append(names, gr.name)
	}
	var got []string
	for _, n := range listStrings(g.GetHeaderNames()) {
		if !strings.EqualFold(n, "Content-Length") {
			got = append(got, strings.ToLower(n))
		}
	}
	if err := eqStrings("header names", got, names); err != nil {
		return err
	}
	has := map[string]bool{}
	for _, n := range names {
		has[n] = true
	}
	for _, n := range absentNames {
		if !has[strings.ToLower(n)] && (g.HasHeader(n) || g.GetHeader(n) != nil || g.GetHeaders(n).Len() != 0) {
			return errf("%s present in a message without it", n)
		}
	}
	tags := func(h *hdrM) string {
		if h == nil {
			return ""
		}
		return hpVal(h.Elems[0].P, "tag")
	}
	num, cid := 0, ""
	if h := m.find("CSeq"); h != nil {
		num = h.Elems[0].I[0]
	}
	if h := m.find("Call-ID"); h != nil {
		cid = h.Elems[0].S[0]
	}
	return firstErr(checkTyped(g), eq("From tag", g.GetFromTag(), tags(m.find("From"))), eq("To tag", g.GetToTag(), tags(m.find("To"))),
		eq("has From tag", g.HasFromTag(), tags(m.find("From")) != ""), eq("has To tag", g.HasToTag(), tags(m.find("To")) != ""),
		eq("CSeq number", g.GetCSeqNumber(), num), eq("Call-ID", g.GetCallIdentifier(), cid),
		eq("content", g.GetContent(), string(m.Body)), eq("has content", g.HasContent(), m.Body != ""), eq("message content", g.GetMessageContent(), string(m.Body)),
		checkEncoded(g, m))
}

// flagForms lets a flag read back as a parameter with an empty value.
var flagForms = strings.NewReplacer("=;", ";", "=\r", "\r", "=,", ",")

// msgRoundTrip encodes the message, parses the text, compares and encodes again.
func msgRoundTrip(g sipMsg, m msgM) error {
	s := g.String()
	g2, err := parseMsg(s)
	if err != nil {
		return errf("encoding: %v", err)
	}
	if err := checkMsg(g2, m); err != nil {
		return errf("encoding %q: %v", s, err)
	}
	return eq("second encoding", strings.ToLower(flagForms.Replace(g2.String())), strings.ToLower(flagForms.Replace(s)))
}

// buildMsg assembles the message through the API.
func buildMsg(m msgM) (sipMsg, error) {
	var g sipMsg
	if m.Req {
		r := message.NewSIPRequest()
		var u address.URI
		u, err := m.URI.build()
		if err != nil {
			return nil, err
		}
		r.SetRequestURI(u)
		r.SetMethod(m.Method)
		g = r
	} else {
		r := message.NewSIPResponse()
		r.SetStatusCode(m.Code)
		r.SetReasonPhrase(m.Reason)
		g = r
	}
	for i, h := range m.Hdrs {
		x, err := buildHdr(h)
		if err != nil {
			return nil, err
		}
		switch (i + len(m.Body)) % 3 {
		case 0:
			g.AttachHeader2(x, false)
		case 1:
			if err := g.AttachHeader(x); err != nil {
				return nil, err
			}
		case 2:
			if h.Kind == "Via" { // AddHeader puts it on top
				g.AttachHeader2(x, false)
			} else {
				g.AddHeader(x)
			}
		}
	}
	switch {
	case m.Body == "":
	case len(m.Body)%2 == 0:
		g.SetMessageContentFromByte([]byte(m.Body))
	default:
		g.SetMessageContent(string(m.Body))
	}
	return g, nil
}

func (m msgM) plain() msgM {
	hs := append([]hdrM{}, m.Hdrs...)
	for i := range hs {
		hs[i] = hs[i].plain()
		hs[i].Name = ""
	}
	m.Hdrs, m.CL, m.Extra = hs, -1, ""
	return m
}

func classMsg(x *fw.Ctx, m msgM) {
	x.Class(pick2(m.Req, "request", "response"))
	if m.Body != "" {
		x.Class("with body")
	}
	repeated := false
	for _, g := range m.groups() {
		x.Class(g.h.Kind)
		repeated = repeated || g.lines > 1
	}
	if repeated {
		x.Class("repeated header lines")
	}
	if len(m.Hdrs) >= 8 || repeated {
		x.NonTrivial()
	}
}

const msgRule = "; non-trivial: at least eight header lines, or a header repeated over several lines"

type reuseCase struct {
	M   []msgM
	Str []bool `json:",omitempty"` // parsed from a string
}

func init() {
	fw.Add("C01", "received", "a message text built from a model of start line, header lines of all 43 header types and body: parsed, encoded, the encoding parsed and compared with the model, encoded again"+msgRule, 3000, 120000,
		genMsg, func(x *fw.Ctx, m msgM) error {
			classMsg(x, m)
			g, err := parseMsg(m.text())
			if err != nil {
				return err
			}
			return msgRoundTrip(g, m)
		})
	fw.Add("C01", "assembled", "a message assembled through the API from a model's parts: encoded, the encoding parsed and compared with the model, encoded again"+msgRule, 2500, 100000,
		func(t *rapid.T) msgM { return genMsg(t).plain() }, func(x *fw.Ctx, m msgM) error {
			classMsg(x, m)
			g, err := buildMsg(m)
			if err != nil {
				return err
			}
			if err := checkMsg(g, m); err != nil {
				return err
			}
			return msgRoundTrip(g, m)
		})
	fw.Add("C02", "parse", "a message text built from a model: parsed, and start line, every header with all its parts, their order, every typed accessor, the body and the encoded text compared with the model"+msgRule, 5000, 200000,
		genMsg, func(x *fw.Ctx, m msgM) error {
			classMsg(x, m)
			g, err := parseMsg(m.text())
			if err != nil {
				return err
			}
			if err := checkMsg(g, m); err != nil {
				return errf("%q: %v", m.text(), err)
			}
			return nil
		})
	fw.Add("C02", "reuse", "two to four messages parsed one after the other by the same parser: each compared with its model; non-trivial: all", 1000, 40000,
		func(t *rapid.T) reuseCase {
			var c reuseCase
			for n := intr(t, "msgs", 2, 4); n > 0; n-- {
				c.M = append(c.M, genMsgN(t, 2, 2))
				c.Str = append(c.Str, rapid.Bool().Draw(t, "string"))
			}
			return c
		}, func(x *fw.Ctx, c reuseCase) error {
			x.NonTrivial()
			p := parser.NewStringMsgParser()
			var gs []sipMsg
			for i, m := range c.M {
				var g message.Message
				var err error
				if str := i < len(c.Str) && c.Str[i]; str {
					g, err = p.ParseSIPMessage(m.text())
				} else {
					g, err = p.ParseSIPMessageFromByte([]byte(m.text()))
				}
				if err != nil {
					return errf("message %d %q: %v", i, m.text(), err)
				}
				if err := eq("the body is a string", p.IsBodyString(), i < len(c.Str) && c.Str[i]); err != nil {
					return errf("message %d: %v", i, err)
				}
				gs = append(gs, g.(sipMsg))
			}
			for i, m := range c.M {
				if err := checkMsg(gs[i], m); err != nil {
					return errf("message %d %q: %v", i, m.text(), err)
				}
			}
			return nil
		})
}
