package props

import (
	"strconv"
	"strings"

	"github.com/use-go/gosips/sip/address"
	"github.com/use-go/gosips/sip/header"
	"github.com/use-go/gosips/sip/message"
	"pgregory.net/rapid"

	"verif/harness/fw"
)

// ------------------------------------------------------------------- C36

type lineOp struct {
	Op  string
	Arg string `json:",omitempty"`
	URI int    `json:",omitempty"`
	N   int    `json:",omitempty"`
}

type lineCase struct {
	Req    bool
	Parsed bool
	M      msgM
	URIs   []uriM
	Ops    []lineOp
}

func genVersion(t *rapid.T) string {
	return pick(t, "version", "SIP/2.0", "SIP/2.0", "SIP/3.1", "SIP/10.25", "SIP/1.12")
}

func genLineCase(t *rapid.T) lineCase {
	c := lineCase{Req: rapid.Bool().Draw(t, "req"), Parsed: rapid.Bool().Draw(t, "parsed")}
	if c.Req {
		c.M = genRequest(t, 0, 1)
	} else {
		for c.M = genMsgN(t, 0, 1); c.M.Req; {
			c.M = genMsgN(t, 0, 1)
		}
		c.M = c.M.plain()
	}
	for i := 0; i < 3; i++ {
		c.URIs = append(c.URIs, genURI(t, true))
	}
	for n := intr(t, "ops", 1, 12); n > 0; n-- {
		o := lineOp{URI: intr(t, "uri", 0, 2)}
		if c.Req {
			o.Op = pick(t, "op", "SetMethod", "SetMethod", "SetRequestURI", "SetRequestURI", "SetSIPVersion", "SetRequestLine", "NewRequestLine", "NoRequestLine", "line.SetMethod", "line.SetUri", "line.SetSipVersion", "line.SetSIPVersion", "SetCSeq", "RemoveCSeq", "SetDefaults", "Encode", "Bytes", "Strings", "Clone")
		} else {
			o.Op = pick(t, "op", "SetStatusCode", "SetStatusCode", "SetReasonPhrase", "SetSIPVersion", "NewStatusLine", "NoStatusLine", "line.SetStatusCode", "line.SetReasonPhrase", "line.SetSipVersion", "Encode", "Bytes", "Strings", "Clone")
		}
		switch {
		case strings.Contains(strings.ToLower(o.Op), "version"):
			o.Arg = genVersion(t)
		case o.Op == "SetCSeq" || strings.HasSuffix(o.Op, "SetMethod") || o.Op == "SetRequestLine":
			o.Arg = genMethod(t)
			o.N = intr(t, "n", 1, 1<<20)
			if o.Op != "SetCSeq" && o.Op != "SetMethod" && chance(t, "no method", 5) {
				o.Arg = ""
			}
		case strings.HasSuffix(o.Op, "SetStatusCode"):
			o.N = intr(t, "code", 100, 699)
			if chance(t, "edge", 3) {
				o.N = pick(t, "edge code", 100, 199, 200, 299, 300, 699)
			}
		case strings.HasSuffix(o.Op, "SetReasonPhrase"):
			o.Arg = pick(t, "reason", "OK", "", "Busy here", genLine(t, "reasontext"))
		}
		c.Ops = append(c.Ops, o)
	}
	return c
}

// lineM is the model of a start line.
type lineM struct {
	there   bool
	method  string
	uri     address.URI
	code    int
	reason  string
	version string
}

func (l lineM) text(req bool) string {
	if !l.there {
		return ""
	}
	var s string
	if !req {
		return l.version + " " + strconv.Itoa(l.code) + " " + l.reason + "\r\n"
	}
	if l.method != "" {
		s = l.method + " "
	}
	if l.uri != nil {
		s += l.uri.String() + " "
	}
	return s + l.version + "\r\n"
}

func majorMinor(version string) (string, string) {
	_, n, _ := strings.Cut(version, "/")
	a, b, _ := strings.Cut(n, ".")
	return a, b
}

func runLine(x *fw.Ctx, c lineCase) error {
	var g sipMsg
	var err error
	if c.Parsed {
		g, err = parseMsg(c.M.text())
	} else {
		g, err = buildMsg(c.M)
	}
	if err != nil {
		return err
	}
	uris := make([]address.URI, len(c.URIs))
	for i, u := range c.URIs {
		if uris[i], err = u.build(); err != nil {
			return err
		}
	}
	r, _ := g.(*message.SIPRequest)
	a, _ := g.(*message.SIPResponse)
	m := lineM{there: true, version: "SIP/2.0"}
	has, cseq, num := false, "", 0
	if c.Req {
		m.method, m.uri = c.M.Method, r.GetRequestURI()
		has, cseq, num = true, r.GetCSeq().GetMethod(), r.GetCSeq().GetSequenceNumber()
	} else {
		m.code, m.reason = c.M.Code, a.GetReasonPhrase()
	}
	_, rest, _ := strings.Cut(g.String(), "\r\n")
	kinds := map[string]bool{}
	for i, o := range c.Ops {
		kinds[o.Op] = true
		x.Class(o.Op)
		var err error
		onLine := strings.HasPrefix(o.Op, "line.")
		if onLine && !m.there {
			continue
		}
		switch o.Op {
		case "SetMethod":
			r.SetMethod(o.Arg)
			m.there, m.method = true, o.Arg
			if has {
				cseq = o.Arg
			}
		case "SetRequestURI":
			r.SetRequestURI(uris[o.URI])
			m.there, m.uri = true, uris[o.URI]
		case "SetSIPVersion":
			g.SetSIPVersion(o.Arg)
			m.there, m.version = true, o.Arg
		case "SetRequestLine":
			r.SetRequestLine(header.NewRequestLineFromString(uris[o.URI], o.Arg))
			m = lineM{there: true, method: o.Arg, uri: uris[o.URI], version: "SIP/2.0"}
		case "NewRequestLine":
			r.SetRequestLine(header.NewRequestLine())
			m = lineM{there: true, version: "SIP/2.0"}
		case "NoRequestLine":
			r.SetRequestLine(nil)
			m = lineM{version: "SIP/2.0"}
		case "line.SetMethod":
			r.GetRequestLine().SetMethod(o.Arg)
			m.method = o.Arg
		case "line.SetUri":
			r.GetRequestLine().SetUri(uris[o.URI])
			m.uri = uris[o.URI]
		case "line.SetSIPVersion":
			r.GetRequestLine().SetSIPVersion(o.Arg)
			m.version = o.Arg
		case "line.SetSipVersion":
			if c.Req {
				r.GetRequestLine().SetSipVersion(o.Arg)
			} else {
				a.GetStatusLine().SetSipVersion(o.Arg)
			}
			m.version = o.Arg
		case "SetCSeq":
			g.SetCSeq(header.NewCSeq(o.N, o.Arg))
			has, cseq, num = true, o.Arg, o.N
		case "RemoveCSeq":
			g.RemoveHeader2("CSeq", true)
			has, cseq, num = false, "", 0
		case "SetDefaults":
			// INVITE and REGISTER get the parameters, on SIP URIs
			want, last := "", ""
			if m.uri != nil {
				want = m.uri.String()
			}
			if su, ok := m.uri.(*address.SipURIImpl); ok && m.there && (m.method == "INVITE" || m.method == "REGISTER") {
				cl := su.Clone().(*address.SipURIImpl)
				cl.SetParameter("user", "ip")
				cl.SetParameter("transport", "udp")
				x.Class("defaults for a SIP URI")
				want, last = cl.String(), "udp"
			}
			r.SetDefaults()
			if m.uri != nil {
				if last != "" {
					su := m.uri.(*address.SipURIImpl)
					err = firstErr(eq("transport", su.GetTransportParam(), "udp"), eq("user", su.GetUserParam(), "ip"))
				}
				if err == nil && len(m.uri.String()) != len(want) {
					err = errf("SetDefaults made the URI %q, not %q", m.uri.String(), want)
				}
			}
		case "SetStatusCode":
			a.SetStatusCode(o.N)
			m.there, m.code = true, o.N
		case "SetReasonPhrase":
			a.SetReasonPhrase(o.Arg)
			m.there, m.reason = true, o.Arg
		case "NewStatusLine":
			a.SetStatusLine(header.NewStatusLine())
			m = lineM{there: true, version: "SIP/2.0"}
		case "NoStatusLine":
			a.SetStatusLine(nil)
			m = lineM{version: "SIP/2.0"}
		case "line.SetStatusCode":
			a.GetStatusLine().SetStatusCode(o.N)
			m.code = o.N
		case "line.SetReasonPhrase":
			a.GetStatusLine().SetReasonPhrase(o.Arg)
			m.reason = o.Arg
		case "Clone":
			if !m.there {
				continue
			}
			if c.Req {
				err = eq("clone", r.GetRequestLine().Clone().(*header.RequestLine).String(), m.text(true))
			} else {
				err = eq("clone", a.GetStatusLine().Clone().(*header.StatusLine).String(), m.text(false))
			}
		default: // the encodings; a request line without a method gets the CSeq's
			if m.there && m.method == "" && cseq != "" {
				m.method = cseq
				x.Class("method from the CSeq")
			}
			want := m.text(c.Req)
			switch o.Op {
			case "Encode":
				err = prefix("String", g.String(), want)
			case "Bytes":
				err = prefix("EncodeAsBytes", string(g.EncodeAsBytes()), want)
			case "Strings":
				l := listStrings(g.GetMessageAsEncodedStrings())
				if m.there {
					err = firstErr(eq("first of the strings", l[0], want), eq("all of them", strings.HasPrefix(strings.Join(l, ""), want), true))
				} else if len(l) > 0 && strings.HasPrefix(l[0], "SIP/") {
					err = errf("a start line %q", l[0])
				}
			}
		}
		if err != nil {
			return errf("%d %s: %v", i, o.Op, err)
		}
		// and what is read back
		version := m.version
		if !m.there {
			version = ""
		}
		err = firstErr(eq("version", g.GetSIPVersion(), version), eq("first line", g.GetFirstLine(), m.text(c.Req)))
		major, minor := majorMinor(version)
		if c.Req {
			err = firstErr(err, eq("method", r.GetMethod(), m.method), eq("line?", r.GetRequestLine() != nil, m.there), sameURI("request URI", r.GetRequestURI(), m.uri))
			if m.there {
				l := r.GetRequestLine()
				err = firstErr(err, eq("line method", l.GetMethod(), m.method), sameURI("line URI", l.GetUri(), m.uri), eq("line version", l.GetSipVersion(), version), eq("line text", l.String(), m.text(true)),
					eq("major", l.GetVersionMajor(), major), eq("minor", l.GetVersionMinor(), minor))
			}
			if cs := r.GetCSeq(); cs != nil {
				err = firstErr(err, eq("CSeq method", cs.GetMethod(), cseq), eq("CSeq number", cs.GetSequenceNumber(), num))
			}
			err = firstErr(err, eq("CSeq?", r.GetCSeq() != nil, has))
		} else {
			err = firstErr(err, eq("code", a.GetStatusCode(), m.code), eq("reason", a.GetReasonPhrase(), m.reason), eq("line?", a.GetStatusLine() != nil, m.there),
				eq("final", a.IsFinalResponse(), m.code >= 200 && m.code < 700), eq("final", a.IsFinalResponseFromInt(m.code), m.code >= 200 && m.code < 700))
			if m.there {
				l := a.GetStatusLine()
				err = firstErr(err, eq("line code", l.GetStatusCode(), m.code), eq("line reason", l.GetReasonPhrase(), m.reason), eq("line version", l.GetSipVersion(), version), eq("line text", l.String(), m.text(false)),
					eq("major", l.GetVersionMajor(), major), eq("minor", l.GetVersionMinor(), minor))
			}
		}
		if err != nil {
			return errf("after %d %s: %v", i, o.Op, err)
		}
	}
	if len(kinds) > 2 {
		x.NonTrivial()
	}
	// the start line is not the business of the headers
	if !c.Req {
		return eq("the headers afterwards", strings.HasSuffix(g.String(), rest), true)
	}
	return nil
}

func prefix(what, got, want string) error {
	first, _, _ := strings.Cut(got, "\r\n")
	if want == "" && strings.Contains(first, " SIP/") && !strings.Contains(first, ":") {
		return errf("%s has a start line %q", what, first)
	}
	if !strings.HasPrefix(got, want) {
		return errf("%s begins %q, want %q", what, first, want)
	}
	return nil
}

func sameURI(what string, got, want address.URI) error {
	if want == nil {
		if got != nil {
			return errf("%s: %v, want none", what, got)
		}
		return nil
	}
	if got != want {
		return errf("%s: %v, want %v, the object set", what, got, want)
	}
	return nil
}

func init() {
	fw.Add("C36", "operations", "a request or response, parsed or assembled, and a history of up to 12 operations on its start line (method, URI, version, status, reason, whole lines given and taken away, changes of the line itself, CSeq set and removed, defaults, encodings), against a model after each; non-trivial: more than two kinds of operation", 4000, 120000, genLineCase, runLine)
}
