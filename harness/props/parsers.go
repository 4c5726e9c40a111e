package props

import (
	"fmt"
	"reflect"
	"strings"

	"github.com/use-go/gosips/core"
	"github.com/use-go/gosips/sip/address"
	"github.com/use-go/gosips/sip/message"
	"github.com/use-go/gosips/sip/parser"
	"pgregory.net/rapid"

	"verif/harness/fw"
)

// ------------------------------------------------------------------- C35

func lexerOf(s string) core.Lexer { return parser.NewSIPLexer("CharLexer", s) }

// headerParsers has, by header kind, its parser made from a text and from a
// lexer.
var headerParsers = map[string][2]func(string) parser.Parser{
	"acceptencoding":     {func(s string) parser.Parser { return parser.NewAcceptEncodingParser(s) }, func(s string) parser.Parser { return parser.NewAcceptEncodingParserFromLexer(lexerOf(s)) }},
	"acceptlanguage":     {func(s string) parser.Parser { return parser.NewAcceptLanguageParser(s) }, func(s string) parser.Parser { return parser.NewAcceptLanguageParserFromLexer(lexerOf(s)) }},
	"accept":             {func(s string) parser.Parser { return parser.NewAcceptParser(s) }, func(s string) parser.Parser { return parser.NewAcceptParserFromLexer(lexerOf(s)) }},
	"alertinfo":          {func(s string) parser.Parser { return parser.NewAlertInfoParser(s) }, func(s string) parser.Parser { return parser.NewAlertInfoParserFromLexer(lexerOf(s)) }},
	"allowevents":        {func(s string) parser.Parser { return parser.NewAllowEventsParser(s) }, func(s string) parser.Parser { return parser.NewAllowEventsParserFromLexer(lexerOf(s)) }},
	"allow":              {func(s string) parser.Parser { return parser.NewAllowParser(s) }, func(s string) parser.Parser { return parser.NewAllowParserFromLexer(lexerOf(s)) }},
	"authenticationinfo": {func(s string) parser.Parser { return parser.NewAuthenticationInfoParser(s) }, func(s string) parser.Parser { return parser.NewAuthenticationInfoParserFromLexer(lexerOf(s)) }},
	"authorization":      {func(s string) parser.Parser { return parser.NewAuthorizationParser(s) }, func(s string) parser.Parser { return parser.NewAuthorizationParserFromLexer(lexerOf(s)) }},
	"cseq":               {func(s string) parser.Parser { return parser.NewCSeqParser(s) }, func(s string) parser.Parser { return parser.NewCSeqParserFromLexer(lexerOf(s)) }},
	"callid":             {func(s string) parser.Parser { return parser.NewCallIDParser(s) }, func(s string) parser.Parser { return parser.NewCallIDParserFromLexer(lexerOf(s)) }},
	"callinfo":           {func(s string) parser.Parser { return parser.NewCallInfoParser(s) }, func(s string) parser.Parser { return parser.NewCallInfoParserFromLexer(lexerOf(s)) }},
	"contact":            {func(s string) parser.Parser { return parser.NewContactParser(s) }, func(s string) parser.Parser { return parser.NewContactParserFromLexer(lexerOf(s)) }},
	"contentdisposition": {func(s string) parser.Parser { return parser.NewContentDispositionParser(s) }, func(s string) parser.Parser { return parser.NewContentDispositionParserFromLexer(lexerOf(s)) }},
	"contentencoding":    {func(s string) parser.Parser { return parser.NewContentEncodingParser(s) }, func(s string) parser.Parser { return parser.NewContentEncodingParserFromLexer(lexerOf(s)) }},
	"contentlanguage":    {func(s string) parser.Parser { return parser.NewContentLanguageParser(s) }, func(s string) parser.Parser { return parser.NewContentLanguageParserFromLexer(lexerOf(s)) }},
	"contentlength":      {func(s string) parser.Parser { return parser.NewContentLengthParser(s) }, func(s string) parser.Parser { return parser.NewContentLengthParserFromLexer(lexerOf(s)) }},
	"contenttype":        {func(s string) parser.Parser { return parser.NewContentTypeParser(s) }, func(s string) parser.Parser { return parser.NewContentTypeParserFromLexer(lexerOf(s)) }},
	"date":               {func(s string) parser.Parser { return parser.NewDateParser(s) }, func(s string) parser.Parser { return parser.NewDateParserFromLexer(lexerOf(s)) }},
	"errorinfo":          {func(s string) parser.Parser { return parser.NewErrorInfoParser(s) }, func(s string) parser.Parser { return parser.NewErrorInfoParserFromLexer(lexerOf(s)) }},
	"event":              {func(s string) parser.Parser { return parser.NewEventParser(s) }, func(s string) parser.Parser { return parser.NewEventParserFromLexer(lexerOf(s)) }},
	"expires":            {func(s string) parser.Parser { return parser.NewExpiresParser(s) }, func(s string) parser.Parser { return parser.NewExpiresParserFromLexer(lexerOf(s)) }},
	"from":               {func(s string) parser.Parser { return parser.NewFromParser(s) }, func(s string) parser.Parser { return parser.NewFromParserFromLexer(lexerOf(s)) }},
	"extension":          {func(s string) parser.Parser { return parser.NewHeaderParser(s) }, func(s string) parser.Parser { return parser.NewHeaderParserFromLexer(lexerOf(s)) }},
	"inreplyto":          {func(s string) parser.Parser { return parser.NewInReplyToParser(s) }, func(s string) parser.Parser { return parser.NewInReplyToParserFromLexer(lexerOf(s)) }},
	"maxforwards":        {func(s string) parser.Parser { return parser.NewMaxForwardsParser(s) }, func(s string) parser.Parser { return parser.NewMaxForwardsParserFromLexer(lexerOf(s)) }},
	"mimeversion":        {func(s string) parser.Parser { return parser.NewMimeVersionParser(s) }, func(s string) parser.Parser { return parser.NewMimeVersionParserFromLexer(lexerOf(s)) }},
	"minexpires":         {func(s string) parser.Parser { return parser.NewMinExpiresParser(s) }, func(s string) parser.Parser { return parser.NewMinExpiresParserFromLexer(lexerOf(s)) }},
	"organization":       {func(s string) parser.Parser { return parser.NewOrganizationParser(s) }, func(s string) parser.Parser { return parser.NewOrganizationParserFromLexer(lexerOf(s)) }},
	"priority":           {func(s string) parser.Parser { return parser.NewPriorityParser(s) }, func(s string) parser.Parser { return parser.NewPriorityParserFromLexer(lexerOf(s)) }},
	"proxyauthenticate":  {func(s string) parser.Parser { return parser.NewProxyAuthenticateParser(s) }, func(s string) parser.Parser { return parser.NewProxyAuthenticateParserFromLexer(lexerOf(s)) }},
	"proxyauthorization": {func(s string) parser.Parser { return parser.NewProxyAuthorizationParser(s) }, func(s string) parser.Parser { return parser.NewProxyAuthorizationParserFromLexer(lexerOf(s)) }},
	"proxyrequire":       {func(s string) parser.Parser { return parser.NewProxyRequireParser(s) }, func(s string) parser.Parser { return parser.NewProxyRequireParserFromLexer(lexerOf(s)) }},
	"rack":               {func(s string) parser.Parser { return parser.NewRAckParser(s) }, func(s string) parser.Parser { return parser.NewRAckParserFromLexer(lexerOf(s)) }},
	"rseq":               {func(s string) parser.Parser { return parser.NewRSeqParser(s) }, func(s string) parser.Parser { return parser.NewRSeqParserFromLexer(lexerOf(s)) }},
	"reason":             {func(s string) parser.Parser { return parser.NewReasonParser(s) }, func(s string) parser.Parser { return parser.NewReasonParserFromLexer(lexerOf(s)) }},
	"recordroute":        {func(s string) parser.Parser { return parser.NewRecordRouteParser(s) }, func(s string) parser.Parser { return parser.NewRecordRouteParserFromLexer(lexerOf(s)) }},
	"referto":            {func(s string) parser.Parser { return parser.NewReferToParser(s) }, func(s string) parser.Parser { return parser.NewReferToParserFromLexer(lexerOf(s)) }},
	"replyto":            {func(s string) parser.Parser { return parser.NewReplyToParser(s) }, func(s string) parser.Parser { return parser.NewReplyToParserFromLexer(lexerOf(s)) }},
	"require":            {func(s string) parser.Parser { return parser.NewRequireParser(s) }, func(s string) parser.Parser { return parser.NewRequireParserFromLexer(lexerOf(s)) }},
	"retryafter":         {func(s string) parser.Parser { return parser.NewRetryAfterParser(s) }, func(s string) parser.Parser { return parser.NewRetryAfterParserFromLexer(lexerOf(s)) }},
	"route":              {func(s string) parser.Parser { return parser.NewRouteParser(s) }, func(s string) parser.Parser { return parser.NewRouteParserFromLexer(lexerOf(s)) }},
	"server":             {func(s string) parser.Parser { return parser.NewServerParser(s) }, func(s string) parser.Parser { return parser.NewServerParserFromLexer(lexerOf(s)) }},
	"subject":            {func(s string) parser.Parser { return parser.NewSubjectParser(s) }, func(s string) parser.Parser { return parser.NewSubjectParserFromLexer(lexerOf(s)) }},
	"subscriptionstate":  {func(s string) parser.Parser { return parser.NewSubscriptionStateParser(s) }, func(s string) parser.Parser { return parser.NewSubscriptionStateParserFromLexer(lexerOf(s)) }},
	"supported":          {func(s string) parser.Parser { return parser.NewSupportedParser(s) }, func(s string) parser.Parser { return parser.NewSupportedParserFromLexer(lexerOf(s)) }},
	"timestamp":          {func(s string) parser.Parser { return parser.NewTimeStampParser(s) }, func(s string) parser.Parser { return parser.NewTimeStampParserFromLexer(lexerOf(s)) }},
	"to":                 {func(s string) parser.Parser { return parser.NewToParser(s) }, func(s string) parser.Parser { return parser.NewToParserFromLexer(lexerOf(s)) }},
	"unsupported":        {func(s string) parser.Parser { return parser.NewUnsupportedParser(s) }, func(s string) parser.Parser { return parser.NewUnsupportedParserFromLexer(lexerOf(s)) }},
	"useragent":          {func(s string) parser.Parser { return parser.NewUserAgentParser(s) }, func(s string) parser.Parser { return parser.NewUserAgentParserFromLexer(lexerOf(s)) }},
	"via":                {func(s string) parser.Parser { return parser.NewViaParser(s) }, func(s string) parser.Parser { return parser.NewViaParserFromLexer(lexerOf(s)) }},
	"wwwauthenticate":    {func(s string) parser.Parser { return parser.NewWWWAuthenticateParser(s) }, func(s string) parser.Parser { return parser.NewWWWAuthenticateParserFromLexer(lexerOf(s)) }},
	"warning":            {func(s string) parser.Parser { return parser.NewWarningParser(s) }, func(s string) parser.Parser { return parser.NewWarningParserFromLexer(lexerOf(s)) }},
}

func parserKey(kind string) string { return strings.ToLower(strings.ReplaceAll(kind, "-", "")) }

// waysCase is a text to be parsed in all ways there are; Text is a mutation of
// the well-formed one or empty.
type waysCase struct {
	Of     string // header, request-line, status-line, address, url, telephone, host, hostname
	H      hdrM
	M      msgM
	A      addrM
	U      uriM
	Tel    telM
	Host   string
	Text   string `json:",omitempty"`
	Suffix string `json:",omitempty"`
}

func genWays(t *rapid.T) waysCase {
	c := waysCase{Of: pick(t, "of", "header", "header", "header", "header", "header", "header", "request-line", "status-line", "address", "url", "telephone", "host", "hostname")}
	var s string
	switch c.Of {
	case "header":
		c.H = genHdr(t, pick(t, "kind", kindNames...), 3)
		s = c.H.text()
	case "request-line", "status-line":
		c.M = msgM{CL: -1}
		if c.Of == "request-line" {
			u := genURI(t, true)
			c.M.Req, c.M.Method, c.M.URI = true, genMethod(t), &u
		} else {
			c.M.Code, c.M.Reason = intr(t, "code", 100, 699), pick(t, "reason", "OK", "", genLine(t, "reasontext"))
		}
		s = c.M.firstLine()
	case "address":
		c.A = genNameAddr(t)
		s = c.A.text()
	case "url":
		c.U = genURI(t, true)
		s = c.U.text()
	case "telephone":
		c.Tel = genTel(t)
		s = c.Tel.encode()[len("tel:"):]
	case "host", "hostname":
		c.Host = genHost(t).Text
		s = c.Host
		if c.Of == "host" && chance(t, "port", 2) {
			s += ":5070"
			c.Host = s
		}
	}
	if chance(t, "mutated", 3) {
		if m := mutate(t, s, 2); !strings.ContainsAny(m, "\r\n") && m != "" {
			c.Text = m
		}
	}
	return c
}

type outcome struct {
	way  string
	text string // type, encoding and what the accessors give
	v    interface{}
	err  error
}

func outcomeOf(way string, v interface{}, err error) outcome {
	if err != nil || isNilResult(v) {
		if err == nil {
			err = errf("neither result nor error")
		}
		return outcome{way, "", nil, err}
	}
	s := fmt.Sprintf("%T", v)
	if e, ok := v.(interface{ String() string }); ok {
		s += " " + e.String()
	}
	var b strings.Builder
	describe(&b, v, 3)
	return outcome{way, s + b.String(), v, nil}
}

// describe writes what the accessors of an object give.
func describe(b *strings.Builder, v interface{}, depth int) {
	if depth == 0 || isNilResult(v) {
		return
	}
	r := reflect.ValueOf(v)
	t := r.Type()
	for i := 0; i < r.NumMethod(); i++ {
		name, m := t.Method(i).Name, r.Method(i)
		if m.Type().NumIn() != 0 || m.Type().NumOut() != 1 || !strings.HasPrefix(name, "Get") && !strings.HasPrefix(name, "Has") && !strings.HasPrefix(name, "Is") || name == "HashCode" {
			continue
		}
		o := m.Call(nil)[0]
		switch o.Kind() {
		case reflect.String, reflect.Bool, reflect.Int, reflect.Float32, reflect.Uint8:
			fmt.Fprintf(b, " %s=%v", name, o)
		case reflect.Ptr, reflect.Interface:
			if !o.IsNil() && reflect.TypeOf(o.Interface()).Kind() == reflect.Ptr && isOurs(reflect.TypeOf(o.Interface())) {
				fmt.Fprintf(b, " %s={", name)
				describe(b, o.Interface(), depth-1)
				b.WriteByte('}')
			}
		}
	}
}

func runWays(x *fw.Ctx, c waysCase) error {
	x.Class(c.Of)
	mutated := c.Text != ""
	if mutated {
		x.Class("damaged")
	} else {
		x.Class("well-formed")
	}
	var all []outcome
	add := func(way string, v interface{}, err error) { all = append(all, outcomeOf(way, v, err)) }
	text := func(s string) string { return pick2(mutated, c.Text, s) }
	switch c.Of {
	case "header":
		s := text(c.H.text())
		p, ok := headerParsers[parserKey(c.H.Kind)]
		if !ok {
			return errf("no parser for %s", c.H.Kind)
		}
		v, err := p[0](s + "\n").Parse()
		add("the parser of the text", v, err)
		v, err = p[1](s + "\n").Parse()
		add("the parser of the lexer", v, err)
		if !mutated {
			fp, err := parser.CreateParser(s + "\n")
			if err != nil {
				add("the factory", nil, err)
			} else {
				v, err := fp.Parse()
				add("the factory", v, err)
			}
			v, err = parser.NewStringMsgParser().ParseSIPHeader(s)
			add("ParseSIPHeader", v, err)
		}
		x.NonTrivial()
		x.Class(c.H.Kind)
	case "request-line":
		s := text(c.M.firstLine())
		v, err := parser.NewRequestLineParser(s + "\n").Parse()
		add("the parser of the text", v, err)
		v, err = parser.NewRequestLineParserFromLexer(lexerOf(s + "\n")).Parse()
		add("the parser of the lexer", v, err)
		if !mutated {
			v, err = parser.NewStringMsgParser().ParseSIPRequestLine(s)
			add("ParseSIPRequestLine", v, err)
			x.NonTrivial()
			if err := eq("encoding", v.String(), c.M.Method+" "+c.M.URI.canon()+" SIP/2.0\r\n"); err != nil {
				return err
			}
		}
	case "status-line":
		s := text(c.M.firstLine())
		v, err := parser.NewStatusLineParser(s + "\n").Parse()
		add("the parser of the text", v, err)
		v, err = parser.NewStatusLineParserFromLexer(lexerOf(s + "\n")).Parse()
		add("the parser of the lexer", v, err)
		if !mutated {
			v, err = parser.NewStringMsgParser().ParseSIPStatusLine(s)
			add("ParseSIPStatusLine", v, err)
			x.NonTrivial()
		}
	case "address":
		s := text(c.A.text())
		v, err := parser.NewAddressParser(s).Address()
		add("the parser of the text", v, err)
		v, err = parser.NewAddressParserFromLexer(lexerOf(s)).Address()
		add("the parser of the lexer", v, err)
		if !mutated {
			v, err = parser.NewStringMsgParser().ParseAddress(s)
			add("ParseAddress", v, err)
			x.NonTrivial()
		}
	case "url":
		s := text(c.U.text())
		v, err := parser.NewURLParser(s).Parse()
		add("the parser of the text", v, err)
		v, err = parser.NewURLParserFromLexer(lexerOf(s)).Parse()
		add("the parser of the lexer", v, err)
		if !mutated {
			v, err = parser.NewURLParser(s).UriReference()
			add("UriReference", v, err)
			w, err := parser.NewStringMsgParser().ParseUrl(s)
			if err != nil || all[0].err == nil && !strings.HasPrefix(all[0].text, fmt.Sprintf("%T %s", all[0].v, w.String())) {
				return errf("%s: %s; ParseUrl: %v, %v", all[0].way, all[0].text, w, err)
			}
			switch c.U.Kind {
			case "sip":
				w, err := parser.NewURLParser(s).SipURL()
				add("SipURL", w, err)
				u, err := parser.NewStringMsgParser().ParseSIPUrl(s)
				add("ParseSIPUrl", u, err)
			case "tel":
				u, err := parser.NewURLParser(s).TelURL()
				add("TelURL", u, err)
			}
			x.NonTrivial()
		}
	case "telephone":
		s := text(c.Tel.encode()[len("tel:"):])
		v, err := parser.NewURLParser(s).ParseTelephoneNumber()
		add("the parser of the text", v, err)
		v, err = parser.NewURLParserFromLexer(lexerOf(s)).ParseTelephoneNumber()
		add("the parser of the lexer", v, err)
		if !mutated {
			v, err = parser.NewStringMsgParser().ParSetelephoneNumber(s)
			add("ParSetelephoneNumber", v, err)
			u, err := parser.NewURLParser("tel:" + s).TelURL()
			if err != nil {
				return errf("the number of %q: %v", "tel:"+s, err)
			}
			if all[0].err == nil {
				n := all[0].v.(*address.TelephoneNumber)
				if err := firstErr(eq("number of the tel URL", u.GetPhoneNumber(), n.GetPhoneNumber()), eq("global", u.IsGlobal(), n.IsGlobal()), eq("encoding", u.String(), "tel:"+n.String())); err != nil {
					return err
				}
			}
			x.NonTrivial()
		}
	case "hostname":
		s := text(c.Host)
		v, err := core.NewHostNameParser(s).GetHost()
		add("the parser of the text", v, err)
		v, err = core.NewHostNameParserFromLexer(lexerOf(s)).GetHost()
		add("the parser of the lexer", v, err)
		if !mutated {
			v, err = parser.NewStringMsgParser().ParseHost(s)
			add("ParseHost", v, err)
			x.NonTrivial()
		}
	case "host":
		s := text(c.Host)
		v, err := core.NewHostNameParser(s).GetHostPort()
		add("the parser of the text", v, err)
		v, err = core.NewHostNameParserFromLexer(lexerOf(s)).GetHostPort()
		add("the parser of the lexer", v, err)
		if !mutated {
			v, err = parser.NewStringMsgParser().ParseHostPort(s)
			add("ParseHostPort", v, err)
			x.NonTrivial()
		}
	}
	for _, o := range all {
		if (o.err == nil) != (all[0].err == nil) || o.text != all[0].text {
			return errf("%s: %q, %v; %s: %q, %v", all[0].way, all[0].text, all[0].err, o.way, o.text, o.err)
		}
	}
	if !mutated && all[0].err != nil {
		return all[0].err
	}
	x.Class(pick2(all[0].err == nil, "accepted", "refused"))
	return nil
}

// assemble puts a message together from its parts, each parsed on its own.
func assemble(m msgM) (sipMsg, error) {
	p := parser.NewStringMsgParser()
	var g sipMsg
	if m.Req {
		l, err := p.ParseSIPRequestLine(m.firstLine())
		if err != nil {
			return nil, errf("%q: %v", m.firstLine(), err)
		}
		r := message.NewSIPRequest()
		r.SetRequestLine(l)
		g = r
	} else {
		l, err := p.ParseSIPStatusLine(m.firstLine())
		if err != nil {
			return nil, errf("%q: %v", m.firstLine(), err)
		}
		r := message.NewSIPResponse()
		r.SetStatusLine(l)
		g = r
	}
	for _, l := range m.lines()[1:] {
		h, err := p.ParseSIPHeader(l)
		if err != nil {
			return nil, errf("%q: %v", l, err)
		}
		if err := g.AttachHeader(h); err != nil {
			return nil, errf("%q: %v", l, err)
		}
	}
	if m.Body != "" {
		g.SetMessageContent(string(m.Body))
	}
	return g, nil
}

func runMessageWays(x *fw.Ctx, m msgM) error {
	classMsg(x, m)
	if len(m.Hdrs) >= 4 {
		x.NonTrivial()
	}
	m.Extra = ""
	text := m.text()
	g, err := parseMsg(text)
	if err != nil {
		return err
	}
	b, err := parser.NewStringMsgParser().ParseSIPMessageFromByte([]byte(text))
	if err != nil {
		return errf("from bytes: %v", err)
	}
	a, err := assemble(m)
	if err != nil {
		return err
	}
	for _, o := range []struct {
		how string
		g   sipMsg
	}{{"parsed from bytes", b.(sipMsg)}, {"put together from parts parsed alone", a}} {
		if err := firstErr(eq("encoding "+o.how, o.g.String(), g.String()), eq("body "+o.how, o.g.GetMessageContent(), g.GetMessageContent())); err != nil {
			return err
		}
		names := listStrings(g.GetHeaderNames())
		if err := eqStrings("header names "+o.how, listStrings(o.g.GetHeaderNames()), names); err != nil {
			return err
		}
		for _, n := range names {
			gh, oh := listerHeaders(g.GetHeaders(n)), listerHeaders(o.g.GetHeaders(n))
			if err := eq("number of "+n+" "+o.how, len(oh), len(gh)); err != nil {
				return err
			}
			for i := range gh {
				if err := eq(n+" "+o.how, outcomeOf("", oh[i], nil).text, outcomeOf("", gh[i], nil).text); err != nil {
					return err
				}
			}
		}
	}
	return nil
}

func init() {
	fw.Add("C35", "messages", "messages parsed from a text, from bytes, and put together from start line and headers parsed on their own: the same encoding, body, names and headers; non-trivial: at least four header lines", 1000, 40000, genMsg, runMessageWays)
	fw.Add("C35", "ways", "a header of any kind, start line, address, URI or host, well-formed or (one case in three) damaged, parsed by its parser made from a text and made from a lexer, and when well-formed also by the factory and the message parser's methods: all refuse it or all give the same type and encoding; non-trivial: a header, or well-formed", 8000, 300000, genWays, runWays)
}
