package props

import (
	"reflect"
	"runtime"
	"strings"
	"time"

	"github.com/use-go/gosips/core"
	"github.com/use-go/gosips/sip/message"
	"github.com/use-go/gosips/sip/parser"
	"pgregory.net/rapid"

	"verif/harness/fw"
)

// ------------------------------------------------------------------- C03

type entryPoint struct {
	name string
	kind string // what it takes: message, header, start, uri, host
	f    func(s string) (interface{}, error)
}

func hp(name string, mk func(string) parser.Parser) entryPoint {
	return entryPoint{name, "header", func(s string) (interface{}, error) { return mk(s).Parse() }}
}

type acceptAll struct{ n int }

func (a *acceptAll) HandleException(err error, m message.Message, h, t string) error {
	a.n++
	return nil
}

func msgParser() *parser.StringMsgParser { return parser.NewStringMsgParser() }

var entryPoints = []entryPoint{
	{"ParseSIPMessage", "message", func(s string) (interface{}, error) { return msgParser().ParseSIPMessage(s) }},
	{"ParseSIPMessageFromByte", "message", func(s string) (interface{}, error) { return msgParser().ParseSIPMessageFromByte([]byte(s)) }},
	{"ParseSIPMessage with listener", "message", func(s string) (interface{}, error) {
		p := msgParser()
		p.SetParseExceptionListener(&acceptAll{})
		return p.ParseSIPMessage(s)
	}},
	{"ParseSIPHeader", "header", func(s string) (interface{}, error) { return msgParser().ParseSIPHeader(s) }},
	{"CreateParser", "header", func(s string) (interface{}, error) {
		p, err := parser.CreateParser(s)
		if err != nil {
			if p != nil {
				return nil, errf("a parser and an error")
			}
			return nil, err
		}
		return p.Parse()
	}},
	{"ParseSIPRequestLine", "start", func(s string) (interface{}, error) { return msgParser().ParseSIPRequestLine(s) }},
	{"ParseSIPStatusLine", "start", func(s string) (interface{}, error) { return msgParser().ParseSIPStatusLine(s) }},
	{"NewRequestLineParser", "start", func(s string) (interface{}, error) { return parser.NewRequestLineParser(s).Parse() }},
	{"NewStatusLineParser", "start", func(s string) (interface{}, error) { return parser.NewStatusLineParser(s).Parse() }},
	{"ParseAddress", "uri", func(s string) (interface{}, error) { return msgParser().ParseAddress(s) }},
	{"ParseUrl", "uri", func(s string) (interface{}, error) { return msgParser().ParseUrl(s) }},
	{"ParseSIPUrl", "uri", func(s string) (interface{}, error) { return msgParser().ParseSIPUrl(s) }},
	{"ParSetelephoneNumber", "uri", func(s string) (interface{}, error) { return msgParser().ParSetelephoneNumber(s) }},
	{"NewURLParser", "uri", func(s string) (interface{}, error) { return parser.NewURLParser(s).Parse() }},
	{"UriReference", "uri", func(s string) (interface{}, error) { return parser.NewURLParser(s).UriReference() }},
	{"SipURL", "uri", func(s string) (interface{}, error) { return parser.NewURLParser(s).SipURL() }},
	{"TelURL", "uri", func(s string) (interface{}, error) { return parser.NewURLParser(s).TelURL() }},
	{"ParseTelephoneNumber", "uri", func(s string) (interface{}, error) { return parser.NewURLParser(s).ParseTelephoneNumber() }},
	{"NewAddressParser", "uri", func(s string) (interface{}, error) { return parser.NewAddressParser(s).Address() }},
	{"NameAddr", "uri", func(s string) (interface{}, error) { return parser.NewAddressParser(s).NameAddr() }},
	{"ParseHost", "host", func(s string) (interface{}, error) { return msgParser().ParseHost(s) }},
	{"ParseHostPort", "host", func(s string) (interface{}, error) { return msgParser().ParseHostPort(s) }},
	{"NewHostNameParser", "host", func(s string) (interface{}, error) { return core.NewHostNameParser(s).GetHost() }},
	{"NewHostNameParser host and port", "host", func(s string) (interface{}, error) { return core.NewHostNameParser(s).GetHostPort() }},
	hp("Accept", func(s string) parser.Parser { return parser.NewAcceptParser(s) }),
	hp("AcceptEncoding", func(s string) parser.Parser { return parser.NewAcceptEncodingParser(s) }),
	hp("AcceptLanguage", func(s string) parser.Parser { return parser.NewAcceptLanguageParser(s) }),
	hp("AlertInfo", func(s string) parser.Parser { return parser.NewAlertInfoParser(s) }),
	hp("Allow", func(s string) parser.Parser { return parser.NewAllowParser(s) }),
	hp("AllowEvents", func(s string) parser.Parser { return parser.NewAllowEventsParser(s) }),
	hp("AuthenticationInfo", func(s string) parser.Parser { return parser.NewAuthenticationInfoParser(s) }),
	hp("Authorization", func(s string) parser.Parser { return parser.NewAuthorizationParser(s) }),
	hp("CallID", func(s string) parser.Parser { return parser.NewCallIDParser(s) }),
	hp("CallInfo", func(s string) parser.Parser { return parser.NewCallInfoParser(s) }),
	hp("Contact", func(s string) parser.Parser { return parser.NewContactParser(s) }),
	hp("ContentDisposition", func(s string) parser.Parser { return parser.NewContentDispositionParser(s) }),
	hp("ContentEncoding", func(s string) parser.Parser { return parser.NewContentEncodingParser(s) }),
	hp("ContentLanguage", func(s string) parser.Parser { return parser.NewContentLanguageParser(s) }),
	hp("ContentLength", func(s string) parser.Parser { return parser.NewContentLengthParser(s) }),
	hp("ContentType", func(s string) parser.Parser { return parser.NewContentTypeParser(s) }),
	hp("CSeq", func(s string) parser.Parser { return parser.NewCSeqParser(s) }),
	hp("Date", func(s string) parser.Parser { return parser.NewDateParser(s) }),
	hp("ErrorInfo", func(s string) parser.Parser { return parser.NewErrorInfoParser(s) }),
	hp("Event", func(s string) parser.Parser { return parser.NewEventParser(s) }),
	hp("Expires", func(s string) parser.Parser { return parser.NewExpiresParser(s) }),
	hp("From", func(s string) parser.Parser { return parser.NewFromParser(s) }),
	hp("Header", func(s string) parser.Parser { return parser.NewHeaderParser(s) }),
	hp("InReplyTo", func(s string) parser.Parser { return parser.NewInReplyToParser(s) }),
	hp("MaxForwards", func(s string) parser.Parser { return parser.NewMaxForwardsParser(s) }),
	hp("MimeVersion", func(s string) parser.Parser { return parser.NewMimeVersionParser(s) }),
	hp("MinExpires", func(s string) parser.Parser { return parser.NewMinExpiresParser(s) }),
	hp("Organization", func(s string) parser.Parser { return parser.NewOrganizationParser(s) }),
	hp("Priority", func(s string) parser.Parser { return parser.NewPriorityParser(s) }),
	hp("ProxyAuthenticate", func(s string) parser.Parser { return parser.NewProxyAuthenticateParser(s) }),
	hp("ProxyAuthorization", func(s string) parser.Parser { return parser.NewProxyAuthorizationParser(s) }),
	hp("ProxyRequire", func(s string) parser.Parser { return parser.NewProxyRequireParser(s) }),
	hp("RAck", func(s string) parser.Parser { return parser.NewRAckParser(s) }),
	hp("RSeq", func(s string) parser.Parser { return parser.NewRSeqParser(s) }),
	hp("Reason", func(s string) parser.Parser { return parser.NewReasonParser(s) }),
	hp("RecordRoute", func(s string) parser.Parser { return parser.NewRecordRouteParser(s) }),
	hp("ReferTo", func(s string) parser.Parser { return parser.NewReferToParser(s) }),
	hp("ReplyTo", func(s string) parser.Parser { return parser.NewReplyToParser(s) }),
	hp("Require", func(s string) parser.Parser { return parser.NewRequireParser(s) }),
	hp("RetryAfter", func(s string) parser.Parser { return parser.NewRetryAfterParser(s) }),
	hp("Route", func(s string) parser.Parser { return parser.NewRouteParser(s) }),
	hp("Server", func(s string) parser.Parser { return parser.NewServerParser(s) }),
	hp("Subject", func(s string) parser.Parser { return parser.NewSubjectParser(s) }),
	hp("SubscriptionState", func(s string) parser.Parser { return parser.NewSubscriptionStateParser(s) }),
	hp("Supported", func(s string) parser.Parser { return parser.NewSupportedParser(s) }),
	hp("TimeStamp", func(s string) parser.Parser { return parser.NewTimeStampParser(s) }),
	hp("To", func(s string) parser.Parser { return parser.NewToParser(s) }),
	hp("Unsupported", func(s string) parser.Parser { return parser.NewUnsupportedParser(s) }),
	hp("UserAgent", func(s string) parser.Parser { return parser.NewUserAgentParser(s) }),
	hp("Via", func(s string) parser.Parser { return parser.NewViaParser(s) }),
	hp("WWWAuthenticate", func(s string) parser.Parser { return parser.NewWWWAuthenticateParser(s) }),
	hp("Warning", func(s string) parser.Parser { return parser.NewWarningParser(s) }),
}

var entryByName = map[string]entryPoint{}
var entryNames = map[string][]string{}

func init() {
	for _, e := range entryPoints {
		entryByName[e.name] = e
		entryNames[e.kind] = append(entryNames[e.kind], e.name)
	}
}

func isNilResult(v interface{}) bool {
	if v == nil {
		return true
	}
	r := reflect.ValueOf(v)
	switch r.Kind() {
	case reflect.Ptr, reflect.Interface, reflect.Slice, reflect.Map:
		return r.IsNil()
	}
	return false
}

// readAll calls every accessor without arguments, and those of what they
// return; a panic is the failure.
func readAll(v interface{}, depth int) int {
	if depth == 0 || isNilResult(v) {
		return 0
	}
	r := reflect.ValueOf(v)
	t := r.Type()
	n := 0
	for i := 0; i < r.NumMethod(); i++ {
		name := t.Method(i).Name
		if r.Method(i).Type().NumIn() != 0 || r.Method(i).Type().NumOut() == 0 {
			continue
		}
		if !strings.HasPrefix(name, "Get") && !strings.HasPrefix(name, "Has") && !strings.HasPrefix(name, "Is") && !strings.HasPrefix(name, "Encode") && name != "String" && name != "Clone" || name == "HashCode" {
			continue
		}
		if m, ok := v.(sipMsg); ok && strings.HasPrefix(name, "GetVia") && name != "GetViaHeaders" && m.GetTopmostVia() == nil {
			continue // of the topmost Via, which there has to be
		}
		if m, ok := v.(sipMsg); ok && name == "GetTransactionId" && (m.GetFrom() == nil || m.GetTo() == nil || m.GetCallId() == nil || m.GetCSeq() == nil) {
			continue // of a message with its mandatory headers
		}
		n++
		for _, o := range r.Method(i).Call(nil) {
			if o.Kind() == reflect.Ptr && strings.Contains(o.Type().Elem().PkgPath(), "gosips") || o.Kind() == reflect.Interface {
				if o.CanInterface() && !o.IsNil() && strings.Contains(reflect.TypeOf(o.Interface()).String(), ".") && reflect.TypeOf(o.Interface()).Kind() == reflect.Ptr {
					n += readAll(o.Interface(), depth-1)
				}
			}
		}
	}
	return n
}

type fuzzCase struct {
	Entry string
	Text  fw.S
}

var fuzzTokens = []string{"\r\n", "\n", "\r", " ", "\t", ":", ";", ",", "<", ">", "\"", "\\", "\\\"", "(", ")", "[", "]", "@", "=", "?", "&", "%", "%4", "%41", "%zz", "/", "*", "+", "-", ".", "\x00", "\x7f", "\xff", "\xc3\xa9", "sip:", "sips:", "tel:", "tel:+1", "SIP/2.0", "SIP/2.0/UDP", "INVITE", "0", "-1", "4294967296", "99999999999999999999", ";tag=", ";q=", "Digest ", "realm=\"", "Content-Length: 5\r\n", "Content-Length: 999999999\r\n", "Content-Length: -1\r\n", "\r\n\r\n", "[::1]", "127.0.0.1", "\"\"", "<>", "()", ";;", ",,", "a", "Via:", "From:", "To:", ";=", "&=", "?=", "@@", "::", " :", "GMT", "Sat, 13 Nov 2010 23:29:00 GMT"}

// mutate damages a text.
func mutate(t *rapid.T, s string, n int) string {
	for ; n > 0; n-- {
		at := func(k string, hi int) int {
			if hi <= 0 {
				return 0
			}
			return intr(t, k, 0, hi)
		}
		i := at("i", len(s))
		j := i + at("len", min(len(s)-i, 12))
		switch intr(t, "mut", 0, 7) {
		case 0: // cut a piece out
			s = s[:i] + s[j:]
		case 1: // cut off
			s = s[:i]
		case 2, 3: // put something in
			s = s[:i] + pick(t, "tok", fuzzTokens...) + s[i:]
		case 4: // replace
			s = s[:i] + pick(t, "tok", fuzzTokens...) + s[j:]
		case 5: // repeat
			s = s[:j] + strings.Repeat(s[i:j], intr(t, "times", 1, 3)) + s[j:]
		case 6: // any byte
			if i < len(s) {
				s = s[:i] + string([]byte{byte(intr(t, "byte", 0, 255))}) + s[i+1:]
			}
		case 7: // the piece elsewhere
			k := at("k", len(s))
			p := s[i:j]
			s = s[:k] + p + s[k:]
		}
	}
	return s
}

func fuzzBase(t *rapid.T, kind string) string {
	switch kind {
	case "message":
		return genMsgN(t, 3, 2).text()
	case "header":
		return genHdr(t, pick(t, "kind", kindNames...), 3).text() + pick(t, "eol", "\r\n", "\n", "", "")
	case "start":
		m := msgM{}
		genStart(t, &m)
		return m.firstLine() + pick(t, "eol", "\r\n", "\n", "")
	case "uri":
		if rapid.Bool().Draw(t, "addr") {
			return genHeaderAddr(t).text()
		}
		u := genURI(t, true)
		return u.text()
	}
	return genHost(t).Text + pick(t, "port", "", ":5060", ":", ":0")
}

var fuzzKinds = []string{"message", "header", "header", "header", "start", "uri", "uri", "host"}

func genFuzz(t *rapid.T) fuzzCase {
	kind := pick(t, "kind of entry", fuzzKinds...)
	c := fuzzCase{Entry: pick(t, "entry", entryNames[kind]...)}
	var s string
	switch intr(t, "source", 0, 9) {
	case 0: // any bytes
		s = string(rapid.SliceOfN(rapid.Byte(), 0, 60).Draw(t, "bytes"))
	case 1: // any tokens
		var b strings.Builder
		for n := intr(t, "n", 0, 12); n > 0; n-- {
			b.WriteString(pick(t, "tok", fuzzTokens...))
		}
		s = b.String()
	case 2: // text of another kind
		s = mutate(t, fuzzBase(t, pick(t, "other", fuzzKinds...)), intr(t, "muts", 0, 3))
	case 3: // the text of another header under this name
		s = fuzzBase(t, kind)
		o := fuzzBase(t, kind)
		if i, j := strings.Index(s, ":"), strings.Index(o, ":"); i >= 0 && j >= 0 {
			s = s[:i] + o[j:]
		}
		s = mutate(t, s, intr(t, "muts", 0, 3))
	default:
		s = mutate(t, fuzzBase(t, kind), intr(t, "muts", 1, 4))
	}
	if e := entryByName[c.Entry]; e.kind == "header" && c.Entry != "ParseSIPHeader" && c.Entry != "CreateParser" && rapid.Bool().Draw(t, "name") {
		// under a header name the parser accepts
		h := hdrM{Kind: pick(t, "named", kindNames...)}
		if k := ownKind(c.Entry); k != "" {
			h.Kind = k
		}
		if i := strings.Index(s, ":"); i >= 0 {
			s = h.Kind + s[i:]
		} else {
			s = h.Kind + ":" + s
		}
	}
	c.Text = fw.S(s)
	return c
}

func runFuzz(x *fw.Ctx, c fuzzCase) error {
	e := entryByName[c.Entry]
	if e.f == nil {
		return errf("harness: no entry %q", c.Entry)
	}
	var v interface{}
	var err error
	if p := fw.Try(func() { v, err = e.f(string(c.Text)) }); p != nil {
		return errf("%s(%q): %v", c.Entry, c.Text, p)
	}
	if err != nil {
		x.Class("refused")
		if !isNilResult(v) {
			return errf("%s(%q): both a result and the error %v", c.Entry, c.Text, err)
		}
		if p := fw.Try(func() { _ = err.Error() }); p != nil {
			return errf("%s(%q): %v", c.Entry, c.Text, p)
		}
		return nil
	}
	x.Class("accepted")
	x.Class("accepted by a parser of kind " + e.kind)
	if isNilResult(v) {
		return errf("%s(%q): neither a result nor an error", c.Entry, c.Text)
	}
	x.NonTrivial()
	if s, ok := v.(interface{ String() string }); ok {
		if p := fw.Try(func() { _ = s.String() }); p != nil {
			return errf("%s(%q).String: %v", c.Entry, c.Text, p)
		}
	}
	if p := fw.Try(func() { readAll(v, 2) }); p != nil {
		return errf("accessors of %s(%q): %v", c.Entry, c.Text, p)
	}
	if l, ok := v.(sipMsg); ok {
		for e := l.GetHeaderNames().Front(); e != nil; e = e.Next() {
			for _, h := range listerHeaders(l.GetHeaders(e.Value.(string))) {
				if p := fw.Try(func() { readAll(h, 1) }); p != nil {
					return errf("accessors of %s(%q): %v", c.Entry, c.Text, p)
				}
			}
		}
	}
	return nil
}

// growCase is a text with a part repeated.
type growCase struct {
	Entry            string
	Pre, Part, After fw.S
}

func (c growCase) text(n int) string {
	return string(c.Pre) + strings.Repeat(string(c.Part), n) + string(c.After)
}

func allocs(f func()) uint64 {
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	f()
	runtime.ReadMemStats(&b)
	return b.TotalAlloc - a.TotalAlloc
}

func init() {
	fw.Add("C03", "bytes", "a byte string (a well-formed text with up to four mutations, random bytes, a sequence of syntax tokens, a text of another kind, the value of another header) given to one of 75 parsing entry points: no panic, termination, exactly one of result and error; every accessor and the encoding of the result, and of a message's headers, called; non-trivial: the text was accepted", 60000, 1500000,
		genFuzz, runFuzz)
	fw.Add("C03", "growth", "a piece of a text, or a syntax token put into it, repeated 500 and 2000 times: parsed and encoded by one of the entry points; the memory allocated must not grow with the square of the length; non-trivial: the longer text makes it allocate over 100 kB", 6000, 200000,
		func(t *rapid.T) growCase { return genGrow(t, 12) }, func(x *fw.Ctx, c growCase) error {
			e := entryByName[c.Entry]
			var a, b uint64
			var p error
			use := func(n int) uint64 {
				text := c.text(n)
				return allocs(func() { p = encodeAny(e, text) })
			}
			a = use(500)
			if p != nil {
				return p
			}
			b = use(2000)
			if p != nil {
				return p
			}
			if b > 100000 {
				x.NonTrivial()
			}
			if b > 1000000 && b > 9*a {
				return errf("%s: %d bytes allocated for %d bytes of text, %d for %d", c.Entry, a, len(c.text(500)), b, len(c.text(2000)))
			}
			return nil
		})
	fw.Add("C03", "long", "a text of about 300 kB with a piece repeated, parsed and encoded by one of the entry points within 8 s of processor time; non-trivial: all", 300, 10000,
		func(t *rapid.T) growCase { return genGrow(t, 40) }, func(x *fw.Ctx, c growCase) error {
			x.NonTrivial()
			n := 1 + 300000/max(1, len(c.Part))
			start := fw.CPUTime()
			if err := encodeAny(entryByName[c.Entry], c.text(n)); err != nil {
				return err
			}
			if d := fw.CPUTime() - start; d > 8*time.Second {
				return errf("%s: %v for %d bytes", c.Entry, d, len(c.text(n)))
			}
			return nil
		})
}

// encodeAny parses a text and encodes the result.
func encodeAny(e entryPoint, text string) error {
	return fw.Try(func() {
		v, err := e.f(text)
		if s, ok := v.(interface{ String() string }); ok && err == nil && !isNilResult(v) {
			_ = s.String()
		}
	})
}

// ownKind is the kind of header a parser is for.
func ownKind(entry string) string {
	for _, k := range kindNames {
		if strings.EqualFold(strings.Replace(k, "-", "", -1), entry) {
			return k
		}
	}
	return ""
}

func genGrow(t *rapid.T, piece int) growCase {
	kind := pick(t, "kind of entry", fuzzKinds...)
	c := growCase{Entry: pick(t, "entry", entryNames[kind]...)}
	s := fuzzBase(t, kind)
	if k := ownKind(c.Entry); k != "" {
		s = genHdr(t, k, 3).text() + "\n"
	}
	i := intr(t, "i", 0, len(s))
	j := i + intr(t, "len", 0, min(piece, len(s)-i))
	part := s[i:j]
	if part == "" || rapid.Bool().Draw(t, "tok") {
		part = pick(t, "tok", fuzzTokens...)
	}
	c.Pre, c.Part, c.After = fw.S(s[:i]), fw.S(part), fw.S(s[j:])
	return c
}

// FuzzTextCase is the case of a text given to one of the entry points.
func FuzzTextCase(entry int, text string) interface{} {
	return fuzzCase{entryPoints[entry%len(entryPoints)].name, fw.S(text)}
}

// RunFuzzText runs it.
func RunFuzzText(x *fw.Ctx, c interface{}) error { return runFuzz(x, c.(fuzzCase)) }

// FuzzSeeds gives well-formed texts, each for the entry point of its number.
func FuzzSeeds(n int) (l []string) {
	for i := 0; i < n; i++ {
		e := entryPoints[i%len(entryPoints)]
		l = append(l, rapid.Custom(func(t *rapid.T) string {
			if k := ownKind(e.name); k != "" {
				return genHdr(t, k, 3).text() + "\n"
			}
			return fuzzBase(t, e.kind)
		}).Example(i))
	}
	return l
}
