package props

import (
	"container/list"
	"math"
	"strconv"
	"strings"
	"time"

	"github.com/use-go/gosips/core"
	"github.com/use-go/gosips/sip/address"
	"github.com/use-go/gosips/sip/header"
	"pgregory.net/rapid"

	"verif/harness/fw"
)

// sval is a setter's argument.
type sval struct {
	S string  `json:",omitempty"`
	I int     `json:",omitempty"`
	A *addrM  `json:",omitempty"`
	U *uriM   `json:",omitempty"`
	H *hostM  `json:",omitempty"`
	P *hparam `json:",omitempty"`
}

// setter changes one part of a header.
type setter struct {
	name  string
	good  func(t *rapid.T) sval
	bad   func(t *rapid.T) sval // nil: no value is out of range
	call  func(h header.Header, v sval) error
	model func(e *elem, v sval)
}

var setters = map[string][]*setter{}

func setterOf(kind, name string) *setter {
	for _, s := range setters[kind] {
		if s.name == name {
			return s
		}
	}
	panic("no setter " + kind + " " + name)
}

func addSetter(kind string, s ...*setter) { setters[kind] = append(setters[kind], s...) }

// sS changes a string part, sI a number.
func sS(i int) func(e *elem, v sval) {
	return func(e *elem, v sval) {
		l := append([]string{}, e.S...)
		l[i] = v.S
		e.S = l
	}
}

func sI(i int) func(e *elem, v sval) {
	return func(e *elem, v sval) {
		l := append([]int{}, e.I...)
		l[i] = v.I
		e.I = l
	}
}

// sP sets a token parameter, sPQ a quoted one.
func sP(n string) func(e *elem, v sval) {
	return func(e *elem, v sval) { e.P = hpSet(e.P, hparam{N: n, V: v.S}) }
}

func sPI(n string) func(e *elem, v sval) {
	return func(e *elem, v sval) { e.P = hpSet(e.P, hparam{N: n, V: strconv.Itoa(v.I)}) }
}

func sPQ(n string) func(e *elem, v sval) {
	return func(e *elem, v sval) { e.P = hpSetQ(e.P, n, v.S) }
}

func hpSetQ(l []hparam, n, v string) []hparam {
	l = hpSet(l, hparam{N: n, V: v, K: "q"})
	l[hpIndex(l, n)].K = "q"
	return l
}

func str(gen func(t *rapid.T) string) func(t *rapid.T) sval {
	return func(t *rapid.T) sval { return sval{S: gen(t)} }
}

func num(gen func(t *rapid.T) int) func(t *rapid.T) sval {
	return func(t *rapid.T) sval { return sval{I: gen(t)} }
}

func empty(t *rapid.T) sval { return sval{} }

func negative(t *rapid.T) sval {
	return sval{I: pick(t, "neg", -1, -2, -255, math.MinInt32, math.MinInt64)}
}

func delta(t *rapid.T) sval { return sval{I: genNum(t, "delta")} }

// f32 reads the number a case carries as text.
func f32(v sval) float32 {
	f, _ := strconv.ParseFloat(v.S, 32)
	return float32(f)
}

// text is the setter of a text part that must not be empty.
func textSetter(name string, gen func(t *rapid.T) string, call func(h header.Header, s string) error, model func(e *elem, v sval)) *setter {
	return &setter{name: name, good: str(gen), bad: empty, call: func(h header.Header, v sval) error { return call(h, v.S) }, model: model}
}

// intSetter is the setter of a number that must not be negative.
func intSetter(name string, call func(h header.Header, n int) error, model func(e *elem, v sval)) *setter {
	return &setter{name: name, good: delta, bad: negative, call: func(h header.Header, v sval) error { return call(h, v.I) }, model: model}
}

func addQSetters(kind string) {
	type qh interface {
		SetQValue(float32) error
		RemoveQValue()
	}
	addSetter(kind, &setter{name: "SetQValue",
		good: func(t *rapid.T) sval {
			return sval{S: pick(t, "q", "0", "1", "0.5", "0.25", "0.875", "0.1", "0.999", "0.001")}
		},
		bad: func(t *rapid.T) sval {
			return sval{S: pick(t, "q", "-0.1", "1.1", "NaN", "Inf", "-Inf", "2", "-0.001", "1.001", "1e10")}
		},
		call:  func(h header.Header, v sval) error { return h.(qh).SetQValue(f32(v)) },
		model: sP("q"),
	}, &setter{name: "RemoveQValue", good: empty, call: func(h header.Header, v sval) error { h.(qh).RemoveQValue(); return nil },
		model: func(e *elem, v sval) { e.P = hpDel(e.P, "q") }})
}

type paramSetter interface {
	SetParameter(string, string) error
	SetQuotedParameter(string, string)
	RemoveParameter(string)
}

// addParamSetters gives a kind the setters of its generic parameters.
func addParamSetters(kind string, avoid ...string) {
	gen := func(q bool) func(t *rapid.T) sval {
		return func(t *rapid.T) sval {
			p := hparam{N: pick(t, "n", "x", "foo", "X", "Bar", "bar")}
			if q {
				p.V = genQuotedInner(t, "v")
			} else {
				p.V = genToken(t, "v")
			}
			return sval{P: &p}
		}
	}
	addSetter(kind, &setter{name: "SetParameter", good: gen(false),
		call:  func(h header.Header, v sval) error { return h.(paramSetter).SetParameter(v.P.N, v.P.V) },
		model: func(e *elem, v sval) { e.P = hpSet(e.P, *v.P) },
	}, &setter{name: "SetQuotedParameter", good: gen(true),
		call:  func(h header.Header, v sval) error { h.(paramSetter).SetQuotedParameter(v.P.N, v.P.V); return nil },
		model: func(e *elem, v sval) { e.P = hpSetQ(e.P, v.P.N, v.P.V) },
	}, &setter{name: "RemoveParameter", good: func(t *rapid.T) sval {
		return sval{S: pick(t, "rm", append([]string{"x", "FOO", "bar"}, avoid...)...)}
	},
		call:  func(h header.Header, v sval) error { h.(paramSetter).RemoveParameter(v.S); return nil },
		model: func(e *elem, v sval) { e.P = hpDel(e.P, v.S) },
	})
}

func init() {
	// addresses
	for _, n := range []string{"From", "To", "Reply-To", "Refer-To", "Contact", "Route", "Record-Route"} {
		addSetter(n, &setter{name: "SetAddress", good: func(t *rapid.T) sval {
			a := genHeaderAddr(t)
			if a.Form == "spec" {
				a.Form = "angle"
			}
			return sval{A: a}
		}, call: func(h header.Header, v sval) error {
			g, err := buildNameAddr(*v.A)
			if err == nil {
				h.(addrHeader).SetAddress(g)
			}
			return err
		}, model: func(e *elem, v sval) { e.A = v.A }})
	}
	for _, n := range []string{"From", "To"} {
		type tagged interface {
			SetTag(string) error
			RemoveTag()
		}
		addSetter(n, &setter{name: "SetTag", good: str(genTok), bad: func(t *rapid.T) sval { return sval{S: pick(t, "bad", "", " ", "\t ")} },
			call: func(h header.Header, v sval) error { return h.(tagged).SetTag(v.S) }, model: sP("tag")},
			&setter{name: "RemoveTag", good: empty, call: func(h header.Header, v sval) error { h.(tagged).RemoveTag(); return nil },
				model: func(e *elem, v sval) { e.P = hpDel(e.P, "tag") }})
		addParamSetters(n, "tag")
	}
	for _, n := range []string{"Reply-To", "Refer-To", "Route", "Record-Route", "Alert-Info"} {
		addParamSetters(n)
	}
	addQSetters("Contact")
	addParamSetters("Contact", "q", "expires")
	addSetter("Contact", intSetter("SetExpires", func(h header.Header, n int) error { return h.(*header.Contact).SetExpires(n) }, sPI("expires")),
		&setter{name: "SetWildCardFlag(false)", good: empty, call: func(h header.Header, v sval) error { h.(*header.Contact).SetWildCardFlag(false); return nil }, model: func(e *elem, v sval) {}})

	// Via
	via := func(h header.Header) *header.Via { return h.(*header.Via) }
	addParamSetters("Via", "branch", "received", "maddr", "ttl", "rport")
	addSetter("Via",
		&setter{name: "SetHost", good: func(t *rapid.T) sval { return sval{H: genViaHost(t), I: intr(t, "bare", 0, 1)} }, call: func(h header.Header, v sval) error { via(h).SetHost(core.NewHost(v.H.arg(v.I > 0))); return nil },
			model: func(e *elem, v sval) { e.H = v.H }},
		&setter{name: "SetHostFromString", good: func(t *rapid.T) sval { return sval{H: genViaHost(t), I: intr(t, "bare", 0, 1)} }, call: func(h header.Header, v sval) error { return via(h).SetHostFromString(v.H.arg(v.I > 0)) },
			model: func(e *elem, v sval) { e.H = v.H }},
		&setter{name: "SetPort", good: num(func(t *rapid.T) int { return intr(t, "port", 0, 65535) }), call: func(h header.Header, v sval) error { via(h).SetPort(v.I); return nil }, model: sI(0)},
		&setter{name: "RemovePort", good: empty, call: func(h header.Header, v sval) error { via(h).RemovePort(); return nil },
			model: func(e *elem, v sval) { e.I = []int{-1} }},
		&setter{name: "SetProtocolVersion", good: str(func(t *rapid.T) string { return pick(t, "ver", "2.0", "2.0", "3.1") }), call: func(h header.Header, v sval) error { via(h).SetProtocolVersion(v.S); return nil }, model: sS(1)},
		textSetter("SetProtocol", func(t *rapid.T) string { return pick(t, "proto", "SIP", "SIP", "X-PROTO") }, func(h header.Header, s string) error { return via(h).SetProtocol(s) }, sS(0)),
		textSetter("SetTransport", func(t *rapid.T) string { return pick(t, "trans", "UDP", "TCP", "TLS", "X-TR") }, func(h header.Header, s string) error { return via(h).SetTransport(s) }, sS(2)),
		&setter{name: "SetComment", good: str(func(t *rapid.T) string { return genComment(t, "comment") }), call: func(h header.Header, v sval) error { via(h).SetComment(v.S); return nil }, model: sS(3)},
		&setter{name: "RemoveComment", good: empty, call: func(h header.Header, v sval) error { via(h).RemoveComment(); return nil }, model: sS(3)},
		&setter{name: "SetTTL", good: num(func(t *rapid.T) int { return pick(t, "ttl", 0, 1, 255, 16, intr(t, "ttl2", 0, 255)) }), bad: num(func(t *rapid.T) int { return pick(t, "ttl", -2, 256, 1000, math.MinInt32, math.MaxInt32) }),
			call: func(h header.Header, v sval) error { return via(h).SetTTL(v.I) }, model: sPI("ttl")},
		&setter{name: "SetMAddr", good: func(t *rapid.T) sval {
			h := genHost(t)
			return sval{H: &h, S: h.Text, I: intr(t, "bare", 0, 1)}
		}, bad: empty, call: func(h header.Header, v sval) error {
			if v.H == nil {
				return via(h).SetMAddr("")
			}
			return via(h).SetMAddr(v.H.arg(v.I > 0))
		}, model: sP("maddr")},
		textSetter("SetReceived", func(t *rapid.T) string { return pick(t, "recv", "192.0.2.1", "2001:db8::1", "::1") }, func(h header.Header, s string) error { return via(h).SetReceived(s) }, sP("received")),
		textSetter("SetBranch", func(t *rapid.T) string { return "z9hG4bK" + genToken(t, "branch") }, func(h header.Header, s string) error { return via(h).SetBranch(s) }, sP("branch")))

	// authentication
	for _, n := range []string{"WWW-Authenticate", "Proxy-Authenticate", "Authorization", "Proxy-Authorization"} {
		au := func(name, p string, gen func(t *rapid.T) string, mandatory bool, call func(h authHeader, s string) error) {
			s := &setter{name: name, good: str(gen), call: func(h header.Header, v sval) error { return call(h.(authHeader), v.S) }, model: sPQ(p)}
			if mandatory {
				s.bad = empty
			}
			addSetter(n, s)
		}
		q := func(t *rapid.T) string {
			if s := genQuotedInner(t, "quoted"); s != "" {
				return s
			}
			return "v"
		}
		au("SetRealm", "realm", q, true, func(h authHeader, s string) error { return h.SetRealm(s) })
		au("SetNonce", "nonce", q, true, func(h authHeader, s string) error { return h.SetNonce(s) })
		au("SetAlgorithm", "algorithm", genTok, true, func(h authHeader, s string) error { return h.SetAlgorithm(s) })
		au("SetQop", "qop", func(t *rapid.T) string { return pick(t, "qop", "auth", "auth-int", "auth,auth-int") }, true, func(h authHeader, s string) error { return h.SetQop(s) })
		au("SetOpaque", "opaque", q, true, func(h authHeader, s string) error { return h.SetOpaque(s) })
		au("SetDomain", "domain", q, true, func(h authHeader, s string) error { return h.SetDomain(s) })
		au("SetCNonce", "cnonce", q, false, func(h authHeader, s string) error { return h.SetCNonce(s) })
		au("SetUsername", "username", q, false, func(h authHeader, s string) error { return h.SetUsername(s) })
		au("SetResponse", "response", func(t *rapid.T) string { return pick(t, "resp", "dfe56131d1958046689d83306477ecc", "0") }, true, func(h authHeader, s string) error { return h.SetResponse(s) })
		addSetter(n, &setter{name: "SetNonceCount", good: num(func(t *rapid.T) int { return pick(t, "nc", 0, 1, 16, 0xabcdef, 0xffffffff) }), bad: num(func(t *rapid.T) int { return pick(t, "nc", -1, -16, 1<<32, math.MaxInt64) }),
			call: func(h header.Header, v sval) error { return h.(authHeader).SetNonceCount(v.I) }, model: func(e *elem, v sval) {
				s := strconv.FormatInt(int64(v.I), 16)
				e.P = hpSet(e.P, hparam{N: "nc", V: strings.Repeat("0", 8-len(s)) + s})
			}},
			&setter{name: "SetStale", good: num(func(t *rapid.T) int { return intr(t, "stale", 0, 1) }), call: func(h header.Header, v sval) error { h.(authHeader).SetStale(v.I == 1); return nil },
				model: func(e *elem, v sval) {
					e.P = hpSet(e.P, hparam{N: "stale", V: strconv.FormatBool(v.I == 1)})
				}},
			&setter{name: "SetScheme", good: str(func(t *rapid.T) string { return pick(t, "scheme", "Digest", "Basic", "X") }), call: func(h header.Header, v sval) error { h.(authHeader).SetScheme(v.S); return nil }, model: sS(0)},
			&setter{name: "SetURI", good: func(t *rapid.T) sval { u := uriM{Kind: "sip", Sip: genSip(t)}; return sval{U: &u} }, bad: empty,
				call: func(h header.Header, v sval) error {
					if v.U == nil {
						return h.(authHeader).SetURI(nil)
					}
					u, err := v.U.build()
					if err != nil {
						return err
					}
					return h.(authHeader).SetURI(u)
				}, model: func(e *elem, v sval) {
					// set anew: it goes to the end
					e.P = append(hpDel(e.P, "uri"), hparam{N: "uri", V: v.U.canon(), K: "q"})
				}},
			&setter{name: "SetParameter", good: func(t *rapid.T) sval {
				p := hparam{N: pick(t, "n", "x", "foo", "X"), V: genToken(t, "v")}
				if rapid.Bool().Draw(t, "space") {
					p.V += " b"
				}
				return sval{P: &p}
			}, bad: func(t *rapid.T) sval { return sval{P: &hparam{N: "", V: "v"}} },
				call: func(h header.Header, v sval) error { return h.(authHeader).SetParameter(v.P.N, v.P.V) }, model: authParamModel},
			&setter{name: "RemoveParameter", good: str(func(t *rapid.T) string { return pick(t, "rm", "x", "realm", "URI", "nc", "qop") }),
				call: func(h header.Header, v sval) error {
					h.(interface{ RemoveParameter(string) }).RemoveParameter(v.S)
					return nil
				}, model: func(e *elem, v sval) { e.P = hpDel(e.P, v.S) }})
	}
	ai := func(name, p string, gen func(t *rapid.T) string, call func(h *header.AuthenticationInfo, s string) error) {
		addSetter("Authentication-Info", &setter{name: name, good: str(gen), call: func(h header.Header, v sval) error { return call(h.(*header.AuthenticationInfo), v.S) }, model: sPQ(p)})
	}
	q := func(t *rapid.T) string { return genQuotedInner(t, "quoted") }
	ai("SetCNonce", "cnonce", q, func(h *header.AuthenticationInfo, s string) error { return h.SetCNonce(s) })
	ai("SetNextNonce", "nextnonce", q, func(h *header.AuthenticationInfo, s string) error { return h.SetNextNonce(s) })
	ai("SetQop", "qop", func(t *rapid.T) string { return pick(t, "qop", "auth", "auth-int") }, func(h *header.AuthenticationInfo, s string) error { return h.SetQop(s) })
	ai("SetResponse", "rspauth", func(t *rapid.T) string { return pick(t, "resp", "dfe56131d1958046689d83306477ecc", "0") }, func(h *header.AuthenticationInfo, s string) error { return h.SetResponse(s) })
	addSetter("Authentication-Info", &setter{name: "SetNonceCount", good: num(func(t *rapid.T) int { return pick(t, "nc", 0, 1, 16, 0xabcdef, 0xffffffff) }), bad: num(func(t *rapid.T) int { return pick(t, "nc", -1, -16, 1<<32) }),
		call: func(h header.Header, v sval) error { return h.(*header.AuthenticationInfo).SetNonceCount(v.I) }, model: func(e *elem, v sval) {
			s := strconv.FormatInt(int64(v.I), 16)
			e.P = hpSet(e.P, hparam{N: "nc", V: strings.Repeat("0", 8-len(s)) + s})
		}},
		&setter{name: "SetParameter", good: func(t *rapid.T) sval { return sval{P: &hparam{N: pick(t, "n", "x", "foo", "X"), V: genToken(t, "v")}} }, bad: func(t *rapid.T) sval { return sval{P: &hparam{V: "v"}} },
			call: func(h header.Header, v sval) error { return h.(*header.AuthenticationInfo).SetParameter(v.P.N, v.P.V) }, model: authParamModel})

	// lists
	for _, n := range []string{"Require", "Proxy-Require", "Supported", "Unsupported"} {
		addSetter(n, textSetter("SetOptionTag", genTok, func(h header.Header, s string) error {
			return h.(interface{ SetOptionTag(string) error }).SetOptionTag(s)
		}, sS(0)))
	}
	addSetter("Allow", textSetter("SetMethod", genTok, func(h header.Header, s string) error { return h.(*header.Allow).SetMethod(s) }, sS(0)))
	addSetter("Allow-Events", textSetter("SetEventType", genTok, func(h header.Header, s string) error { return h.(*header.AllowEvents).SetEventType(s) }, sS(0)))
	addSetter("Content-Encoding", textSetter("SetEncoding", genTok, func(h header.Header, s string) error { return h.(*header.ContentEncoding).SetEncoding(s) }, sS(0)))
	addSetter("Content-Language",
		&setter{name: "SetContentLanguage", good: str(genLang), call: func(h header.Header, v sval) error { h.(*header.ContentLanguage).SetContentLanguage(v.S); return nil }, model: sS(0)},
		&setter{name: "SetLanguageTag", good: str(genLang), call: func(h header.Header, v sval) error { h.(*header.ContentLanguage).SetLanguageTag(v.S); return nil }, model: sS(0)})
	badCallID := func(t *rapid.T) sval { return sval{S: pick(t, "bad", "", "@", "@host", "local@")} }
	addSetter("In-Reply-To", &setter{name: "SetCallId", good: str(genTok), bad: badCallID, call: func(h header.Header, v sval) error { return h.(*header.InReplyTo).SetCallId(v.S) }, model: sS(0)})
	addQSetters("Accept")
	addParamSetters("Accept", "q")
	acc := func(h header.Header) *header.Accept { return h.(*header.Accept) }
	addSetter("Accept",
		&setter{name: "SetContentType", good: str(genTok), call: func(h header.Header, v sval) error { acc(h).SetContentType(v.S); return nil }, model: sS(0)},
		&setter{name: "SetContentSubType", good: str(genTok), call: func(h header.Header, v sval) error { acc(h).SetContentSubType(v.S); return nil }, model: sS(1)},
		&setter{name: "SetMediaRange", good: str(genTok), call: func(h header.Header, v sval) error { acc(h).SetMediaRange(mediaRange("x", v.S)); return nil },
			model: func(e *elem, v sval) { e.S = []string{"x", v.S} }})
	addQSetters("Accept-Encoding")
	addParamSetters("Accept-Encoding", "q")
	addSetter("Accept-Encoding", textSetter("SetEncoding", genTok, func(h header.Header, s string) error { return h.(*header.AcceptEncoding).SetEncoding(s) }, sS(0)))
	addQSetters("Accept-Language")
	addParamSetters("Accept-Language", "q")
	addSetter("Accept-Language",
		&setter{name: "SetLanguageRange", good: str(genLang), call: func(h header.Header, v sval) error { h.(*header.AcceptLanguage).SetLanguageRange(v.S); return nil }, model: sS(0)},
		&setter{name: "SetAcceptLanguage", good: str(genLang), call: func(h header.Header, v sval) error { h.(*header.AcceptLanguage).SetAcceptLanguage(v.S); return nil }, model: sS(0)})
	for _, x := range []struct {
		n   string
		set func(h header.Header, u address.URI)
	}{
		{"Alert-Info", func(h header.Header, u address.URI) { h.(*header.AlertInfo).SetAlertInfo(u) }},
		{"Call-Info", func(h header.Header, u address.URI) { h.(*header.CallInfo).SetInfo(u) }},
		{"Error-Info", func(h header.Header, u address.URI) { h.(*header.ErrorInfo).SetErrorInfo(u) }},
	} {
		x := x
		addSetter(x.n, &setter{name: "SetInfo", good: func(t *rapid.T) sval { u := genURI(t, true); return sval{U: &u} }, call: func(h header.Header, v sval) error {
			u, err := v.U.build()
			if err == nil {
				x.set(h, u)
			}
			return err
		}, model: func(e *elem, v sval) { e.U = v.U }})
	}
	addParamSetters("Call-Info", "purpose")
	addSetter("Call-Info", textSetter("SetPurpose", genTok, func(h header.Header, s string) error { return h.(*header.CallInfo).SetPurpose(s) }, sP("purpose")))
	addParamSetters("Error-Info", "message")
	addSetter("Error-Info", textSetter("SetErrorMessage", func(t *rapid.T) string { return "m" + genQuotedInner(t, "m") }, func(h header.Header, s string) error { return h.(*header.ErrorInfo).SetErrorMessage(s) }, sPQ("message")))
	addParamSetters("Reason", "cause", "text")
	rea := func(h header.Header) *header.Reason { return h.(*header.Reason) }
	addSetter("Reason", intSetter("SetCause", func(h header.Header, n int) error { return rea(h).SetCause(n) }, sPI("cause")),
		&setter{name: "SetText", good: str(q), call: func(h header.Header, v sval) error { return rea(h).SetText(v.S) }, model: sPQ("text")},
		&setter{name: "SetProtocol", good: str(genTok), call: func(h header.Header, v sval) error { return rea(h).SetProtocol(v.S) }, model: sS(0)})
	war := func(h header.Header) *header.Warning { return h.(*header.Warning) }
	addSetter("Warning", &setter{name: "SetCode", good: num(func(t *rapid.T) int { return pick(t, "code", 300, 301, 399, 370, intr(t, "code2", 300, 399)) }),
		bad:  num(func(t *rapid.T) int { return pick(t, "code", 299, 400, 0, -1, 3000, -300, math.MaxInt32, 30) }),
		call: func(h header.Header, v sval) error { return war(h).SetCode(v.I) }, model: sI(0)},
		textSetter("SetAgent", genTok, func(h header.Header, s string) error { return war(h).SetAgent(s) }, sS(0)),
		textSetter("SetText", func(t *rapid.T) string { return "m" + genQuotedInner(t, "m") }, func(h header.Header, s string) error { return war(h).SetText(s) }, sS(1)))

	// single-valued
	cid := func(h header.Header) *header.CallID { return h.(*header.CallID) }
	addSetter("Call-ID", &setter{name: "SetCallId", good: str(genCallID), bad: badCallID, call: func(h header.Header, v sval) error { return cid(h).SetCallId(v.S) }, model: sS(0)},
		&setter{name: "SetCallIdentifier", good: str(genCallID), call: func(h header.Header, v sval) error {
			id, err := header.NewCallIdentifier(v.S)
			if err == nil {
				cid(h).SetCallIdentifier(id)
			}
			return err
		}, model: sS(0)},
		&setter{name: "CallIdentifier.SetCallID", good: str(genCallID), bad: badCallID, call: func(h header.Header, v sval) error { return cid(h).GetCallIdentifer().SetCallID(v.S) }, model: sS(0)},
		&setter{name: "CallIdentifier.SetHost", good: str(genTok), call: func(h header.Header, v sval) error { cid(h).GetCallIdentifer().SetHost(v.S); return nil },
			model: func(e *elem, v sval) { e.S = []string{strings.SplitN(e.S[0], "@", 2)[0] + "@" + v.S} }},
		&setter{name: "CallIdentifier.SetLocalId", good: str(genTok), call: func(h header.Header, v sval) error { cid(h).GetCallIdentifer().SetLocalId(v.S); return nil },
			model: func(e *elem, v sval) {
				s := v.S
				if i := strings.Index(e.S[0], "@"); i >= 0 {
					s += e.S[0][i:]
				}
				e.S = []string{s}
			}})
	addSetter("CSeq", intSetter("SetSequenceNumber", func(h header.Header, n int) error { return h.(*header.CSeq).SetSequenceNumber(n) }, sI(0)),
		textSetter("SetMethod", func(t *rapid.T) string { return strings.ToUpper(genTok(t)) }, func(h header.Header, s string) error { return h.(*header.CSeq).SetMethod(s) }, sS(0)))
	cd := func(h header.Header) *header.ContentDisposition { return h.(*header.ContentDisposition) }
	addParamSetters("Content-Disposition", "handling")
	addSetter("Content-Disposition", textSetter("SetDispositionType", genTok, func(h header.Header, s string) error { return cd(h).SetDispositionType(s) }, sS(0)),
		textSetter("SetHandling", genTok, func(h header.Header, s string) error { return cd(h).SetHandling(s) }, sP("handling")))
	addSetter("Content-Length", intSetter("SetContentLength", func(h header.Header, n int) error { return h.(*header.ContentLength).SetContentLength(n) }, sI(0)))
	ct := func(h header.Header) *header.ContentType { return h.(*header.ContentType) }
	addParamSetters("Content-Type", "charset")
	addSetter("Content-Type", textSetter("SetContentType", genTok, func(h header.Header, s string) error { return ct(h).SetContentType(s) }, sS(0)),
		textSetter("SetContentSubType", genTok, func(h header.Header, s string) error { return ct(h).SetContentSubType(s) }, sS(1)),
		&setter{name: "SetContentTypeSubType", good: str(genTok), call: func(h header.Header, v sval) error { ct(h).SetContentTypeSubType("x", v.S); return nil }, model: func(e *elem, v sval) { e.S = []string{"x", v.S} }},
		&setter{name: "SetMediaRange", good: str(genTok), call: func(h header.Header, v sval) error { ct(h).SetMediaRange(mediaRange("x", v.S)); return nil }, model: func(e *elem, v sval) { e.S = []string{"x", v.S} }})
	addSetter("Date", &setter{name: "SetDate", good: num(func(t *rapid.T) int { return intr(t, "unix", 0, 1<<33) }), call: func(h header.Header, v sval) error {
		d := time.Unix(int64(v.I), 0)
		h.(*header.Date).SetDate(&d)
		return nil
	}, model: sI(0)})
	addParamSetters("Event", "id")
	addSetter("Event", textSetter("SetEventType", genTok, func(h header.Header, s string) error { return h.(*header.Event).SetEventType(s) }, sS(0)),
		textSetter("SetEventId", genTok, func(h header.Header, s string) error { return h.(*header.Event).SetEventId(s) }, sP("id")))
	addSetter("Expires", intSetter("SetExpires", func(h header.Header, n int) error { return h.(*header.Expires).SetExpires(n) }, sI(0)))
	addSetter("Min-Expires", intSetter("SetExpires", func(h header.Header, n int) error { return h.(*header.MinExpires).SetExpires(n) }, sI(0)))
	addSetter("Max-Forwards", &setter{name: "SetMaxForwards", good: num(func(t *rapid.T) int { return pick(t, "mf", 0, 1, 70, 255, intr(t, "mf2", 0, 255)) }), bad: num(func(t *rapid.T) int { return pick(t, "mf", -1, 256, 1000, math.MinInt32, math.MaxInt64) }),
		call: func(h header.Header, v sval) error { return h.(*header.MaxForwards).SetMaxForwards(v.I) }, model: sI(0)},
		&setter{name: "DecrementMaxForwards", good: empty, call: func(h header.Header, v sval) error {
			m := h.(*header.MaxForwards)
			zero := m.HasReachedZero()
			if err := m.DecrementMaxForwards(); (err != nil) != zero {
				return errf("at zero: %v, error: %v", zero, err)
			}
			return nil
		}, model: func(e *elem, v sval) {
			if e.I[0] > 0 {
				e.I = []int{e.I[0] - 1}
			}
		}})
	mv := func(h header.Header) *header.MimeVersion { return h.(*header.MimeVersion) }
	addSetter("MIME-Version", intSetter("SetMajorVersion", func(h header.Header, n int) error { return mv(h).SetMajorVersion(n) }, sI(0)),
		intSetter("SetMinorVersion", func(h header.Header, n int) error { return mv(h).SetMinorVersion(n) }, sI(1)))
	line := func(t *rapid.T) string { return genLine(t, "line") }
	addSetter("Organization", textSetter("SetOrganization", line, func(h header.Header, s string) error { return h.(*header.Organization).SetOrganization(s) }, sS(0)))
	addSetter("Subject", textSetter("SetSubject", line, func(h header.Header, s string) error { return h.(*header.Subject).SetSubject(s) }, sS(0)))
	addSetter("Priority", textSetter("SetPriority", genTok, func(h header.Header, s string) error { return h.(*header.Priority).SetPriority(s) }, sS(0)))
	ra := func(h header.Header) *header.RAck { return h.(*header.RAck) }
	positive := num(func(t *rapid.T) int { return 1 + genNum(t, "pos")%(1<<31-1) })
	addSetter("RAck", intSetter("SetCSeqNumber", func(h header.Header, n int) error { return ra(h).SetCSeqNumber(n) }, sI(1)),
		&setter{name: "SetRSeqNumber", good: positive, bad: negative, call: func(h header.Header, v sval) error { return ra(h).SetRSeqNumber(v.I) }, model: sI(0)},
		&setter{name: "SetMethod", good: str(genTok), call: func(h header.Header, v sval) error { return ra(h).SetMethod(v.S) }, model: sS(0)})
	addSetter("RSeq", &setter{name: "SetSequenceNumber", good: positive, bad: negative, call: func(h header.Header, v sval) error { return h.(*header.RSeq).SetSequenceNumber(v.I) }, model: sI(0)})
	rt := func(h header.Header) *header.RetryAfter { return h.(*header.RetryAfter) }
	addParamSetters("Retry-After", "duration")
	addSetter("Retry-After", intSetter("SetRetryAfter", func(h header.Header, n int) error { return rt(h).SetRetryAfter(n) }, sI(0)),
		intSetter("SetDuration", func(h header.Header, n int) error { return rt(h).SetDuration(n) }, sPI("duration")),
		&setter{name: "RemoveDuration", good: empty, call: func(h header.Header, v sval) error { rt(h).RemoveDuration(); return nil }, model: func(e *elem, v sval) { e.P = hpDel(e.P, "duration") }},
		textSetter("SetComment", func(t *rapid.T) string { return genComment(t, "c") }, func(h header.Header, s string) error { return rt(h).SetComment(s) }, sS(0)),
		&setter{name: "RemoveComment", good: empty, call: func(h header.Header, v sval) error { rt(h).RemoveComment(); return nil }, model: sS(0)})
	for _, n := range []string{"Server", "User-Agent"} {
		type ph interface {
			SetProduct(*list.List) error
			AddProductToken(string)
		}
		addSetter(n, &setter{name: "SetProduct", good: str(genTok), bad: empty, call: func(h header.Header, v sval) error {
			if v.S == "" {
				return h.(ph).SetProduct(nil)
			}
			l := list.New()
			l.PushBack(v.S)
			l.PushBack("z")
			return h.(ph).SetProduct(l)
		}, model: func(e *elem, v sval) { e.S = []string{v.S, "z"} }},
			&setter{name: "AddProductToken", good: str(genTok), call: func(h header.Header, v sval) error { h.(ph).AddProductToken(v.S); return nil }, model: func(e *elem, v sval) {
				e.S = append(append([]string{}, e.S...), v.S)
			}})
	}
	ss := func(h header.Header) *header.SubscriptionState { return h.(*header.SubscriptionState) }
	addParamSetters("Subscription-State")
	addSetter("Subscription-State", textSetter("SetState", genTok, func(h header.Header, s string) error { return ss(h).SetState(s) }, sS(0)),
		textSetter("SetReasonCode", genTok, func(h header.Header, s string) error { return ss(h).SetReasonCode(s) }, sS(1)),
		intSetter("SetRetryAfter", func(h header.Header, n int) error { return ss(h).SetRetryAfter(n) }, sI(0)),
		intSetter("SetExpires", func(h header.Header, n int) error { return ss(h).SetExpires(n) }, sI(1)))
	ts := func(h header.Header) *header.TimeStamp { return h.(*header.TimeStamp) }
	goodTime := func(t *rapid.T) sval {
		return sval{S: pick(t, "time", append([]string{"0", "1", "54", "0.5", "12.25", "9999", "0.01"}, extremeTimes...)...)}
	}
	addSetter("Timestamp", &setter{name: "SetTimeStamp", good: goodTime, bad: func(t *rapid.T) sval { return sval{S: pick(t, "bad", "-1", "-0.5", "NaN", "Inf", "-Inf")} },
		call: func(h header.Header, v sval) error { return ts(h).SetTimeStamp(f32(v)) }, model: sS(0)},
		&setter{name: "SetDelay", good: goodTime, bad: func(t *rapid.T) sval { return sval{S: pick(t, "bad", "-2", "-0.5", "NaN", "Inf", "-Inf")} },
			call: func(h header.Header, v sval) error { return ts(h).SetDelay(f32(v)) }, model: sS(1)},
		&setter{name: "RemoveDelay", good: empty, call: func(h header.Header, v sval) error { ts(h).RemoveDelay(); return nil }, model: sS(1)})
	addSetter("Extension", &setter{name: "SetValue", good: str(line), call: func(h header.Header, v sval) error {
		h.(interface{ SetValue(string) }).SetValue(v.S)
		return nil
	}, model: sS(1)})
}

// authParamModel: a value that is not a token is quoted, and stays so.
func authParamModel(e *elem, v sval) {
	p := *v.P
	if strings.Trim(p.V, tokenChars) != "" {
		e.P = hpSetQ(e.P, p.N, p.V)
		return
	}
	e.P = hpSet(e.P, p)
}

func mediaRange(t, s string) *header.MediaRange {
	m := header.NewMediaRange()
	m.SetType(t)
	m.SetSubtype(s)
	return m
}

// buildNameAddr builds an address in brackets.
func buildNameAddr(a addrM) (address.Address, error) {
	ai := address.NewAddressImpl()
	ai.SetAddressType(address.NAME_ADDR)
	u, err := a.URI.build()
	if err != nil {
		return nil, err
	}
	ai.SetURI(u)
	if a.name() != "" {
		ai.SetDisplayName(a.name())
	}
	return ai, nil
}

// setOp is one call of a setter.
type setOp struct {
	Setter string
	Bad    bool `json:",omitempty"`
	V      sval
}

type setCase struct {
	Kind string
	Elem elem
	Ops  []setOp
}

func genSetCase(t *rapid.T, names []string, badOneIn int) setCase {
	c := setCase{Kind: pick(t, "kind", names...)}
	h := genHdr(t, c.Kind, 1).plain()
	c.Elem = h.Elems[0]
	for n := intr(t, "ops", 1, 8); n > 0; n-- {
		l := setters[c.Kind]
		s := l[intr(t, "setter", 0, len(l)-1)]
		op := setOp{Setter: s.name}
		if op.Bad = s.bad != nil && badOneIn > 0 && intr(t, "bad", 1, badOneIn) == 1; op.Bad {
			op.V = s.bad(t)
		} else {
			op.V = s.good(t)
		}
		c.Ops = append(c.Ops, op)
	}
	return c
}

func runSetCase(x *fw.Ctx, c setCase) error {
	k := kinds[c.Kind]
	e := c.Elem
	g, err := k.build(e)
	if err != nil {
		return err
	}
	for i, op := range c.Ops {
		s := setterOf(c.Kind, op.Setter)
		before := g.EncodeBody()
		var err error
		if perr := fw.Try(func() { err = s.call(g, op.V) }); perr != nil {
			return errf("operation %d, %s: %v", i, op.Setter, perr)
		}
		if op.Bad {
			x.NonTrivial()
			if err == nil {
				return errf("operation %d: %s took %+v", i, op.Setter, op.V)
			}
			if a := g.EncodeBody(); a != before {
				return errf("operation %d: refused %s changed %q to %q", i, op.Setter, before, a)
			}
		} else {
			if err != nil {
				return errf("operation %d: %s(%+v) refused: %v", i, op.Setter, op.V, err)
			}
			s.model(&e, op.V)
		}
		if err := firstErr(eq("name", g.GetName(), (hdrM{Kind: c.Kind, Elems: []elem{c.Elem}}).canonName()), k.check(g, e)); err != nil {
			return errf("after operation %d, %s: %v", i, op.Setter, err)
		}
	}
	if c.Kind == "Via" && (e.S[0] != "SIP" || e.S[1] != "2.0") || k.prop == "C16" && len(e.P) == 0 {
		return nil // no parser takes these
	}
	h := hdrM{Kind: c.Kind, Elems: []elem{e}}
	g2, err := parseHdr(hdrText(g))
	if err != nil {
		return errf("encoding: %v", err)
	}
	if err := checkHdr(g2, h); err != nil {
		return errf("encoding %q: %v", g.String(), err)
	}
	return nil
}

func init() {
	for _, prop := range []string{"C14", "C15", "C16", "C17", "C18"} {
		names := kindsOf(prop)
		fw.Add(prop, "set", "a header of "+strings.Join(names, ", ")+" assembled with setters, then a history of setters and removers with values inside their range: after each every accessor agrees with the model, and so does the parsed encoding at the end; non-trivial: at least three calls", 8000, 250000,
			func(t *rapid.T) setCase { return genSetCase(t, names, 0) },
			func(x *fw.Ctx, c setCase) error {
				x.Class(c.Kind)
				if len(c.Ops) >= 3 {
					x.NonTrivial()
				}
				return runSetCase(x, c)
			})
	}
	var names []string
	for _, n := range kindNames {
		for _, s := range setters[n] {
			if s.bad != nil {
				names = append(names, n)
				break
			}
		}
	}
	fw.Add("C19", "range", "a header of "+strings.Join(names, ", ")+" and a history of setters with values inside and outside their range: the latter are refused and leave the encoding and every accessor as they were, the former are taken and read back; non-trivial: at least one value outside", 20000, 600000,
		func(t *rapid.T) setCase { return genSetCase(t, names, 2) },
		func(x *fw.Ctx, c setCase) error {
			x.Class(c.Kind)
			return runSetCase(x, c)
		})
}

// extremeTimes are times that a float32 holds, written in full.
var extremeTimes = []string{"1000000", "16777216", "1048577", "1000000000000000000000", "100000000000000000000000000000", "0.000001", "0.0001", "0.0000000000001"}
