package props

import (
	"strings"

	"github.com/use-go/gosips/core"
	"github.com/use-go/gosips/sip/address"
	"github.com/use-go/gosips/sip/header"
	"pgregory.net/rapid"

	"verif/harness/fw"
)

// altBuild assembles an element through the constructors that take its main
// part, and otherwise through the parts of a header rather than its setters.
var altBuild = map[string]func(e elem) (header.Header, error){}

// callIdent puts a call identifier together from its halves.
func callIdent(s string) (*header.CallIdentifier, error) {
	id, err := header.NewCallIdentifier("x")
	if err != nil {
		return nil, err
	}
	local, host, _ := strings.Cut(s, "@")
	id.SetLocalId(local)
	id.SetHost(host)
	return id, nil
}

func init() {
	addrFrom := func(e elem) (address.Address, error) {
		u, err := e.A.URI.build()
		if err != nil {
			return nil, err
		}
		ai := address.NewAddressImpl()
		ai.SetURI(u)
		ai.SetAddressType(address.NAME_ADDR)
		if e.A.name() != "" {
			ai.SetDisplayName(e.A.name())
		}
		return ai, nil
	}
	params := func(ps []hparam) *core.NameValueList {
		l := core.NewNameValueList("made by the caller")
		for _, p := range ps {
			nv := core.NewNameValue(p.N, p.V)
			if p.K == "f" {
				nv = core.NewNameValue(p.N, nil)
			} else if p.K == "q" {
				nv.SetQuotedValue()
			}
			l.AddNameValue(nv)
		}
		return l
	}
	type ph interface {
		header.Header
		SetParameters(*core.NameValueList)
	}
	withParams := func(h ph, e elem) header.Header { h.SetParameters(params(e.P)); return h }

	addr := func(n string, mk func(a address.Address) ph) {
		altBuild[n] = func(e elem) (header.Header, error) {
			a, err := addrFrom(e)
			if err != nil {
				return nil, err
			}
			return withParams(mk(a), e), nil
		}
	}
	addr("Route", func(a address.Address) ph { return header.NewRouteFromAddress(a) })
	addr("Record-Route", func(a address.Address) ph { return header.NewRecordRouteFromAddress(a) })
	addr("Reply-To", func(a address.Address) ph { return header.NewReplyToFromAddress(a) })
	addr("From", func(a address.Address) ph { h := header.NewFrom(); h.SetAddress(a); return h })
	addr("To", func(a address.Address) ph { h := header.NewTo(); h.SetAddress(a); return h })
	addr("Refer-To", func(a address.Address) ph { h := header.NewReferTo(); h.SetAddress(a); return h })

	altBuild["Via"] = func(e elem) (header.Header, error) {
		p := header.NewProtocol()
		if s := p.String(); s != "SIP/2.0/UDP" {
			return nil, errf("a new protocol is %q", s)
		}
		p.SetProtocolName(e.S[0])
		p.SetProtocolVersion(e.S[1])
		p.SetTransport(e.S[2])
		hp := core.NewHostPort()
		hp.SetHost(core.NewHost(e.H.Text))
		if e.I[0] >= 0 {
			hp.SetPort(e.I[0])
		}
		v := header.NewVia()
		if v.HasPort() || v.HasComment() || v.HasParameters() || v.GetHost() != "" || v.GetPort() != -1 || v.GetMaddr() != nil || v.GetSentBy() != nil {
			return nil, errf("a new Via has parts: %q", v.String())
		}
		v.SetSentProtocol(p)
		v.SetSentBy(hp)
		v.SetComment(e.S[3])
		return withParams(v, e), nil
	}

	text := func(n string, mk func(s string) header.Header) {
		altBuild[n] = func(e elem) (header.Header, error) { return mk(e.S[0]), nil }
	}
	text("Allow", func(s string) header.Header { return header.NewAllowFromString(s) })
	text("Allow-Events", func(s string) header.Header { return header.NewAllowEventsFromString(s) })
	text("Content-Encoding", func(s string) header.Header { return header.NewContentEncodingFromString(s) })
	text("Content-Language", func(s string) header.Header { return header.NewContentLanguageFromString(s) })
	text("Require", func(s string) header.Header { return header.NewRequireFromString(s) })
	text("Proxy-Require", func(s string) header.Header { return header.NewProxyRequireFromString(s) })
	text("Supported", func(s string) header.Header { return header.NewSupportedFromString(s) })
	text("Unsupported", func(s string) header.Header { return header.NewUnsupportedFromString(s) })
	altBuild["In-Reply-To"] = func(e elem) (header.Header, error) {
		id, err := callIdent(e.S[0])
		return header.NewInReplyToFromCallIdentifier(id), err
	}
	altBuild["Error-Info"] = func(e elem) (header.Header, error) {
		u, err := e.U.build()
		if err != nil {
			return nil, err
		}
		return withParams(header.NewErrorInfoFromURI(u), e), nil
	}
	altBuild["Content-Type"] = func(e elem) (header.Header, error) {
		return withParams(header.NewContentTypeFromString(e.S[0], e.S[1]), e), nil
	}
	altBuild["Content-Length"] = func(e elem) (header.Header, error) { return header.NewContentLengthFromInt(e.I[0]), nil }
	altBuild["Call-ID"] = func(e elem) (header.Header, error) {
		c, err := header.NewCallID("other@host")
		if err != nil {
			return nil, err
		}
		id, err := callIdent(e.S[0])
		c.SetCallIdentifier(id)
		return c, err
	}

	for _, prop := range []string{"C14", "C15", "C17", "C18"} {
		var names []string
		for _, n := range kindsOf(prop) {
			if altBuild[n] != nil {
				names = append(names, n)
			}
		}
		fw.Add(prop, "construct", "a header of "+strings.Join(names, ", ")+" made by the constructors that take its main part, or from parts made on their own (addresses, protocol, host and port, parameter list): every accessor compared, encoded, parsed and compared again; non-trivial: at least two parts, elements or parameters", 4000, 120000,
			func(t *rapid.T) hdrM { return genHdr(t, pick(t, "kind", names...), 4).plain() },
			func(x *fw.Ctx, h hdrM) error {
				x.Class(h.Kind)
				if h.parts() >= 2 {
					x.NonTrivial()
				}
				k := h.kind()
				var g header.Header
				var err error
				if k.list {
					l := k.newList()
					for _, e := range h.Elems {
						el, err := altBuild[h.Kind](e)
						if err != nil {
							return err
						}
						l.PushBack(el)
					}
					g = l
				} else if g, err = altBuild[h.Kind](h.Elems[0]); err != nil {
					return err
				}
				return roundTrip(g, h)
			})
	}

	// Authentication headers from a challenge.
	type chOp struct {
		Op string
		P  hparam
	}
	type chCase struct {
		Name, Scheme string
		Ops, After   []chOp
	}
	chNames := []string{"realm", "nonce", "domain", "opaque", "uri", "response", "qop", "algorithm", "stale", "signature", "signed-by", "x"}
	genOps := func(t *rapid.T, n int) (l []chOp) {
		for n := intr(t, "ops", 0, n); n > 0; n-- {
			o := chOp{Op: pick(t, "op", "set", "set", "set", "set", "remove", "remove-all"), P: hparam{N: pick(t, "n", chNames...), V: genQuotedInner(t, "v"), K: "q"}}
			if chance(t, "plain", 3) {
				o.P.V, o.P.K = genToken(t, "v2"), ""
			}
			if chance(t, "upper", 4) {
				o.P.N = strings.ToUpper(o.P.N)
			}
			if o.Op == "remove-all" && !chance(t, "all", 3) {
				o.Op = "set"
			}
			l = append(l, o)
		}
		return
	}
	fw.Add("C16", "challenge", "a challenge with a history of up to 10 operations on its parameters, compared with an ordered map after each, put into an authentication header and changed on; non-trivial: at least three operations", 4000, 120000,
		func(t *rapid.T) chCase {
			return chCase{pick(t, "name", "WWW-Authenticate", "Proxy-Authenticate", "Authorization", "Proxy-Authorization"), pick(t, "scheme", "Digest", "Basic", "X"), genOps(t, 10), genOps(t, 3)}
		}, func(x *fw.Ctx, c chCase) error {
			if len(c.Ops) >= 3 {
				x.NonTrivial()
			}
			x.Class(c.Name)
			ch := header.NewChallenge()
			ch.SetScheme(c.Scheme)
			var ps []hparam
			enc := func(ps []hparam) string {
				var l []string
				for _, p := range ps {
					v := p.V
					if p.K == "q" {
						v = `"` + v + `"`
					}
					l = append(l, p.N+"="+v)
				}
				return strings.Join(l, ",")
			}
			do := func(ops []chOp, ps []hparam) ([]hparam, error) {
				for i, o := range ops {
					switch o.Op {
					case "set":
						nv := core.NewNameValue(o.P.N, o.P.V)
						if o.P.K == "q" {
							nv.SetQuotedValue()
						}
						ch.SetParameter(nv)
						ps = append(hpDel(ps, o.P.N), o.P)
					case "remove":
						if err := eq("removed", ch.RemoveParameter(o.P.N), hpIndex(ps, o.P.N) >= 0); err != nil {
							return nil, errf("operation %d: %v", i, err)
						}
						ps = hpDel(ps, o.P.N)
					default:
						ch.RemoveParameters()
						ps = nil
					}
					err := firstErr(eq("encoding", ch.String(), c.Scheme+" "+enc(ps)), eq("has parameters", ch.HasParameters(), len(ps) > 0), eq("scheme", ch.GetScheme(), c.Scheme),
						eq("domain", ch.GetDomain(), hpVal(ps, "domain")), eq("uri", ch.GetURI(), hpVal(ps, "uri")), eq("opaque", ch.GetOpaque(), hpVal(ps, "opaque")),
						eq("qop", ch.GetQOP(), hpVal(ps, "qop")), eq("algorithm", ch.GetAlgorithm(), hpVal(ps, "algorithm")), eq("stale", ch.GetStale(), hpVal(ps, "stale")),
						eq("signature", ch.GetSignature(), hpVal(ps, "signature")), eq("signed-by", ch.GetSignedBy(), hpVal(ps, "signed-by")),
						eq("response", ch.GetResponse(), hpVal(ps, "response")), eq("realm", ch.GetRealm(), hpVal(ps, "realm")), eq("parameters", ch.GetAuthParams().Len(), len(ps)))
					for _, n := range chNames {
						err = firstErr(err, eq("parameter "+n, ch.GetParameter(n), hpVal(ps, n)), eq("has parameter "+n, ch.HasParameter(n), hpIndex(ps, n) >= 0))
					}
					if err != nil {
						return nil, errf("after operation %d, %+v: %v", i, o, err)
					}
				}
				return ps, nil
			}
			ps, err := do(c.Ops, ps)
			if err != nil {
				return err
			}
			h := newAuth(c.Name)
			h.(interface{ SetChallenge(header.Challenge) }).SetChallenge(*ch)
			e := elem{S: []string{c.Scheme}, P: ps}
			want := c.Scheme + " " + enc(ps)
			check := func() error {
				return firstErr(eq("header", h.EncodeBody(), want), eq("scheme", h.GetScheme(), c.Scheme), checkParams(h, ps), eq("realm", h.GetRealm(), hpVal(ps, "realm")))
			}
			if err := check(); err != nil {
				return err
			}
			if _, err := do(c.After, ps); err != nil {
				return err
			}
			if err := check(); err != nil {
				return errf("after changing the challenge on: %v", err)
			}
			if len(ps) == 0 {
				return nil
			}
			g, err := parseHdr(hdrText(h))
			if err != nil {
				return err
			}
			return firstErr(eq("scheme", g.(authHeader).GetScheme(), c.Scheme), checkParams(g.(authHeader), e.P))
		})

	// Headers assembled pair by pair.
	fw.Add("C16", "pairs", "an Authentication-Info header or the base of an authentication header assembled from pairs; non-trivial: at least two pairs", 2000, 60000,
		func(t *rapid.T) elem {
			return elem{S: []string{pick(t, "of", "info", "base")}, P: genAuthParams(t, "nextnonce", "qop", "rspauth", "cnonce", "nc", "x", "realm")}
		},
		func(x *fw.Ctx, e elem) error {
			if len(e.P) >= 2 {
				x.NonTrivial()
			}
			x.Class(e.S[0])
			var body []string
			if e.S[0] == "base" {
				h := header.NewAuthentication("X-Auth")
				for _, p := range e.P {
					h.SetParameterFromNameValue(mkNV(nvEntry{Name: p.N, Value: p.V, Quoted: p.K == "q"}))
					body = append(body, nvEntry{Name: p.N, Value: p.V, Quoted: p.K == "q"}.String())
				}
				return firstErr(eq("name", h.GetName(), "X-Auth"), eq("scheme", h.GetScheme(), "Digest"), checkParams(h, e.P), eq("text", h.String(), "X-Auth: Digest "+strings.Join(body, ",")+"\r\n"))
			}
			h := header.NewAuthenticationInfo()
			for _, p := range e.P {
				h.Add(mkNV(nvEntry{Name: p.N, Value: p.V, Quoted: p.K == "q"}))
				body = append(body, nvEntry{Name: p.N, Value: p.V, Quoted: p.K == "q"}.String())
			}
			if err := eq("body", h.EncodeBody(), strings.Join(body, ",")); err != nil {
				return err
			}
			m := hdrM{Kind: "Authentication-Info", Elems: []elem{e}}
			if err := checkHdr(h, m); err != nil {
				return err
			}
			g, err := parseHdr(hdrText(h)) // quotes some tokens
			if err != nil {
				return err
			}
			return checkHdr(g, m)
		})

	// Which events match.
	type evCase struct{ A, B elem }
	fw.Add("C18", "event-match", "two Event headers, the second often the first with its type or id spelled in other letter case, changed or dropped, and other parameters: they match when type and id agree but for letter case; non-trivial: both have an id", 4000, 100000,
		func(t *rapid.T) evCase {
			ev := func(n string) elem {
				return elem{S: []string{genTok(t)}, P: withParam(t, genParams(t, 1, "id"), hparam{N: "id", V: genTok(t)})}
			}
			c := evCase{A: ev("a"), B: ev("b")}
			if !chance(t, "other type", 4) {
				c.B.S = []string{randomCase(t, c.A.S[0])}
			}
			if !chance(t, "other id", 4) {
				c.B.P = hpDel(c.B.P, "id")
				if i := hpIndex(c.A.P, "id"); i >= 0 {
					c.B.P = append(c.B.P, hparam{N: "id", V: randomCase(t, c.A.P[i].V)})
				}
			}
			return c
		}, func(x *fw.Ctx, c evCase) error {
			if hpVal(c.A.P, "id") != "" && hpVal(c.B.P, "id") != "" {
				x.NonTrivial()
			}
			want := strings.EqualFold(c.A.S[0], c.B.S[0]) && strings.EqualFold(hpVal(c.A.P, "id"), hpVal(c.B.P, "id"))
			x.Class(pick2(want, "match", "no match"))
			a, err := kinds["Event"].build(c.A)
			if err != nil {
				return err
			}
			b, err := parseHdr(hdrM{Kind: "Event", Elems: []elem{c.B}}.text())
			if err != nil {
				return err
			}
			return firstErr(eq("match", a.(*header.Event).Match(b.(*header.Event)), want), eq("match", b.(*header.Event).Match(a.(*header.Event)), want),
				eq("match of nil", a.(*header.Event).Match(nil), false), eq("match of itself", a.(*header.Event).Match(a.(*header.Event)), true))
		})

	// Parameters of a bare header.
	type bareCase struct {
		Addr bool
		Name string
		Ops  []nvOp
	}
	fw.Add("C20", "bare-header", "up to 12 operations on the parameters of a bare header with parameters (with and without an address), compared with an ordered map after each; non-trivial: at least four operations", 4000, 100000,
		func(t *rapid.T) bareCase {
			c := bareCase{Addr: rapid.Bool().Draw(t, "address"), Name: genWord(t, "name")}
			for n := intr(t, "ops", 1, 12); n > 0; n-- {
				o := nvOp{Op: pick(t, "op", "set", "set", "quoted", "nv", "remove", "remove-all", "replace"), Name: pick(t, "n", nvNames...), Value: genToken(t, "v")}
				if o.Op == "quoted" {
					o.Value = genQuotedInner(t, "v2")
				}
				if chance(t, "upper", 4) {
					o.Name = strings.ToUpper(o.Name)
				}
				c.Ops = append(c.Ops, o)
			}
			return c
		}, func(x *fw.Ctx, c bareCase) error {
			if len(c.Ops) >= 4 {
				x.NonTrivial()
			}
			var h interface {
				header.Header
				paramsHeader
				SetParameter(string, string) error
				SetQuotedParameter(string, string)
				SetParameterFromNameValue(*core.NameValue)
				RemoveParameter(string)
				RemoveParameters()
				SetParameters(*core.NameValueList)
				GetNameValue(string) *core.NameValue
			} = header.NewParameters(c.Name)
			if c.Addr {
				h = header.NewAddressParameters(c.Name)
			}
			var m []nvEntry
			for i, o := range c.Ops {
				k := nvIndex(m, o.Name)
				e := nvEntry{Name: o.Name, Value: o.Value}
				m = append([]nvEntry{}, m...)
				switch o.Op {
				case "set", "quoted":
					e.Quoted = o.Op == "quoted"
					if e.Quoted {
						h.SetQuotedParameter(o.Name, o.Value)
					} else if err := h.SetParameter(o.Name, o.Value); err != nil {
						return err
					}
					if k < 0 {
						m = append(m, e)
					} else {
						m[k].Value, m[k].Quoted = o.Value, m[k].Quoted || e.Quoted
					}
				case "nv":
					if k >= 0 {
						continue
					}
					h.SetParameterFromNameValue(mkNV(e))
					m = append(m, e)
				case "remove":
					h.RemoveParameter(o.Name)
					if k >= 0 {
						m = append(m[:k:k], m[k+1:]...)
					}
				case "remove-all":
					h.RemoveParameters()
					m = nil
				case "replace":
					l := core.NewNameValueList("other")
					l.AddNameValue(mkNV(e))
					h.SetParameters(l)
					m = []nvEntry{e}
				}
				err := firstErr(checkNVL(h.GetParameters(), m, ";"), eq("has parameters", h.HasParameters(), len(m) > 0), eq("name", h.GetName(), c.Name), eq("is a list", h.IsHeaderList(), false))
				for _, n := range nvNames {
					k := nvIndex(m, n)
					nv := h.GetNameValue(n)
					if err == nil && (nv != nil) != (k >= 0) {
						err = errf("pair of %q: %v", n, nv)
					}
				}
				if err != nil {
					return errf("operation %d %+v: %v", i, o, err)
				}
			}
			return nil
		})
}
