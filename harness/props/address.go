package props

import (
	"container/list"
	"sort"
	"strconv"
	"strings"

	"github.com/use-go/gosips/core"
	"github.com/use-go/gosips/sip/address"
	"github.com/use-go/gosips/sip/parser"
	"pgregory.net/rapid"

	"verif/harness/fw"
)

// ---------------------------------------------------------------- URI model

type kv struct {
	N, V string
	Flag bool // no "=value"
}

type sipM struct {
	Scheme string // as written
	User   string // "" none
	Pass   string
	Host   hostM
	Port   int
	Params []kv
	Heads  []kv
	Tel    string `json:",omitempty"` // telephone subscriber, never encoded
	Isub   string `json:",omitempty"`
}

func (p kv) text() string {
	if p.Flag {
		return p.N
	}
	return p.N + "=" + p.V
}

func kvIndex(l []kv, n string) int {
	for i, p := range l {
		if strings.EqualFold(p.N, n) {
			return i
		}
	}
	return -1
}

func kvDel(l []kv, n string) []kv {
	if i := kvIndex(l, n); i >= 0 {
		return append(append([]kv{}, l[:i]...), l[i+1:]...)
	}
	return l
}

func kvSet(l []kv, p kv) []kv { return append(append([]kv{}, kvDel(l, p.N)...), p) }

func kvTexts(l []kv) []string {
	var out []string
	for _, p := range l {
		out = append(out, p.text())
	}
	return out
}

func (u sipM) scheme() string { return strings.ToLower(u.Scheme) }

func (u sipM) hostPort() string {
	if u.Host.Text == "" {
		return ""
	}
	if u.Port >= 0 {
		return u.Host.Text + ":" + strconv.Itoa(u.Port)
	}
	return u.Host.Text
}

func (u sipM) authority() string {
	s := u.hostPort()
	if s != "" && u.User != "" {
		if u.Pass != "" {
			s = u.User + ":" + u.Pass + "@" + s
		} else {
			s = u.User + "@" + s
		}
	}
	return s
}

// encode is the canonical text; the scheme is as given.
func (u sipM) encode(scheme string) string {
	s := scheme + ":" + u.authority()
	for _, p := range u.Params {
		s += ";" + p.text()
	}
	for i, h := range u.Heads {
		s += map[bool]string{true: "?", false: "&"}[i == 0] + h.text()
	}
	return s
}

// canonURI sorts the parameters and the headers of a URI's text.
func canonURI(s string) string {
	heads := ""
	if i := strings.Index(s, "?"); i >= 0 && !strings.Contains(s[i:], "@") {
		h := strings.Split(s[i+1:], "&")
		sort.Strings(h)
		heads = "?" + strings.Join(h, "&")
		s = s[:i]
	}
	at := strings.LastIndex(s, "@")
	parts := strings.Split(s[at+1:], ";")
	sort.Strings(parts[1:])
	return s[:at+1] + strings.Join(parts, ";") + heads
}

const (
	unresSym = "-_.!~*'()"
	alnum    = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"
)

// genURIChars draws text over alphanumerics, the symbols given and escapes.
func genURIChars(t *rapid.T, name, syms string, lo, hi int) string {
	var b strings.Builder
	for n := intr(t, name+"-n", lo, hi); n > 0; n-- {
		switch intr(t, name+"-k", 0, 5) {
		case 4:
			b.WriteByte(syms[intr(t, name+"-s", 0, len(syms)-1)])
		case 5:
			b.WriteString(pick(t, name+"-esc", "%20", "%40", "%3A", "%3b", "%25", "%00", "%ff", "%41", "%22", "%2C"))
		default:
			b.WriteByte(alnum[intr(t, name+"-c", 0, len(alnum)-1)])
		}
	}
	return long(t, name, b.String(), 200)
}

func genUser(t *rapid.T, name string) string {
	return pick(t, name+"-kind", "alice", "+1-972-555-2222", "sip", "tel", "", "", "", "", "")[0:] + genURIChars(t, name, unresSym+"&=+$,;?/", 1, 6)
}

func genPassword(t *rapid.T, name string) string {
	return genURIChars(t, name, unresSym+"&=+$,", 1, 5)
}

const paramSyms = unresSym + "[]/:&+$"

func genURIParams(t *rapid.T, max int) []kv {
	var l []kv
	for n := amount(t, "params", 0, max, 60); n > 0; n-- {
		var p kv
		switch pick(t, "pk", "known", "known", "other", "other", "flag") {
		case "known":
			p = pick(t, "known",
				kv{"transport", pick(t, "tr", "udp", "tcp", "tls", "sctp", "UDP", "ws"), false},
				kv{"user", pick(t, "us", "phone", "ip", "dialstring"), false},
				kv{"ttl", strconv.Itoa(intr(t, "ttl", 1, 255)), false},
				kv{"maddr", genHost(t).Text, false},
				kv{"method", pick(t, "me", "INVITE", "REGISTER", "foo"), false},
				kv{"lr", "", true})
		case "other":
			p = kv{genURIChars(t, "pn", paramSyms, 1, 4), genURIChars(t, "pv", paramSyms, 1, 6), false}
		default:
			p = kv{genURIChars(t, "pn", paramSyms, 1, 4), "", true}
		}
		if chance(t, "pcase", 5) {
			p.N = strings.ToUpper(p.N)
		}
		if kvIndex(l, p.N) < 0 {
			l = append(l, p)
		}
	}
	return l
}

const headSyms = unresSym + "[]/?:+$"

func genURIHeads(t *rapid.T, max int) []kv {
	var l []kv
	for n := amount(t, "heads", 0, max, 60); n > 0; n-- {
		h := kv{pick(t, "hn", "Subject", "priority", "Route", genURIChars(t, "hn2", headSyms, 1, 4)), genURIChars(t, "hv", headSyms, 0, 6), false}
		if kvIndex(l, h.N) < 0 {
			l = append(l, h)
		}
	}
	return l
}

func genSip(t *rapid.T) sipM {
	u := sipM{Scheme: pick(t, "scheme", "sip", "sip", "sips", "SIP", "SIPS", "Sip"), Host: genHost(t), Port: genPort(t)}
	if !chance(t, "nouser", 3) {
		u.User = genUser(t, "user")
		if chance(t, "pass", 3) {
			u.Pass = genPassword(t, "pw")
		}
	}
	u.Params = genURIParams(t, 4)
	if chance(t, "heads?", 3) {
		u.Heads = genURIHeads(t, 3)
	}
	return u
}

// genPlainSip is a SIP URI that may stand without angle brackets.
func genPlainSip(t *rapid.T) sipM {
	u := sipM{Scheme: pick(t, "scheme", "sip", "sip", "sips"), Host: genHost(t), Port: genPort(t)}
	if !chance(t, "nouser", 4) {
		u.User = genURIChars(t, "user", unresSym+"&=+$/", 1, 6)
		if chance(t, "pass", 4) {
			u.Pass = genURIChars(t, "pw", unresSym+"&=+$", 1, 5)
		}
	}
	return u
}

func listStrings(l *list.List) []string {
	var out []string
	for e := l.Front(); e != nil; e = e.Next() {
		out = append(out, e.Value.(string))
	}
	return out
}

func eqStrings(what string, got, want []string) error {
	if strings.Join(got, "\x00") != strings.Join(want, "\x00") || len(got) != len(want) {
		return errf("%s: got %q, want %q", what, got, want)
	}
	return nil
}

// eqSet compares string lists without regard to order.
func eqSet(what string, got, want []string) error {
	g, w := append([]string{}, got...), append([]string{}, want...)
	sort.Strings(g)
	sort.Strings(w)
	return eqStrings(what, g, w)
}

func (u sipM) param(n string) (string, bool) {
	if i := kvIndex(u.Params, n); i >= 0 {
		return u.Params[i].V, true
	}
	return "", false
}

func paramNames(l []kv) []string {
	var out []string
	for _, p := range l {
		out = append(out, p.N)
	}
	return out
}

// checkSip compares every accessor of a SIP URI with the model.
func checkSip(g *address.SipURIImpl, u sipM) error {
	if err := firstErr(
		eq("scheme", g.GetScheme(), u.scheme()), eq("secure", g.IsSecure(), u.scheme() == "sips"), eq("is SIP", g.IsSipURI(), true),
		eq("user", g.GetUser(), u.User), eq("password", g.GetUserPassword(), u.Pass),
		eq("host", g.GetHost(), u.Host.Text), eq("port", g.GetPort(), u.Port),
	); err != nil {
		return err
	}
	at := u.Host.Text
	hp := u.hostPort()
	if u.Host.Text == "" && u.Port >= 0 {
		hp = ":" + strconv.Itoa(u.Port)
	}
	if u.User != "" {
		at, hp = u.User+"@"+at, u.User+"@"+hp
	}
	if err := firstErr(eq("user@host", g.GetUserAtHost(), at), eq("user@host:port", g.GetUserAtHostPort(), hp)); err != nil {
		return err
	}
	if u.Host.Text != "" {
		if err := firstErr(checkHost("host", g.GetHostPort().GetHost(), u.Host), eq("host:port", g.GetHostPort().String(), u.hostPort()),
			eq("authority", g.GetAuthority().String(), u.authority())); err != nil {
			return err
		}
		a := g.GetAuthority()
		if err := firstErr(eq("user of the authority", a.GetUser(), u.User), eq("password of the authority", a.GetPassword(), u.Pass),
			eq("port of the authority", a.GetPort(), u.Port), checkHost("host of the authority", a.GetHost(), u.Host)); err != nil {
			return err
		}
		if ui := a.GetUserInfo(); (ui != nil) != (u.User != "") {
			return errf("user information %v with user %q", ui, u.User)
		} else if ui != nil {
			want := address.USER
			if strings.ContainsAny(u.User, ";#") {
				want = address.TELEPHONE_SUBSCRIBER
			}
			if err := firstErr(eq("user", ui.GetUser(), u.User), eq("password", ui.GetPassword(), u.Pass), eq("user type", ui.GetUserType(), want)); err != nil {
				return err
			}
		}
	}
	for _, p := range append([]kv{{N: "transport"}, {N: "ttl"}, {N: "absent"}}, u.Params...) {
		v, ok := u.param(p.N)
		if gv, _ := g.GetParm(p.N).(string); gv != v {
			return errf("parm %s: got %q, want %q", p.N, gv, v)
		}
		if err := firstErr(eq("parameter "+p.N, g.GetParameter(p.N), v), eq("has parameter "+p.N, g.HasParameter(p.N), ok),
			eq("parameter "+strings.ToUpper(p.N), g.GetParameter(strings.ToUpper(p.N)), v)); err != nil {
			return err
		}
	}
	if err := firstErr(eqSet("parameter names", listStrings(g.GetParameterNames()), paramNames(u.Params)),
		eq("parameter count", g.GetUriParms().Len(), len(u.Params))); err != nil {
		return err
	}
	tr, hasTr := u.param("transport")
	ttl := -1
	if v, ok := u.param("ttl"); ok {
		if n, err := strconv.Atoi(v); err == nil {
			ttl = n
		}
	}
	user, _ := u.param("user")
	maddr, _ := u.param("maddr")
	method, _ := u.param("method")
	_, lr := u.param("lr")
	if err := firstErr(eq("transport", g.GetTransportParam(), tr), eq("has transport", g.HasTransport(), hasTr), eq("ttl", g.GetTTLParam(), ttl),
		eq("user parameter", g.GetUserParam(), user), eq("user type", g.GetUserType(), user),
		eq("telephone subscriber", g.IsUserTelephoneSubscriber(), user == "phone"),
		eq("maddr", g.GetMAddrParam(), maddr), eq("method", g.GetMethodParam(), method), eq("method", g.GetMethod(), method),
		eq("lr", g.HasLrParam(), lr), eq("lr", g.GetLrParam() != "", lr)); err != nil {
		return err
	}
	for _, h := range append([]kv{{N: "Absent"}}, u.Heads...) {
		v := ""
		if i := kvIndex(u.Heads, h.N); i >= 0 {
			v = u.Heads[i].V
		}
		if err := eq("header "+h.N, g.GetHeader(h.N), v); err != nil {
			return err
		}
	}
	return firstErr(eqSet("header names", listStrings(g.GetHeaderNames().GetNames()), paramNames(u.Heads)), eq("header count", g.GetQheaders().Len(), len(u.Heads)))
}

type uriCase struct {
	U    sipM
	Tail string
}

func parseSip(text string) (*address.SipURIImpl, string, error) {
	p := parser.NewURLParser(text)
	g, err := p.Parse()
	if err != nil {
		return nil, "", errf("%q refused: %v", text, err)
	}
	s, ok := g.(*address.SipURIImpl)
	if !ok {
		return nil, "", errf("%q parsed as a %T", text, g)
	}
	return s, p.GetLexer().GetRest(), nil
}

func classSip(x *fw.Ctx, u sipM) {
	x.Class("%s host", u.Host.Kind)
	n := 0
	for _, b := range []struct {
		s  string
		ok bool
	}{{"user", u.User != ""}, {"password", u.Pass != ""}, {"port", u.Port >= 0}, {"parameters", len(u.Params) > 0}, {"headers", len(u.Heads) > 0}, {"sips", u.scheme() == "sips"}} {
		if b.ok {
			x.Class(b.s)
			n++
		}
	}
	if n >= 2 {
		x.NonTrivial()
	}
}

func init() {
	fw.Add("C22", "parse", "sip and sips URIs over the RFC 3261 grammar (user, password, name, IPv4 and IPv6 hosts, port, 0-4 parameters, 0-3 headers, escapes) followed by other text; non-trivial: at least two of user, password, port, parameters, headers, sips", 8000, 250000,
		func(t *rapid.T) uriCase {
			return uriCase{genSip(t), pick(t, "tail", "", " SIP/2.0", ">", ">;tag=a@b", " ,<sip:x@y:1>", "\n", ">;x=\"a:b@c\"", ", sip:q@r")}
		}, func(x *fw.Ctx, c uriCase) error {
			classSip(x, c.U)
			text := c.U.encode(c.U.Scheme)
			g, rest, err := parseSip(text + c.Tail)
			if err != nil {
				return err
			}
			if err := firstErr(checkSip(g, c.U), eq("rest", rest, c.Tail), eq("encoding", g.String(), c.U.encode(c.U.scheme()))); err != nil {
				return errf("%q: %v", text, err)
			}
			h, _, err := parseSip(g.String())
			if err != nil {
				return errf("encoding: %v", err)
			}
			if err := firstErr(checkSip(h, c.U), eq("second encoding", h.String(), g.String())); err != nil {
				return errf("second parse: %v", err)
			}
			cl := g.Clone().(*address.SipURIImpl)
			if err := firstErr(checkSip(cl, c.U), eq("encoding", cl.String(), g.String())); err != nil {
				return errf("clone: %v", err)
			}
			m := parser.NewStringMsgParser()
			s, err := m.ParseSIPUrl(text)
			if err != nil {
				return errf("ParseSIPUrl(%q): %v", text, err)
			}
			if err := checkSip(s, c.U); err != nil {
				return errf("ParseSIPUrl(%q): %v", text, err)
			}
			return nil
		})
	type nearCase struct{ Text string }
	fw.Add("C22", "refuse", "SIP URIs with one part missing or malformed; every case is non-trivial", 2000, 40000,
		func(t *rapid.T) nearCase {
			u := genSip(t)
			u.Params, u.Heads = nil, nil
			s := u.scheme()
			switch pick(t, "kind", "nohost", "nouser", "port", "param", "head", "escape", "scheme") {
			case "nohost":
				return nearCase{s + ":" + pick(t, "a", "", "a@", "a:b@", ":5060", "a@:5060", ";lr", "?a=b", "a@;lr")}
			case "nouser":
				return nearCase{s + ":@" + u.Host.Text}
			case "port":
				u.Port = -1
				return nearCase{u.encode(s) + ":" + pick(t, "p", "", "x", ";lr", "?a=b", ">")}
			case "param":
				return nearCase{u.encode(s) + pick(t, "pm", ";", ";=x", ";;lr", ";lr;", ";a=b;=c", "; lr", ";?a=b")}
			case "head":
				return nearCase{u.encode(s) + pick(t, "h", "?", "?=x", "?a", "?a&b=c", "?a=b&", "?a=b&=c", "?&")}
			case "escape":
				return nearCase{u.encode(s) + pick(t, "e", "?a=%", "?a=%4", "?a=%zz", "?%zz=a", "?a=b&c=%")}
			}
			return nearCase{pick(t, "sch", "sip", "sips", "sip ", "sip;", "sip@b", "sips=b")}
		}, func(x *fw.Ctx, c nearCase) error {
			x.NonTrivial()
			g, err := parser.NewURLParser(c.Text).Parse()
			if err == nil {
				return errf("%q accepted as %q", c.Text, g.String())
			}
			m := parser.NewStringMsgParser()
			if g, err := m.ParseSIPUrl(c.Text); err == nil {
				return errf("ParseSIPUrl accepts %q as %q", c.Text, g.String())
			}
			return nil
		})
}

// ---------------------------------------------------------------- C23

type uriOp struct {
	Op   string
	N, V string
	I    int
	B    bool
	H    hostM
}

func genURIOp(t *rapid.T) uriOp {
	o := uriOp{Op: pick(t, "op", "SetUser", "RemoveUser", "SetUserPassword", "ClearPassword", "SetHost", "SetHostString", "SetHostPort", "SetPort", "RemovePort",
		"SetSecure", "SetScheme", "SetTransportParam", "RemoveTransport", "SetTTLParam", "RemoveTTL", "SetMAddrParam", "SetMAddr", "RemoveMAddr",
		"SetUserParam", "RemoveUserType", "SetMethod", "SetMethodParam", "RemoveMethod", "SetLrParam", "SetParameter", "SetParameter", "SetUriParm", "SetDefaultParm",
		"RemoveParameter", "RemoveParameter", "ClearUriParms", "RemoveUriParms", "SetHeader", "SetHeader", "RemoveHeader", "RemoveHeaders", "ClearQheaders", "SetAuthority", "SetUriParms", "SetQheaders", "SetTelephoneSubscriber", "SetIsdnSubAddress")}
	switch o.Op {
	case "SetUser":
		o.V = genUser(t, "u")
	case "SetUserPassword":
		o.V = genPassword(t, "p")
	case "SetAuthority":
		o.H, o.I, o.B = genHost(t), genPort(t), rapid.Bool().Draw(t, "bare")
		if rapid.Bool().Draw(t, "withUser") {
			o.N = genUser(t, "u")
			if rapid.Bool().Draw(t, "withPass") {
				o.V = genPassword(t, "p")
			}
		}
	case "SetUriParms", "SetQheaders":
		o.I = intr(t, "count", 0, 3)
		o.V = genWord(t, "v")
	case "SetTelephoneSubscriber", "SetIsdnSubAddress":
		o.V = genPhone(t, false)
	case "SetHost", "SetHostString", "SetMAddrParam", "SetMAddr":
		o.H, o.B = genHost(t), rapid.Bool().Draw(t, "bare")
	case "SetHostPort":
		o.H, o.I, o.B = genHost(t), genPort(t), rapid.Bool().Draw(t, "bare")
	case "SetPort":
		o.I = pick(t, "port", 5060, 1, 65535)
	case "SetSecure":
		o.B = rapid.Bool().Draw(t, "secure")
	case "SetScheme":
		o.V = pick(t, "scheme", "sip", "sips", "SIPS", "http", "")
	case "SetTransportParam":
		o.V = pick(t, "tr", "udp", "TCP", "tls", "sctp", "ws", "")
	case "SetTTLParam":
		o.I = pick(t, "ttl", 1, 255, 64, 0, -1)
	case "SetUserParam":
		o.V = pick(t, "ut", "phone", "ip")
	case "SetMethod", "SetMethodParam":
		o.V = pick(t, "m", "INVITE", "foo")
	case "SetParameter", "SetUriParm", "SetDefaultParm":
		o.N = pick(t, "n", "x", "y", "lr", "transport", "Maddr", "%61", "user")
		o.V = pick(t, "v", "", "1", "a", genURIChars(t, "pv", paramSyms, 1, 5))
	case "RemoveParameter":
		o.N = pick(t, "n", "x", "y", "X", "lr", "transport", "TTL", "maddr", "none")
	case "SetHeader", "RemoveHeader":
		o.N = pick(t, "h", "Subject", "priority", "subject", "a")
		o.V = genURIChars(t, "hv", headSyms, 0, 5)
	}
	return o
}

// applyURIOp performs the operation on the URI and on the model.
func applyURIOp(g *address.SipURIImpl, u sipM, o uriOp) (sipM, error) {
	set := func(n, v string) { u.Params = kvSet(u.Params, kv{n, v, false}) }
	refuse := func(bad bool, err error) (sipM, error) {
		if bad != (err != nil) {
			return u, errf("%s: error %v", o.Op, err)
		}
		return u, nil
	}
	switch o.Op {
	case "SetUser":
		g.SetUser(o.V)
		u.User = o.V
	case "SetAuthority":
		a := address.NewAuthority()
		a.SetHost(core.NewHost(o.H.arg(o.B)))
		if o.I >= 0 {
			a.SetPort(o.I)
		}
		if o.N != "" {
			ui := address.NewUserInfo()
			ui.SetUser(o.N)
			ui.SetPassword(o.V)
			a.SetUserInfo(ui)
		}
		g.SetAuthority(a)
		u.User, u.Pass, u.Host, u.Port = o.N, o.V, o.H, o.I
	case "SetUriParms", "SetQheaders":
		l := core.NewNameValueList("list")
		var kvs []kv
		for i := 0; i < o.I; i++ {
			n := string(rune('a' + i))
			l.AddNameValue(core.NewNameValue(n, o.V))
			kvs = append(kvs, kv{n, o.V, false})
		}
		if o.Op == "SetUriParms" {
			g.SetUriParms(l)
			u.Params = kvs
		} else {
			l.SetSeparator("&")
			g.SetQheaders(l)
			u.Heads = kvs
		}
	case "SetTelephoneSubscriber":
		tn := address.NewTelephoneNumber()
		tn.SetPhoneNumber(o.V)
		g.SetTelephoneSubscriber(tn)
		u.Tel, u.Isub = o.V, ""
	case "SetIsdnSubAddress":
		g.SetIsdnSubAddress(o.V)
		u.Isub = o.V
	case "RemoveUser":
		g.RemoveUser()
		u.User, u.Pass = "", ""
	case "SetUserPassword":
		if u.User != "" { // a password needs a user
			g.SetUserPassword(o.V)
			u.Pass = o.V
		}
	case "ClearPassword":
		g.ClearPassword()
		u.Pass = ""
	case "SetHost":
		g.SetHost(core.NewHost(o.H.arg(o.B)))
		u.Host = o.H
	case "SetHostString":
		g.SetHostString(o.H.arg(o.B))
		u.Host = o.H
	case "SetHostPort":
		hp := core.NewHostPort()
		hp.SetHost(core.NewHost(o.H.arg(o.B)))
		if o.I >= 0 {
			hp.SetPort(o.I)
		}
		g.SetHostPort(hp)
		u.Host, u.Port = o.H, o.I
	case "SetPort":
		g.SetPort(o.I)
		u.Port = o.I
	case "RemovePort":
		g.RemovePort()
		u.Port = -1
	case "SetSecure":
		g.SetSecure(o.B)
		u.Scheme = map[bool]string{true: "sips", false: "sip"}[o.B]
	case "SetScheme":
		bad := o.V == "http" || o.V == ""
		err := g.SetScheme(o.V)
		if !bad {
			u.Scheme = o.V
		}
		return refuse(bad, err)
	case "SetTransportParam":
		err := g.SetTransportParam(o.V)
		if o.V != "" {
			set("transport", strings.ToLower(o.V))
		}
		return refuse(o.V == "", err)
	case "RemoveTransport":
		g.RemoveTransport()
		u.Params = kvDel(u.Params, "transport")
	case "SetTTLParam":
		err := g.SetTTLParam(o.I)
		if o.I > 0 {
			set("ttl", strconv.Itoa(o.I))
		}
		return refuse(o.I <= 0, err)
	case "RemoveTTL":
		g.RemoveTTL()
		u.Params = kvDel(u.Params, "ttl")
	case "SetMAddrParam":
		err := g.SetMAddrParam(o.H.Text)
		set("maddr", o.H.Text)
		if err == nil {
			err = g.SetMAddrParam("")
		} else {
			return u, err
		}
		return refuse(true, err)
	case "SetMAddr":
		// replaces the value and leaves the name as it was spelled
		g.SetMAddr(o.H.Text)
		if i := kvIndex(u.Params, "maddr"); i >= 0 {
			l := append([]kv{}, u.Params...)
			l[i].V, l[i].Flag = o.H.Text, false
			u.Params = l
		} else {
			set("maddr", o.H.Text)
		}
	case "RemoveMAddr":
		g.RemoveMAddr()
		u.Params = kvDel(u.Params, "maddr")
	case "SetUserParam":
		g.SetUserParam(o.V)
		set("user", o.V)
	case "RemoveUserType":
		g.RemoveUserType()
		u.Params = kvDel(u.Params, "user")
	case "SetMethod":
		g.SetMethod(o.V)
		set("method", o.V)
	case "SetMethodParam":
		g.SetMethodParam(o.V)
		set("method", o.V)
	case "RemoveMethod":
		g.RemoveMethod()
		u.Params = kvDel(u.Params, "method")
	case "SetLrParam":
		g.SetLrParam()
		if kvIndex(u.Params, "lr") < 0 {
			u.Params = kvSet(u.Params, kv{"lr", "", true})
		}
	case "SetParameter":
		g.SetParameter(o.N, o.V)
		u.Params = kvSet(u.Params, kv{o.N, o.V, o.V == ""})
	case "SetUriParm":
		var v interface{} = o.V
		if o.V == "" {
			v = nil
		}
		g.SetUriParm(o.N, v)
		u.Params = kvSet(u.Params, kv{o.N, o.V, o.V == ""})
	case "SetDefaultParm":
		var v interface{} = o.V
		if o.V == "" {
			v = nil
		}
		g.SetDefaultParm(o.N, v)
		if kvIndex(u.Params, o.N) < 0 {
			u.Params = kvSet(u.Params, kv{o.N, o.V, o.V == ""})
		}
	case "RemoveParameter":
		g.RemoveParameter(o.N)
		u.Params = kvDel(u.Params, o.N)
	case "ClearUriParms":
		g.ClearUriParms()
		u.Params = nil
	case "RemoveUriParms":
		g.RemoveUriParms()
		u.Params = nil
	case "SetHeader":
		g.SetHeader(o.N, o.V)
		if i := kvIndex(u.Heads, o.N); i >= 0 {
			l := append([]kv{}, u.Heads...)
			l[i].V = o.V
			u.Heads = l
		} else {
			u.Heads = kvSet(u.Heads, kv{o.N, o.V, false})
		}
	case "RemoveHeader":
		g.RemoveHeader(o.N)
		u.Heads = kvDel(u.Heads, o.N)
	case "RemoveHeaders":
		g.RemoveHeaders()
		u.Heads = nil
	case "ClearQheaders":
		g.ClearQheaders()
		u.Heads = nil
	}
	return u, nil
}

func checkSipAll(g *address.SipURIImpl, u sipM) error {
	if u.Tel != "" || u.Isub != "" {
		if err := firstErr(eq("number of the telephone subscriber", g.GetTelephoneSubscriber().GetPhoneNumber(), u.Tel),
			eq("subaddress of the telephone subscriber", g.GetTelephoneSubscriber().GetIsdnSubaddress(), u.Isub)); err != nil {
			return err
		}
	}
	if u.Host.Text == "" {
		return checkSip(g, u) // no URI yet
	}
	return firstErr(checkSip(g, u), eq("encoding", canonURI(g.String()), canonURI(u.encode(u.scheme()))))
}

type uriSeq struct {
	Parsed bool
	U      sipM
	Ops    []uriOp
	Tail   []uriOp
}

func init() {
	fw.Add("C23", "model", "0-16 setters and removers on a new or parsed SIP URI, every accessor and the encoding checked after each, then a clone changed on its own; non-trivial: at least four operations", 4000, 120000,
		func(t *rapid.T) uriSeq {
			c := uriSeq{Parsed: rapid.Bool().Draw(t, "parsed")}
			if c.Parsed {
				c.U = genSip(t)
			}
			for n := intr(t, "n", 0, 16); n > 0; n-- {
				c.Ops = append(c.Ops, genURIOp(t))
			}
			for n := intr(t, "tail", 0, 4); n > 0; n-- {
				c.Tail = append(c.Tail, genURIOp(t))
			}
			return c
		}, func(x *fw.Ctx, c uriSeq) error {
			if len(c.Ops) >= 4 {
				x.NonTrivial()
			}
			u := sipM{Scheme: "sip", Port: -1}
			g := address.NewSipURIImpl()
			if c.Parsed {
				x.Class("parsed")
				u = c.U
				var err error
				if g, _, err = parseSip(u.encode(u.Scheme)); err != nil {
					return err
				}
			}
			if err := checkSipAll(g, u); err != nil {
				return errf("at the start: %v", err)
			}
			var err error
			for i, o := range c.Ops {
				if u, err = applyURIOp(g, u, o); err == nil {
					err = checkSipAll(g, u)
				}
				if err != nil {
					return errf("step %d %+v: %v", i, o, err)
				}
			}
			if u.Host.Text != "" {
				h, _, err := parseSip(g.String())
				if err != nil {
					return errf("the encoding: %v", err)
				}
				if err := checkSip(h, u); err != nil {
					return errf("the encoding %q parses to another URI: %v", g.String(), err)
				}
			}
			cl := g.Clone().(*address.SipURIImpl)
			cu := u
			if err := checkSipAll(cl, cu); err != nil {
				return errf("clone: %v", err)
			}
			for i, o := range c.Tail {
				if cu, err = applyURIOp(cl, cu, o); err == nil {
					err = checkSipAll(cl, cu)
				}
				if err != nil {
					return errf("clone, step %d %+v: %v", i, o, err)
				}
				if err := checkSipAll(g, u); err != nil {
					return errf("original after changing the clone, step %d %+v: %v", i, o, err)
				}
			}
			return nil
		})
}

// ---------------------------------------------------------------- C24

type telM struct {
	Global bool
	Number string
	Params []kv // a quoted value includes its quotes
}

func (m telM) number() string {
	if m.Global {
		return "+" + m.Number
	}
	return m.Number
}

func (m telM) encode() string {
	s := "tel:" + m.number()
	for _, p := range m.Params {
		s += ";" + p.text()
	}
	return s
}

func genPhone(t *rapid.T, global bool) string {
	chars := "0123456789-.()"
	if !global {
		chars += "*#"
	}
	var b strings.Builder
	n := intr(t, "digits", 1, 10)
	if chance(t, "long number", 8) {
		n = intr(t, "digits", 10, 60)
	}
	for ; n > 0; n-- {
		b.WriteByte(chars[intr(t, "d", 0, len(chars)-1)])
	}
	return b.String()
}

func genTel(t *rapid.T) telM {
	m := telM{Global: rapid.Bool().Draw(t, "global")}
	m.Number = genPhone(t, m.Global)
	for n := intr(t, "params", 0, 4); n > 0; n-- {
		p := kv{pick(t, "pn", "isub", "postdial", "phone-context", "tsp", genToken(t, "pn2")), genToken(t, "pv"), false}
		if chance(t, "flag", 5) {
			p.V, p.Flag = "", true
		}
		if kvIndex(m.Params, p.N) < 0 {
			m.Params = append(m.Params, p)
		}
	}
	return m
}

func checkTel(g *address.TelURLImpl, m telM) error {
	if err := firstErr(eq("scheme", g.GetScheme(), "tel"), eq("is SIP", g.IsSipURI(), false), eq("global", g.IsGlobal(), m.Global),
		eq("number", g.GetPhoneNumber(), m.Number), eqSet("parameter names", listStrings(g.GetParameterNames()), paramNames(m.Params))); err != nil {
		return err
	}
	val := func(n string) string {
		if i := kvIndex(m.Params, n); i >= 0 {
			return m.Params[i].V
		}
		return ""
	}
	for _, p := range append([]kv{{N: "absent"}}, m.Params...) {
		if err := eq("parameter "+p.N, g.GetParameter(p.N), val(p.N)); err != nil {
			return err
		}
	}
	want := "tel:" + m.number()
	for _, p := range m.Params {
		want += ";" + p.text()
	}
	return firstErr(eq("isdn-subaddress", g.GetIsdnSubAddress(), val("isub")), eq("post-dial", g.GetPostDial(), val("postdial")),
		eq("encoding", canonURI(g.String()), canonURI(want)))
}

func parseTel(text string) (*address.TelURLImpl, string, error) {
	p := parser.NewURLParser(text)
	g, err := p.Parse()
	if err != nil {
		return nil, "", errf("%q refused: %v", text, err)
	}
	s, ok := g.(*address.TelURLImpl)
	if !ok {
		return nil, "", errf("%q parsed as a %T", text, g)
	}
	return s, p.GetLexer().GetRest(), nil
}

type telCase struct {
	M    telM
	Tail string
}

func applyTelOp(g *address.TelURLImpl, m telM, o uriOp) (telM, error) {
	switch o.Op {
	case "global":
		g.SetGlobal(o.B)
		m.Global = o.B
	case "number":
		g.SetPhoneNumber(o.V)
		m.Number = o.V
	case "isub":
		g.SetIsdnSubAddress(o.V)
		m.Params = kvSet(m.Params, kv{"isub", o.V, false})
	case "postdial":
		g.SetPostDial(o.V)
		m.Params = kvSet(m.Params, kv{"postdial", o.V, false})
	case "set":
		g.SetParameter(o.N, o.V)
		m.Params = kvSet(m.Params, kv{o.N, o.V, o.V == ""})
	case "remove":
		g.RemoveParameter(o.N)
		m.Params = kvDel(m.Params, o.N)
	case "whole":
		tn := address.NewTelephoneNumber()
		tn.SetPhoneNumber(o.V)
		tn.SetGlobal(o.B)
		tn.SetPostDial("1")
		tn.SetIsdnSubaddress("2")
		if o.I&1 == 0 {
			tn.RemovePostDial()
		}
		if o.I&2 == 0 {
			tn.RemoveIsdnSubaddress()
		}
		if o.I&4 != 0 {
			tn.SetParm("x", "3")
			tn.SetParm("Y", nil)
		}
		if o.I&8 != 0 {
			tn.DeleteParm("X")
		}
		m = telM{Global: o.B, Number: o.V}
		if o.I&1 != 0 {
			m.Params = kvSet(m.Params, kv{"postdial", "1", false})
		}
		if o.I&2 != 0 {
			m.Params = kvSet(m.Params, kv{"isub", "2", false})
		}
		if o.I&12 == 4 {
			m.Params = kvSet(m.Params, kv{"x", "3", false})
		}
		if o.I&4 != 0 {
			m.Params = kvSet(m.Params, kv{"Y", "", true})
		}
		if err := firstErr(eq("has post-dial", tn.HasPostDial(), o.I&1 != 0), eq("has subaddress", tn.HasIsdnSubaddress(), o.I&2 != 0),
			eq("has x", tn.HasParm("x"), o.I&12 == 4), eq("has y", tn.HasParm("y"), o.I&4 != 0), eq("global", tn.IsGlobal(), o.B)); err != nil {
			return m, err
		}
		g.SetTelephoneNumber(tn)
	}
	return m, nil
}

type telSeq struct {
	Parsed    bool
	M         telM
	Ops, Tail []uriOp
}

func genTelOps(t *rapid.T, max int) []uriOp {
	var ops []uriOp
	for n := intr(t, "n", 0, max); n > 0; n-- {
		o := uriOp{Op: pick(t, "op", "global", "number", "isub", "postdial", "set", "set", "remove", "remove", "whole"), B: rapid.Bool().Draw(t, "b"), I: intr(t, "i", 0, 15),
			N: pick(t, "n", "isub", "postdial", "x", "X", "y"), V: pick(t, "v", "1", "abc", "7")}
		if o.Op == "number" || o.Op == "whole" {
			o.V = genPhone(t, true)
		}
		if o.Op == "set" && chance(t, "flag", 3) {
			o.V = ""
		}
		ops = append(ops, o)
	}
	return ops
}

type genericM struct {
	Scheme, Rest, Tail string
}

func genGeneric(t *rapid.T, brackets bool) genericM {
	syms := unresSym + "/:@&=+$"
	if brackets {
		syms += ";?,"
	}
	return genericM{Scheme: pick(t, "gs", "http", "https", "mailto", "urn", "im", "sipx", "cid", "h323", "x-a.b+c"), Rest: pick(t, "gp", "", "//", "//www.example.com/", "a@b") + genURIChars(t, "gr", syms, 1, 10)}
}

func (g genericM) text() string { return g.Scheme + ":" + g.Rest }

func init() {
	fw.Add("C24", "tel-parse", "tel URLs, global and local, with 0-4 parameters, followed by other text; non-trivial: with parameters", 4000, 120000,
		func(t *rapid.T) telCase {
			return telCase{genTel(t), pick(t, "tail", "", ">", ">;a=b", "\n", ",<tel:+1>", " SIP/2.0")}
		}, func(x *fw.Ctx, c telCase) error {
			if len(c.M.Params) > 0 {
				x.NonTrivial()
			}
			x.Class("global %v", c.M.Global)
			text := c.M.encode()
			scheme := pick2(len(text)%3 == 0, "TEL:", "tel:")
			g, rest, err := parseTel(scheme + text[4:] + c.Tail)
			if err != nil {
				return err
			}
			tail := c.Tail
			if len(c.M.Params) > 0 {
				tail = strings.TrimLeft(tail, " ") // white space may belong to the parameter before it
				rest = strings.TrimLeft(rest, " ")
			}
			if err := firstErr(checkTel(g, c.M), eq("rest", rest, tail), eq("encoding", g.String(), text)); err != nil {
				return errf("%q: %v", text, err)
			}
			h, _, err := parseTel(g.String())
			if err != nil {
				return errf("encoding: %v", err)
			}
			tn, err := parser.NewStringMsgParser().ParSetelephoneNumber(text[4:])
			if err != nil {
				return errf("telephone number %q refused: %v", text[4:], err)
			}
			u, err := parser.NewStringMsgParser().ParseUrl(text)
			if err != nil {
				return errf("ParseUrl(%q): %v", text, err)
			}
			return firstErr(checkTel(h, c.M), checkTel(g.Clone().(*address.TelURLImpl), c.M),
				eq("telephone number", tn.String(), text[4:]), eq("ParseUrl", u.String(), text))
		})
	fw.Add("C24", "tel-model", "0-12 setters on a new or parsed tel URL, every accessor checked after each, then a clone changed on its own; non-trivial: at least four operations", 3000, 80000,
		func(t *rapid.T) telSeq {
			c := telSeq{Parsed: rapid.Bool().Draw(t, "parsed")}
			if c.Parsed {
				c.M = genTel(t)
				c.M.Number = genPhone(t, true)
			}
			c.Ops, c.Tail = genTelOps(t, 12), genTelOps(t, 4)
			return c
		}, func(x *fw.Ctx, c telSeq) error {
			if len(c.Ops) >= 4 {
				x.NonTrivial()
			}
			g := address.NewTelURLImpl()
			m := telM{}
			if c.Parsed {
				m = c.M
				var err error
				if g, _, err = parseTel(m.encode()); err != nil {
					return err
				}
			}
			if err := checkTel(g, m); err != nil {
				return errf("at the start: %v", err)
			}
			for i, o := range c.Ops {
				var err error
				if m, err = applyTelOp(g, m, o); err == nil {
					err = checkTel(g, m)
				}
				if err != nil {
					return errf("step %d %+v: %v", i, o, err)
				}
			}
			if m.Number != "" {
				h, _, err := parseTel(g.String())
				if err != nil {
					return err
				}
				if err := checkTel(h, m); err != nil {
					return errf("encoding %q: %v", g.String(), err)
				}
			}
			cl, cm := g.Clone().(*address.TelURLImpl), m
			for i, o := range c.Tail {
				var err error
				if cm, err = applyTelOp(cl, cm, o); err == nil {
					err = firstErr(checkTel(cl, cm), checkTel(g, m))
				}
				if err != nil {
					return errf("clone, step %d %+v: %v", i, o, err)
				}
			}
			return nil
		})
	fw.Add("C24", "other", "URIs of other schemes over the RFC 2396 characters; every case is non-trivial", 3000, 80000,
		func(t *rapid.T) genericM {
			g := genGeneric(t, true)
			g.Tail = pick(t, "tail", "", ">", " SIP/2.0", "\n", ">;a=b")
			return g
		}, func(x *fw.Ctx, c genericM) error {
			x.NonTrivial()
			p := parser.NewURLParser(c.text() + c.Tail)
			g, err := p.Parse()
			if err != nil {
				return errf("%q refused: %v", c.text(), err)
			}
			u, ok := g.(*address.URIImpl)
			if !ok {
				return errf("%q parsed as a %T", c.text(), g)
			}
			cl := u.Clone().(*address.URIImpl)
			n := address.NewURIImpl(c.text())
			pu, err := parser.NewStringMsgParser().ParseUrl(c.text())
			if err != nil {
				return errf("ParseUrl(%q): %v", c.text(), err)
			}
			if _, err := parser.NewStringMsgParser().ParseSIPUrl(c.text()); err == nil {
				return errf("ParseSIPUrl accepts %q", c.text())
			}
			return firstErr(eq("text", g.String(), c.text()), eq("scheme", g.GetScheme(), c.Scheme), eq("is SIP", g.IsSipURI(), false), eq("rest", p.GetLexer().GetRest(), c.Tail),
				eq("clone", cl.String(), c.text()), eq("clone's scheme", cl.GetScheme(), c.Scheme), eq("constructed", n.String(), c.text()), eq("its scheme", n.GetScheme(), c.Scheme),
				eq("ParseUrl", pu.String(), c.text()))
		})
	fw.Add("C24", "as-text", "a sip, sips, tel or other URI kept as a plain text URI, constructed and from ParseUrl: text, scheme, whether it is a SIP URI and clone; non-trivial: a sip or sips URI", 2000, 60000,
		func(t *rapid.T) uriM { return genURI(t, true) }, func(x *fw.Ctx, c uriM) error {
			x.Class(c.Kind)
			if c.Kind == "sip" {
				x.NonTrivial()
			}
			s := c.text()
			pu, err := parser.NewStringMsgParser().ParseUrl(s)
			if err != nil {
				return errf("ParseUrl(%q): %v", s, err)
			}
			g, err := c.build()
			if err != nil {
				return err
			}
			if err := firstErr(eq("ParseUrl", pu.String(), c.canon()), eq("its scheme", strings.ToLower(pu.GetScheme()), strings.ToLower(g.GetScheme())), eq("ParseUrl: is SIP", pu.IsSipURI(), c.Kind == "sip"), eq("is SIP", g.IsSipURI(), c.Kind == "sip")); err != nil {
				return err
			}
			for what, u := range map[string]*address.URIImpl{"constructed": address.NewURIImpl(s), "cloned": address.NewURIImpl(s).Clone().(*address.URIImpl)} {
				if err := firstErr(eq(what, u.String(), s), eq(what+": scheme", u.GetScheme(), s[:strings.Index(s, ":")]), eq(what+": is SIP", u.IsSipURI(), c.Kind == "sip")); err != nil {
					return err
				}
			}
			return nil
		})
	fw.Add("C24", "refuse", "texts that are no URI and tel URLs without a number or with a malformed parameter; every case is non-trivial", 1000, 20000,
		func(t *rapid.T) string {
			return pick(t, "bad", "", ":", "tel", "tel:", "tel:+", "tel:;a=b", "tel:+;a=b", "tel:abc", "tel:+abc", "tel:1;", "tel:1;=b", "tel:1;a=", "tel:+1;a=b;", "tel:+1;a=\"b", "foo", "//x", "?a=b",
				" http://x", "<sip:a@b>", "*", "@", "-", genWord(t, "w"))
		}, func(x *fw.Ctx, s string) error {
			x.NonTrivial()
			if g, err := parser.NewURLParser(s).Parse(); err == nil {
				return errf("%q accepted as %q", s, g.String())
			}
			if address.NewURIImpl(genericBad(s)) != nil {
				return errf("NewURIImpl accepts %q", genericBad(s))
			}
			return nil
		})
}

func genericBad(s string) string { return strings.Replace(s, ":", "", -1) }

func pick2(b bool, x, y string) string {
	if b {
		return x
	}
	return y
}

// ---------------------------------------------------------------- C25

type uriM struct {
	Kind string // sip, tel, other
	Sip  sipM
	Tel  telM
	Gen  genericM
}

func (u uriM) text() string {
	switch u.Kind {
	case "sip":
		return u.Sip.encode(u.Sip.Scheme)
	case "tel":
		return u.Tel.encode()
	}
	return u.Gen.text()
}

// canon is the text the library gives the URI.
func (u uriM) canon() string {
	if u.Kind == "sip" {
		return u.Sip.encode(u.Sip.scheme())
	}
	return u.text()
}

func (u uriM) check(what string, g address.URI) error {
	if g == nil {
		return errf("%s: no URI", what)
	}
	var err error
	switch v := g.(type) {
	case *address.SipURIImpl:
		if u.Kind != "sip" {
			return errf("%s: %q is a SIP URI", what, g.String())
		}
		err = firstErr(checkSip(v, u.Sip), eq("encoding", v.String(), u.canon()))
	case *address.TelURLImpl:
		if u.Kind != "tel" {
			return errf("%s: %q is a tel URL", what, g.String())
		}
		err = firstErr(checkTel(v, u.Tel), eq("encoding", v.String(), u.canon()))
	default:
		if u.Kind != "other" {
			return errf("%s: %q is a %T", what, g.String(), g)
		}
		err = firstErr(eq("text", g.String(), u.text()), eq("scheme", g.GetScheme(), u.Gen.Scheme))
	}
	if err != nil {
		return errf("%s: %v", what, err)
	}
	return nil
}

// genURI draws a URI; without brackets only one that may stand alone.
func genURI(t *rapid.T, brackets bool) uriM {
	switch pick(t, "urikind", "sip", "sip", "sip", "tel", "other") {
	case "tel":
		u := uriM{Kind: "tel", Tel: genTel(t)}
		if !brackets {
			u.Tel.Params = nil
		}
		return u
	case "other":
		return uriM{Kind: "other", Gen: genGeneric(t, brackets)}
	}
	if brackets {
		return uriM{Kind: "sip", Sip: genSip(t)}
	}
	return uriM{Kind: "sip", Sip: genPlainSip(t)}
}

// newURI builds the URI through the parser.
func (u uriM) build() (address.URI, error) { return parser.NewURLParser(u.text()).Parse() }

type addrM struct {
	Form string // spec, angle, quoted, tokens
	Name string // the display name inside its quotes, escapes as written
	Toks []string
	WS   []string // white space: before, after the name, before and after the URI
	URI  uriM
}

func (a addrM) ws(i int) string {
	if i < len(a.WS) {
		return a.WS[i]
	}
	return ""
}

func (a addrM) name() string {
	switch a.Form {
	case "quoted":
		return a.Name
	case "tokens":
		return strings.Join(a.Toks, a.sep())
	}
	return ""
}

func (a addrM) sep() string { return pick2(a.ws(4) == "", " ", a.ws(4)) }

func (a addrM) text() string {
	br := "<" + a.ws(2) + a.URI.text() + a.ws(3) + ">"
	switch a.Form {
	case "spec":
		return a.ws(0) + a.URI.text()
	case "quoted":
		return a.ws(0) + `"` + a.Name + `"` + a.ws(1) + br
	case "tokens":
		return a.ws(0) + a.name() + a.ws(1) + br
	}
	return a.ws(0) + br
}

func (a addrM) canon() string {
	s := a.URI.canon()
	if a.Form == "spec" {
		return s
	}
	s = "<" + s + ">"
	if n := a.name(); n != "" {
		s = `"` + n + `" ` + s
	}
	return s
}

func genNameAddr(t *rapid.T) addrM {
	a := addrM{Form: pick(t, "form", "angle", "quoted", "quoted", "tokens", "spec")}
	a.URI = genURI(t, a.Form != "spec")
	switch a.Form {
	case "quoted":
		a.Name = genQuotedInner(t, "dn")
	case "tokens":
		for n := intr(t, "toks", 1, 3); n > 0; n-- {
			a.Toks = append(a.Toks, genToken(t, "tok"))
		}
	}
	for i := 0; i < 5; i++ {
		a.WS = append(a.WS, pick(t, "ws", "", "", " ", "  ", "\t"))
	}
	if a.Form == "spec" {
		a.WS = a.WS[:1]
	}
	return a
}

func checkAddr(g *address.AddressImpl, a addrM) error {
	wantType := address.NAME_ADDR
	if a.Form == "spec" {
		wantType = address.ADDRESS_SPEC
	}
	if err := firstErr(eq("type", g.GetAddressType(), wantType), eq("display name", g.GetDisplayName(), a.name()), eq("has display name", g.HasDisplayName(), a.name() != ""),
		eq("wildcard", g.IsWildcard(), false), a.URI.check("URI", g.GetURI()), eq("is SIP", g.IsSIPAddress(), a.URI.Kind == "sip"), eq("encoding", g.String(), a.canon())); err != nil {
		return err
	}
	h, herr := g.GetHost()
	p, perr := g.GetPort()
	hp, hperr := g.GetHostPort()
	if a.URI.Kind != "sip" {
		if herr == nil || perr == nil || hperr == nil {
			return errf("host, port and host:port of %q without an error", g.String())
		}
		return eq("user@host:port", g.GetUserAtHostPort(), a.URI.canon())
	}
	u := a.URI.Sip
	at := u.hostPort()
	if u.User != "" {
		at = u.User + "@" + at
	}
	if herr != nil || perr != nil || hperr != nil {
		return errf("host: %v, %v, %v", herr, perr, hperr)
	}
	if h != u.Host.Text && h != u.Host.bare() {
		return errf("host %q of %q", h, g.String())
	}
	return firstErr(eq("port", p, u.Port), eq("host:port", hp.String(), u.hostPort()), eq("user@host:port", g.GetUserAtHostPort(), at))
}

type addrCase struct {
	A    addrM
	Tail string
}

func init() {
	fw.Add("C25", "parse", "name-addr (no, token, several-token and quoted display names with escapes, white space between the parts) and addr-spec forms around SIP, tel and other URIs, followed by other text; non-trivial: a display name or white space", 6000, 200000,
		func(t *rapid.T) addrCase {
			a := genNameAddr(t)
			tail := pick(t, "tail", "", ";tag=1", " ;q=0.1", ",<sip:a@b>", "\n")
			if a.Form == "spec" {
				tail = pick(t, "spectail", "", "\n", " ;tag=1", " , sip:a@b")
			}
			return addrCase{a, tail}
		}, func(x *fw.Ctx, c addrCase) error {
			x.Class("%s %s", c.A.Form, c.A.URI.Kind)
			if c.A.name() != "" || strings.Join(c.A.WS, "") != "" {
				x.NonTrivial()
			}
			text := c.A.text()
			p := parser.NewAddressParser(text + c.Tail)
			g, err := p.Address()
			if err != nil {
				return errf("%q refused: %v", text+c.Tail, err)
			}
			if err := firstErr(checkAddr(g, c.A), eq("rest", p.GetLexer().GetRest(), c.Tail)); err != nil {
				return errf("%q: %v", text+c.Tail, err)
			}
			h, err := parser.NewStringMsgParser().ParseAddress(g.String())
			if err != nil {
				return errf("encoding %q refused: %v", g.String(), err)
			}
			if err := checkAddr(h, c.A); err != nil {
				return errf("encoding %q parses to another address: %v", g.String(), err)
			}
			return nil
		})
	type op struct {
		Op   string
		Name string
		URI  uriM
		User string
	}
	type seq struct {
		Ops []op
	}
	fw.Add("C25", "model", "1-8 setters on a new address, checked after each and parsed back at the end; non-trivial: at least three operations", 3000, 80000,
		func(t *rapid.T) seq {
			ops := []op{{Op: "uri", URI: genURI(t, true)}}
			for n := intr(t, "n", 0, 7); n > 0; n-- {
				o := op{Op: pick(t, "op", "uri", "name", "removename", "user", "removeparam", "spec")}
				switch o.Op {
				case "uri":
					o.URI = genURI(t, true)
				case "name":
					o.Name = genQuotedInner(t, "dn")
				case "user":
					o.User = genUser(t, "u")
				case "removeparam":
					o.Name = randomCase(t, pick(t, "pn", "lr", "transport", "maddr", "ttl", "x"))
					if l := ops[len(ops)-1].URI.Sip.Params; len(l) > 0 {
						o.Name = randomCase(t, l[intr(t, "pi", 0, len(l)-1)].N)
					}
				}
				ops = append(ops, o)
			}
			return seq{ops}
		}, func(x *fw.Ctx, c seq) error {
			if len(c.Ops) >= 3 {
				x.NonTrivial()
			}
			g := address.NewAddressImpl()
			a := addrM{Form: "quoted"}
			for i, o := range c.Ops {
				switch o.Op {
				case "uri":
					u, err := o.URI.build()
					if err != nil {
						return errf("%q refused: %v", o.URI.text(), err)
					}
					g.SetURI(u)
					a.URI = o.URI
				case "spec": // no brackets, as long as there is no display name
					if a.Name != "" {
						continue
					}
					x.Class("without brackets")
					g.SetAddressType(address.ADDRESS_SPEC)
					a.Form = "spec"
				case "name":
					g.SetDisplayName(o.Name)
					a.Name, a.Form = o.Name, "quoted"
				case "removename":
					g.RemoveDisplayName()
					a.Name = ""
				case "user":
					g.SetUser(o.User)
					if a.URI.Kind == "sip" {
						a.URI.Sip.User = o.User
					}
				case "removeparam":
					if err := g.RemoveParameter(o.Name); (err == nil) != (a.URI.Kind == "sip") {
						return errf("step %d %+v: %v", i, o, err)
					}
					if a.URI.Kind == "sip" {
						a.URI.Sip.Params = kvDel(a.URI.Sip.Params, o.Name)
					}
				}
				if err := checkAddr(g, a); err != nil {
					return errf("step %d %+v: %v", i, o, err)
				}
			}
			if a.Form != "spec" || !strings.ContainsAny(g.String(), ";?,") { // those need brackets
				h, err := parser.NewStringMsgParser().ParseAddress(g.String())
				if err != nil {
					return errf("encoding %q refused: %v", g.String(), err)
				}
				if err := checkAddr(h, a); err != nil {
					return errf("encoding %q: %v", g.String(), err)
				}
			}
			cl := g.Clone().(*address.AddressImpl)
			cl.SetDisplayName("other")
			cl.SetUser("other")
			cl.RemoveParameter("lr")
			cl.RemoveParameter("transport")
			if err := checkAddr(g, a); err != nil {
				return errf("after changing a clone: %v", err)
			}
			g.SetWildCardFlag()
			return eq("wildcard", g.String(), "*")
		})
	fw.Add("C25", "refuse", "addresses with a bracket, a quote or the URI missing; every case is non-trivial", 1000, 20000,
		func(t *rapid.T) string {
			u := genSip(t)
			s := u.encode(u.scheme())
			return pick(t, "bad", "", "*", "<", "<>", `"a"`, `"a" `+s, `"a`, `"a <`+s+">", "<"+s, `"a" <`+s, "a b <"+s, "a <>", "a b", ">", "<"+s+" x>", "< >", "a", `"a" x <`+s+">")
		}, func(x *fw.Ctx, s string) error {
			x.NonTrivial()
			if g, err := parser.NewStringMsgParser().ParseAddress(s); err == nil {
				return errf("%q accepted as %q", s, g.String())
			}
			return nil
		})
}
