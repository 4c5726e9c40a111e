package props

import (
	"strconv"
	"strings"

	"github.com/use-go/gosips/sip/header"
	"github.com/use-go/gosips/sip/message"
	"pgregory.net/rapid"

	"verif/harness/fw"
)

// ------------------------------------------------------------------- C13

// edit changes the first element of the first header of a kind, in a copy.
func (m msgM) edit(kind string, f func(e *elem)) msgM {
	m.Hdrs = append([]hdrM{}, m.Hdrs...)
	for i := range m.Hdrs {
		if m.Hdrs[i].Kind != kind {
			continue
		}
		h := &m.Hdrs[i]
		h.Elems = append([]elem{}, h.Elems...)
		e := &h.Elems[0]
		e.S, e.I, e.P = append([]string{}, e.S...), append([]int{}, e.I...), append([]hparam{}, e.P...)
		f(e)
		break
	}
	return m
}

func (m msgM) withParam(kind, name, v string) msgM {
	return m.edit(kind, func(e *elem) {
		i := hpIndex(e.P, name)
		switch {
		case v == "" && i >= 0:
			e.P = append(e.P[:i:i], e.P[i+1:]...)
		case i >= 0:
			e.P[i].V, e.P[i].K = v, ""
		case v != "":
			e.P = append(e.P, hparam{N: name, V: v})
		}
	})
}

// mirrored swaps the roles of the two parties.
func (m msgM) mirrored() msgM {
	m.Hdrs = append([]hdrM{}, m.Hdrs...)
	for i := range m.Hdrs {
		switch h := &m.Hdrs[i]; h.Kind {
		case "From":
			h.Kind, h.Name = "To", ""
		case "To":
			h.Kind, h.Name = "From", ""
		}
	}
	return m
}

// recased writes host names and tags in another letter case, which makes no
// difference to what they mean.
func (m msgM) recased() msgM {
	host := func(h hostM) hostM {
		if h.Kind == "name" {
			h.Text = swapCase(h.Text)
		}
		return h
	}
	for _, side := range []string{"From", "To"} {
		m = m.edit(side, func(e *elem) {
			if i := hpIndex(e.P, "tag"); i >= 0 {
				e.P[i].V = swapCase(e.P[i].V)
			}
			if e.A.URI.Kind == "sip" {
				a := *e.A
				a.URI.Sip.Host = host(a.URI.Sip.Host)
				e.A = &a
			}
		})
	}
	return m.edit("Via", func(e *elem) {
		h := host(*e.H)
		e.H = &h
	})
}

func swapCase(s string) string {
	return strings.Map(func(r rune) rune {
		switch {
		case r >= 'a' && r <= 'z':
			return r - 32
		case r >= 'A' && r <= 'Z':
			return r + 32
		}
		return r
	}, s)
}

// answered is a response to a request, with the request's headers.
func (m msgM) answered(code int) msgM {
	m.Req, m.Method, m.URI, m.Code, m.Reason = false, "", nil, code, "Some Reason"
	var hs []hdrM
	for _, h := range m.Hdrs {
		if h.Kind == "Via" || h.Kind == "From" || h.Kind == "To" || h.Kind == "Call-ID" || h.Kind == "CSeq" {
			hs = append(hs, h)
		}
	}
	m.Hdrs, m.Body = hs, ""
	return m
}

// otherThan makes a value that differs from another in more than letter case.
func otherThan(s, v string) string {
	if strings.EqualFold(s, v) {
		return s + "x"
	}
	return s
}

type idCase struct {
	M              msgM
	FromTag, ToTag string
	Branch         string // of the topmost Via
	NewTag, NewCID string
	NewBranch      string
	Port           int
	Code           int
	Spell          bool // the retransmission is written with other spellings
	HasTo          bool
}

func genIDCase(t *rapid.T) idCase {
	c := idCase{M: genRequest(t, 2, 2), FromTag: genToken(t, "fromtag"), ToTag: genToken(t, "totag"), NewTag: genToken(t, "newtag"), NewCID: genCallID(t), Code: intr(t, "code", 100, 699), HasTo: rapid.Bool().Draw(t, "hasto"), Spell: rapid.Bool().Draw(t, "spell"), Port: intr(t, "port", 1, 65535)}
	switch pick(t, "branch", "cookie", "cookie", "other", "inner", "none") {
	case "cookie":
		c.Branch = pick(t, "cookie", "z9hG4bK", "z9hg4bk", "Z9HG4BK") + genToken(t, "branch")
	case "inner":
		c.Branch = genWord(t, "branch") + "z9hG4bK" + genWord(t, "branch")
	case "other":
		c.Branch = "b" + genWord(t, "branch")
	}
	c.NewBranch = "z9hG4bK" + genToken(t, "newbranch")
	return c
}

// base is the request with the tags and branch of the case.
func (c idCase) base() msgM {
	m := c.M.withParam("From", "tag", c.FromTag).withParam("Via", "branch", c.Branch)
	return m.withParam("To", "tag", pick2(c.HasTo, c.ToTag, ""))
}

func mustParse(m msgM) (sipMsg, error) {
	g, err := parseMsg(m.text())
	if err != nil {
		return nil, errf("%v in %q", err, m.text())
	}
	return g, nil
}

// spelled writes the header names in another way.
func (m msgM) spelled() msgM {
	m.Hdrs = append([]hdrM{}, m.Hdrs...)
	for i := range m.Hdrs {
		h := &m.Hdrs[i]
		if s := h.kind().short; s != "" && i%2 == 0 {
			h.Name = s
		} else if h.Kind != "Extension" {
			h.Name = strings.ToUpper(h.name())
		}
	}
	return m
}

func runDialogID(x *fw.Ctx, c idCase) error {
	m := c.base()
	x.Class(pick2(c.HasTo, "within a dialog", "outside a dialog"))
	g, err := mustParse(m)
	if err != nil {
		return err
	}
	id := map[bool]string{false: g.GetDialogId(false), true: g.GetDialogId(true)}
	for _, server := range []bool{false, true} {
		// the same dialog
		same := map[string]msgM{
			"a response":        m.answered(c.Code),
			"another request":   m.edit("CSeq", func(e *elem) { e.I[0]++; e.S[0] = m.Method }).withParam("Via", "branch", c.NewBranch),
			"the same, spelled": m.spelled(),
			"the same, with host names and tags in other letter case": m.recased(),
		}
		for what, o := range same {
			og, err := mustParse(o)
			if err != nil {
				return err
			}
			if err := eq("dialog identifier of "+what, og.GetDialogId(server), id[server]); err != nil {
				return err
			}
		}
		mirror, err := mustParse(m.mirrored())
		if err != nil {
			return err
		}
		// the party that sent g receives requests the other way round
		if err := eq("dialog identifier with the roles mirrored", mirror.GetDialogId(!server), id[server]); err != nil {
			return err
		}
		// with another To tag
		for _, tag := range []string{c.ToTag, c.NewTag, ""} {
			og, err := mustParse(m.withParam("To", "tag", tag))
			if err != nil {
				return err
			}
			if err := firstErr(eq("dialog identifier with a given To tag", g.GetDialogId2(server, tag), og.GetDialogId(server)),
				eq("its own identifier for the same tag", og.GetDialogId2(server, tag), og.GetDialogId(server)),
				eq("the To tag afterwards", g.GetTo().(*header.To).GetTag(), pick2(c.HasTo, c.ToTag, ""))); err != nil {
				return err
			}
			rg, err := mustParse(m.answered(c.Code))
			if err != nil {
				return err
			}
			if err := eq("a response's dialog identifier with a given To tag", rg.GetDialogId2(server, tag), og.GetDialogId(server)); err != nil {
				return err
			}
		}
		// another dialog
		other := map[string]msgM{
			"Call-ID":  m.edit("Call-ID", func(e *elem) { e.S[0] = otherThan(c.NewCID, e.S[0]) }),
			"From tag": m.withParam("From", "tag", otherThan(c.NewTag, c.FromTag)),
			"To tag":   m.withParam("To", "tag", otherThan(c.NewTag, pick2(c.HasTo, c.ToTag, ""))),
		}
		if c.HasTo {
			other["To tag (none)"] = m.withParam("To", "tag", "")
		}
		for what, o := range other {
			for _, o := range []msgM{o, o.answered(c.Code)} {
				og, err := mustParse(o)
				if err != nil {
					return err
				}
				if og.GetDialogId(server) == id[server] {
					return errf("dialog identifier %q with another %s too", id[server], what)
				}
			}
		}
	}
	x.NonTrivial()
	return nil
}

func runTransactionID(x *fw.Ctx, c idCase) error {
	m := c.base()
	cookie := strings.HasPrefix(strings.ToLower(c.Branch), "z9hg4bk")
	switch {
	case cookie:
		x.Class("branch with the cookie")
	case strings.Contains(c.Branch, "z9hG4bK"):
		x.Class("cookie not at the start")
	case c.Branch != "":
		x.Class("another branch")
	default:
		x.Class("no branch")
	}
	g, err := mustParse(m)
	if err != nil {
		return err
	}
	id := g.GetTransactionId()
	if id == "" {
		return errf("no transaction identifier")
	}
	same := map[string]msgM{
		"a retransmission":          m,
		"a retransmission, spelled": m.spelled(),
		"a retransmission with host names and tags in other letter case": m.recased(),
		"a response":               m.answered(c.Code),
		"a response with a To tag": m.answered(c.Code).withParam("To", "tag", c.NewTag),
		"the request with other headers": func() msgM {
			o := m
			o.Hdrs = append(append([]hdrM{}, m.Hdrs...), hdrM{Kind: "Extension", Elems: []elem{{S: []string{"X-Other", "value"}}}})
			return o
		}(),
	}
	if cookie {
		same["a request with the branch in other letter case"] = m.withParam("Via", "branch", strings.ToUpper(c.Branch))
	}
	if !cookie {
		// RFC 3261, 18.2.1: the default port of a sent-by is 5060
		port := m.find("Via").Elems[0].I[0]
		if port < 0 {
			same["a request with the default port written"] = m.edit("Via", func(e *elem) { e.I[0] = 5060 })
		} else if port == 5060 {
			same["a request without the default port"] = m.edit("Via", func(e *elem) { e.I[0] = -1 })
		}
	}
	for what, o := range same {
		og, err := mustParse(o)
		if err != nil {
			return err
		}
		if err := eq("transaction identifier of "+what, og.GetTransactionId(), id); err != nil {
			return err
		}
	}
	if r, ok := g.(*message.SIPRequest); ok {
		if err := eq("transaction identifier of a response made from it", r.CreateResponse(c.Code).GetTransactionId(), id); err != nil {
			return err
		}
	}
	other := map[string]msgM{"branch": m.withParam("Via", "branch", otherThan(c.NewBranch, c.Branch))}
	if !cookie {
		other["Call-ID"] = m.edit("Call-ID", func(e *elem) { e.S[0] = otherThan(c.NewCID, e.S[0]) })
		other["From tag"] = m.withParam("From", "tag", otherThan(c.NewTag, c.FromTag))
		other["sequence number"] = m.edit("CSeq", func(e *elem) { e.I[0]++ })
		if cs := m.find("CSeq").Elems[0].S[0]; !strings.EqualFold(cs, "ACK") && !strings.EqualFold(cs, "CANCEL") {
			o := m.edit("CSeq", func(e *elem) { e.S[0] = otherThan("BYE", cs) })
			o.Method = otherThan("BYE", cs)
			other["method"] = o
		}
		other["port"] = m.edit("Via", func(e *elem) {
			if p := e.I[0]; p == c.Port || (p < 0 && c.Port == 5060) {
				e.I[0] = c.Port%65535 + 1
			} else {
				e.I[0] = c.Port
			}
		})
	}
	if !cookie {
		other["sent-by host"] = m.edit("Via", func(e *elem) {
			h := otherThan("other.example.com", e.H.Text)
			e.H = &hostM{Text: h, Kind: "name"}
		})
		for _, side := range []string{"From", "To"} {
			if m.find(side).Elems[0].A.URI.Kind != "sip" {
				continue
			}
			other[side+" user"] = m.edit(side, func(e *elem) {
				a := *e.A
				a.URI.Sip.User = otherThan("other", a.URI.Sip.User)
				e.A = &a
			})
			other[side+" host"] = m.edit(side, func(e *elem) {
				a := *e.A
				h := otherThan("other.example.com", a.URI.Sip.Host.Text)
				a.URI.Sip.Host = hostM{Text: h, Kind: "name"}
				e.A = &a
			})
		}
	}
	for what, o := range other {
		for _, o := range []msgM{o, o.answered(c.Code)} {
			og, err := mustParse(o)
			if err != nil {
				return err
			}
			if og.GetTransactionId() == id {
				return errf("transaction identifier %q with another %s too", id, what)
			}
		}
	}
	x.NonTrivial()
	return nil
}

// A party of a small world, in which identifiers that run their parts
// together soon meet.
type smallID struct {
	FUser, FHost string
	FPort        int
	FTag         string
	TUser, THost string
	TPort        int
	TTag         string
	CID          string
	Seq          int
	Method       string
	Via          string
	ViaPort      int
}

type smallIDs struct {
	IDs []smallID
}

func genSmallIDs(t *rapid.T) smallIDs {
	n := 0
	one := func() smallID {
		n++
		p := func(what string, vs ...string) string { return pick(t, what, vs...) }
		port := func(what string) int { return rapid.SampledFrom([]int{-1, -1, 80, 81, 1}).Draw(t, what) }
		host := func(what string) string { return p(what, "a", "b", "ab", "b.a", "a1") }
		tag := func(what string) string { return p(what, "", "", "a", "b", "80", "b@a", "80.a") }
		return smallID{p("fuser", "", "", "a", "b"), host("fhost"), port("fport"), strings.ReplaceAll(tag("ftag"), "@", "+"),
			p("tuser", "", "", "a", "b"), host("thost"), port("tport"), strings.ReplaceAll(tag("ttag"), "@", "+"),
			p("cid", "a", "b", "a:a", "a:b:80", "a1", "a:a:a"), rapid.SampledFrom([]int{1, 11, 12}).Draw(t, "seq"), p("method", "A", "1A", "2A", "Aa"), host("via"), port("viaport")}
	}
	var c smallIDs
	a := one()
	c.IDs = append(c.IDs, a)
	// others that differ from it in one to three parts
	for k := intr(t, "others", 4, 24); k > 0; k-- {
		b, o := a, one()
		for j := intr(t, "parts", 1, 4); j > 0; j-- {
			switch intr(t, "part", 0, 9) {
			case 0:
				b.FUser, b.FHost = o.FUser, o.FHost
			case 1:
				b.FPort, b.FTag = o.FPort, o.FTag
			case 2:
				b.FTag = o.FTag
			case 3:
				b.TUser, b.THost = o.TUser, o.THost
			case 4:
				b.TPort, b.TTag = o.TPort, o.TTag
			case 5:
				b.TTag = o.TTag
			case 6:
				b.CID = o.CID
			case 7:
				b.CID, b.FHost, b.FPort = o.CID, o.FHost, o.FPort
			case 8:
				b.Seq, b.Method = o.Seq, o.Method
			case 9:
				b.Via, b.ViaPort, b.Method = o.Via, o.ViaPort, o.Method
			}
		}
		c.IDs = append(c.IDs, b)
	}
	return c
}

func (c smallID) text(req bool) string {
	addr := func(user, host string, port int, tag string) string {
		s := "<sip:"
		if user != "" {
			s += user + "@"
		}
		s += host
		if port >= 0 {
			s += ":" + strconv.Itoa(port)
		}
		s += ">"
		if tag != "" {
			s += ";tag=" + tag
		}
		return s
	}
	first := "SIP/2.0 200 OK"
	if req {
		first = c.Method + " sip:x@y SIP/2.0"
	}
	via := c.Via
	if c.ViaPort >= 0 {
		via += ":" + strconv.Itoa(c.ViaPort)
	}
	return first + "\r\nVia: SIP/2.0/UDP " + via + "\r\nFrom: " + addr(c.FUser, c.FHost, c.FPort, c.FTag) + "\r\nTo: " + addr(c.TUser, c.THost, c.TPort, c.TTag) +
		"\r\nCall-ID: " + c.CID + "\r\nCSeq: " + strconv.Itoa(c.Seq) + " " + c.Method + "\r\nContent-Length: 0\r\n\r\n"
}

func runSmallIDs(x *fw.Ctx, c smallIDs) error {
	type seen struct {
		key, text string
	}
	ids := map[string]seen{}
	apart := func(what, id, key, text string) error {
		id, key = what+" "+id, strings.ToLower(key)
		if o, ok := ids[id]; ok && o.key != key {
			return errf("%s is the identifier of both %q and %q", id, o.text, text)
		}
		ids[id] = seen{key, text}
		return nil
	}
	for i, s := range c.IDs {
		text := s.text(i%2 == 0)
		g, err := parseMsg(text)
		if err != nil {
			return err
		}
		dialog := s.CID + " " + s.FTag + " " + s.TTag
		if err := firstErr(apart("dialog (client)", g.GetDialogId(false), dialog, text),
			apart("dialog (server)", g.GetDialogId(true), dialog, text),
			apart("dialog (client)", g.GetDialogId2(false, "9"), s.CID+" "+s.FTag+" 9", text),
			apart("dialog (server)", g.GetDialogId2(true, ""), s.CID+" "+s.FTag+" ", text),
			apart("transaction", g.GetTransactionId(), strings.Join([]string{s.FUser, s.FHost, s.FTag, s.TUser, s.THost, s.CID, strconv.Itoa(s.Seq), s.Method, s.Via, strconv.Itoa(s.ViaPort)}, " "), text)); err != nil {
			return err
		}
	}
	x.NonTrivial()
	return nil
}

func init() {
	fw.Add("C13", "dialogs", "a request with generated parties, tags and Call-ID: the identifiers, as client and as server, of it, its responses, other requests of the dialog, other spellings and the mirrored roles are one, GetDialogId2 is that of the message with the tag, and another Call-ID, From tag or To tag gives another; non-trivial: all", 400, 15000, genIDCase, runDialogID)
	fw.Add("C13", "transactions", "a request with a branch with the cookie (in any letter case), another branch or none: the identifier of it, retransmissions, other spellings and responses is one, and another branch, or (without the cookie) another Call-ID, From tag, sequence number or sent-by gives another; non-trivial: all", 800, 30000, genIDCase, runTransactionID)
	fw.Add("C13", "boundaries", "5-25 messages without a branch, which differ from one of them in one to eight of the parts identifiers are made of, all out of a small world in which parts run together soon look alike: two with one dialog identifier have one Call-ID and the same tags, and two with one transaction identifier have all parts alike; non-trivial: all", 1500, 60000, genSmallIDs, runSmallIDs)
}
