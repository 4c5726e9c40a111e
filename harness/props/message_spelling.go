package props

import (
	"fmt"
	"strconv"
	"strings"

	"github.com/use-go/gosips/sip/header"
	"github.com/use-go/gosips/sip/message"
	"github.com/use-go/gosips/sip/parser"
	"pgregory.net/rapid"

	"verif/harness/fw"
)

// ------------------------------------------------------------------- C04

// spellCase is a message and another spelling of it.
type spellCase struct {
	M    msgM
	Text fw.S
}

var foldWS = []string{"\r\n  ", " \r\n  ", "\r\n\t\t", " \r\n \t ", "\n  ", "\t\n\t ", " ", "", "\t", "  "}

// respaceElem draws free white space for an element; folds may be among it.
func respaceElem(t *rapid.T, e elem, folds bool) elem {
	e.W = nil
	for i := 0; i < 6; i++ {
		w := pick(t, "rw", foldWS...)
		if !folds {
			w = pick(t, "rw2", "", " ", "\t", "  ")
		}
		if w != "" && chance(t, "rw-long", 150) {
			w += strings.Repeat(pick(t, "rw3", " ", "\t", " \t"), intr(t, "rw-n", 2, 300))
		}
		e.W = append(e.W, w)
	}
	if e.A != nil {
		a := *e.A
		a.WS = append([]string{}, e.W[:4]...)
		a.WS = append(a.WS, " ") // the space inside a display name is part of it
		if a.Form == "spec" {
			a.WS = a.WS[:1]
		}
		e.A = &a
	}
	return e
}

func respellName(t *rapid.T, h hdrM) string {
	if h.Kind == "Extension" {
		return ""
	}
	n := h.Kind
	if s := h.kind().short; s != "" && rapid.Bool().Draw(t, "compact") {
		n = s
	}
	var b strings.Builder
	up := intr(t, "upper", 0, 3)
	for i := 0; i < len(n); i++ {
		c := n[i : i+1]
		switch {
		case up == 1:
			c = strings.ToUpper(c)
		case up == 2:
			c = strings.ToLower(c)
		case up == 3 && rapid.Bool().Draw(t, "c"):
			c = strings.ToUpper(c)
		}
		b.WriteString(c)
	}
	return b.String()
}

// tidyFolds leaves one fold of several in a row, and none at the end, for a
// line of white space only would end the header lines.
func tidyFolds(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); {
		j := i
		for j < len(s) && strings.IndexByte(" \t\r\n", s[j]) >= 0 {
			j++
		}
		if j == i {
			b.WriteByte(s[i])
			i++
			continue
		}
		run := s[i:j]
		switch n := strings.Count(run, "\n"); {
		case n == 0 || n == 1 && j < len(s):
			b.WriteString(run)
		case j < len(s):
			b.WriteString("\r\n  ")
		}
		i = j
	}
	return b.String()
}

// mergeable tells whether a header may list its elements on one line.
func (h hdrM) mergeable() bool { return h.kind().list && !h.perLine() }

// genRespell spells the message in another way.
func genRespell(t *rapid.T, m msgM) (lines []string, cls map[string]bool) {
	cls = map[string]bool{}
	var hs []hdrM
	if rapid.Bool().Draw(t, "merge") { // all elements on the first line of the name
		at := map[string]int{}
		for _, h := range m.Hdrs {
			n := strings.ToLower(h.canonName())
			if i, ok := at[n]; ok && h.mergeable() {
				hs[i].Elems = append(append([]elem{}, hs[i].Elems...), h.Elems...)
				cls["lines merged"] = true
				continue
			}
			at[n] = len(hs)
			hs = append(hs, h)
		}
	} else {
		hs = append(hs, m.Hdrs...)
	}
	if rapid.Bool().Draw(t, "split") {
		var out []hdrM
		var late []hdrM
		for _, h := range hs {
			if !h.mergeable() || len(h.Elems) < 2 {
				// elements of one name must stay in order
				for i, l := range late {
					if strings.EqualFold(l.canonName(), h.canonName()) {
						out = append(out, l)
						late = append(late[:i:i], late[i+1:]...)
						break
					}
				}
				out = append(out, h)
				continue
			}
			for i, l := range late {
				if l.Kind == h.Kind {
					out = append(out, l)
					late = append(late[:i:i], late[i+1:]...)
					break
				}
			}
			k := intr(t, "splitat", 1, len(h.Elems)-1)
			a, b := h, h
			a.Elems, b.Elems = h.Elems[:k:k], h.Elems[k:]
			cls["line split"] = true
			out = append(out, a)
			if rapid.Bool().Draw(t, "late") {
				late = append(late, b)
			} else {
				out = append(out, b)
			}
		}
		hs = append(out, late...)
	}
	lines = append(lines, m.firstLine())
	put := func(name, line string) {
		line = tidyFolds(line)
		// folding at a single space leaves the text as it was
		if rapid.Bool().Draw(t, "fold?") {
			var b strings.Builder
			ws := func(i int) bool { return i < 0 || i >= len(line) || strings.IndexByte(" \t\r\n", line[i]) >= 0 }
			for i := 0; i < len(line); i++ {
				if line[i] == ' ' && i > len(name) && strings.Contains(line[:i], ":") && !ws(i-1) && !ws(i+1) && rapid.Bool().Draw(t, "foldhere") {
					b.WriteString(pick(t, "fold", "\r\n  ", "\r\n\t ", "\n  "))
					cls["folded"] = true
				} else {
					b.WriteByte(line[i])
				}
			}
			line = b.String()
		}
		lines = append(lines, line)
	}
	for i, h := range hs {
		if i == m.CL {
			put("l", pick(t, "cln", "Content-Length", "l", "L", "CONTENT-LENGTH", "content-length")+pick(t, "clc", ":", " :", ": ", " : ", ":  ")+strconv.Itoa(len(m.Body)))
		}
		h.W = []string{pick(t, "hw", "", " ", "\t"), pick(t, "hw2", "", " ", "\t", "  ")}
		es := append([]elem{}, h.Elems...)
		folds := rapid.Bool().Draw(t, "folds")
		for j := range es {
			es[j] = respaceElem(t, es[j], folds)
		}
		h.Elems = es
		h.Name = respellName(t, h)
		if h.Name != "" && h.Name != h.Kind {
			cls["name respelled"] = true
		}
		put(h.name(), h.text())
	}
	if m.CL >= len(hs) {
		lines = append(lines, "content-length : "+strconv.Itoa(len(m.Body)))
	}
	for _, l := range lines {
		if strings.Contains(l, "\n") {
			cls["folded"] = true
		}
	}
	return
}

func genSpellCase(t *rapid.T) spellCase {
	m := genMsgN(t, 4, 3).plain()
	m.Hdrs = append([]hdrM{}, m.Hdrs...)
	if rapid.Bool().Draw(t, "haslen") {
		m.CL = intr(t, "clpos", 0, 6)
	}
	lines, _ := genRespell(t, m)
	var b strings.Builder
	if lead := pick(t, "lead", "", "", "\r\n", "\n", "\r\n\r\n", "\n\r\n"); lead != "" {
		b.WriteString(strings.Repeat(lead, amount(t, "leads", 1, 1, 100)))
	}
	eol := intr(t, "eol", 0, 2)
	end := func() {
		switch {
		case eol == 1 || eol == 2 && rapid.Bool().Draw(t, "lf"):
			b.WriteString("\n")
		default:
			b.WriteString("\r\n")
		}
	}
	for _, l := range lines {
		b.WriteString(l)
		end()
	}
	end()
	b.WriteString(string(m.Body))
	return spellCase{M: m, Text: fw.S(b.String())}
}

// hdrSpell is one header and two spellings of it.
type hdrSpell struct {
	H    hdrM
	Text fw.S
}

func init() {
	pin("C04", "Subject: a\r\n b", func(text string) error {
		m, err := parseMsg("OPTIONS sip:a@b SIP/2.0\r\n" + text + "\r\n\r\n")
		if err != nil {
			return err
		}
		return eq("Subject folded with a single space", m.GetHeader("Subject").GetValue(), "a b")
	})
	fw.Add("C04", "message", "a message text and another spelling of it: header lines folded at their spaces and at separators, header names in other letter case or compact, white space around separators added, list headers split over several lines or merged into one, lines ended with LF, empty lines before the start line; both parsed and compared with the same model and with each other; non-trivial: the texts differ", 4000, 150000,
		genSpellCase, func(x *fw.Ctx, c spellCase) error {
			if string(c.Text) != c.M.text() {
				x.NonTrivial()
			}
			if s := strings.TrimLeft(string(c.Text), "\r\n"); strings.Contains(s[:len(s)-len(c.M.Body)], "\n ") || strings.Contains(s[:len(s)-len(c.M.Body)], "\n\t") {
				x.Class("folded")
			}
			a, err := parseMsg(c.M.text())
			if err != nil {
				return err
			}
			b, err := parseMsg(string(c.Text))
			if err != nil {
				return err
			}
			if err := checkMsg(b, c.M); err != nil {
				return errf("%q: %v", c.Text, err)
			}
			return eq("encoding of the other spelling", flagForms.Replace(b.String()), flagForms.Replace(a.String()))
		})
	fw.Add("C04", "header", "a header text and another spelling of it (folds and white space at separators, letter case, compact name), parsed on its own: both compared with the same model; non-trivial: the texts differ", 8000, 300000,
		func(t *rapid.T) hdrSpell {
			h := genHdr(t, pick(t, "kind", kindNames...), 3).plain()
			g := h
			g.Elems = append([]elem{}, h.Elems...)
			folds := rapid.Bool().Draw(t, "folds")
			for j := range g.Elems {
				g.Elems[j] = respaceElem(t, g.Elems[j], folds)
			}
			g.W = []string{pick(t, "hw", "", " ", "\t"), pick(t, "hw2", "", " ", "\t", "  ")}
			g.Name = respellName(t, h)
			return hdrSpell{H: h, Text: fw.S(tidyFolds(g.text()))}
		}, func(x *fw.Ctx, c hdrSpell) error {
			if string(c.Text) != c.H.text() {
				x.NonTrivial()
			}
			x.Class(c.H.Kind)
			a, err := parseHdr(c.H.text())
			if err != nil {
				return err
			}
			b, err := parseHdr(string(c.Text))
			if err != nil {
				return err
			}
			if err := checkHdr(b, c.H); err != nil {
				return errf("%q: %v", c.Text, err)
			}
			return eq("encoding of the other spelling", flagForms.Replace(b.String()), flagForms.Replace(a.String()))
		})
}

// ------------------------------------------------------------------- C05

type bodyCase struct {
	M     msgM
	Short int // how many bytes the text lacks
	Twice bool
}

func init() {
	fw.Add("C05", "parse", "a message with any bytes as body and Content-Length absent, exact, smaller or larger than the data: the body compared with the framed bytes, the caller's buffer overwritten afterwards, too little data refused; the encoding ends with exactly the body after one blank line with the body's length; non-trivial: a body that is not empty", 6000, 250000,
		func(t *rapid.T) bodyCase {
			m := genMsgN(t, 1, 1)
			c := bodyCase{Twice: rapid.Bool().Draw(t, "twice")}
			if rapid.Bool().Draw(t, "any bytes") {
				m.Body = fw.S(rapid.SliceOfN(rapid.Byte(), 0, 40).Draw(t, "bytes"))
			}
			switch pick(t, "mode", "absent", "exact", "less", "more") {
			case "absent":
				m.CL, m.Extra = -1, ""
			case "exact":
				m.CL, m.Extra = intr(t, "at", 0, len(m.Hdrs)), ""
			case "less":
				m.CL, m.Extra = intr(t, "at", 0, len(m.Hdrs)), genBody(t)
			case "more":
				m.CL, m.Extra = intr(t, "at", 0, len(m.Hdrs)), ""
				if len(m.Body) > 0 {
					c.Short = intr(t, "short", 1, len(m.Body))
				}
			}
			c.M = m
			return c
		}, func(x *fw.Ctx, c bodyCase) error {
			m := c.M
			if m.Body != "" {
				x.NonTrivial()
			}
			x.Class(pick2(m.CL < 0, "no Content-Length", pick2(c.Short > 0, "Content-Length too large", pick2(m.Extra != "", "Content-Length smaller", "Content-Length exact"))))
			text := m.text()
			text = text[:len(text)-c.Short]
			p := parser.NewStringMsgParser()
			buf := []byte(text)
			r, err := p.ParseSIPMessageFromByte(buf)
			if c.Short > 0 {
				if err == nil {
					return errf("%d bytes of %d accepted: %q", len(m.Body)-c.Short, len(m.Body), text)
				}
				return eq("the unread data", p.ReadToEnd(), string(m.Body)[:len(m.Body)-c.Short])
			}
			if err != nil {
				return errf("%q refused: %v", text, err)
			}
			if err := firstErr(eq("body left", p.GetMessageBody(), ""), eq("the data after the body", p.ReadToEnd(), string(m.Extra)), eq("the data after all", p.ReadToEnd(), "")); err != nil {
				return errf("%q: %v", text, err)
			}
			for i := range buf {
				buf[i] = 'X'
			}
			if c.Twice { // another message through the same parser leaves the first as it is
				if _, err := p.ParseSIPMessage("OPTIONS sip:o@h SIP/2.0\r\nContent-Length: 2\r\n\r\nxyz"); err != nil {
					return err
				}
			}
			g := r.(sipMsg)
			if err := firstErr(eq("content", g.GetContent(), string(m.Body)), eq("message content", g.GetMessageContent(), string(m.Body)), eq("has content", g.HasContent(), m.Body != "")); err != nil {
				return err
			}
			if cl := g.GetContentLength(); cl == nil || cl.GetContentLength() != len(m.Body) {
				return errf("Content-Length %v for a body of %d bytes", cl, len(m.Body))
			}
			_, lines, body, err := splitText(g.String())
			if err != nil {
				return err
			}
			n := 0
			for _, l := range lines {
				if l == "Content-Length: "+strconv.Itoa(len(m.Body)) {
					n++
				}
			}
			return firstErr(eq("Content-Length lines", n, 1), eq("encoded body", body, string(m.Body)), eq("as bytes", string(g.EncodeAsBytes()), g.String()))
		})
}

// ------------------------------------------------------------------- C06

// badLine is a malformed line put before header At.
type badLine struct {
	At   int
	Text string
	How  string
}

type badCase struct {
	M        msgM
	Start    string // malformed start line, "" for the good one
	Bad      []badLine
	Mismatch string // the method of the CSeq header when it is not the request's
	Refuse   int    // the listener refuses its n-th call; 0 never, -1 no listener
}

// malformed lines, each against the grammar of its header.
var badHeaders = []string{
	"From:", "From: sip:", "From: <>", "From: a b", "From: <sip:a@b>;=x", "From: <sip:a@b> x", "From: <sip:a@b>,<sip:c@d>", `From: "abc <sip:a@b>`, "f: <sip:a@b",
	"To:", "To: <sip:a@b>;;tag=x", "t: <sip:a@b", "Reply-To: <sip:a", "Refer-To: <", "Contact:", "Contact: <sip:a@b>,", "Contact: <sip:a@b>;expires=", "Route:", "Route: sip:a@b>", "Record-Route: <sip:a@b",
	"Via:", "Via: SIP/2.0/UDP", "Via: UDP host", "Via: SIP/2.0 host", "Via: SIP/2.0/UDP host:abc", "Via: SIP/2.0/UDP h:5060x", "Via: SIP/2.0/UDP h (c", "v: SIP/2.0/UDP [::1",
	"CSeq:", "CSeq: x INVITE", "CSeq: 1", "CSeq: INVITE", "CSeq: 1 INVITE x", "CSeq: -1 INVITE", "CSeq: 99999999999999999999 INVITE",
	"Max-Forwards:", "Max-Forwards: x", "Max-Forwards: -1", "Max-Forwards: 70 x", "Max-Forwards: 99999999999999999999",
	"Content-Length:", "Content-Length: x", "Content-Length: -1", "Content-Length: 5 x", "l: 99999999999999999999",
	"Expires:", "Expires: soon", "Expires: -5", "Expires: 1 x", "Expires: 99999999999999999999", "Min-Expires:", "Min-Expires: soon", "RSeq:", "RSeq: x", "RAck:", "RAck: 1 2", "RAck: x 1 INVITE",
	"MIME-Version:", "MIME-Version: 1", "MIME-Version: x", "Date:", "Date: yesterday", "Date: Sat, 32 Nov 2010 23:29:00 GMT", "Call-ID:", "i:",
	"Warning:", "Warning: x", "Warning: 370 a", `Warning: 370 a "x`, `Warning: 99999 h "x"`, "Timestamp:", "Timestamp: x", "Timestamp: 1 2 3", "Retry-After:", "Retry-After: x", "Retry-After: 5 (x", "Retry-After: 5 x",
	"Subscription-State:", "Subscription-State: active;expires=x", "Subscription-State: ;", "Content-Type:", "Content-Type: text", "Content-Type: /plain", "Content-Type: text/", "c: text/plain;", "Content-Disposition:",
	"Accept: text", "Accept: ;", "Accept-Encoding: gzip;q=2", "Accept-Language: en;q=x", "Allow: ,", "Allow: INVITE,", "Allow: a b", "Require: a b", "Supported: @", "Unsupported: a b", "Allow-Events:", "Allow-Events: a b", "Content-Encoding: a b", "Content-Language: @", "In-Reply-To: a b",
	"Alert-Info: http://x", "Alert-Info: <http://x", "Error-Info: <sip:", "Event:", "Event: ;id=x", "o: @", "Reason: ;cause=1",
	"WWW-Authenticate:", "WWW-Authenticate: Digest realm", `WWW-Authenticate: Digest realm="x`, `WWW-Authenticate: Digest realm="x",`, "Authorization:", `Authorization: Digest x="`, "Proxy-Authenticate: Digest nonce", "Proxy-Authorization: Digest nonce=", "Authentication-Info:", "Authentication-Info: x", `Authentication-Info: nextnonce="x`,
	"Server:", "User-Agent:", "Priority: a b", "NoColon", "X-Foo bar", ": x", "Via SIP/2.0/UDP h", "f", "v",
	"Via: SIP/1.0/UDP h", "Via: SIP/2.1/UDP h", "Via: HTTP/2.0/UDP h", "Via: SIP/2.0/UDP h;=x", "Via: SIP/2.0/UDP h, ", "Via: SIP/2.0/UDP h,SIP/2.0/UDP", "Via: SIP/2.0/UDP h;branch=a b", "Warning: 370", "Warning: 370 a b", "Warning: 370 a \"x\", 5", "From: <tel:+>", "From: <tel:>",
	"From: <tel:12;=x>", "From: <tel:12;isub=>", "From: <tel:+12;phone-context=>", "From: <tel:a>", "Subscription-State: active;reason=\"x\"", "Subscription-State: active;retry-after=-1", "Subscription-State: active;reason", "Subscription-State: @", "Subscription-State: active;=", "Retry-After: 5;duration=x", "Retry-After: 5;duration=-1", "Retry-After: 5;duration",
	"Retry-After: 5;=x", "Retry-After: -1", "Timestamp: 1.x", "Timestamp: -1", "Timestamp: 1 x", "Timestamp: 1.2.3", "Accept: text/", "Accept: /", "Accept: @/x", "Accept: text/x, @", "Accept-Encoding: @", "Accept-Encoding: gzip, @",
	"Accept-Encoding: gzip;q=-1", "Accept-Language: @", "Accept-Language: en, @", "Accept-Language: en;q=1.5", "Allow: INVITE, @", "Allow-Events: @", "Allow-Events: a, @", "In-Reply-To: a@", "In-Reply-To: a@@b", "In-Reply-To: @", "In-Reply-To: a, @", "In-Reply-To: a, b@",
	"Require: @", "Require: a, @", "Proxy-Require: @", "Proxy-Require: a,@", "Supported: a, @", "Unsupported: @", "Unsupported: a, @", "Content-Encoding: @", "Content-Encoding: gzip, @", "Content-Language: en, @", "Call-Info: <sip:a@b>, x", "Call-Info: <sip:a@b>, <",
	"Call-Info: <>", "Call-Info: x", "Call-Info: <sip:a@b>;=x", "Error-Info: <sip:a@b>, x", "Error-Info: <sip:a@b>, <", "Alert-Info: <http://x>, x", "Alert-Info: <>", "Content-Disposition: @", "Content-Disposition: ;x", "Event: @", "Expires: @", "MIME-Version: a.b",
	"MIME-Version: 1.b", "MIME-Version: 1.", "Priority: @", "RAck: 1 x INVITE", "RAck: 1 2 @", "RAck: -1 1 INVITE", "RSeq: -1", "Reason: @", "Reason: SIP, @", "Contact: <sip:a@b>;expires=x", "Contact: <sip:a@b>, @", "Contact: *;x=y",
	"Contact: * *", "Route: <sip:a@b>, x", "Record-Route: <sip:a@b>, x", "User-Agent: (", "Server: a (", "Content-Type: @/x", "Content-Type: a/@", "Content-Type: text/plain;=x", "Call-ID: a@", "Call-ID: @b", "Date: Sat, 13 Nov 2010 25:29:00 GMT", "Date: Sat, 13 Foo 2010 23:29:00 GMT",
	"Date: Sat, 13 Nov 2010 23:29:00 PST", "Date: Foo, 13 Nov 2010 23:29:00 GMT", "CSeq: 1 @", "CSeq: 1 IN@", "Authorization: Digest x", "Authorization: Digest ,x=y", "Authentication-Info: =x", "From: <sip:a@b>;tag=a b", "From: <sip:>", "From: <sip:a@>", "From: <sip:@b>", "From: <sip:a@b:-1>",
	"From: , <sip:a@b>", "From: a;b <sip:a@b>", `To: a "b" <sip:a@b>`, `Reply-To: a\ <sip:a@b>`, "Contact: <sip:a@b>,, <sip:c@d>", "Contact: a <sip:a@b>, b, c <sip:d@e>", "Route: ,<sip:a@b>", "Record-Route: <sip:a@b>, ,<sip:c@d>", "From: \"a\" sip:a@b", "From: a <sip:a@b", "Refer-To: <a>",
}

var badStarts = []string{
	"INVITE", "INVITE sip:a@b", "INVITE sip:a@b SIP/3.0", "INVITE sip:a@b SIP/2.0 x", "sip:a@b SIP/2.0", "INVITE  SIP/2.0", "INVITE sip: SIP/2.0", "INVITE sip:a@b HTTP/1.1", "INVITE sip:a@b SIP/x", "IN@VITE sip:a@b SIP/2.0", "INVITE <sip:a@b> SIP/2.0", "INVITE sip:a b SIP/2.0", "INVITEsip:a@b SIP/2.0", "INVITE sip:a@b:x SIP/2.0", "INVITE a SIP/2.0",
	"SIP/2.0", "SIP/2.0 OK", "SIP/2.0 200OK", "SIP/2.0 x OK", "SIP/2.0200 OK", "SIP/2.0 -1 x", "SIP/2.0.1 200 OK", "SIP/2.01 200 OK", "SIP/2.0 99 OK", "SIP/2.0 2000 OK", "SIP/2.0 4294967301 x",
}

var emptyBad = map[string]bool{"From": true, "To": true, "Reply-To": true, "Refer-To": true, "Contact": true, "Route": true, "Record-Route": true, "Via": true, "Call-ID": true, "CSeq": true, "Max-Forwards": true, "Content-Length": true, "Content-Type": true, "Content-Disposition": true, "Date": true, "Event": true, "Expires": true, "Min-Expires": true, "MIME-Version": true, "RAck": true, "RSeq": true, "Retry-After": true, "Subscription-State": true, "Timestamp": true, "Warning": true, "Server": true, "User-Agent": true, "WWW-Authenticate": true, "Proxy-Authenticate": true, "Authorization": true, "Proxy-Authorization": true, "Authentication-Info": true}

// junkBad are the headers after whose value nothing else may stand.
var junkBad = map[string]bool{"From": true, "To": true, "Reply-To": true, "Refer-To": true, "Contact": true, "Route": true, "Record-Route": true, "Via": true, "CSeq": true, "Max-Forwards": true, "Content-Length": true, "Content-Type": true, "Content-Disposition": true, "Date": true, "Event": true, "Expires": true, "Min-Expires": true, "MIME-Version": true, "RAck": true, "RSeq": true, "Retry-After": true, "Subscription-State": true, "Timestamp": true, "Warning": true,
	"WWW-Authenticate": true, "Proxy-Authenticate": true, "Authorization": true, "Proxy-Authorization": true, "Authentication-Info": true, "Accept": true, "Accept-Encoding": true, "Accept-Language": true, "Allow": true, "Allow-Events": true, "Require": true, "Proxy-Require": true, "Supported": true, "Unsupported": true, "Content-Encoding": true, "Content-Language": true, "In-Reply-To": true, "Alert-Info": true, "Call-Info": true, "Error-Info": true, "Reason": true, "Priority": true}

// quoteBad are the headers with generic parameters.
var quoteBad = map[string]string{"From": ";", "To": ";", "Reply-To": ";", "Refer-To": ";", "Contact": ";", "Route": ";", "Record-Route": ";", "Via": ";", "Content-Type": ";", "Content-Disposition": ";", "Event": ";", "Subscription-State": ";", "Accept": ";", "Accept-Encoding": ";", "Accept-Language": ";", "Alert-Info": ";", "Call-Info": ";", "Error-Info": ";", "Reason": ";", "Retry-After": ";",
	"WWW-Authenticate": ",", "Proxy-Authenticate": ",", "Authorization": ",", "Proxy-Authorization": ",", "Authentication-Info": ","}

// genBadLine draws a line that is certainly malformed.
func genBadLine(t *rapid.T) (text, how string) {
	how = pick(t, "how", "table", "table", "empty", "junk", "quote", "angle", "number", "colon", "element", "gap")
	// bare addresses end their parameters elsewhere
	hdr := func(m map[string]bool) hdrM {
		k := pick(t, "badkind", kindNames...)
		for i := 0; i < len(kindNames) && !m[k]; i++ {
			k = kindNames[(indexOf(kindNames, k)+1)%len(kindNames)]
		}
		h := genHdr(t, k, 2).plain()
		for i := range h.Elems {
			if a := h.Elems[i].A; a != nil && a.Form == "spec" {
				b := *a
				b.Form = "angle"
				h.Elems[i].A = &b
			}
		}
		if s := h.kind().short; s != "" && chance(t, "short", 4) {
			h.Name = s
		}
		return h
	}
	switch how {
	case "empty":
		return hdr(emptyBad).name() + pick(t, "colon", ":", ": ", " :", ":  "), how
	case "junk":
		h := hdr(junkBad)
		return h.text() + pick(t, "junk", " @@", " ]", " (=", " {}"), how
	case "element":
		m := map[string]bool{}
		for _, k := range kindNames {
			m[k] = kinds[k].list
		}
		return hdr(m).text() + pick(t, "comma", ",", ", ", " ,") + pick(t, "element", "@", "=", "]"), how
	case "gap": // an empty element before, between or after the others
		m := map[string]bool{}
		for _, k := range kindNames {
			m[k] = kinds[k].list
		}
		h := hdr(m)
		v := strings.TrimSpace(strings.TrimPrefix(h.text(), h.name()))
		v = strings.TrimSpace(strings.TrimPrefix(v, ":"))
		c := pick(t, "comma", ",", ", ", " ,", " , ")
		return h.name() + ": " + pick(t, "gap", v+c+pick(t, "comma2", ",", ", ")+v, c+v, v+c), how
	case "quote":
		m := map[string]bool{}
		for k := range quoteBad {
			m[k] = true
		}
		h := hdr(m)
		return h.text() + quoteBad[h.Kind] + `zz="abc`, how
	case "angle":
		h := hdr(map[string]bool{"From": true, "To": true, "Reply-To": true, "Refer-To": true, "Contact": true, "Route": true, "Record-Route": true})
		h.Elems = h.Elems[:1]
		h.Elems[0].P = nil
		return strings.TrimSuffix(h.text(), ">"), how
	case "number":
		k := pick(t, "numkind", "Max-Forwards", "Content-Length", "Expires", "Min-Expires", "RSeq", "CSeq", "Retry-After")
		v := pick(t, "numbad", "-1", "x", "1x", "99999999999999999999", "0x10", "+5", "1.5", "9223372036854775808")
		if k == "CSeq" {
			v += " INVITE"
		}
		return k + ": " + v, how
	case "colon":
		return pick(t, "nc", kindNames[:len(kindNames)-1]...) + " " + genWord(t, "ncw"), how
	}
	return pick(t, "badtext", badHeaders...), "table"
}

func indexOf(l []string, s string) int {
	for i, x := range l {
		if x == s {
			return i
		}
	}
	return -1
}

type listener struct {
	refuse int
	texts  []string
	lines  []int
	bad    error
	p      *parser.StringMsgParser
}

func (l *listener) HandleException(err error, m message.Message, headerText, messageText string) error {
	l.texts = append(l.texts, headerText)
	l.lines = append(l.lines, l.p.GetCurrentLineNumber())
	if l.bad == nil {
		switch {
		case err == nil:
			l.bad = errf("reported without an error")
		case m == nil:
			l.bad = errf("reported without the message")
		case !strings.Contains(messageText, headerText):
			l.bad = errf("the message reported lacks the header %q", headerText)
		case l.p.GetCurrentHeader() != headerText:
			l.bad = errf("current header %q, reported %q", l.p.GetCurrentHeader(), headerText)
		}
	}
	if len(l.texts) == l.refuse {
		return errf("refused")
	}
	return nil
}

func init() {
	fw.Add("C06", "listener", "a well-formed message with its start line or up to three header lines damaged (an entry of a table of 290 malformed lines, a list with a bad or an empty element, a header emptied, with junk after its value, with an unterminated quoted string or angle bracket, with a bad number, without its colon) or with a CSeq of another method, some headers missing; parsed without listener, with an accepting one and with one refusing its n-th call: errors, reports with their text in order, and everything well-formed compared with the model; non-trivial: at least one line malformed", 8000, 300000,
		func(t *rapid.T) badCase {
			m := genMsgN(t, 3, 2)
			c := badCase{}
			if chance(t, "drop", 3) {
				i := intr(t, "dropped", 0, len(m.Hdrs)-1)
				m.Hdrs = append(m.Hdrs[:i:i], m.Hdrs[i+1:]...)
			}
			if chance(t, "badstart", 4) {
				c.Start = pick(t, "start", badStarts...)
				m.Req = !strings.HasPrefix(c.Start, "SIP/2.0")
			}
			if m.CL > len(m.Hdrs) {
				m.CL = len(m.Hdrs)
			}
			for n := intr(t, "bad", 0, 3); n > 0; n-- {
				b := badLine{At: intr(t, "at", 0, len(m.Hdrs))}
				b.Text, b.How = genBadLine(t)
				c.Bad = append(c.Bad, b)
			}
			if h := m.find("CSeq"); m.Req && h != nil && chance(t, "mismatch", 5) {
				c.Mismatch = "X" + m.Method
				h.Elems[0].S[0] = c.Mismatch
			}
			c.Refuse = intr(t, "refuse", -1, 3)
			c.M = m
			return c
		}, runBad)
}

func runBad(x *fw.Ctx, c badCase) error {
	m := c.M
	// the text, and what must be reported
	var lines, want []string
	first := m.Start(c.Start)
	lines = append(lines, first)
	if c.Start != "" {
		x.Class("start line")
		want = append(want, c.Start)
	}
	var at []int // the lines of what must be reported, the start line being line 0
	if c.Start != "" {
		at = append(at, 0)
	}
	bad := func(i int) {
		for _, b := range c.Bad {
			if b.At == i {
				x.Class(b.How)
				at = append(at, len(lines))
				lines = append(lines, b.Text)
				want = append(want, b.Text)
			}
		}
	}
	for i, h := range m.Hdrs {
		bad(i)
		if i == m.CL {
			lines = append(lines, "Content-Length: "+strconv.Itoa(len(m.Body)))
		}
		lines = append(lines, h.text())
		if h.Kind == "CSeq" && c.Mismatch != "" && c.Start == "" {
			x.Class("CSeq method")
			want = append(want, h.text())
			at = append(at, len(lines)-1)
		}
	}
	bad(len(m.Hdrs))
	if m.CL >= len(m.Hdrs) {
		lines = append(lines, "Content-Length: "+strconv.Itoa(len(m.Body)))
	}
	text := strings.Join(lines, "\r\n") + "\r\n\r\n" + string(m.Body) + string(m.Extra)
	if len(want) > 0 {
		x.NonTrivial()
	}
	p := parser.NewStringMsgParser()
	l := &listener{refuse: c.Refuse, p: p}
	if c.Refuse >= 0 {
		p.SetParseExceptionListener(l)
	}
	g, err := p.ParseSIPMessage(text)
	fail := c.Refuse < 0 && len(want) > 0 || c.Refuse > 0 && c.Refuse <= len(want)
	if (err != nil) != fail {
		return errf("%q: error %v, want one: %v (malformed %q)", text, err, fail, want)
	}
	if (g == nil) != fail {
		return errf("%q: result %v with error %v", text, g, err)
	}
	if c.Refuse > 0 && c.Refuse < len(want) {
		want, at = want[:c.Refuse], at[:c.Refuse]
	}
	if c.Refuse >= 0 {
		if err := firstErr(l.bad, eqStrings("reported", trims(l.texts), trims(want)), eq("their lines", fmt.Sprint(l.lines), fmt.Sprint(at))); err != nil {
			return errf("%q: %v", text, err)
		}
	}
	if fail {
		return nil
	}
	s := g.(sipMsg)
	if c.Start != "" {
		switch r := s.(type) {
		case *message.SIPRequest:
			if !m.Req || r.GetRequestLine() != nil {
				return errf("%q: a request line from %q", text, c.Start)
			}
		case *message.SIPResponse:
			if m.Req || r.GetStatusLine() != nil {
				return errf("%q: a status line from %q", text, c.Start)
			}
		}
		if err := checkHeadersOf(s, m); err != nil {
			return errf("%q: %v", text, err)
		}
		return eq("content", s.GetContent(), string(m.Body))
	}
	if err := checkMsg(s, m); err != nil {
		return errf("%q: %v", text, err)
	}
	return nil
}

func trims(l []string) (r []string) {
	for _, s := range l {
		r = append(r, strings.TrimSpace(s))
	}
	return
}

// Start is the first line, or the damaged one.
func (m msgM) Start(bad string) string {
	if bad != "" {
		return bad
	}
	return m.firstLine()
}

// checkHeadersOf compares the header table only.
func checkHeadersOf(g sipMsg, m msgM) error {
	n := 0
	for _, gr := range m.groups() {
		if err := checkGroup(g, gr); err != nil {
			return err
		}
		n++
	}
	for _, s := range listStrings(g.GetHeaderNames()) {
		if !strings.EqualFold(s, "Content-Length") {
			n--
		}
	}
	return firstErr(eq("header names missing", n, 0), checkTyped(g))
}

var _ header.Header
