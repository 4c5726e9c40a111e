package props

import (
	"strconv"
	"strings"

	"github.com/use-go/gosips/sip/header"
	"github.com/use-go/gosips/sip/message"
	"pgregory.net/rapid"

	"verif/harness/fw"
)

// ------------------------------------------------------------------- C07

type validCase struct {
	Req      bool
	Method   string
	CSeq     string // the method of the CSeq header
	Drop     []string
	Parsed   bool
	Removed  bool // the dropped headers are there first and removed then
	Extra    []hdrM
	Template msgM
}

var mandatory = []string{"From", "To", "Call-ID", "CSeq", "Via", "Max-Forwards"}

func init() {
	fw.Add("C07", "subsets", "a message with any subset of the mandatory headers and some others, parsed, assembled or with headers removed again, with equal or differing request and CSeq methods: the validation compared with the table of what must be there; non-trivial: a mandatory header missing or methods differing", 5000, 200000,
		func(t *rapid.T) validCase {
			m := genMsgN(t, 2, 2).plain()
			c := validCase{Req: m.Req, Parsed: rapid.Bool().Draw(t, "parsed"), Removed: rapid.Bool().Draw(t, "removed")}
			if !chance(t, "whole", 3) {
				for _, n := range mandatory {
					if chance(t, "drop", 4) {
						c.Drop = append(c.Drop, n)
					}
				}
			}
			c.Method = genMethod(t)
			c.CSeq = c.Method
			if chance(t, "differ", 3) {
				c.CSeq = genMethod(t)
				if strings.EqualFold(c.CSeq, c.Method) {
					c.CSeq = c.Method // the letter case of methods is not compared
				}
			}
			if m.Req {
				m.Method = c.Method
			}
			if h := m.find("CSeq"); h != nil {
				h.Elems[0].S[0] = c.CSeq
			}
			if h := m.find("Max-Forwards"); h == nil && rapid.Bool().Draw(t, "mf") {
				m.Hdrs = append(m.Hdrs, hdrM{Kind: "Max-Forwards", Elems: []elem{{I: []int{70}}}})
			}
			c.Template = m
			return c
		}, runValid)
}

func runValid(x *fw.Ctx, c validCase) error {
	dropped := map[string]bool{}
	for _, n := range c.Drop {
		dropped[n] = true
	}
	m := c.Template
	left := m
	left.Hdrs = nil
	for _, h := range m.Hdrs {
		if !dropped[h.Kind] {
			left.Hdrs = append(left.Hdrs, h)
		}
	}
	want := true
	for _, n := range mandatory {
		if n == "Max-Forwards" && !c.Req {
			continue
		}
		if left.find(n) == nil {
			want = false
		}
	}
	if c.Req && c.CSeq != c.Method {
		want = false
	}
	if !want {
		x.NonTrivial()
	}
	x.Class(pick2(want, "valid", "not valid") + pick2(c.Req, " request", " response"))
	src := left
	if c.Removed {
		src = m
		x.Class("removed")
	}
	var g sipMsg
	var err error
	if c.Parsed {
		// a request whose CSeq has another method is not parsed, so it is set afterwards
		if c.Req {
			src.Hdrs = append([]hdrM{}, src.Hdrs...)
			for i := range src.Hdrs {
				if src.Hdrs[i].Kind == "CSeq" {
					e := src.Hdrs[i].Elems[0]
					e.S = append([]string{}, e.S...)
					e.S[0] = c.Method
					src.Hdrs[i].Elems = []elem{e}
				}
			}
		}
		if g, err = parseMsg(src.text()); err != nil {
			return err
		}
		if cs := g.GetCSeq(); cs != nil {
			if err := cs.SetMethod(c.CSeq); err != nil {
				return err
			}
		}
	} else if g, err = buildMsg(src); err != nil {
		return err
	}
	if c.Removed {
		for i, n := range c.Drop {
			if i%2 == 0 {
				g.RemoveHeader(n)
			} else {
				for k := 0; k < 4 && g.HasHeader(n); k++ {
					g.RemoveHeader2(n, k%2 == 0)
				}
				if g.HasHeader(n) {
					g.RemoveHeader(strings.ToLower(n))
				}
			}
		}
	}
	before := g.String()
	err = g.CheckHeaders()
	if (err == nil) != want {
		return errf("%q: validation error %v, want valid: %v", g.String(), err, want)
	}
	return eq("message after validation", g.String(), before)
}

// ------------------------------------------------------------------- C09

type contentOp struct {
	Op   string
	Body fw.S
	Type *elem `json:",omitempty"`
	H    *hdrM `json:",omitempty"`
	N    int   `json:",omitempty"`
}

type contentCase struct {
	M      msgM
	Parsed bool
	Ops    []contentOp
}

func genContentBody(t *rapid.T) fw.S {
	if rapid.Bool().Draw(t, "any bytes") {
		return fw.S(rapid.SliceOfN(rapid.Byte(), 0, 20).Draw(t, "bytes"))
	}
	return genBody(t)
}

var entityKinds = []string{"Content-Encoding", "Content-Language", "Content-Disposition"}

func init() {
	fw.Add("C09", "operations", "a history of up to 10 content operations (as text or bytes, with and without type, removal), changes of Content-Length and of entity headers, on a parsed or assembled request or response: after each, the content, its type, Content-Length, the other headers, the encoding and the encoding parsed back compared with a model; non-trivial: content set at least twice or removed", 2500, 100000,
		func(t *rapid.T) contentCase {
			c := contentCase{M: genMsgN(t, 2, 2).plain(), Parsed: rapid.Bool().Draw(t, "parsed")}
			for n := intr(t, "ops", 1, 10); n > 0; n-- {
				op := contentOp{Op: pick(t, "op", "text", "bytes", "typed text", "typed bytes", "content text", "content bytes", "remove", "remove", "length", "length header", "no length", "entity")}
				switch op.Op {
				case "text", "bytes":
					op.Body = genContentBody(t)
				case "typed text", "typed bytes", "content text", "content bytes":
					op.Body = genContentBody(t)
					e := genHdr(t, "Content-Type", 1).plain().Elems[0]
					if strings.HasPrefix(op.Op, "typed") {
						e.P = nil
					}
					op.Type = &e
				case "length", "length header":
					op.N = intr(t, "n", 0, 50)
				case "entity":
					h := genHdr(t, pick(t, "ekind", entityKinds...), 1).plain()
					h.Name = ""
					op.H = &h
				}
				c.Ops = append(c.Ops, op)
			}
			return c
		}, runContent)
}

func runContent(x *fw.Ctx, c contentCase) error {
	m := c.M
	var g sipMsg
	var err error
	if c.Parsed {
		g, err = parseMsg(m.text())
	} else {
		g, err = buildMsg(m)
	}
	if err != nil {
		return err
	}
	tb := &table{}
	for _, gr := range m.groups() {
		tb.add(gr.h.plainName(), false)
	}
	body := string(m.Body)
	known := true // whether the Content-Length header follows the body
	sets, removed := 0, false
	var given [][]byte // the bodies handed over as bytes
	var kept []string
	asBytes := func(b fw.S) []byte {
		given, kept = append(given, []byte(b)), append(kept, string(b))
		return given[len(given)-1]
	}
	for i, op := range c.Ops {
		x.Class(op.Op)
		if op.Type != nil {
			tb.set(hdrM{Kind: "Content-Type", Elems: []elem{*op.Type}})
		}
		var ct header.ContentTypeHeader
		if op.Type != nil {
			h, err := kinds["Content-Type"].build(*op.Type)
			if err != nil {
				return err
			}
			ct = h.(header.ContentTypeHeader)
		}
		set := true
		switch op.Op {
		case "text":
			g.SetMessageContent(string(op.Body))
		case "bytes":
			g.SetMessageContentFromByte(asBytes(op.Body))
		case "typed text":
			g.SetMessageContentFromString(ct.GetContentType(), ct.GetContentSubType(), string(op.Body))
		case "typed bytes":
			g.SetMessageContent3(ct.GetContentType(), ct.GetContentSubType(), asBytes(op.Body))
		case "content text":
			g.SetContent(string(op.Body), ct)
		case "content bytes":
			g.SetContent(asBytes(op.Body), ct)
		case "remove":
			g.RemoveContent()
			removed = true
			for _, n := range append([]string{"Content-Type"}, entityKinds...) {
				j := tb.find(n)
				switch {
				case j < 0:
				case body != "" || !g.HasHeader(n):
					tb.remove(j)
				}
			}
		default:
			set = false
			switch op.Op {
			case "length":
				g.SetContentLength(header.NewContentLengthFromInt(op.N))
				known = false
			case "length header":
				g.SetHeader(header.NewContentLengthFromInt(op.N))
				known = false
			case "no length":
				g.RemoveHeader("content-length")
				known = false
			case "entity":
				h, err := buildAs(*op.H, false)
				if err != nil {
					return err
				}
				g.SetHeader(h)
				tb.set(*op.H)
			}
		}
		if set {
			body, known = string(op.Body), true
			if op.Op != "remove" {
				sets++
			}
		}
		if err := checkContent(g, tb, body, known, c.M); err != nil {
			return errf("after operation %d (%s): %v", i, op.Op, err)
		}
		for k := range given {
			if err := eq("the caller's bytes", string(given[k]), kept[k]); err != nil {
				return errf("after operation %d (%s): %v", i, op.Op, err)
			}
		}
	}
	if sets > 1 || removed {
		x.NonTrivial()
	}
	return nil
}

func checkContent(g sipMsg, tb *table, body string, known bool, m msgM) error {
	if err := firstErr(eq("content", g.GetContent(), body), eq("message content", g.GetMessageContent(), body)); err != nil {
		return err
	}
	if body != "" && !g.HasContent() {
		return errf("no content of %d bytes", len(body))
	}
	if known {
		cl := g.GetContentLength()
		if cl == nil || cl.GetContentLength() != len(body) {
			return errf("Content-Length %v for %d bytes", cl, len(body))
		}
	}
	s := g.String()
	if err := eq("as bytes", string(g.EncodeAsBytes()), s); err != nil {
		return err
	}
	i := strings.Index(s, "\r\n\r\n")
	if i < 0 {
		return errf("no blank line in %q", s)
	}
	n := 0
	for _, l := range strings.Split(s[:i], "\r\n")[1:] {
		if strings.HasPrefix(strings.ToLower(l), "content-length") {
			n++
			if err := eq("Content-Length line", l, "Content-Length: "+strconv.Itoa(len(body))); err != nil {
				return err
			}
		}
	}
	if err := firstErr(eq("Content-Length lines", n, 1), eq("encoded body", s[i+4:], body), tb.check(g, body)); err != nil {
		return err
	}
	g2, err := parseMsg(s)
	if err != nil {
		return err
	}
	if err := firstErr(eq("content parsed back", g2.GetContent(), body), eq("start line parsed back", g2.GetFirstLine(), g.GetFirstLine())); err != nil {
		return err
	}
	j := tb.find("Content-Type")
	ct := g2.GetContentTypeHeader()
	if (ct != nil) != (j >= 0) {
		return errf("Content-Type parsed back: %v", ct)
	}
	if j >= 0 {
		return kinds["Content-Type"].check(ct.(header.Header), tb.l[j].h.Elems[0])
	}
	return nil
}

var _ message.Message
