package props

import (
	"strings"

	"github.com/use-go/gosips/sip/header"
	"pgregory.net/rapid"

	"verif/harness/fw"
)

// The lists RFC 3261 allows to be empty: "Accept:" accepts nothing, and so on.
func init() {
	type cs struct {
		Name string
		WS   []string
		M    *msgM
		At   int
	}
	fw.Add("C17", "empty-lists", "an Accept, Accept-Encoding, Accept-Language, Allow or Supported header without elements, alone or at some place in a message: it is there, has no element with content, and is written and read again as an empty header; non-trivial: in a message with other headers", 400, 10000,
		func(t *rapid.T) cs {
			c := cs{Name: pick(t, "name", "Accept", "Accept-Encoding", "Accept-Language", "Allow", "Supported"), WS: []string{pick(t, "ws", "", " ", "\t"), pick(t, "ws2", "", " ", "  \t")}}
			if rapid.Bool().Draw(t, "in message") {
				m := genMsgN(t, 3, 2).plain()
				hs := m.Hdrs
				m.Hdrs = nil
				for _, h := range hs {
					if h.Kind != c.Name {
						m.Hdrs = append(m.Hdrs, h)
					}
				}
				m.CL = -1
				c.M, c.At = &m, intr(t, "at", 1, 1+len(m.lines()))
			}
			return c
		}, func(x *fw.Ctx, c cs) error {
			x.Class(c.Name)
			line := c.Name + c.WS[0] + ":" + c.WS[1]
			empty := func(h header.Header) error {
				l, ok := h.(header.Lister)
				if !ok {
					return errf("a %T", h)
				}
				for _, e := range listerHeaders(l) {
					if b := strings.TrimSpace(e.EncodeBody()); b != "" {
						return errf("an element %q", b)
					}
				}
				return eq("encoding", strings.TrimSpace(strings.TrimRight(h.String(), "\r\n")), c.Name+":")
			}
			if c.M == nil {
				h, err := parseHdr(line)
				if err != nil {
					return err
				}
				if err := empty(h); err != nil {
					return err
				}
				h, err = parseHdr(hdrText(h))
				if err != nil {
					return err
				}
				return empty(h)
			}
			x.NonTrivial()
			parts := strings.SplitN(c.M.text(), "\r\n\r\n", 2)
			lines := strings.Split(parts[0], "\r\n")
			at := c.At
			if at > len(lines) {
				at = len(lines)
			}
			lines = append(lines[:at:at], append([]string{line}, lines[at:]...)...)
			text := strings.Join(lines, "\r\n") + "\r\n\r\n" + parts[1]
			for i := 0; i < 2; i++ {
				g, err := parseMsg(text)
				if err != nil {
					return errf("%v in %q", err, text)
				}
				n := 0
				for _, l := range strings.Split(g.String(), "\r\n") {
					if strings.TrimSpace(l) == c.Name+":" {
						n++
					}
				}
				if err := eq("empty lines in the encoding", n, 1); err != nil {
					return err
				}
				if err := checkStart(g, *c.M); err != nil {
					return err
				}
				for _, gr := range c.M.groups() {
					if err := checkGroup(g, gr); err != nil {
						return err
					}
				}
				text = g.String()
			}
			return nil
		})
}
