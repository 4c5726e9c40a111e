package props

import (
	"fmt"
	"strconv"
	"strings"

	"github.com/use-go/gosips/core"
	"github.com/use-go/gosips/sip/parser"
	"pgregory.net/rapid"

	"verif/harness/fw"
)

// ------------------------------------- C27: the scanners of the URL parser

var urlOps = []string{"unreserved", "reserved", "mark", "escaped", "isescaped", "uric", "uricnoslash", "uricstring", "param", "hvalue",
	"user", "password", "base", "local", "urlstring", "scheme", "skip"}

func isMarkB(c byte) bool           { return strings.IndexByte("-_.!~*'()", c) >= 0 }
func isUnreservedB(c byte) bool     { return isAlphaB(c) || isDigitB(c) || isMarkB(c) }
func isReservedB(c byte) bool       { return strings.IndexByte(";/?:@&=+$,", c) >= 0 }
func isUserUnreservedB(c byte) bool { return strings.IndexByte("&=+$,;?/", c) >= 0 }
func isHexB(c byte) bool            { return strings.IndexByte("0123456789abcdefABCDEF", c) >= 0 }

func escapedAt(s string) bool { return len(s) >= 3 && s[0] == '%' && isHexB(s[1]) && isHexB(s[2]) }

// spanEsc is the length of the longest prefix of characters of the class and
// escapes.
func spanEsc(s string, f func(byte) bool) int {
	i := 0
	for i < len(s) {
		switch {
		case f(s[i]):
			i++
		case escapedAt(s[i:]):
			i += 3
		default:
			return i
		}
	}
	return i
}

type urlScanCase struct {
	Buf fw.S
	Ops []string
}

func runURLScan(x *fw.Ctx, c urlScanCase) error {
	buf := string(c.Buf)
	lx := parser.NewSIPLexer("charLexer", buf)
	p := parser.NewURLParserFromLexer(lx)
	pos, moved := 0, 0
	for i, op := range c.Ops {
		rest := buf[pos:]
		what := fmt.Sprintf("step %d %s at %d of %q", i, op, pos, buf)
		str := func(got string, err error, n int, ok bool) error {
			if ok != (err == nil) {
				return errf("%s: error %v, want error: %v", what, err, !ok)
			}
			if !ok {
				q := lx.GetPtr()
				if q < pos || q > len(buf) {
					return errf("%s: position %d after an error", what, q)
				}
				pos = q
				return nil
			}
			if got != rest[:n] {
				return errf("%s: got %q, want %q", what, got, rest[:n])
			}
			pos += n
			if n > 0 {
				moved++
			}
			return nil
		}
		one := func(f func(byte) bool) (int, bool) { return 1, rest != "" && f(rest[0]) }
		var err error
		switch op {
		case "unreserved":
			n, ok := one(isUnreservedB)
			s, e := p.Unreserved()
			err = str(s, e, n, ok)
		case "reserved":
			n, ok := one(isReservedB)
			s, e := p.Reserved()
			err = str(s, e, n, ok)
		case "mark":
			n, ok := one(isMarkB)
			s, e := p.Mark()
			err = str(s, e, n, ok)
		case "escaped":
			s, e := p.Escaped()
			err = str(s, e, 3, escapedAt(rest))
		case "isescaped":
			err = eq(what, p.IsEscaped(), escapedAt(rest))
		case "uric", "uricnoslash":
			n := 0
			switch {
			case escapedAt(rest):
				n = 3
			case rest != "" && (isUnreservedB(rest[0]) || isReservedB(rest[0]) && (op == "uric" || rest[0] != '/')):
				n = 1
			}
			if op == "uric" {
				err = str(p.Uric(), nil, n, true)
			} else {
				err = str(p.UricNoSlash(), nil, n, true)
			}
		case "uricstring":
			n := spanEsc(rest, func(b byte) bool { return isUnreservedB(b) || isReservedB(b) })
			err = str(p.UricString(), nil, n, true)
		case "param":
			n := spanEsc(rest, func(b byte) bool { return isUnreservedB(b) || strings.IndexByte("[]/:&+$", b) >= 0 })
			s, e := p.ParamNameOrValue()
			err = str(s, e, n, true)
		case "hvalue":
			n := spanEsc(rest, func(b byte) bool { return isUnreservedB(b) || strings.IndexByte("[]/?:+$\"", b) >= 0 })
			s, e := p.Hvalue()
			err = str(s, e, n, n == len(rest) || rest[n] != '%')
		case "user":
			n := spanEsc(rest, func(b byte) bool { return isUnreservedB(b) || isUserUnreservedB(b) })
			s, e := p.User()
			err = str(s, e, n, true)
		case "password":
			n := spanEsc(rest, func(b byte) bool { return isUnreservedB(b) || strings.IndexByte("&=+$,", b) >= 0 })
			s, e := p.Password()
			err = str(s, e, n, true)
		case "base":
			n := span(rest, func(b byte) bool { return isDigitB(b) || strings.IndexByte("-.()", b) >= 0 })
			s, e := p.Base_phone_number()
			err = str(s, e, n, n > 0)
		case "local":
			n := span(rest, func(b byte) bool { return isDigitB(b) || strings.IndexByte("*#-.()", b) >= 0 })
			s, e := p.Local_number()
			err = str(s, e, n, n > 0)
		case "urlstring":
			n := span(rest, func(b byte) bool { return strings.IndexByte(" \t\n<>", b) < 0 })
			s, e := p.UrlString()
			err = str(s, e, n, true)
		case "scheme":
			n := span(rest, isTokenB)
			if n == 0 && rest != "" {
				n = 1
			}
			if rest == "" {
				continue // not specified
			}
			s, e := p.PeekScheme()
			if e != nil || s != rest[:n] {
				return errf("%s: %q %v", what, s, e)
			}
		case "skip":
			if rest != "" {
				lx.ConsumeK(1)
				pos++
			}
		default:
			return errf("no such operation %q", op)
		}
		if err != nil {
			return err
		}
		if q := lx.GetPtr(); q != pos {
			return errf("%s: position %d afterwards, want %d", what, q, pos)
		}
	}
	if moved > 1 {
		x.NonTrivial()
	}
	return nil
}

// ------------------------------------------- C27: keyword tables and tokens

type keyOp struct {
	Op, Name string
	Val      int `json:",omitempty"`
}

type keyCase struct {
	Ops []keyOp
}

func runKeywords(x *fw.Ctx, c keyCase) error {
	words := []string{"alpha", "Beta", "x-9", "SIP", "via"}
	// all the names and words share one buffer; each step looks at one word
	lx := core.NewCoreLexer("start", strings.Join(words, " "))
	tables := map[string]map[string]int{}
	cur := map[string]int{}
	have := true
	sym := map[int]string{}
	name := "start"
	hits := 0
	for i, op := range c.Ops {
		what := fmt.Sprintf("step %d %s %s %d", i, op.Op, op.Name, op.Val)
		switch op.Op {
		case "add-table":
			lx.AddLexer(op.Name)
			if tables[op.Name] == nil {
				tables[op.Name] = map[string]int{}
			}
			cur, have = tables[op.Name], true
		case "select":
			lx.SelectLexer(op.Name)
			cur, have = tables[op.Name]
			name = op.Name
		case "rename":
			lx.SetLexerName(op.Name)
			name = op.Name
		case "keyword":
			if !have {
				continue // there is no table to add to
			}
			lx.AddKeyword(strings.ToUpper(op.Name), op.Val)
			cur[strings.ToUpper(op.Name)] = op.Val
			if sym[op.Val] == "" {
				sym[op.Val] = strings.ToUpper(op.Name)
			}
		default:
			return errf("no such operation %q", op.Op)
		}
		if err := firstErr(eq(what+": lexer name", lx.GetLexerName(), name), eq(what+": has a table", lx.CurrentLexer() != nil, have)); err != nil {
			return err
		}
		for v, s := range sym {
			if err := eq(what+": text of "+strconv.Itoa(v), lx.LookupToken(v), s); err != nil {
				return err
			}
		}
		if err := eq(what+": text of a character", lx.LookupToken(op.Val%256), strconv.Itoa(op.Val%256)); err != nil {
			return err
		}
		lx.RewindInputPosition(0)
		for _, w := range words {
			want, ok := cur[strings.ToUpper(w)]
			if !ok {
				want = core.CORELEXER_ID
			} else {
				hits++
			}
			tok, err := lx.PeekNextToken()
			if err != nil {
				return errf("%s: %v", what, err)
			}
			if err := firstErr(eq(what+": value of "+w, tok.GetTokenValue(), w), eq(what+": type of "+w, tok.GetTokenType(), want)); err != nil {
				return err
			}
			// matching a word as a keyword: only as the one it is
			at := lx.GetPtr()
			for _, v := range []int{want, core.CORELEXER_START + op.Val%7, core.CORELEXER_START + i%7} {
				if v == core.CORELEXER_START {
					continue // no keyword's value
				}
				m, err := lx.Match(v)
				if v != want {
					if err == nil {
						return errf("%s: %q is matched as %d, and is %d", what, w, v, want)
					}
				} else if err != nil {
					return errf("%s: %q is not matched as %d: %v", what, w, v, err)
				} else if err := firstErr(eq(what+": value matched", m.GetTokenValue(), w), eq(what+": type matched", m.GetTokenType(), v),
					eq(what+": position after the match", lx.GetPtr(), at+len(w))); err != nil {
					return err
				}
				lx.RewindInputPosition(at)
			}
			lx.ConsumeK(len(w))
			lx.SPorHT()
		}
		if lx.HasMoreChars() {
			return errf("%s: %q left", what, lx.GetRest())
		}
	}
	if hits > 0 {
		x.NonTrivial()
	}
	return nil
}

type tokenCase struct {
	V1, V2 fw.S
	T1, T2 int
	Line   fw.S
}

func init() {
	fw.Add("C27", "url-scanners", "1-20 calls of the URL parser's scanners on a buffer of 0-12 pieces of URL-like text and raw bytes, compared with the character classes of RFC 3261; non-trivial: at least two of them consumed something", 6000, 200000,
		func(t *rapid.T) urlScanCase {
			c := urlScanCase{Buf: fw.S(genText(t, 0, 12))}
			for n := intr(t, "nops", 1, 20); n > 0; n-- {
				c.Ops = append(c.Ops, pick(t, "op", urlOps...))
			}
			return c
		}, runURLScan)
	fw.Add("C27", "url-classes", "every byte value (drawn at random) in the character classes of the URL parser; every case is non-trivial", 600, 3000,
		func(t *rapid.T) int { return int(rapid.Byte().Draw(t, "b")) },
		func(x *fw.Ctx, v int) error {
			x.NonTrivial()
			b := byte(v)
			p := parser.NewURLParser("")
			return firstErr(
				eq("IsMark", p.IsMark(b), isMarkB(b)),
				eq("IsUnreserved", p.IsUnreserved(b), isUnreservedB(b)),
				eq("IsReserved", p.IsReserved(b), isReservedB(b)),
				eq("IsReservedNoSlash", p.IsReservedNoSlash(b), isReservedB(b) && b != '/'),
				eq("IsUserUnreserved", p.IsUserUnreserved(b), isUserUnreservedB(b)))
		})
	fw.Add("C27", "keywords", "1-12 operations on the keyword tables of a lexer (adding and selecting tables, keywords, names), after each the type of five words and the text of the tokens compared with a model; non-trivial: a word is a keyword at some point", 1500, 40000,
		func(t *rapid.T) keyCase {
			var c keyCase
			for n := intr(t, "nops", 1, 12); n > 0; n-- {
				o := keyOp{Op: pick(t, "op", "add-table", "add-table", "select", "rename", "keyword", "keyword", "keyword"), Name: pick(t, "table", "a", "b", "c")}
				if o.Op == "keyword" {
					o.Name = randomCase(t, pick(t, "word", "alpha", "beta", "x-9", "sip", "VIA", "other"))
					o.Val = core.CORELEXER_START + intr(t, "val", 1, 6)
				}
				c.Ops = append(c.Ops, o)
			}
			return c
		}, runKeywords)
	fw.Add("C27", "tokens", "a token made, changed and copied, and the name before the '=' of a line; non-trivial: the change makes a difference", 1000, 20000,
		func(t *rapid.T) tokenCase {
			return tokenCase{V1: fw.S(genText(t, 0, 3)), V2: fw.S(genText(t, 0, 3)), T1: intr(t, "t1", -1, 5000), T2: intr(t, "t2", -1, 5000), Line: fw.S(genText(t, 0, 5))}
		},
		func(x *fw.Ctx, c tokenCase) error {
			if c.V1 != c.V2 && c.T1 != c.T2 {
				x.NonTrivial()
			}
			k := core.NewToken(string(c.V1), c.T1)
			if err := firstErr(eq("value", k.GetTokenValue(), string(c.V1)), eq("type", k.GetTokenType(), c.T1)); err != nil {
				return err
			}
			o, ok := k.Clone().(*core.Token)
			if !ok {
				return errf("a copy of another type")
			}
			k.SetTokenValue(string(c.V2))
			k.SetTokenType(c.T2)
			name := ""
			if i := strings.IndexByte(string(c.Line), '='); i >= 0 {
				name = string(c.Line[:i])
			}
			return firstErr(eq("value set", k.GetTokenValue(), string(c.V2)), eq("type set", k.GetTokenType(), c.T2),
				eq("value of the copy", o.GetTokenValue(), string(c.V1)), eq("type of the copy", o.GetTokenType(), c.T1),
				eq("name of the line", core.NewStringTokenizer("").GetSDPFieldName(string(c.Line)), name))
		})
}
