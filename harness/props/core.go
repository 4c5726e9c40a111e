package props

import (
	"fmt"
	"net"
	"strconv"
	"strings"

	"github.com/use-go/gosips/core"
	"pgregory.net/rapid"

	"verif/harness/fw"
)

// ---------------------------------------------------------------- C27

type lexOp struct {
	Op string
	C  int // a byte, a count or a token class
}

type lexCase struct {
	Buf fw.S
	Ops []lexOp
}

const lexKeyword = 2048 + 7

var lexOps = []string{"ttoken", "ttokensp", "nextid", "peekid", "startsid", "sporht", "number", "quoted", "comment",
	"nosemi", "nocomma", "getstring", "bydelim", "getline", "peekline", "lookaheadk", "lookahead", "getrest", "nchar", "hasmore",
	"matchchar", "matchid", "matchdigit", "matchalpha", "matchkw", "peektok", "peektokk", "peekconsume", "consumek", "mark", "rewind", "nextchar", "nexttoken"}

// bufPieces are the building blocks of generated text.
var bufPieces = []string{"abc", "Z", "0", "42", "123456", "\"", "\\", "(", ")", ";", ",", "=", " ", "\t", "\n", "\r\n", ":", "<", ">", "@", "/",
	"-", ".", "!", "%", "*", "_", "+", "`", "'", "~", "[", "]", "?", "&", "#", "{", "}", "|", "^", "$", "Via", "VIA", "via", "\"a b\"", "(c d)", "%41",
	"\x00", "\xe9", "\xff", "99999999999999999999", "a.b.c", "x-y", "\\\"", "\\)"}

func genText(t *rapid.T, lo, hi int) string {
	n := intr(t, "pieces", lo, hi)
	at := -1
	if chance(t, "run", 25) {
		at = intr(t, "run-at", 0, n)
	}
	var b strings.Builder
	for i := 0; i <= n; i++ {
		if i == at { // many of one kind in a row
			b.WriteString(strings.Repeat(pick(t, "run-of", "a", "0", "(", ")", " ", "\t", "\\", "\\\"", "a.", "x;", "a ", "((x)", "\xe9", "\n", "=", "a,b "), pick(t, "run-n", 9, 17, 40, 130, 300, intr(t, "run-any", 2, 1500))))
		}
		if i == n {
			break
		}
		if chance(t, "raw", 12) {
			b.WriteByte(rapid.Byte().Draw(t, "byte"))
		} else {
			b.WriteString(pick(t, "piece", bufPieces...))
		}
	}
	return b.String()
}

func isAlphaB(c byte) bool { return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' }
func isDigitB(c byte) bool { return c >= '0' && c <= '9' }
func isTokenB(c byte) bool {
	return isAlphaB(c) || isDigitB(c) || strings.IndexByte("-.!%*_+`'~", c) >= 0
}

func span(s string, f func(byte) bool) int {
	i := 0
	for i < len(s) && f(s[i]) {
		i++
	}
	return i
}

// refDelimited scans s from an opening delimiter; it returns the inside as
// written and the number of bytes used, or ok=false when it does not end.
func refDelimited(s string, open, end byte, nest bool) (in string, n int, ok bool) {
	if s == "" || s[0] != open {
		return "", 0, false
	}
	depth := 1
	for i := 1; i < len(s); i++ {
		switch {
		case s[i] == '\\':
			if i+1 >= len(s) {
				return "", 0, false
			}
			i++
		case s[i] == end:
			depth--
			if depth == 0 {
				return s[1:i], i + 1, true
			}
		case nest && s[i] == open:
			depth++
		}
	}
	return "", 0, false
}

func runLex(x *fw.Ctx, c lexCase) error {
	buf := string(c.Buf)
	lx := core.NewCoreLexer("t", buf)
	lx.AddLexer("t")
	lx.AddKeyword("VIA", lexKeyword)
	pos, mark := 0, 0
	moved := 0
	for i, op := range c.Ops {
		if pos > len(buf) {
			return errf("model position out of the buffer")
		}
		rest := buf[pos:]
		what := fmt.Sprintf("step %d %s(%d) at %d of %q", i, op.Op, op.C, pos, buf)
		// str checks one value-returning scan.
		str := func(got string, err error, want string, n int, ok bool) error {
			if ok != (err == nil) {
				return errf("%s: error %v, want error: %v", what, err, !ok)
			}
			if !ok {
				p := lx.GetPtr()
				if p < pos || p > len(buf) {
					return errf("%s: position %d after an error", what, p)
				}
				pos = p
				return nil
			}
			if got != want {
				return errf("%s: got %q, want %q", what, got, want)
			}
			pos += n
			return nil
		}
		var err error
		nTok := span(rest, isTokenB)
		switch op.Op {
		case "ttoken":
			err = str(lx.Ttoken(), nil, rest[:nTok], nTok, true)
		case "nextid":
			err = str(lx.GetNextId(), nil, rest[:nTok], nTok, true)
		case "peekid":
			err = str(lx.PeekNextId(), nil, rest[:nTok], 0, true)
		case "ttokensp":
			n := span(rest, func(b byte) bool { return isTokenB(b) || b == ' ' || b == '\t' })
			err = str(lx.TtokenAllowSpace(), nil, rest[:n], n, true)
		case "startsid":
			err = eq(what, lx.StartsId(), nTok > 0)
		case "sporht":
			lx.SPorHT()
			pos += span(rest, func(b byte) bool { return b == ' ' || b == '\t' })
		case "number":
			n := span(rest, isDigitB)
			v, e := lx.Number()
			want, perr := strconv.Atoi(rest[:n])
			err = str(strconv.Itoa(v), e, strconv.Itoa(want), n, perr == nil)
		case "quoted":
			in, n, ok := refDelimited(rest, '"', '"', false)
			s, e := lx.QuotedString()
			err = str(s, e, in, n, ok)
		case "comment":
			in, n, ok := refDelimited(rest, '(', ')', true)
			s, e := lx.Comment()
			err = str(s, e, in, n, ok)
		case "nosemi":
			n := span(rest, func(b byte) bool { return b != ';' && b != '\n' })
			err = str(lx.ByteStringNoSemicolon(), nil, rest[:n], n, true)
		case "nocomma":
			n := span(rest, func(b byte) bool { return b != ',' && b != '\n' })
			err = str(lx.ByteStringNoComma(), nil, rest[:n], n, true)
		case "getstring":
			var o []byte
			ok, n := false, 0
			for n = 0; n < len(rest); n++ {
				if rest[n] == byte(op.C) {
					ok = true
					n++
					break
				}
				if rest[n] == '\\' {
					n++
					if n >= len(rest) {
						break
					}
				}
				o = append(o, rest[n])
			}
			s, e := lx.GetString(byte(op.C))
			if !ok && lx.GetPtr() != pos {
				return errf("%s: a scan that found nothing moved to %d", what, lx.GetPtr())
			}
			err = str(s, e, string(o), n, ok)
		case "bydelim":
			k := strings.IndexByte(rest, byte(op.C))
			want := ""
			if k >= 0 {
				want = rest[:k]
			}
			s, e := lx.GetNextTokenByDelim(byte(op.C))
			err = str(s, e, want, k, k >= 0)
		case "getline", "nexttoken", "peekline":
			n := strings.IndexByte(rest, '\n') + 1
			if n == 0 {
				n = len(rest)
			}
			switch op.Op {
			case "getline":
				err = str(lx.GetLine(), nil, rest[:n], n, true)
			case "nexttoken":
				err = str(lx.NextToken(), nil, rest[:n], n, true)
			default:
				err = str(lx.PeekLine(), nil, rest[:n], 0, true)
			}
		case "lookaheadk", "lookahead":
			k := op.C
			var b byte
			var e error
			if op.Op == "lookahead" {
				k = 0
				b, e = lx.LookAhead()
			} else {
				b, e = lx.LookAheadK(k)
			}
			if (e == nil) != (k < len(rest)) {
				return errf("%s: error %v", what, e)
			}
			if e == nil {
				err = eq(what, b, rest[k])
			}
		case "nextchar":
			b, e := lx.GetNextChar()
			w := ""
			if rest != "" {
				w = rest[:1]
			}
			err = str(string([]byte{b}), e, w, 1, rest != "")
		case "getrest":
			err = str(lx.GetRest(), nil, rest, 0, true)
		case "nchar":
			n := min(op.C, len(rest))
			err = str(lx.NCharAsString(op.C), nil, rest[:n], 0, true)
		case "hasmore":
			err = eq(what, lx.HasMoreChars(), rest != "")
		case "matchchar":
			tok, e := lx.Match(op.C)
			ok := rest != "" && rest[0] == byte(op.C)
			if ok && e == nil {
				if tok.GetTokenType() != op.C || lx.GetNextToken() != tok {
					return errf("%s: token %v", what, tok)
				}
				err = str(tok.GetTokenValue(), e, rest[:1], 1, ok)
			} else {
				err = str("", e, "", 1, ok)
			}
		case "matchid", "matchdigit", "matchalpha", "matchkw":
			var ty, n int
			var ok bool
			switch op.Op {
			case "matchid":
				ty, n, ok = core.CORELEXER_ID, nTok, nTok > 0
			case "matchdigit":
				ty, n, ok = core.CORELEXER_DIGIT, 1, rest != "" && isDigitB(rest[0])
			case "matchalpha":
				ty, n, ok = core.CORELEXER_ALPHA, 1, rest != "" && isAlphaB(rest[0])
			case "matchkw":
				ty, n, ok = lexKeyword, nTok, strings.EqualFold(rest[:nTok], "via")
			}
			tok, e := lx.Match(ty)
			if ok && e == nil {
				if tok.GetTokenType() != ty || lx.GetNextToken() != tok {
					return errf("%s: token %v", what, tok)
				}
				err = str(tok.GetTokenValue(), e, rest[:n], n, ok)
			} else {
				err = str("", e, "", n, ok)
			}
		case "peektok", "peektokk", "peekconsume":
			k := 1
			if op.Op == "peektokk" {
				k = 1 + op.C%50
			}
			var want []string
			var types []int
			q := rest
			for len(want) < k && q != "" {
				n := span(q, isTokenB)
				ty := core.CORELEXER_ID
				if n == 0 {
					n = 1
					ty = int(q[0])
				} else if strings.EqualFold(q[:n], "via") {
					ty = lexKeyword
				}
				want = append(want, q[:n])
				types = append(types, ty)
				q = q[n:]
			}
			ok := len(want) == k
			var toks []*core.Token
			var e error
			if op.Op == "peektok" {
				var one *core.Token
				one, e = lx.PeekNextToken()
				toks = []*core.Token{one}
			} else {
				toks, e = lx.PeekNextTokenK(k)
			}
			if ok != (e == nil) {
				return errf("%s: %d tokens of %d left, error %v", what, len(want), k, e)
			}
			if ok {
				for j := range want {
					if toks[j] == nil || toks[j].GetTokenValue() != want[j] || toks[j].GetTokenType() != types[j] {
						return errf("%s: token %d is %v, want %q of type %d", what, j, toks[j], want[j], types[j])
					}
				}
				if op.Op == "peekconsume" {
					lx.Consume()
					pos += len(want[0])
				}
			}
		case "consumek":
			n := min(op.C, len(rest))
			lx.ConsumeK(n)
			pos += n
		case "mark":
			mark = lx.MarkInputPosition()
			err = eq(what+": mark", mark, pos)
		case "rewind":
			lx.RewindInputPosition(mark)
			pos = mark
		default:
			return errf("no such operation %q", op.Op)
		}
		if err != nil {
			return err
		}
		if p := lx.GetPtr(); p != pos {
			return errf("%s: position %d afterwards, want %d", what, p, pos)
		}
		if pos > 0 {
			moved++
		}
		if lx.GetBuffer() != buf {
			return errf("%s: the buffer changed", what)
		}
	}
	if moved > 2 {
		x.NonTrivial()
	}
	return nil
}

func init() {
	fw.Add("C27", "scanners", "1-25 scanner calls on a buffer of 0-12 pieces of SIP-like text and raw bytes; non-trivial: at least three calls ran past the start of the buffer", 12000, 300000,
		func(t *rapid.T) lexCase {
			c := lexCase{Buf: fw.S(genText(t, 0, 12))}
			n := intr(t, "nops", 1, 25)
			for i := 0; i < n; i++ {
				o := lexOp{Op: pick(t, "op", lexOps...)}
				switch o.Op {
				case "getstring", "bydelim", "matchchar":
					o.C = int(pick(t, "c", []byte(";,=<>\":@ \n)\\/")...))
					if len(c.Buf) > 0 && chance(t, "fromBuf", 2) {
						o.C = int(c.Buf[intr(t, "at", 0, len(c.Buf)-1)])
					}
				case "lookaheadk", "nchar", "consumek", "peektokk":
					o.C = amount(t, "k", 0, 5, 120)
					if o.Op == "peektokk" && chance(t, "more", 3) {
						o.C = intr(t, "k2", 5, 30)
					}
				}
				c.Ops = append(c.Ops, o)
			}
			return c
		}, runLex)
	fw.Add("C27", "classes", "every byte value (drawn at random), as letter, digit and hexadecimal digit; every case is non-trivial", 600, 3000,
		func(t *rapid.T) int { return int(rapid.Byte().Draw(t, "b")) },
		func(x *fw.Ctx, v int) error {
			x.NonTrivial()
			b := byte(v)
			lx := core.NewCoreLexer("t", "")
			return firstErr(
				eq("IsAlpha", lx.IsAlpha(b), isAlphaB(b)),
				eq("IsDigit", lx.IsDigit(b), isDigitB(b)),
				eq("IsHexDigit", lx.IsHexDigit(b), strings.IndexByte("0123456789abcdefABCDEF", b) >= 0),
				eq("CharAsString", lx.CharAsString(b), string([]byte{b})))
		})
	fw.Add("C27", "lines", "texts of 0-20 pieces split into lines; non-trivial: more than one line", 3000, 60000,
		func(t *rapid.T) fw.S { return fw.S(genText(t, 0, 20)) },
		func(x *fw.Ctx, c fw.S) error {
			m := core.NewStringTokenizer(string(c)).GetLines()
			if len(m) > 1 {
				x.NonTrivial()
			}
			var all string
			for i := 0; i < len(m); i++ {
				l, ok := m[i]
				if !ok || l == "" {
					return errf("line %d of %d is missing or empty", i, len(m))
				}
				if k := strings.IndexByte(l, '\n'); k >= 0 && k != len(l)-1 || k < 0 && i != len(m)-1 {
					return errf("line %d is %q", i, l)
				}
				all += l
			}
			return eq("lines put together", all, string(c))
		})
	type nvCase struct {
		Name, Ws1, Sep, Ws2, Value string
		Quoted                     bool
		Tail                       string
		Other                      bool
	}
	fw.Add("C27", "name-value", "a token, white space, a separator and a token or quoted string; non-trivial: it has a value", 4000, 80000,
		func(t *rapid.T) nvCase {
			ws := func(n string) string { return pick(t, n, "", " ", "\t", "  ") }
			c := nvCase{Name: genToken(t, "name"), Sep: pick(t, "sep", "=", ":", "-"), Tail: pick(t, "tail", "", ";", ",x", "\n", " ;", ">")}
			if c.Sep == "-" {
				c.Sep = ""
				c.Ws1 = ws("ws1")
				return c
			}
			c.Ws1, c.Ws2 = ws("ws1"), ws("ws2")
			c.Quoted = rapid.Bool().Draw(t, "q")
			if c.Quoted {
				c.Value = genQuotedInner(t, "qv")
			} else {
				c.Value = genToken(t, "value")
			}
			return c
		}, func(x *fw.Ctx, c nvCase) error {
			in := c.Name + c.Ws1
			if c.Sep != "" {
				x.NonTrivial()
				in += c.Sep + c.Ws2
				if c.Quoted {
					in += `"` + c.Value + `"`
				} else {
					in += c.Value
				}
			}
			sep := byte('=')
			if c.Sep != "" {
				sep = c.Sep[0]
			}
			p := core.NewCoreParser(in + c.Tail)
			nv, err := p.NameValue(sep)
			if err != nil {
				return errf("%q: %v", in+c.Tail, err)
			}
			got, _ := nv.GetValue().(string)
			ws := c.Tail
			if c.Sep == "" {
				ws = strings.TrimLeft(ws, " \t")
			}
			return firstErr(eq("name", nv.GetName(), c.Name), eq("value", got, c.Value),
				eq("quoted", nv.IsValueQuoted(), c.Quoted), eq("rest", p.GetLexer().GetRest(), ws))
		})
}

// ---------------------------------------------------------------- C20 (the list itself)

type nvOp struct {
	Op, Name, Value string
	Quoted, Flag    bool
	N               int `json:",omitempty"`
}

type nvEntry struct {
	Name, Value  string
	Quoted, Flag bool
}

func (e nvEntry) String() string {
	switch {
	case e.Flag:
		return e.Name
	case e.Quoted:
		return e.Name + `="` + e.Value + `"`
	}
	return e.Name + "=" + e.Value
}

func nvIndex(m []nvEntry, name string) int {
	for i, e := range m {
		if strings.EqualFold(e.Name, name) {
			return i
		}
	}
	return -1
}

func mkNV(e nvEntry) *core.NameValue {
	var v interface{} = e.Value
	if e.Flag {
		v = nil
	}
	nv := core.NewNameValue(e.Name, v)
	if e.Quoted && !e.Flag {
		nv.SetQuotedValue()
	}
	return nv
}

func checkNVL(l *core.NameValueList, m []nvEntry, sep string) error {
	var parts []string
	for _, e := range m {
		parts = append(parts, e.String())
	}
	if err := firstErr(eq("encoding", l.String(), strings.Join(parts, sep)), eq("length", l.Len(), len(m))); err != nil {
		return err
	}
	names := l.GetNames()
	i := 0
	for e := names.Front(); e != nil; e = e.Next() {
		if i >= len(m) || e.Value != m[i].Name {
			return errf("name %d is %v of %v", i, e.Value, m)
		}
		i++
	}
	if i != len(m) {
		return errf("%d names, want %d", i, len(m))
	}
	for _, n := range nvNames {
		for _, name := range []string{n, strings.ToUpper(n)} {
			k := nvIndex(m, name)
			if l.HasNameValue(name) != (k >= 0) {
				return errf("HasNameValue(%q) is %v with %v", name, k < 0, m)
			}
			nv := l.GetNameValue(name)
			if k < 0 {
				if nv != nil || l.GetValue(name) != nil || l.GetParameter(name) != "" {
					return errf("absent parameter %q has a value", name)
				}
				continue
			}
			v, isStr := l.GetValue(name).(string)
			if v != m[k].Value || isStr == m[k].Flag {
				return errf("value of %q is %#v, want %v", name, l.GetValue(name), m[k])
			}
			if err := firstErr(eq("GetParameter", l.GetParameter(name), m[k].Value), eq("name of the pair", nv.GetName(), m[k].Name),
				eq("quoted", nv.IsValueQuoted(), m[k].Quoted && !m[k].Flag)); err != nil {
				return err
			}
		}
	}
	return nil
}

var nvNames = []string{"tag", "q", "expires", "lr", "x", "Method"}

func init() {
	type cs struct {
		Sep  string
		Ops  []nvOp
		Tail []nvOp // applied to the clone only
	}
	apply := func(l *core.NameValueList, m []nvEntry, op nvOp) ([]nvEntry, error) {
		e := nvEntry{op.Name, op.Value, op.Quoted, op.Flag}
		if e.Flag {
			e.Value, e.Quoted = "", false
		}
		switch op.Op {
		case "set", "setnv":
			if op.Op == "set" {
				e.Quoted = false
				var v interface{} = e.Value
				if e.Flag {
					v = nil
				}
				l.SetNameAndValue(e.Name, v)
			} else {
				l.SetNameValue(mkNV(e))
			}
			if k := nvIndex(m, e.Name); k >= 0 {
				m = append(append([]nvEntry{}, m[:k]...), m[k+1:]...)
			}
			m = append(append([]nvEntry{}, m...), e)
		case "add":
			if nvIndex(m, e.Name) < 0 {
				l.AddNameValue(mkNV(e))
				m = append(append([]nvEntry{}, m...), e)
			}
		case "addv":
			if nvIndex(m, e.Name) < 0 {
				e.Quoted = false
				var v interface{} = e.Value
				if e.Flag {
					v = nil
				}
				l.AddNameAndValue(e.Name, v)
				m = append(append([]nvEntry{}, m...), e)
			}
		case "fill":
			m = append([]nvEntry{}, m...)
			for i := 0; i < op.N; i++ {
				if f := (nvEntry{fmt.Sprintf("%s%d", op.Name, i), op.Value, false, false}); nvIndex(m, f.Name) < 0 {
					l.AddNameAndValue(f.Name, f.Value)
					m = append(m, f)
				}
			}
		case "delete":
			k := nvIndex(m, op.Name)
			if got := l.Delete(op.Name); got != (k >= 0) {
				return m, errf("Delete(%q) is %v", op.Name, got)
			}
			if k >= 0 {
				m = append(append([]nvEntry{}, m[:k]...), m[k+1:]...)
			}
		case "addnil":
			l.AddNameValue(nil)
		case "catnil":
			l.Concatenate(nil, op.Flag)
		case "cat", "cattop":
			if nvIndex(m, e.Name) >= 0 || nvIndex(m, "other") >= 0 {
				break
			}
			o := core.NewNameValueList("o")
			f := nvEntry{"other", "1", false, false}
			o.AddNameValue(mkNV(e))
			o.AddNameValue(mkNV(f))
			l.Concatenate(o, op.Op == "cattop")
			if op.Op == "cattop" {
				m = append([]nvEntry{e, f}, m...)
			} else {
				m = append(append([]nvEntry{}, m...), e, f)
			}
			if err := checkNVL(o, []nvEntry{e, f}, ";"); err != nil {
				return m, errf("the list concatenated: %v", err)
			}
		}
		return m, nil
	}
	genOps := func(t *rapid.T, lo, hi int) []nvOp {
		var ops []nvOp
		for n := intr(t, "n", lo, hi); n > 0; n-- {
			if chance(t, "fill", 200) {
				ops = append(ops, nvOp{Op: "fill", Name: pick(t, "name", nvNames...), Value: genToken(t, "v"), N: intr(t, "n", 2, 150)})
			}
			o := nvOp{Op: pick(t, "op", "set", "setnv", "add", "addv", "delete", "addnil", "catnil", "cat", "cattop"), Name: pick(t, "name", nvNames...)}
			if chance(t, "case", 4) {
				o.Name = strings.ToUpper(o.Name)
			}
			if o.Op == "set" || o.Op == "setnv" || o.Op == "add" || o.Op == "addv" || strings.HasPrefix(o.Op, "cat") {
				o.Quoted = rapid.Bool().Draw(t, "quoted")
				o.Flag = chance(t, "flag", 5)
				if o.Quoted {
					o.Value = genQuotedInner(t, "v")
				} else {
					o.Value = genToken(t, "v")
				}
			}
			ops = append(ops, o)
		}
		return ops
	}
	fw.Add("C20", "list-model", "0-20 operations on a parameter list, checked against an ordered map after each, then a clone changed on its own; non-trivial: at least four operations", 5000, 120000,
		func(t *rapid.T) cs {
			return cs{pick(t, "sep", ";", ",", "&"), genOps(t, 0, 20), genOps(t, 0, 5)}
		}, func(x *fw.Ctx, c cs) error {
			if len(c.Ops) >= 4 {
				x.NonTrivial()
			}
			l := core.NewNameValueList("t")
			l.SetSeparator(c.Sep)
			var m []nvEntry
			var err error
			for i, op := range c.Ops {
				if m, err = apply(l, m, op); err == nil {
					err = checkNVL(l, m, c.Sep)
				}
				if err != nil {
					return errf("step %d %+v: %v", i, op, err)
				}
			}
			cl := l.Clone().(*core.NameValueList)
			if err := checkNVL(cl, m, c.Sep); err != nil {
				return errf("clone: %v", err)
			}
			cm := m
			for i, op := range c.Tail {
				if cm, err = apply(cl, cm, op); err == nil {
					err = firstErr(checkNVL(cl, cm, c.Sep), checkNVL(l, m, c.Sep))
				}
				if err != nil {
					return errf("clone, step %d %+v: %v", i, op, err)
				}
			}
			for e := cl.Front(); e != nil; e = e.Next() {
				e.Value.(*core.NameValue).SetValue("changed")
				e.Value.(*core.NameValue).SetName("changed")
			}
			if err := checkNVL(l, m, c.Sep); err != nil {
				return errf("after changing the values of the clone: %v", err)
			}
			return nil
		})
	type pairCase struct {
		E   nvEntry
		Sep string
	}
	fw.Add("C20", "pair", "one pair with any name, value, quotes and separator; every case is non-trivial", 2000, 40000,
		func(t *rapid.T) pairCase {
			return pairCase{nvEntry{pick(t, "n", "", genToken(t, "name")), genToken(t, "v"), rapid.Bool().Draw(t, "q"), chance(t, "f", 3)}, pick(t, "sep", "=", ":", "")}
		}, func(x *fw.Ctx, c pairCase) error {
			x.NonTrivial()
			nv := mkNV(c.E)
			if c.Sep != "" {
				nv.SetSeparator(c.Sep)
			} else {
				c.Sep = "="
			}
			v := ""
			if !c.E.Flag {
				v = c.E.Value
				if c.E.Quoted {
					v = `"` + v + `"`
				}
				if c.E.Name != "" {
					v = c.Sep + v
				}
			}
			want := c.E.Name + v
			cl := nv.Clone().(*core.NameValue)
			if err := firstErr(eq("encoding", nv.String(), want), eq("encoding of the clone", cl.String(), want)); err != nil {
				return err
			}
			cl.SetName("n2")
			cl.SetValue("v2")
			return firstErr(eq("original", nv.String(), want), eq("name", nv.GetName(), c.E.Name), eq("new name", cl.GetName(), "n2"),
				eq("new value", cl.GetValue(), interface{}("v2")))
		})
}

// ---------------------------------------------------------------- C26

type hostM struct {
	Text string // IPv6 with brackets
	Kind string // name, v4, v6
}

func genHost(t *rapid.T) hostM {
	switch pick(t, "hostkind", "name", "name", "v4", "v6") {
	case "v4":
		o := func() int { return pick(t, "octet", 0, 1, 9, 10, 99, 127, 192, 255) }
		return hostM{fmt.Sprintf("%d.%d.%d.%d", o(), o(), o(), o()), "v4"}
	case "v6":
		if chance(t, "v6form", 3) {
			return hostM{pick(t, "v6", "[::1]", "[::]", "[2001:db8::9:1]", "[fe80::a:b:c:d]", "[::ffff:192.0.2.10]", "[2001:DB8:0:0:8:800:200C:417A]", "[2001:db8:aaaa:bbbb:cccc:dddd:192.168.100.200]", "[2001:0db8:0000:0000:0008:0800:200c:417a]"), "v6"}
		}
		b := make(net.IP, 16)
		for i := range b {
			b[i] = byte(pick(t, "v6b", 0, 0, 1, 0x20, 0xab, 0xff))
		}
		b[0] |= 0x20
		return hostM{"[" + b.String() + "]", "v6"}
	}
	n := amount(t, "labels", 1, 5, 90)
	var ls []string
	for i := 0; i < n; i++ {
		l := genLabel(t)
		if i == n-1 && (l[0] < 'A') { // the last label starts with a letter
			l = "x" + l
		}
		ls = append(ls, l)
	}
	h := strings.Join(ls, ".")
	if chance(t, "dot", 20) {
		h += "."
	}
	return hostM{h, "name"}
}

// arg is the host as a caller may name it: an IPv6 address also without the
// brackets, which reading and encoding give it.
func (h hostM) arg(bare bool) string {
	if bare && h.Kind == "v6" {
		return strings.Trim(h.Text, "[]")
	}
	return h.Text
}

func genLabel(t *rapid.T) string {
	if chance(t, "known label", 15) {
		return pick(t, "label", "sip", "SIPS", "tel", "to", "via", "m", "invite")
	}
	const an = "abcxyzABZ019"
	n := intr(t, "labellen", 1, 6)
	b := make([]byte, n)
	for i := range b {
		if i > 0 && i < n-1 && chance(t, "hy", 6) {
			b[i] = '-'
		} else {
			b[i] = an[intr(t, "l", 0, len(an)-1)]
		}
	}
	return long(t, "label", string(b), 63)
}

func genPort(t *rapid.T) int {
	if chance(t, "port?", 2) {
		return -1
	}
	return pick(t, "port", 5060, 5061, 1, 80, 65535, 1024, 0, 10000)
}

func (h hostM) bare() string {
	return strings.TrimSuffix(strings.TrimPrefix(h.Text, "["), "]")
}

func checkHost(what string, g *core.Host, h hostM) error {
	if g == nil {
		return errf("%s: no host", what)
	}
	return firstErr(eq(what+" encoding", g.String(), h.Text),
		eq(what+" is a name", g.IsHostName(), h.Kind == "name"),
		eq(what+" is an address", g.IsIPAddress(), h.Kind != "name"))
}

type hpCase struct {
	H    hostM
	Port int
	Tail string
}

func init() {
	gen := func(t *rapid.T) hpCase {
		return hpCase{genHost(t), genPort(t), pick(t, "tail", "", ";x=1", " ", ">", "?a=b", "\n", ",", "/")}
	}
	cls := func(x *fw.Ctx, c hpCase) {
		x.Class(c.H.Kind)
		if c.Port >= 0 || c.H.Kind != "name" || strings.Count(c.H.Text, ".") > 1 {
			x.NonTrivial()
		}
	}
	const rule = "host names of 1-5 labels, IPv4 and IPv6 addresses, with and without port and trailing text; non-trivial: an address, a port, or three labels"
	fw.Add("C26", "parse", rule, 6000, 150000, gen, func(x *fw.Ctx, c hpCase) error {
		cls(x, c)
		text := c.H.Text
		if c.Port >= 0 {
			text += ":" + strconv.Itoa(c.Port)
		}
		p := core.NewHostNameParser(text + c.Tail)
		hp, err := p.GetHostPort()
		if err != nil {
			return errf("%q refused: %v", text, err)
		}
		if err := firstErr(checkHost("host", hp.GetHost(), c.H), eq("port", hp.GetPort(), c.Port), eq("has port", hp.HasPort(), c.Port >= 0),
			eq("encoding", hp.String(), text), eq("rest", p.GetLexer().GetRest(), c.Tail)); err != nil {
			return err
		}
		if got := hp.GetHost().GetHostName(); got != c.H.Text && got != c.H.bare() {
			return errf("host name %q of %q", got, c.H.Text)
		}
		q := core.NewHostNameParser(c.H.Text + c.Tail)
		h, err := q.GetHost()
		if err != nil {
			return errf("host %q refused: %v", c.H.Text, err)
		}
		return firstErr(checkHost("host alone", h, c.H), eq("rest of the host", q.GetLexer().GetRest(), c.Tail))
	})
	fw.Add("C26", "construct", rule, 6000, 150000, gen, func(x *fw.Ctx, c hpCase) error {
		cls(x, c)
		for _, text := range []string{c.H.Text, c.H.bare()} {
			if err := checkHost("NewHost", core.NewHost(text), c.H); err != nil {
				return err
			}
			h := core.NewHost("first.example")
			h.SetHostName(text)
			low := c.H
			low.Text = strings.ToLower(low.Text)
			if err := checkHost("SetHostName", h, low); err != nil {
				return err
			}
			if c.H.Kind != "name" {
				h = core.NewHost("first.example")
				h.SetAddress(text)
				g := core.NewHost("first.example")
				g.SetHostAddress(text)
				if err := firstErr(checkHost("SetAddress", h, c.H), checkHost("SetHostAddress", g, c.H)); err != nil {
					return err
				}
			}
			if c.H.Kind != "v6" {
				g := core.NewHost(text)
				if err := firstErr(eq("GetHostName", g.GetHostName(), text), eq("GetAddress", g.GetAddress(), text)); err != nil {
					return err
				}
			}
			g := core.NewHost(c.H.bare())
			want := net.ParseIP(c.H.bare())
			if !g.GetInetAddress().Equal(want) || !g.GetInetAddress().Equal(want) {
				return errf("inet address of %q: %v", c.H.Text, g.GetInetAddress())
			}
		}
		hp := core.NewHostPort()
		if err := firstErr(eq("new: has port", hp.HasPort(), false), eq("new: encoding", hp.String(), "")); err != nil {
			return err
		}
		hp.SetHost(core.NewHost(c.H.Text))
		want := c.H.Text
		if c.Port >= 0 {
			hp.SetPort(c.Port)
			want += ":" + strconv.Itoa(c.Port)
		}
		cl := hp.Clone().(*core.HostPort)
		if err := firstErr(checkHost("HostPort", hp.GetHost(), c.H), eq("port", hp.GetPort(), c.Port), eq("has port", hp.HasPort(), c.Port >= 0), eq("encoding", hp.String(), want),
			checkHost("clone", cl.GetHost(), c.H), eq("clone", cl.String(), want)); err != nil {
			return err
		}
		cl.GetHost().SetHostName("changed.example")
		cl.SetPort(7)
		if err := firstErr(eq("after changing the clone", hp.String(), want), eq("the clone", cl.String(), "changed.example:7")); err != nil {
			return err
		}
		hp.RemovePort()
		return firstErr(eq("port removed", hp.String(), c.H.Text), eq("port removed", hp.HasPort(), false))
	})
	fw.Add("C26", "refuse", "texts that start with no host (or an unfinished IPv6 reference) or have a colon and no port; every case is non-trivial", 1000, 20000,
		func(t *rapid.T) string {
			switch pick(t, "kind", "nohost", "v6", "noport") {
			case "nohost":
				return pick(t, "c", "", ":5060", ";example.com", "@h", ">x", " h", "\nh", "?1", ",a.b", "<a")
			case "v6":
				return pick(t, "v", "[", "[::1", "[::1 ]", "[fe80::z]", "[:;", "[::1\n]")
			}
			return genHost(t).Text + ":" + pick(t, "p", "", "x", ";", " ", "-1", "99999999999999999999999")
		}, func(x *fw.Ctx, s string) error {
			x.NonTrivial()
			if hp, err := core.NewHostNameParser(s).GetHostPort(); err == nil {
				return errf("%q accepted as %q", s, hp.String())
			}
			return nil
		})
}

// eqHost compares the name of a host, with or without the brackets of an IPv6
// address.
func eqHost(got string, h hostM) error {
	if got == h.bare() {
		return nil
	}
	return eq("host", got, h.Text)
}
