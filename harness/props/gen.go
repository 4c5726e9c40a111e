package props

import (
	"strings"

	"pgregory.net/rapid"
)

const tokenChars = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-.!%*_+`'~"

// keywords are words the lexers know: elsewhere than in their place they are
// tokens like any other.
var keywords = []string{"SIP", "sips", "tel", "To", "From", "Via", "Date", "Contact", "Call-ID", "Max-Forwards", "Content-Length", "INVITE", "ACK", "BYE", "t", "v", "k", "Route", "Subject", "Server"}

// long repeats the text, in one of 50 cases, until it has up to max bytes: what
// the code does must not depend on a length.
func long(t *rapid.T, name, s string, max int) string {
	if s == "" || len(s) > max || !chance(t, name+"-long", 50) {
		return s
	}
	if max >= 200 && chance(t, name+"-longer", 5) {
		max *= 15
	}
	return strings.Repeat(s, intr(t, name+"-times", 1, max/len(s)))
}

// amount is a number of things from lo to hi, in one of 60 cases up to big.
func amount(t *rapid.T, name string, lo, hi, big int) int {
	if chance(t, name+"-many", 60) {
		if rapid.Bool().Draw(t, name+"-most") {
			return intr(t, name, big-big/4, big)
		}
		return intr(t, name, hi, big)
	}
	return intr(t, name, lo, hi)
}

// genBytes draws lo to hi bytes, now and then up to big of them.
func genBytes(t *rapid.T, name string, lo, hi, big int) []byte {
	n := amount(t, name+"-len", lo, hi, big)
	if n <= hi {
		return rapid.SliceOfN(rapid.Byte(), n, n).Draw(t, name)
	}
	b := make([]byte, n)
	x := rapid.Uint32().Draw(t, name+"-fill")
	for i := range b {
		x = x*1664525 + 1013904223
		b[i] = byte(x >> 24)
	}
	return b
}

// genToken draws an RFC 3261 token.
func genToken(t *rapid.T, name string) string {
	if chance(t, name+"-known", 20) {
		return randomCase(t, pick(t, name+"-keyword", keywords...))
	}
	if chance(t, name+"-short", 3) {
		return long(t, name, string(tokenChars[intr(t, name+"-c", 0, 61)]), 300)
	}
	n := intr(t, name+"-len", 1, 8)
	var b strings.Builder
	for i := 0; i < n; i++ {
		if chance(t, name+"-sym", 5) {
			b.WriteByte(tokenChars[intr(t, name+"-s", 62, len(tokenChars)-1)])
		} else {
			b.WriteByte(tokenChars[intr(t, name+"-c", 0, 61)])
		}
	}
	return long(t, name, b.String(), 300)
}

// genWord is a plain alphanumeric word.
func genWord(t *rapid.T, name string) string {
	if chance(t, name+"-known", 20) {
		return randomCase(t, pick(t, name+"-keyword", "sip", "sips", "tel", "to", "from", "via", "date", "contact", "invite", "t", "v"))
	}
	n := intr(t, name+"-len", 1, 6)
	var b strings.Builder
	for i := 0; i < n; i++ {
		b.WriteByte(tokenChars[intr(t, name+"-c", 0, 61)])
	}
	return long(t, name, b.String(), 200)
}

// genQuotedInner draws the inside of a quoted string as written on the wire.
func genQuotedInner(t *rapid.T, name string) string {
	n := intr(t, name+"-qlen", 0, 6)
	var b strings.Builder
	for i := 0; i < n; i++ {
		b.WriteString(pick(t, name+"-q", "a", "B", "7", " ", ",", ";", "=", "<", ">", "@", ":", "?", "(", ")", "/", "[", "]", "{", "-", ".", "'", "tag=1", "sip:", "%41", `\"`, `\\`, `\a`, "\xc3\xa9", "&", "  ", "*", "+", "\t"))
	}
	return long(t, name, b.String(), 300)
}
