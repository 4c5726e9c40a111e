package props

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/big"
	"net"
	"sort"
	"strings"

	"github.com/use-go/gosips/rtp"
	"pgregory.net/rapid"

	"verif/harness/fw"
)

// ---------------------------------------------------------------- C29

// rtpPkt is the model of an RTP packet (RFC 3550 section 5.1).
type rtpPkt struct {
	PT      uint8
	Seq     uint16
	TS      uint32
	SSRC    uint32
	Marker  bool
	CSRC    []uint32
	Extra   int // more entries in the slice given than the count given
	HasExt  bool
	ExtID   uint16
	Ext     []uint32
	BigExt  int // when not 0, the extension is this many words, generated from ExtID
	Payload []byte
	Pad     int // padding bytes on the wire (parse only)
}

func (p *rtpPkt) ext() []uint32 {
	if p.BigExt == 0 {
		return p.Ext
	}
	o := make([]uint32, p.BigExt)
	for i := range o {
		o[i] = uint32(i)*2654435761 + uint32(p.ExtID)
	}
	return o
}

// wire is the reference encoder.
func (p *rtpPkt) wire(pad int) []byte {
	var b []byte
	b0 := byte(2<<6) | byte(len(p.CSRC))
	if pad > 0 {
		b0 |= 1 << 5
	}
	if p.HasExt {
		b0 |= 1 << 4
	}
	b1 := p.PT
	if p.Marker {
		b1 |= 0x80
	}
	b = append(b, b0, b1)
	b = binary.BigEndian.AppendUint16(b, p.Seq)
	b = binary.BigEndian.AppendUint32(b, p.TS)
	b = binary.BigEndian.AppendUint32(b, p.SSRC)
	for _, c := range p.CSRC {
		b = binary.BigEndian.AppendUint32(b, c)
	}
	if p.HasExt {
		e := p.ext()
		b = binary.BigEndian.AppendUint16(b, p.ExtID)
		b = binary.BigEndian.AppendUint16(b, uint16(len(e)))
		for _, w := range e {
			b = binary.BigEndian.AppendUint32(b, w)
		}
	}
	b = append(b, p.Payload...)
	for i := 1; i < pad; i++ {
		b = append(b, byte(i*37))
	}
	if pad > 0 {
		b = append(b, byte(pad))
	}
	return b
}

func genRTP(t *rapid.T) rtpPkt {
	p := rtpPkt{
		PT:      uint8(rapid.IntRange(0, 127).Draw(t, "pt")),
		Seq:     rapid.Uint16().Draw(t, "seq"),
		TS:      rapid.Uint32().Draw(t, "ts"),
		SSRC:    rapid.Uint32().Draw(t, "ssrc"),
		Marker:  rapid.Bool().Draw(t, "m"),
		CSRC:    rapid.SliceOfN(rapid.Uint32(), 0, 15).Draw(t, "csrc"),
		HasExt:  rapid.Bool().Draw(t, "x"),
		Payload: genBytes(t, "payload", 0, 64, 4000),
	}
	if p.PT == 72 || p.PT == 73 {
		p.PT -= 10
	}
	if chance(t, "extra", 4) {
		p.Extra = intr(t, "extraN", 1, 3)
	}
	if p.HasExt {
		p.ExtID = rapid.Uint16().Draw(t, "xid")
		p.Ext = rapid.SliceOfN(rapid.Uint32(), 0, 12).Draw(t, "xdata")
		if chance(t, "big", 40) {
			p.Ext = nil
			p.BigExt = pick(t, "bigN", 63, 64, 255, 256, 16382, 16383, 16384, 16385, 20000, 65535)
		}
	}
	if chance(t, "pad?", 2) {
		p.Pad = intr(t, "pad", 1, 255)
	}
	if chance(t, "bigpayload", 30) {
		p.Payload = bytes.Repeat([]byte{byte(p.Seq)}, pick(t, "plen", 255, 256, 1400, 65535, 70000))
	}
	return p
}

func rtpFields(pk *rtp.RTPPacket, p *rtpPkt) error {
	if err := firstErr(
		eq("payload type", pk.GetPayloadType(), p.PT),
		eq("sequence number", pk.GetSequenceNumber(), p.Seq),
		eq("timestamp", pk.GetTimestamp(), p.TS),
		eq("SSRC", pk.GetSSRC(), p.SSRC),
		eq("marker", pk.HasMarker(), p.Marker),
		eq("CSRC count", pk.GetCSRCCount(), uint8(len(p.CSRC))),
		eq("has extension", pk.HasExtension(), p.HasExt),
	); err != nil {
		return err
	}
	for i, c := range p.CSRC {
		if err := eq("CSRC", pk.GetCSRC(uint8(i)), c); err != nil {
			return err
		}
	}
	if err := eq("CSRC past the end", pk.GetCSRC(uint8(len(p.CSRC))), 0); err != nil {
		return err
	}
	if p.HasExt {
		e := p.ext()
		if err := firstErr(eq("extension id", pk.GetExtensionID(), p.ExtID),
			eq("extension length", pk.GetExtensionLength(), uint16(len(e)))); err != nil {
			return err
		}
		got := pk.GetExtensionData()
		if len(got) != len(e) {
			return errf("extension data: %d words, want %d", len(got), len(e))
		}
		for i := range e {
			if got[i] != e[i] {
				return errf("extension word %d: got %#x, want %#x", i, got[i], e[i])
			}
		}
	}
	if !bytes.Equal(pk.GetPayload(), p.Payload) {
		return errf("payload: got %d bytes %x, want %d bytes", len(pk.GetPayload()), head(pk.GetPayload(), 40), len(p.Payload))
	}
	return nil
}

func head(b []byte, n int) []byte {
	if len(b) > n {
		return b[:n]
	}
	return b
}

func buildRTP(p *rtpPkt) *rtp.RTPPacket {
	cs := append(append([]uint32{}, p.CSRC...), make([]uint32, p.Extra)...)
	e := p.ext()
	n := len(e)
	e = append(append([]uint32{}, e...), make([]uint32, p.Extra)...)
	b := append([]byte{}, p.Payload...)
	pk := rtp.NewPacket(p.PT, b, p.Seq, p.TS, p.SSRC, p.Marker, uint8(len(p.CSRC)), cs, p.HasExt, p.ExtID, uint16(n), e)
	// the caller uses its buffers again
	for i := range b {
		b[i] ^= 0xff
	}
	for i := range cs {
		cs[i]++
	}
	for i := range e {
		e[i]++
	}
	return pk
}

func rtpClasses(x *fw.Ctx, p *rtpPkt) {
	if len(p.CSRC) > 0 || p.HasExt || p.Pad > 0 {
		x.NonTrivial()
	}
	if len(p.CSRC) > 7 {
		x.Class("more than 7 CSRCs")
	}
	if p.HasExt {
		x.Class("extension")
	}
	if p.BigExt >= 16384 {
		x.Class("extension of 64 KiB and more")
	}
	if p.Pad > 0 {
		x.Class("padding")
	}
}

var anyTime = rtp.NewRTPTimeFromFloat64(1.5)

func parseRTP(b []byte) (*rtp.RTPPacket, error) {
	return rtp.NewRTPPacketFromRawPacket(rtp.NewRawPacket(b, rtp.NewHostAddress("h", 1), anyTime, true))
}

func init() {
	const rule = "random header fields, 0-15 CSRCs, extensions of 0-12 words and a few of 64 KiB and more, payloads up to 70000 bytes, padding 1-255; non-trivial: it has CSRCs, an extension or padding"
	fw.Add("C29", "build-wire", rule, 6000, 120000, genRTP, func(x *fw.Ctx, p rtpPkt) error {
		rtpClasses(x, &p)
		pk := buildRTP(&p)
		if pk == nil {
			return errf("NewPacket refused a valid packet")
		}
		if err := rtpFields(pk, &p); err != nil {
			return err
		}
		want := p.wire(0)
		if got := pk.GetPacket(); !bytes.Equal(got, want) {
			return errf("wire form: got %x, want %x", head(got, 100), head(want, 100))
		}
		// and it parses back
		q, err := parseRTP(pk.GetPacket())
		if err != nil {
			return errf("own packet does not parse: %v", err)
		}
		return rtpFields(q, &p)
	})
	fw.Add("C29", "parse-wire", rule, 6000, 120000, genRTP, func(x *fw.Ctx, p rtpPkt) error {
		rtpClasses(x, &p)
		w := p.wire(p.Pad)
		in := append([]byte{}, w...)
		pk, err := parseRTP(in)
		if err != nil {
			return errf("valid packet refused: %v", err)
		}
		if err := rtpFields(pk, &p); err != nil {
			return err
		}
		if !bytes.Equal(pk.GetPacket(), w) {
			return errf("GetPacket differs from the bytes received")
		}
		// the packet owns its bytes
		for i := range in {
			in[i] ^= 0xff
		}
		if err := rtpFields(pk, &p); err != nil {
			return errf("after the receive buffer is reused: %v", err)
		}
		h, err := rtp.NewRTPHeaderFromBytes(w)
		if err != nil {
			return errf("header: %v", err)
		}
		if n := 12 + 4*len(p.CSRC); !bytes.Equal(h.Encode(), w[:n]) {
			return errf("header re-encodes as %x, want %x", h.Encode(), w[:n])
		}
		if p.HasExt {
			e := rtp.NewRTPExtensionFromBytes(w[12+4*len(p.CSRC):])
			if e == nil {
				return errf("extension refused")
			}
			n := 4 + 4*len(p.ext())
			if got := e.Encode(); !bytes.Equal(got, w[12+4*len(p.CSRC):][:n]) {
				return errf("extension re-encodes as %d bytes %x, want %d", len(got), head(got, 40), n)
			}
		}
		return nil
	})
	type again struct {
		A, B rtpPkt
		Bad  string
	}
	fw.Add("C29", "rebuild", "a packet object filled in again with the fields of another packet, or refused values: it is the other packet, or as it was; "+rule, 1500, 40000,
		func(t *rapid.T) again {
			c := again{genRTP(t), genRTP(t), pick(t, "bad", "", "", "type", "csrcs")}
			c.A.Pad, c.B.Pad = 0, 0
			return c
		}, func(x *fw.Ctx, c again) error {
			rtpClasses(x, &c.B)
			pk := buildRTP(&c.A)
			if pk == nil {
				return errf("NewPacket refused a valid packet")
			}
			p := c.B
			switch c.Bad {
			case "type":
				p.PT |= 128
			case "csrcs":
				p.CSRC = make([]uint32, 16+len(p.CSRC))
			}
			err := pk.BuildPacket(p.PT, p.Payload, p.Seq, p.TS, p.SSRC, p.Marker, uint8(len(p.CSRC)), p.CSRC, p.HasExt, p.ExtID, uint16(len(p.ext())), p.ext())
			if c.Bad != "" {
				p = c.A
				if err == nil {
					return errf("refused values were taken (%s)", c.Bad)
				}
			} else if err != nil {
				return errf("a valid packet is refused: %v", err)
			}
			if err := rtpFields(pk, &p); err != nil {
				return err
			}
			if got, want := pk.GetPacket(), p.wire(0); !bytes.Equal(got, want) {
				return errf("wire form: got %x, want %x", head(got, 100), head(want, 100))
			}
			return nil
		})
	type bad struct {
		P    rtpPkt
		Kind string
		N    int
	}
	fw.Add("C29", "refusals", "packets NewPacket must refuse (payload type over 127 or 72/73, more than 15 CSRCs); every case is non-trivial", 1500, 30000,
		func(t *rapid.T) bad {
			b := bad{P: genRTP(t), Kind: pick(t, "kind", "pt", "rtcp", "csrc")}
			b.P.Pad = 0
			switch b.Kind {
			case "pt":
				b.P.PT = uint8(intr(t, "badpt", 128, 255))
			case "rtcp":
				b.P.PT = uint8(intr(t, "badpt", 72, 73))
			case "csrc":
				b.N = intr(t, "n", 16, 255)
			}
			return b
		}, func(x *fw.Ctx, b bad) error {
			x.NonTrivial()
			x.Class(b.Kind)
			p := b.P
			if b.Kind == "csrc" {
				p.CSRC = make([]uint32, b.N)
			}
			if pk := buildRTP(&p); pk != nil {
				return errf("NewPacket accepted it: %s", pk.Dump())
			}
			return nil
		})
}

// ---------------------------------------------------------------- C30

type rtpBytes struct {
	B    []byte
	Kind string
}

// refRTPOK says whether the bytes are a packet the receiver has to accept
// (1), has to refuse (-1), or may treat either way (0).
func refRTPOK(b []byte) int {
	if len(b) < 12 || b[0]>>6 != 2 {
		return -1
	}
	if b[1] == 200 || b[1] == 201 {
		return -1
	}
	off := 12 + 4*int(b[0]&15)
	if len(b) < off {
		return -1
	}
	if b[0]&0x10 != 0 {
		if len(b) < off+4 {
			return -1
		}
		off += 4 + 4*int(binary.BigEndian.Uint16(b[off+2:]))
		if len(b) < off {
			return -1
		}
	}
	if b[0]&0x20 != 0 {
		n := int(b[len(b)-1])
		if n > len(b)-off {
			return -1
		}
		if n == 0 || off == len(b) {
			return 0
		}
	}
	return 1
}

func genRTPBytes(t *rapid.T) rtpBytes {
	switch k := pick(t, "kind", "random", "truncated", "mutated", "header"); k {
	case "random":
		return rtpBytes{rapid.SliceOfN(rapid.Byte(), 0, 60).Draw(t, "b"), k}
	case "header":
		b := rapid.SliceOfN(rapid.Byte(), 12, 80).Draw(t, "b")
		b[0] = 0x80 | b[0]&0x3f
		if chance(t, "small", 2) {
			b[0] &= 0xf1
			if len(b) > 15+int(b[0]&15)*4 {
				b[14+int(b[0]&15)*4] = 0
				b[15+int(b[0]&15)*4] &= 15
			}
		}
		return rtpBytes{b, k}
	default:
		p := genRTP(t)
		if p.BigExt > 300 {
			p.BigExt = 300
		}
		if len(p.Payload) > 300 {
			p.Payload = p.Payload[:300]
		}
		w := p.wire(p.Pad)
		if k == "truncated" {
			w = w[:intr(t, "cut", 0, len(w))]
		} else {
			for i := intr(t, "muts", 1, 3); i > 0; i-- {
				lim := len(w) - 1
				if chance(t, "early", 2) && lim > 15 {
					lim = 15
				}
				w[intr(t, "at", 0, lim)] = rapid.Byte().Draw(t, "v")
			}
		}
		return rtpBytes{w, k}
	}
}

func init() {
	fw.Add("C30", "rtp-bytes", "random bytes, random bodies under a version-2 header, truncated and mutated valid packets; non-trivial: at least 12 bytes of version 2", 12000, 300000, genRTPBytes,
		func(x *fw.Ctx, c rtpBytes) error {
			if len(c.B) >= 12 && c.B[0]>>6 == 2 {
				x.NonTrivial()
			}
			x.Class(c.Kind)
			want := refRTPOK(c.B)
			x.Class("expected %d", want)
			pk, err := parseRTP(c.B)
			if want > 0 && err != nil {
				return errf("well-formed packet refused: %v", err)
			}
			if want < 0 && err == nil {
				return errf("malformed packet accepted: %s", pk.Dump())
			}
			if err != nil && pk != nil {
				return errf("both a packet and an error")
			}
			if err == nil {
				n := len(pk.GetPayload()) + 12 + 4*int(pk.GetCSRCCount())
				if pk.HasExtension() {
					n += 4 + 4*int(pk.GetExtensionLength())
				}
				pad := 0
				if c.B[0]&0x20 != 0 {
					pad = int(c.B[len(c.B)-1])
				}
				if want > 0 && n+pad != len(c.B) {
					return errf("header %d, padding %d and payload %d bytes do not add up to %d", n-len(pk.GetPayload()), pad, len(pk.GetPayload()), len(c.B))
				}
			}
			if _, err := rtp.NewRTPPacketFromRawPacket(rtp.NewRawPacket(c.B, nil, anyTime, false)); err == nil {
				return errf("data that did not arrive as RTP was accepted as RTP")
			}
			hdr, err := rtp.NewRTPHeaderFromBytes(c.B)
			short := len(c.B) < 12 || len(c.B) < 12+4*int(c.B[0]&15)
			if short != (err != nil) {
				return errf("header of %d bytes: error %v", len(c.B), err)
			}
			if err == nil && !bytes.Equal(hdr.Encode(), c.B[:12+4*int(c.B[0]&15)]) {
				return errf("header re-encodes as %x", hdr.Encode())
			}
			ext := rtp.NewRTPExtensionFromBytes(c.B)
			short = len(c.B) < 4 || len(c.B) < 4+4*int(binary.BigEndian.Uint16(c.B[2:]))
			if short != (ext == nil) {
				return errf("extension of %d bytes: refused %v", len(c.B), ext == nil)
			}
			return nil
		})
	for _, id := range []string{"C30", "C31"} {
		fw.Add(id, "rtcp-bytes", "random bytes of length 0-48 with plausible first and last bytes and reason lengths around the room there is for them, read as BYE and as APP packets; non-trivial: the packet is recognised by one of them, or would be but for its last count", 12000, 300000,
			genRTCPBytes, checkRTCPBytes)
	}
}

type rtcpBytes struct {
	B []byte
}

func genRTCPBytes(t *rapid.T) rtcpBytes {
	b := rapid.SliceOfN(rapid.Byte(), 0, 48).Draw(t, "b")
	if len(b) > 0 && chance(t, "shape", 2) {
		p := intr(t, "p", 0, 1)
		n := intr(t, "c", 0, 6)
		b[0] = 0x80 | byte(p<<5) | byte(n)
		end := len(b)
		if p == 1 || chance(t, "set last", 2) {
			v := byte(pick(t, "pad", 0, 1, 2, 3, 4, 8, 12, 36, 40, 44, 48, 52))
			b[len(b)-1] = v
			if p == 1 {
				end -= int(v)
			}
		}
		// the reason's length, at and around the room for it
		if at := 4 + 4*n; at < len(b)-1 && chance(t, "edge", 2) {
			room := pick(t, "room", end, len(b)) - at - 1
			if l := room + intr(t, "off", -2, 3); l >= 0 {
				b[at] = byte(l)
			}
		}
	}
	return rtcpBytes{b}
}

func checkRTCPBytes(x *fw.Ctx, c rtcpBytes) error {
	bye := rtp.NewRTCPBYEPacket(c.B, len(c.B))
	app := rtp.NewRTCPAPPPacket(c.B, len(c.B))
	m := refBYE(c.B)
	if bye.IsKnownFormat() || app.IsKnownFormat() || len(c.B) > 4 && 4+4*int(c.B[0]&31) < len(c.B) {
		x.NonTrivial()
	}
	if m.undef {
		x.Class("undefined padding")
	} else if err := cmpBYE(bye, m); err != nil {
		return err
	}
	a := refAPP(c.B)
	if !a.undef {
		if err := cmpAPP(app, a); err != nil {
			return err
		}
	}
	return nil
}

// ---------------------------------------------------------------- C31

type byeModel struct {
	ok     bool
	undef  bool
	ssrc   []uint32
	has    bool
	reason []byte
}

// rtcpBody strips the padding (RFC 3550 section 6.4.1: a multiple of four).
func rtcpBody(b []byte) (n int, ok, undef bool) {
	if len(b) < 4 {
		return 0, false, false
	}
	n = len(b)
	if b[0]&0x20 != 0 {
		pad := int(b[n-1])
		if pad&3 != 0 || pad >= n {
			return 0, false, false
		}
		if pad == 0 {
			undef = true
		}
		n -= pad
	}
	return n, true, undef
}

func refBYE(b []byte) byeModel {
	n, ok, undef := rtcpBody(b)
	if !ok {
		return byeModel{}
	}
	m := byeModel{ok: true, undef: undef}
	c := int(b[0] & 31)
	if 4+4*c > n {
		return byeModel{undef: undef}
	}
	for i := 0; i < c; i++ {
		m.ssrc = append(m.ssrc, binary.BigEndian.Uint32(b[4+4*i:]))
	}
	off := 4 + 4*c
	if off < n {
		l := int(b[off])
		if off+1+l > n {
			return byeModel{undef: undef}
		}
		m.has = true
		m.reason = b[off+1 : off+1+l]
	}
	return m
}

func cmpBYE(p *rtp.RTCPBYEPacket, m byeModel) error {
	if err := firstErr(eq("BYE packet type", p.GetPacketType(), rtp.BYE), eq("BYE known format", p.IsKnownFormat(), m.ok)); err != nil {
		return err
	}
	if err := firstErr(
		eq("BYE SSRC count", p.GetSSRCCount(), len(m.ssrc)),
		eq("BYE has reason", p.HasReasonForLeaving(), m.has),
		eq("BYE reason length", p.GetReasonLength(), len(m.reason)),
	); err != nil {
		return err
	}
	for i, s := range m.ssrc {
		if err := eq("BYE SSRC", p.GetSSRC(i), s); err != nil {
			return err
		}
	}
	if !bytes.Equal(p.GetReasonData(), m.reason) {
		return errf("BYE reason data: got %q, want %q", p.GetReasonData(), m.reason)
	}
	return nil
}

type appModel struct {
	ok, undef bool
	sub       uint8
	ssrc      uint32
	name      []byte
	data      []byte
}

func refAPP(b []byte) appModel {
	n, ok, undef := rtcpBody(b)
	if !ok || n < 12 {
		return appModel{undef: undef}
	}
	return appModel{true, undef, b[0] & 31, binary.BigEndian.Uint32(b[4:]), b[8:12], b[12:n]}
}

func cmpAPP(p *rtp.RTCPAPPPacket, m appModel) error {
	if err := firstErr(eq("APP packet type", p.GetPacketType(), rtp.APP), eq("APP known format", p.IsKnownFormat(), m.ok)); err != nil {
		return err
	}
	if err := firstErr(
		eq("APP subtype", p.GetSubType(), m.sub),
		eq("APP SSRC", p.GetSSRC(), m.ssrc),
		eq("APP data length", p.GetAPPDataLength(), len(m.data)),
	); err != nil {
		return err
	}
	if !bytes.Equal(p.GetName(), m.name) {
		return errf("APP name: got %q, want %q", p.GetName(), m.name)
	}
	if !bytes.Equal(p.GetAPPData(), m.data) {
		return errf("APP data: got %q, want %q", p.GetAPPData(), m.data)
	}
	return nil
}

type rtcpCase struct {
	App    bool
	SSRC   []uint32
	Reason *string
	Sub    uint8
	Name   string
	Data   []byte
	Pad    int
	Extra  []byte // bytes after the packet in the caller's buffer
}

func init() {
	fw.Add("C31", "rtcp-parse", "well-formed BYE packets (0-31 sources, with and without a reason) and APP packets, with and without padding, followed by unrelated bytes in the buffer; non-trivial: it carries a source, a reason or data", 8000, 200000,
		func(t *rapid.T) rtcpCase {
			c := rtcpCase{App: rapid.Bool().Draw(t, "app")}
			if c.App {
				c.SSRC = []uint32{rapid.Uint32().Draw(t, "ssrc")}
				c.Sub = uint8(intr(t, "sub", 0, 31))
				c.Name = rapid.StringMatching("[A-Za-z0-9]{4}").Draw(t, "name")
				c.Data = genBytes(t, "data", 0, 10, 6000)
				for len(c.Data)%4 != 0 {
					c.Data = append(c.Data, 7)
				}
			} else {
				c.SSRC = rapid.SliceOfN(rapid.Uint32(), 0, 31).Draw(t, "ssrcs")
				if rapid.Bool().Draw(t, "reason?") {
					s := rapid.StringMatching("[ -~]{0,40}").Draw(t, "reason")
					if chance(t, "long", 15) {
						s = strings.Repeat("r", pick(t, "reason-len", 255, 255, 254, 128, 200, 240)-len(s)) + s
					}
					c.Reason = &s
				}
			}
			if chance(t, "pad?", 2) {
				c.Pad = 4 * intr(t, "pad", 1, 10)
			}
			c.Extra = rapid.SliceOfN(rapid.Byte(), 0, 8).Draw(t, "extra")
			return c
		}, func(x *fw.Ctx, c rtcpCase) error {
			var b []byte
			b0 := byte(0x80)
			if c.Pad > 0 {
				b0 |= 0x20
				x.Class("padding")
			}
			if c.App {
				x.Class("APP")
				b = append(b, b0|c.Sub, 204, 0, 0)
				b = binary.BigEndian.AppendUint32(b, c.SSRC[0])
				b = append(b, c.Name...)
				b = append(b, c.Data...)
			} else {
				x.Class("BYE")
				b = append(b, b0|byte(len(c.SSRC)), 203, 0, 0)
				for _, s := range c.SSRC {
					b = binary.BigEndian.AppendUint32(b, s)
				}
				if c.Reason != nil {
					b = append(b, byte(len(*c.Reason)))
					b = append(b, *c.Reason...)
					for len(b)%4 != 0 {
						b = append(b, 0)
					}
				}
			}
			for i := 0; i < c.Pad; i++ {
				v := byte(0)
				if i == c.Pad-1 {
					v = byte(c.Pad)
				}
				b = append(b, v)
			}
			binary.BigEndian.PutUint16(b[2:], uint16(len(b)/4-1))
			n := len(b)
			if len(c.SSRC) > 0 || c.Reason != nil || len(c.Data) > 0 {
				x.NonTrivial()
			}
			buf := append(append([]byte{}, b...), c.Extra...)
			base := rtp.NewRTCPPacket(rtp.RTCPPacketType(c.Sub%6), append([]byte{}, buf...), n)
			if err := firstErr(eq("packet length of a plain packet", base.GetPacketLength(), n), eq("packet data of a plain packet", string(base.GetPacketData()), string(b))); err != nil {
				return err
			}
			if c.App {
				p := rtp.NewRTCPAPPPacket(buf, n)
				for i := range buf {
					buf[i] ^= 0x55
				}
				m := appModel{true, false, c.Sub, c.SSRC[0], []byte(c.Name), c.Data}
				if err := cmpAPP(p, m); err != nil {
					return err
				}
				return firstErr(eq("packet length", p.GetPacketLength(), n), eq("packet data", string(p.GetPacketData()), string(b)))
			}
			p := rtp.NewRTCPBYEPacket(buf, n)
			for i := range buf {
				buf[i] ^= 0x55
			}
			m := byeModel{ok: true, ssrc: c.SSRC}
			if c.Reason != nil {
				m.has, m.reason = true, []byte(*c.Reason)
			}
			if err := cmpBYE(p, m); err != nil {
				return err
			}
			return firstErr(eq("packet length", p.GetPacketLength(), n), eq("packet data", string(p.GetPacketData()), string(b)))
		})
}

// ---------------------------------------------------------------- C32

const ntpOff = 2208988800

type tm struct{ S, U uint32 }

func (a tm) us() int64 { return int64(a.S)*1000000 + int64(a.U) }

// mk makes a time of exactly S seconds and U microseconds.
func (a tm) mk() *rtp.RTPTime {
	// the smallest NTP fraction that is not below U microseconds, and a bit
	lsw := (uint64(a.U)<<32+999999)/1000000 + 3
	return rtp.NewRTPTimeFromNTPTime(rtp.NewNTPTime(a.S+ntpOff, uint32(lsw)))
}

// read is the inverse of mk, through the NTP form.
func read(t *rtp.RTPTime) tm {
	n := t.GetNTPTime()
	u := (uint64(n.GetLSW())*1000000 + 1<<31) >> 32
	return tm{n.GetMSW() - ntpOff, uint32(u)}
}

func genTM(t *rapid.T, name string, max uint32) tm {
	a := tm{rapid.Uint32Range(0, max).Draw(t, name+"s"), rapid.Uint32Range(0, 999999).Draw(t, name+"u")}
	if chance(t, name+"edge", 4) {
		a.U = pick(t, name+"eu", uint32(0), 1, 500000, 999998, 999999)
	}
	return a
}

func init() {
	type two struct{ A, B tm }
	fw.Add("C32", "arithmetic", "pairs of times with edge microseconds, half of them sharing their seconds; non-trivial: adding or subtracting them carries or borrows", 20000, 400000,
		func(t *rapid.T) two {
			p := two{genTM(t, "a", 1<<30), genTM(t, "b", 1<<30)}
			if chance(t, "close", 2) {
				p.B.S = p.A.S + uint32(intr(t, "ds", 0, 1))
			}
			return p
		}, func(x *fw.Ctx, p two) error {
			a, b := p.A, p.B
			if a.U+b.U >= 1000000 || a.U < b.U {
				x.NonTrivial()
			}
			A, B := a.mk(), b.mk()
			if err := firstErr(eq("made time", read(A), a), eq("made time", read(B), b)); err != nil {
				return err
			}
			// a total order that agrees with the number of microseconds
			if err := firstErr(
				eq("LT", A.LT(B), a.us() < b.us()),
				eq("GT", A.GT(B), a.us() > b.us()),
				eq("ELT", A.ELT(B), a.us() <= b.us()),
				eq("EGT", A.EGT(B), a.us() >= b.us()),
			); err != nil {
				return err
			}
			sum := A.Clone()
			sum.Add(B)
			w := a.us() + b.us()
			if err := firstErr(eq("sum", read(sum), tm{uint32(w / 1000000), uint32(w % 1000000)}),
				eq("operand after Add", read(A), a), eq("operand after Add", read(B), b)); err != nil {
				return err
			}
			sum.Sub(B)
			if err := eq("sum minus operand", read(sum), a); err != nil {
				return err
			}
			hi, lo := a, b
			if hi.us() < lo.us() {
				hi, lo = lo, hi
			}
			d := hi.mk()
			d.Sub(lo.mk())
			w = hi.us() - lo.us()
			return eq("difference", read(d), tm{uint32(w / 1000000), uint32(w % 1000000)})
		})
	type ntp struct {
		M, L uint32
		T    tm
	}
	fw.Add("C32", "ntp", "NTP timestamps of the first era, and times up to 2036; non-trivial: the timestamp is not before 1970", 20000, 400000,
		func(t *rapid.T) ntp {
			n := ntp{M: rapid.Uint32().Draw(t, "m"), L: rapid.Uint32().Draw(t, "l"), T: genTM(t, "t", 1<<31-62505153)}
			if chance(t, "edge", 4) {
				n.M = ntpOff + uint32(intr(t, "d", -2, 2))
			}
			if chance(t, "edgel", 6) {
				n.L = pick(t, "le", uint32(0), 1, 4294, 4295, 1<<31, 1<<32-1)
			}
			return n
		}, func(x *fw.Ctx, n ntp) error {
			v := rtp.NewNTPTime(n.M, n.L)
			if err := firstErr(eq("MSW", v.GetMSW(), n.M), eq("LSW", v.GetLSW(), n.L)); err != nil {
				return err
			}
			r := rtp.NewRTPTimeFromNTPTime(v)
			back := r.GetNTPTime()
			if n.M < ntpOff {
				return firstErr(eq("time before 1970", read(r), tm{}))
			}
			x.NonTrivial()
			if err := eq("seconds", back.GetMSW(), n.M); err != nil {
				return err
			}
			d := int64(n.L) - int64(back.GetLSW())
			if d < 0 || d > 4296+1 {
				return errf("NTP fraction %d comes back as %d", n.L, back.GetLSW())
			}
			a := n.T.mk()
			b := rtp.NewRTPTimeFromNTPTime(a.GetNTPTime())
			diff := n.T.us() - read(b).us()
			if diff < 0 || diff > 1 {
				return errf("time %v comes back from NTP as %v", n.T, read(b))
			}
			return nil
		})
	type fl struct{ T tm }
	fw.Add("C32", "float", "times given as seconds in floating point; non-trivial: they have a fraction", 8000, 200000,
		func(t *rapid.T) fl { return fl{genTM(t, "t", 1<<31-62505153)} },
		func(x *fw.Ctx, c fl) error {
			if c.T.U != 0 {
				x.NonTrivial()
			}
			f := float64(c.T.S) + float64(c.T.U)/1e6
			got := read(rtp.NewRTPTimeFromFloat64(f))
			d := got.us() - c.T.us()
			if d < -1 || d > 1 || got.U > 999999 {
				return errf("%v seconds become %v", f, got)
			}
			return nil
		})
}

// ---------------------------------------------------------------- C33

type addrSpec struct {
	Host string
	IP   []byte
	Port uint16
}

func (a addrSpec) mk() rtp.Address {
	if a.IP != nil {
		return rtp.NewIPAddress(append(net.IP{}, a.IP...), a.Port)
	}
	return rtp.NewHostAddress(a.Host, a.Port)
}

// key identifies the endpoint: an IPv4 address and its IPv6-mapped form are one.
func (a addrSpec) host() string {
	if a.IP != nil {
		return "ip:" + string(net.IP(a.IP).To16())
	}
	return "host:" + a.Host
}
func (a addrSpec) key() string {
	return a.host() + ":" + string([]byte{byte(a.Port >> 8), byte(a.Port)})
}

func genAddr(t *rapid.T, n string) addrSpec {
	a := addrSpec{Port: uint16(pick(t, n+"port", 0, 1, 5000, 5001, 256, 65535))}
	switch intr(t, n+"kind", 0, 3) {
	case 0:
		a.Host = pick(t, n+"host", "a", "b", "A", "ab", "")
	case 1:
		a.IP = pick(t, n+"ip4", []byte{10, 0, 0, 1}, []byte{10, 0, 0, 2}, []byte{1, 0, 0, 10})
	case 2:
		a.IP = net.IP(pick(t, n+"ip4m", []byte{10, 0, 0, 1}, []byte{10, 0, 0, 2})).To16()
	default:
		ip := make([]byte, 16)
		ip[0], ip[15] = 0x20, byte(intr(t, n+"v6", 1, 3))
		a.IP = ip
	}
	return a
}

func init() {
	type pair struct{ A, B addrSpec }
	fw.Add("C33", "addresses", "pairs of host, IPv4, IPv4-mapped and IPv6 endpoints drawn from a small pool; non-trivial: same host or same port", 12000, 200000,
		func(t *rapid.T) pair { return pair{genAddr(t, "a"), genAddr(t, "b")} },
		func(x *fw.Ctx, p pair) error {
			a, b := p.A.mk(), p.B.mk()
			if p.A.host() == p.B.host() || p.A.Port == p.B.Port {
				x.NonTrivial()
			}
			same, host := p.A.key() == p.B.key(), p.A.host() == p.B.host()
			if err := firstErr(
				eq("same address", a.IsSameAddress(b), same), eq("same address, swapped", b.IsSameAddress(a), same),
				eq("same host", a.IsFromSameHost(b), host), eq("same host, swapped", b.IsFromSameHost(a), host),
				eq("same as nothing", a.IsSameAddress(nil), false), eq("same host as nothing", a.IsFromSameHost(nil), false),
			); err != nil {
				return err
			}
			c := a.Clone()
			if err := firstErr(eq("clone", c.IsSameAddress(a), true), eq("clone text", c.String(), a.String()),
				eq("clone type", c.GetAddressType(), a.GetAddressType())); err != nil {
				return err
			}
			// a clone keeps its value when the original is changed
			txt := c.String()
			switch v := a.(type) {
			case *rtp.HostAddress:
				if err := firstErr(eq("host", v.GetHost(), p.A.Host), eq("port", v.GetPort(), p.A.Port), eq("type", v.GetAddressType(), rtp.HostAddressType)); err != nil {
					return err
				}
				v.SetHost("changed")
				v.SetPort(9)
				if err := firstErr(eq("host set", v.GetHost(), "changed"), eq("port set", v.GetPort(), 9)); err != nil {
					return err
				}
			case *rtp.IPAddress:
				want := rtp.IPv6AddressType
				if net.IP(p.A.IP).To4() != nil {
					want = rtp.IPv4AddressType
				}
				if err := firstErr(eq("ip", v.GetIP().String(), net.IP(p.A.IP).String()), eq("port", v.GetPort(), p.A.Port), eq("type", v.GetAddressType(), want)); err != nil {
					return err
				}
				ip := v.GetIP()
				for i := range ip {
					ip[i] ^= 0xff
				}
				v.SetPort(9)
				v.SetIP(net.IP{9, 9, 9, 9})
				if err := firstErr(eq("ip set", v.GetIP().String(), "9.9.9.9"), eq("port set", v.GetPort(), 9)); err != nil {
					return err
				}
			}
			return eq("clone after the original changed", c.String(), txt)
		})

	type op struct {
		Kind  string
		A     addrSpec
		T     tm
		Delay tm
		N     int `json:",omitempty"`
	}
	type hist struct{ Ops []op }
	fw.Add("C33", "collision-list", "histories of update, query, timeout and clear over a small pool of endpoints, now and then with up to 200 more at once; non-trivial: an endpoint is updated again or times out", 5000, 100000,
		func(t *rapid.T) hist {
			base := uint32(pick(t, "base", 0, 1000, 2000000000))
			var prev []op // the updates so far
			gen := func(t *rapid.T) op {
				o := op{Kind: pick(t, "op", "update", "update", "update", "timeout", "has", "mutate", "clear"), A: genAddr(t, "a"),
					T:     tm{uint32(intr(t, "t", 0, 40)), uint32(pick(t, "us", 0, 0, 1, 500000, 999999))},
					Delay: tm{uint32(pick(t, "delay", 0, 0, 1, 5, 10, 20, 60)), uint32(pick(t, "delay us", 0, 0, 1, 500000, 999999))}}
				o.T.S += base
				// at the edge of an earlier one
				if len(prev) > 0 && chance(t, "near", 2) {
					p := prev[intr(t, "which", 0, len(prev)-1)]
					us := p.T.us()
					if o.Kind == "timeout" {
						us += o.Delay.us() + int64(pick(t, "off", 0, 1, -1, 1000, -1000))
					} else {
						o.A = p.A
						us += int64(pick(t, "later", 1, 400000, 0, -1, 1000000, -400000))
					}
					if us >= 0 {
						o.T = tm{uint32(us / 1000000), uint32(us % 1000000)}
					}
				}
				if o.Kind == "update" || o.Kind == "mutate" {
					prev = append(prev, o)
				}
				if chance(t, "many", 100) {
					o.Kind, o.N = "fill", intr(t, "N", 10, 200)
				}
				return o
			}
			return hist{rapid.SliceOfN(rapid.Custom(gen), 1, 30).Draw(t, "ops")}
		}, func(x *fw.Ctx, h hist) error {
			l := rtp.NewCollisionList()
			model := map[string]tm{}
			specs := map[string]addrSpec{}
			for i, o := range h.Ops {
				if o.Kind == "fill" { // endpoints that no other operation uses, up to N of them
					for n := 0; n < o.N; n++ {
						a := addrSpec{Host: fmt.Sprintf("host%d", n/2), Port: uint16(7000 + n%2)}
						_, had := model[a.key()]
						created, err := l.UpdateAddress(a.mk(), *o.T.mk())
						if err != nil || created == had {
							return errf("op %d, endpoint %d: created %v, %v", i, n, created, err)
						}
						model[a.key()], specs[a.key()] = o.T, a
					}
				} else {
					specs[o.A.key()] = o.A
				}
				switch o.Kind {
				case "update", "mutate":
					a := o.A.mk()
					created, err := l.UpdateAddress(a, *o.T.mk())
					if err != nil {
						return errf("op %d: %v", i, err)
					}
					_, had := model[o.A.key()]
					if had {
						x.NonTrivial()
						x.Class("updated again")
					}
					if err := eq("created", created, !had); err != nil {
						return errf("op %d: %v", i, err)
					}
					model[o.A.key()] = o.T
					if o.Kind == "mutate" { // the list keeps its own copy
						switch v := a.(type) {
						case *rtp.HostAddress:
							v.SetHost("changed")
						case *rtp.IPAddress:
							v.SetPort(o.A.Port + 1)
						}
					}
				case "timeout":
					now, d := o.T.mk(), o.Delay.mk()
					l.Timeout(now, d)
					if err := firstErr(eq("current time after Timeout", read(now), o.T), eq("delay after Timeout", read(d), o.Delay)); err != nil {
						return err
					}
					for k, at := range model {
						if at.us() < o.T.us()-o.Delay.us() {
							delete(model, k)
							x.NonTrivial()
							x.Class("timed out")
						}
					}
				case "clear":
					l.Clear()
					model = map[string]tm{}
				}
				var keys []string
				for k := range specs {
					keys = append(keys, k)
				}
				sort.Strings(keys)
				for _, k := range keys {
					_, want := model[k]
					if got := l.HasAddress(specs[k].mk()); got != want {
						return errf("after op %d (%s): HasAddress(%v) is %v, want %v", i, o.Kind, specs[k], got, want)
					}
				}
			}
			if c, err := l.UpdateAddress(nil, *anyTime); err == nil || c {
				return errf("an update without an address is accepted")
			}
			return nil
		})

	type params struct {
		Ops []struct {
			F string
			V uint32
		}
	}
	fw.Add("C33", "transmission-params", "histories of setter calls; non-trivial: two or more different settings are changed", 3000, 60000,
		func(t *rapid.T) params {
			var p params
			n := intr(t, "n", 0, 10)
			for i := 0; i < n; i++ {
				p.Ops = append(p.Ops, struct {
					F string
					V uint32
				}{pick(t, "f", "proto", "bind", "mcast", "port", "ttl", "ips", "rtps", "rtpr", "rtcps", "rtcpr"), rapid.Uint32().Draw(t, "v")})
			}
			return p
		}, func(x *fw.Ctx, p params) error {
			q := rtp.NewTransmissionParams()
			m := map[string]uint32{"proto": 0, "mcast": 0, "port": 5000, "ttl": 1, "rtps": 32768, "rtpr": 32768, "rtcps": 32768, "rtcpr": 32768}
			ip := func(v uint32) net.IP { return net.IP{byte(v >> 24), byte(v >> 16), byte(v >> 8), byte(v)} }
			changed := map[string]bool{}
			chk := func() error {
				if v, ok := m["bind"]; ok {
					if err := eq("bind IP", q.GetBindIP().String(), ip(v).String()); err != nil {
						return err
					}
				} else if q.GetBindIP() != nil {
					return errf("bind IP %v by default", q.GetBindIP())
				}
				if v, ok := m["ips"]; ok {
					l := q.GetLocalIPList()
					if len(l) != 2 || !l[0].Equal(ip(v)) || !l[1].Equal(ip(v+1)) {
						return errf("local IPs %v", l)
					}
				} else if len(q.GetLocalIPList()) != 0 {
					return errf("local IPs %v by default", q.GetLocalIPList())
				}
				return firstErr(
					eq("protocol", uint32(q.GetTransmissionProtocol()), m["proto"]&3),
					eq("multicast interface", q.GetMulticastInterfaceIndex(), m["mcast"]),
					eq("port base", q.GetPortbase(), uint16(m["port"])),
					eq("multicast TTL", q.GetMulticastTTL(), uint8(m["ttl"])),
					eq("RTP send buffer", q.GetRTPSendBuffer(), int(m["rtps"])),
					eq("RTP receive buffer", q.GetRTPReceiveBuffer(), int(m["rtpr"])),
					eq("RTCP send buffer", q.GetRTCPSendBuffer(), int(m["rtcps"])),
					eq("RTCP receive buffer", q.GetRTCPReceiveBuffer(), int(m["rtcpr"])),
				)
			}
			if err := chk(); err != nil {
				return errf("defaults: %v", err)
			}
			for i, o := range p.Ops {
				switch o.F {
				case "proto":
					q.SetTransmissionProtocol(rtp.TransmissionProtocol(o.V & 3))
				case "bind":
					q.SetBindIP(ip(o.V))
				case "mcast":
					q.SetMulticastInterfaceIndex(o.V)
				case "port":
					q.SetPortbase(uint16(o.V))
				case "ttl":
					q.SetMulticastTTL(uint8(o.V))
				case "ips":
					q.SetLocalIPList([]net.IP{ip(o.V), ip(o.V + 1)})
				case "rtps":
					q.SetRTPSendBuffer(int(o.V))
				case "rtpr":
					q.SetRTPReceiveBuffer(int(o.V))
				case "rtcps":
					q.SetRTCPSendBuffer(int(o.V))
				case "rtcpr":
					q.SetRTCPReceiveBuffer(int(o.V))
				}
				m[o.F] = o.V
				changed[o.F] = true
				if err := chk(); err != nil {
					return errf("after op %d (%s): %v", i, o.F, err)
				}
			}
			if len(changed) > 1 {
				x.NonTrivial()
			}
			return nil
		})
}

// ---------------------------------------------------------------- C34

type rnd48 struct{ s *big.Int }

func newRnd48(seed uint32) *rnd48 {
	s := new(big.Int).Lsh(big.NewInt(int64(seed)), 16)
	return &rnd48{s.Add(s, big.NewInt(0x330E))}
}

func (r *rnd48) next() uint64 {
	r.s.Mul(r.s, big.NewInt(0x5DEECE66D))
	r.s.Add(r.s, big.NewInt(11))
	r.s.Mod(r.s, new(big.Int).Lsh(big.NewInt(1), 48))
	return r.s.Uint64()
}

func init() {
	type draws struct {
		Seed uint32
		Ops  []int
	}
	fw.Add("C34", "sequence", "a seed and a mix of 1-40 (rarely 2,000) draws of 8, 16, 32 bits, doubles and reseedings against the rand48 recurrence computed with big integers; non-trivial: two kinds of draw are mixed", 5000, 100000,
		func(t *rapid.T) draws {
			return draws{rapid.Uint32().Draw(t, "seed"), genDraws(t)}
		}, func(x *fw.Ctx, d draws) error {
			var g rtp.Random
			g48 := rtp.NewRandomRand48FromSeed(d.Seed)
			g = g48
			m := newRnd48(d.Seed)
			kinds := map[int]bool{}
			for i, o := range d.Ops {
				kinds[o] = true
				var err error
				switch o {
				case 0:
					err = eq("32 bits", g.GetRandom32(), uint32(m.next()>>16))
				case 1:
					err = eq("16 bits", g.GetRandom16(), uint16(m.next()>>32))
				case 2:
					err = eq("8 bits", g.GetRandom8(), uint8(m.next()>>40))
				case 3:
					v := g.GetRandomDouble()
					err = eq("double", v, float64(m.next())/float64(uint64(1)<<48))
					if v < 0 || v >= 1 {
						err = errf("double %v out of [0,1)", v)
					}
				case 4:
					s := d.Seed + uint32(i)
					g48.SetSeed(s)
					m = newRnd48(s)
				}
				if err != nil {
					return errf("draw %d: %v", i, err)
				}
			}
			if len(kinds) > 1 {
				x.NonTrivial()
			}
			return nil
		})
	type conc struct {
		Seed  uint32
		Kinds []int // what each goroutine draws: 32 bits, 16, 8, a double, or a mix
		N     int
	}
	draw := func(g rtp.Random, kind int) {
		switch kind {
		case 1:
			g.GetRandom16()
		case 2:
			g.GetRandom8()
		default:
			g.GetRandomDouble()
		}
	}
	fw.Add("C34", "concurrent", "2-8 goroutines make 20-300 draws each from one generator; all drawing 32 bits they must get exactly the first values of the sequence, each once; in any mix of draws the next value is the one after all of them, and the race detector sees nothing; non-trivial: all", 300, 6000,
		func(t *rapid.T) conc {
			c := conc{Seed: rapid.Uint32().Draw(t, "seed"), N: intr(t, "n", 20, 300)}
			mixed := rapid.Bool().Draw(t, "mixed")
			for n := intr(t, "g", 2, 8); n > 0; n-- {
				k := 0
				if mixed {
					k = intr(t, "kind", 0, 4)
				}
				c.Kinds = append(c.Kinds, k)
			}
			return c
		}, func(x *fw.Ctx, c conc) error {
			x.NonTrivial()
			g := rtp.NewRandomRand48FromSeed(c.Seed)
			outs := make([][]uint32, len(c.Kinds))
			var fs []func() error
			plain := true
			for i, kind := range c.Kinds {
				if kind != 0 {
					plain = false
				}
				fs = append(fs, func() error {
					for k := 0; k < c.N; k++ {
						if kind == 0 || kind == 4 && k%2 == 0 {
							outs[i] = append(outs[i], g.GetRandom32())
						} else if kind == 4 {
							draw(g, k/2%3+1)
						} else {
							draw(g, kind)
						}
					}
					return nil
				})
			}
			if err := together1(fs); err != nil {
				return err
			}
			x.Class(pick2(plain, "all 32 bits", "mixed draws"))
			want := map[uint32]int{}
			m := newRnd48(c.Seed)
			for i := 0; i < len(c.Kinds)*c.N; i++ {
				want[uint32(m.next()>>16)]++
			}
			for _, o := range outs {
				for _, v := range o {
					want[v]--
				}
			}
			for v, n := range want {
				if n < 0 || plain && n != 0 {
					return errf("value %#x drawn %d times too few", v, n)
				}
			}
			return eq("the draw after all of them", g.GetRandom32(), uint32(m.next()>>16))
		})
}

// genDraws draws the operations on a generator, now and then a long run of
// them without reseeding.
func genDraws(t *rapid.T) []int {
	if n := amount(t, "long", 0, 0, 2000); n > 0 {
		ops := make([]int, n)
		step := intr(t, "step", 0, 3)
		for i := range ops {
			ops[i] = i * step % 4
		}
		return ops
	}
	return rapid.SliceOfN(rapid.IntRange(0, 4), 1, 40).Draw(t, "ops")
}
