package props

import (
	"bytes"
	"net"
	"time"

	"github.com/use-go/gosips/rtp"
	"pgregory.net/rapid"

	"verif/harness/fw"
)

type rawCase struct {
	Data []byte
	A    addrSpec
	T    tm
	RTP  bool
	Type uint8
	Len  int
}

type infoCase struct {
	IPs       [][]byte
	RTP, RTCP int
}

func init() {
	fw.Add("C29", "raw-packets", "received data of 0-40 bytes with sender, time and port: the raw packet and, where it is RTP, the packet made of it keep them; RTCP packets of any type keep the length asked for; non-trivial: data of 4 bytes or more", 3000, 60000,
		func(t *rapid.T) rawCase {
			c := rawCase{Data: genBytes(t, "data", 0, 40, 4000), A: genAddr(t, "a"), T: tm{uint32(intr(t, "s", 0, 2000000000)), uint32(intr(t, "us", 0, 999999))}, RTP: rapid.Bool().Draw(t, "rtp"), Type: uint8(intr(t, "type", 0, 5))}
			if chance(t, "valid", 2) {
				p := genRTP(t)
				p.BigExt = 0
				c.Data = p.wire(p.Pad)
			}
			c.Len = intr(t, "len", 0, len(c.Data))
			return c
		}, func(x *fw.Ctx, c rawCase) error {
			if len(c.Data) >= 4 {
				x.NonTrivial()
			}
			at, from := c.T.mk(), c.A.mk()
			r := rtp.NewRawPacket(c.Data, from, at, c.RTP)
			if err := firstErr(eq("data", string(r.GetData()), string(c.Data)), eq("length", r.GetDataLength(), len(c.Data)), eq("is RTP", r.IsRTP(), c.RTP),
				eq("sender", r.GetSenderAddress() == from, true), eq("time", read(r.GetReceiveTime()), c.T)); err != nil {
				return err
			}
			p, err := rtp.NewRTPPacketFromRawPacket(r)
			if !c.RTP && err == nil {
				return errf("data that did not come as RTP was taken as RTP")
			}
			x.Class(pick2(err == nil, "an RTP packet", "not an RTP packet"))
			if err == nil {
				// the packet has a time of its own
				if err := eq("time of the packet", read(p.GetReceiveTime()), c.T); err != nil {
					return err
				}
				at.Add(tm{5, 5}.mk())
				if err := firstErr(eq("time of the packet after the raw packet's has changed", read(p.GetReceiveTime()), c.T), eq("packet", string(p.GetPacket()), string(c.Data))); err != nil {
					return err
				}
				if p.Dump() == "" {
					return errf("an empty dump")
				}
			}
			r.ZeroData()
			if err := firstErr(eq("length of nothing", r.GetDataLength(), 0), eq("nothing", len(r.GetData()), 0)); err != nil {
				return err
			}
			in := append([]byte{}, c.Data...)
			q := rtp.NewRTCPPacket(rtp.RTCPPacketType(c.Type), in, c.Len)
			for i := range in {
				in[i] ^= 0x55
			}
			q.Dump()
			return firstErr(eq("RTCP type", uint8(q.GetPacketType()), c.Type), eq("RTCP length", q.GetPacketLength(), c.Len), eq("RTCP data", string(q.GetPacketData()), string(c.Data[:c.Len])), eq("known format", q.IsKnownFormat(), false))
		})

	fw.Add("C33", "transmission-info", "transmission information of 1-4 local addresses in 4- or 16-byte form and two sockets; non-trivial: two addresses", 2000, 40000,
		func(t *rapid.T) infoCase {
			c := infoCase{RTP: intr(t, "rtp", 0, 1<<16), RTCP: intr(t, "rtcp", 0, 1<<16)}
			for n := intr(t, "ips", 1, 4); n > 0; n-- {
				b := rapid.SliceOfN(rapid.Byte(), 4, 4).Draw(t, "ip")
				switch pick(t, "form", 4, 16, 6) {
				case 16:
					b = net.IPv4(b[0], b[1], b[2], b[3])
				case 6:
					b = append([]byte{0x20, 1}, bytes.Repeat(b, 4)[:14]...)
				}
				c.IPs = append(c.IPs, b)
			}
			return c
		}, func(x *fw.Ctx, c infoCase) error {
			var l []net.IP
			for _, b := range c.IPs {
				l = append(l, net.IP(b))
			}
			v4 := l[0].To4() != nil
			x.Class(pick2(v4, "IPv4", "IPv6"))
			if len(l) > 1 {
				x.NonTrivial()
			}
			want, typ := rtp.IPv6UDPProto, rtp.IPv6AddressType
			if v4 {
				want, typ = rtp.IPv4UDPProto, rtp.IPv4AddressType
			}
			ti := rtp.NewTransmissionInfo(l, c.RTP, c.RTCP)
			if err := firstErr(eq("protocol", ti.GetTransmissionProtocol(), want), eq("RTP socket", ti.GetRTPSocket(), c.RTP), eq("RTCP socket", ti.GetRTCPSocket(), c.RTCP), eq("addresses", len(ti.GetLocalIPList()), len(l)),
				eq("type of the address", rtp.NewIPAddress(l[0], 1).GetAddressType(), typ)); err != nil {
				return err
			}
			for i, ip := range ti.GetLocalIPList() {
				if !ip.Equal(l[i]) {
					return errf("address %d: %v, want %v", i, ip, l[i])
				}
			}
			return nil
		})

	fw.Add("C32", "clock", "the current time, between two readings of the clock, and waits of up to 2 ms, which last at least as long; non-trivial: a wait that is not zero", 150, 3000,
		func(t *rapid.T) tm { return tm{0, uint32(intr(t, "us", 0, 2000))} }, func(x *fw.Ctx, d tm) error {
			if d.U > 0 {
				x.NonTrivial()
			}
			a := time.Now().UnixMicro()
			now := read(rtp.CurrentRTPTime()).us()
			b := time.Now().UnixMicro()
			if now < a || now > b {
				return errf("the time is %d, between %d and %d", now, a, b)
			}
			start := time.Now()
			rtp.WaitRTPTime(d.mk())
			if got := time.Since(start); got < time.Duration(d.U)*time.Microsecond {
				return errf("a wait of %d us took %v", d.U, got)
			}
			return nil
		})

	type unseeded struct{ N int }
	fw.Add("C34", "unseeded", "2-60 (rarely 2,000) draws of a generator made without a seed: they are the sequence of some seed; non-trivial: all", 30, 500,
		func(t *rapid.T) unseeded { return unseeded{amount(t, "n", 2, 60, 2000)} }, func(x *fw.Ctx, c unseeded) error {
			x.NonTrivial()
			g := rtp.NewRandomRand48()
			var got []uint32
			for i := 0; i < c.N; i++ {
				got = append(got, g.GetRandom32())
			}
			// the states whose draw is the first one, traced back
			const mask = 1<<48 - 1
			inv := uint64(1)
			for i := 0; i < 6; i++ {
				inv *= 2 - inv*0x5DEECE66D
			}
			for low := uint64(0); low < 1<<16; low++ {
				state := ((uint64(got[0])<<16 | low) - 11) * inv & mask
				if state&0xffff != 0x330E {
					continue
				}
				m := newRnd48(uint32(state >> 16))
				same := true
				for _, v := range got {
					same = same && uint32(m.next()>>16) == v
				}
				if same {
					return nil
				}
			}
			return errf("no seed gives %v", got)
		})
}
