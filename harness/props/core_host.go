package props

import (
	"net"
	"strings"

	"github.com/use-go/gosips/core"
	"pgregory.net/rapid"

	"verif/harness/fw"
)

// hostOp is a step in the life of a host.
type hostOp struct {
	Op   string
	H    hostM
	Bare bool   // IPv6 without brackets
	WS   string // white space around
}

func (o hostOp) arg() string {
	s := o.H.Text
	if o.Bare {
		s = o.H.bare()
	}
	return o.WS + s + o.WS
}

type hostCase struct {
	First hostM
	Ops   []hostOp
}

func runHostHistory(x *fw.Ctx, c hostCase) error {
	h := core.NewHost(c.First.Text)
	hp := core.NewHostPort()
	if err := firstErr(eq("no inet address without a host", hp.GetInetAddress() == nil, true), eq("NewHost of nothing", core.NewHost("") == nil, true)); err != nil {
		return err
	}
	hp.SetHost(h)
	cur, name := c.First, c.First.Text
	var clones []*core.Host
	var wants []hostM
	kinds := map[string]bool{}
	for i, o := range c.Ops {
		x.Class(o.Op)
		kinds[o.Op] = true
		var err error
		switch o.Op {
		case "SetHostName":
			h.SetHostName(o.arg())
			cur, name = o.H, strings.TrimSpace(o.arg())
			cur.Text, name = strings.ToLower(cur.Text), strings.ToLower(name)
		case "SetAddress", "SetHostAddress":
			if o.Op == "SetAddress" {
				h.SetAddress(o.arg())
			} else {
				h.SetHostAddress(o.arg())
			}
			cur, name = o.H, strings.TrimSpace(o.arg())
		case "nothing":
			h.SetHostName("")
			h.SetAddress("")
			h.SetHostAddress("")
		case "GetInetAddress":
			want := net.ParseIP(cur.bare())
			if got := h.GetInetAddress(); !got.Equal(want) || (got == nil) != (want == nil) {
				err = errf("%v, want %v", got, want)
			}
			if got := hp.GetInetAddress(); !got.Equal(want) || (got == nil) != (want == nil) {
				err = firstErr(err, errf("of host and port: %v, want %v", got, want))
			}
		case "GetIpAddress":
			got := h.GetIpAddress()
			if cur.Kind == "name" {
				err = eq("of a name", got, "")
			} else if got != cur.Text && got != cur.bare() && got != name {
				err = errf("%q, want %q", got, cur.bare())
			}
		case "Clone":
			clones, wants = append(clones, h.Clone().(*core.Host)), append(wants, cur)
		}
		err = firstErr(err, checkHost("host", h, cur), eq("of host and port", hp.GetHost().String(), cur.Text))
		if got := h.GetHostName(); err == nil && got != cur.Text && got != cur.bare() {
			err = errf("GetHostName %q, want %q", got, cur.Text)
		}
		if err := firstErr(err, eq("GetAddress", h.GetAddress(), h.GetHostName())); err != nil {
			return errf("%d %s %q: %v", i, o.Op, o.arg(), err)
		}
	}
	for i, cl := range clones {
		if err := checkHost("clone", cl, wants[i]); err != nil {
			return err
		}
	}
	if len(kinds) > 2 {
		x.NonTrivial()
	}
	return nil
}

func init() {
	fw.Add("C26", "history", "a host and a history of up to 10 operations (set as name or as address with white space around and IPv6 with or without brackets, set to nothing, address looked up, cloned), read back after each; non-trivial: more than two kinds of operation", 4000, 100000,
		func(t *rapid.T) hostCase {
			c := hostCase{First: genHost(t)}
			for n := intr(t, "ops", 1, 10); n > 0; n-- {
				o := hostOp{Op: pick(t, "op", "SetHostName", "SetHostName", "SetAddress", "SetHostAddress", "nothing", "GetInetAddress", "GetInetAddress", "GetIpAddress", "Clone"), H: genHost(t), Bare: rapid.Bool().Draw(t, "bare"), WS: pick(t, "ws", "", "", " ", "\t ")}
				if strings.HasSuffix(o.Op, "Address") {
					for o.H.Kind == "name" {
						o.H = genHost(t)
					}
				}
				c.Ops = append(c.Ops, o)
			}
			return c
		}, runHostHistory)
}
