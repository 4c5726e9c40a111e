package props

import (
	"fmt"
	"strings"
	"sync"

	"github.com/use-go/gosips/core"
	"github.com/use-go/gosips/sip/header"
	"github.com/use-go/gosips/sip/message"
	"github.com/use-go/gosips/sip/parser"
	"pgregory.net/rapid"

	"verif/harness/fw"
)

// ------------------------------------------------------------------- C37

// task is what one goroutine does with values of its own.
type task struct {
	Do   string
	M    *msgM    `json:",omitempty"`
	H    *hdrM    `json:",omitempty"`
	U    *uriM    `json:",omitempty"`
	A    *addrM   `json:",omitempty"`
	Text fw.S     `json:",omitempty"`
	R    *rtpPkt  `json:",omitempty"`
	Code int      `json:",omitempty"`
	Reps int      `json:",omitempty"`
	P    []hparam `json:",omitempty"`
}

func genTask(t *rapid.T) task {
	return genTaskOf(t, pick(t, "do", "parse", "parse", "parse", "assemble", "derive", "header", "header", "damaged", "uri", "address", "parameters", "rtp", "states"))
}

func genTaskOf(t *rapid.T, do string) task {
	k := task{Do: do, Reps: intr(t, "reps", 1, 3)}
	switch k.Do {
	case "parse", "assemble":
		m := genMsgN(t, 4, 2)
		if k.Do == "assemble" {
			m = m.plain()
		}
		k.M = &m
	case "derive":
		m := genRequest(t, 3, 2)
		k.M, k.Code = &m, intr(t, "code", 100, 699)
	case "header":
		h := genHdr(t, pick(t, "kind", kindNames...), 2)
		k.H = &h
	case "damaged":
		k.Text = fw.S(mutate(t, genMsgN(t, 2, 2).text(), 3))
	case "uri":
		u := genURI(t, true)
		k.U = &u
	case "address":
		a := genNameAddr(t)
		k.A = &a
	case "parameters":
		k.P = genParams(t, 4)
	case "rtp":
		r := genRTP(t)
		k.R = &r
	case "states":
		k.Code = intr(t, "code", 0, 6)
	}
	return k
}

// run does the task and returns what came of it as a text.
func (k task) run() (string, error) {
	switch k.Do {
	case "parse":
		p := parser.NewStringMsgParser()
		g, err := p.ParseSIPMessage(k.M.text())
		if err != nil {
			return "", err
		}
		m := g.(sipMsg)
		if err := checkMsg(m, *k.M); err != nil {
			return "", err
		}
		return m.String() + m.GetTransactionId() + m.GetDialogId(true), nil
	case "assemble":
		m, err := buildMsg(*k.M)
		if err != nil {
			return "", err
		}
		return m.String(), nil
	case "derive":
		g, err := parseMsg(k.M.text())
		if err != nil {
			return "", err
		}
		r := g.(*message.SIPRequest)
		s := r.CreateResponse(k.Code).String() + r.CreateCancelRequest().String() + r.CreateAckRequest(nil).String() + r.CreateBYERequest(true).String()
		return s + r.String(), nil
	case "header":
		h, err := parseHdr(k.H.text())
		if err != nil {
			return "", err
		}
		c := h.Clone().(header.Header)
		return h.String() + c.String(), nil
	case "damaged":
		l := &acceptAll{}
		p := parser.NewStringMsgParser()
		p.SetParseExceptionListener(l)
		g, err := p.ParseSIPMessage(string(k.Text))
		if err != nil {
			return fmt.Sprint(l.n, " ", err), nil
		}
		return fmt.Sprint(l.n, g.(fmt.Stringer).String()), nil
	case "uri":
		u, err := k.U.build()
		if err != nil {
			return "", err
		}
		return u.String() + fmt.Sprint(u.Clone()), nil
	case "address":
		a, err := parser.NewAddressParser(k.A.text()).Address()
		if err != nil {
			return "", err
		}
		return a.String(), nil
	case "parameters":
		l := core.NewNameValueList("p")
		for _, p := range k.P {
			l.AddNameValue(core.NewNameValue(p.N, p.V))
		}
		return l.String(), nil
	case "rtp":
		p, err := parseRTP(k.R.wire(k.R.Pad))
		if err != nil {
			return "", err
		}
		if err := rtpFields(p, k.R); err != nil {
			return "", err
		}
		return string(buildRTP(k.R).GetPacket()), nil
	}
	var s string
	for _, m := range enums() {
		o, isNil, err := m.get(k.Code)
		if isNil {
			s += fmt.Sprint(err)
		} else {
			s += o.ToString()
		}
	}
	return s, nil
}

type concCase struct{ Tasks []task }

// together runs the functions at the same time; in a replay many times, since
// what goes wrong may need its moment.
func together(fs []func() error, then func() error) error {
	n := 1
	if fw.Replaying {
		n = 300
	}
	for ; n > 0; n-- {
		if err := firstErr(together1(fs), then()); err != nil {
			return err
		}
	}
	return nil
}

func together1(fs []func() error) error {
	races := fw.RaceErrors()
	start := make(chan struct{})
	errs := make([]error, len(fs))
	var wg sync.WaitGroup
	for i := range fs {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			<-start
			if p := fw.Try(func() { errs[i] = fs[i]() }); p != nil {
				errs[i] = p
			}
		}(i)
	}
	close(start)
	wg.Wait()
	if err := firstErr(errs...); err != nil {
		return err
	}
	if n := fw.RaceErrors() - races; n > 0 {
		return errf("%d data races, the last: %s", n, fw.LastRace())
	}
	return nil
}

// runConc does the tasks together and then each alone.
func runConc(x *fw.Ctx, c concCase) error {
	got := make([][]string, len(c.Tasks))
	var fs []func() error
	for i, k := range c.Tasks {
		x.Class(k.Do)
		got[i] = make([]string, k.Reps+1)
		fs = append(fs, func() error {
			for r := range got[i] {
				var err error
				if got[i][r], err = k.run(); err != nil {
					return errf("task %d (%s) with others: %v", i, k.Do, err)
				}
			}
			return nil
		})
	}
	if len(fs) > 1 {
		x.NonTrivial()
	}
	return together(fs, func() error {
		for i, k := range c.Tasks {
			want, err := k.run()
			if err != nil {
				return errf("task %d (%s) alone: %v", i, k.Do, err)
			}
			for _, s := range got[i] {
				if s != want {
					return errf("task %d (%s) with others: %q, alone: %q", i, k.Do, s, want)
				}
			}
		}
		return nil
	})
}

type sharedCase struct {
	M     msgM
	Built bool
	Reads [][]string // by goroutine
}

var readNames = []string{"encode", "bytes", "strings", "headers", "typed", "ids", "content", "clone", "lists", "start", "values"}

func readMsg(g sipMsg, how string) string {
	switch how {
	case "encode":
		return g.String()
	case "bytes":
		return string(g.EncodeAsBytes())
	case "strings":
		return strings.Join(listStrings(g.GetMessageAsEncodedStrings()), "")
	case "headers":
		var s string
		for _, n := range listStrings(g.GetHeaderNames()) {
			s += n + fmt.Sprint(g.GetHeader(n))
			for _, h := range listerHeadersOf(g, n) {
				s += h.String()
			}
		}
		return s
	case "typed":
		return fmt.Sprint(checkTyped(g))
	case "ids":
		return g.GetTransactionId() + g.GetDialogId(false) + g.GetDialogId2(true, "x")
	case "content":
		return fmt.Sprint(g.GetContent(), g.GetContentLength(), g.HasContent())
	case "clone":
		var s string
		for _, n := range listStrings(g.GetHeaderNames()) {
			s += fmt.Sprint(g.GetHeader(n).Clone())
		}
		return s
	case "values":
		var s string
		for _, n := range listStrings(g.GetHeaderNames()) {
			for _, h := range listerHeadersOf(g, n) {
				s += h.GetValue() + "|" + h.EncodeBody() + "|" + h.(interface{ GetHeaderValue() string }).GetHeaderValue() + "\n"
			}
		}
		return s
	case "lists":
		return fmt.Sprint(g.GetViaHeaders(), g.GetTopmostVia(), g.GetRouteHeaders(), g.GetContactHeaders(), g.CheckHeaders())
	}
	if r, ok := g.(*message.SIPRequest); ok {
		return fmt.Sprint(r.GetMethod(), r.GetRequestURI(), r.GetRequestLine(), r.GetFirstLine())
	}
	r := g.(*message.SIPResponse)
	return fmt.Sprint(r.GetStatusCode(), r.GetReasonPhrase(), r.GetStatusLine(), r.GetFirstLine(), r.IsFinalResponse())
}

func listerHeadersOf(g sipMsg, name string) (r []header.Header) {
	l := g.GetHeaders(name)
	if l == nil {
		return nil
	}
	for e := l.Front(); e != nil; e = e.Next() {
		if h, ok := e.Value.(header.Header); ok {
			r = append(r, h)
		}
	}
	return
}

func runShared(x *fw.Ctx, c sharedCase) error {
	var g sipMsg
	var err error
	if c.Built {
		g, err = buildMsg(c.M.plain())
	} else {
		g, err = parseMsg(c.M.text())
	}
	if err != nil {
		return err
	}
	// what one reader gets is asked of another copy: the shared one is fresh
	var g2 sipMsg
	if c.Built {
		g2, err = buildMsg(c.M.plain())
	} else {
		g2, err = parseMsg(c.M.text())
	}
	if err != nil {
		return err
	}
	before := g2.String()
	want := map[string]string{}
	for _, n := range readNames {
		want[n] = readMsg(g2, n)
	}
	if len(c.Reads) > 1 {
		x.NonTrivial()
	}
	x.Class(pick2(c.M.Req, "request", "response"))
	var fs []func() error
	for _, rs := range c.Reads {
		fs = append(fs, func() error {
			for _, n := range rs {
				if err := eq("reading ("+n+") with others", readMsg(g, n), want[n]); err != nil {
					return err
				}
			}
			return nil
		})
	}
	return together(fs, func() error { return eq("the message afterwards", g.String(), before) })
}

func init() {
	fw.Add("C37", "own-values", "2-6 goroutines at once, each with its own parsers and values: parsing and comparing a message with its model, assembling one, deriving responses and requests, headers, damaged messages with a listener, URIs, addresses, parameter lists, RTP packets and the enumerations; each result is that of the same task alone, and the race detector sees nothing; non-trivial: all", 500, 20000,
		func(t *rapid.T) concCase {
			var c concCase
			for n := intr(t, "tasks", 2, 6); n > 0; n-- {
				c.Tasks = append(c.Tasks, genTask(t))
			}
			return c
		}, runConc)
	fw.Add("C37", "first-use", "as own-values, with two tasks of each sort, the first of them the first thing a fresh process does; non-trivial: all", 10, 40,
		func(t *rapid.T) concCase {
			var c concCase
			for n := 0; n < 2; n++ {
				for _, do := range []string{"parse", "assemble", "derive", "header", "damaged", "uri", "address", "parameters", "rtp", "states"} {
					c.Tasks = append(c.Tasks, genTaskOf(t, do))
				}
			}
			return c
		}, runConc)
	fw.Add("C37", "shared-message", "2-5 goroutines read one message at once (encodings, header table, typed accessors, identifiers, content, clones, start line): each gets what one reader alone gets, the race detector sees nothing, and the message is unchanged; non-trivial: all", 500, 20000,
		func(t *rapid.T) sharedCase {
			c := sharedCase{M: genMsgN(t, 6, 2), Built: rapid.Bool().Draw(t, "built")}
			for i, h := range c.M.Hdrs {
				if h.Kind == "Extension" && rapid.Bool().Draw(t, "empty value") {
					c.M.Hdrs[i].Elems[0].S[1] = ""
				}
			}
			for n := intr(t, "readers", 2, 5); n > 0; n-- {
				var rs []string
				for k := intr(t, "reads", 1, 6); k > 0; k-- {
					rs = append(rs, pick(t, "read", readNames...))
				}
				c.Reads = append(c.Reads, rs)
			}
			return c
		}, runShared)
}
