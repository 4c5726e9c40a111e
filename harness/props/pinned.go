package props

import (
	"sort"

	"github.com/use-go/gosips/sip/header"
	"pgregory.net/rapid"

	"verif/harness/fw"
)

// Inputs the generators avoid because the tests of the repository pin what
// becomes of them, against the property.  Each is checked on its own here, so
// that what fails is known by its exact input (known_findings.json).

type pinCase struct{ Text string }

var pinned = map[string]map[string]func(text string) error{}

func pin(prop, text string, f func(text string) error) {
	if pinned[prop] == nil {
		pinned[prop] = map[string]func(string) error{}
	}
	pinned[prop][text] = f
}

func pinHdr(prop string, h hdrM) {
	pin(prop, h.text(), func(text string) error {
		g, err := parseHdr(text)
		if err != nil {
			return err
		}
		return roundTrip(g, h)
	})
}

func wildcard(text string) error {
	g, err := parseHdr(text)
	if err != nil {
		return err
	}
	l, ok := g.(*header.ContactList)
	if !ok || l.Len() != 1 {
		return errf("a %T", g)
	}
	return firstErr(eq("wildcard", l.Front().Value.(*header.Contact).GetWildCardFlag(), true), eq("encoding", l.String(), "Contact: *\r\n"))
}

func setWildcard(text string) error {
	c := header.NewContact()
	c.SetWildCardFlag(true)
	return firstErr(eq("wildcard", c.GetWildCardFlag(), true), eq("encoding", c.String(), "Contact: *\r\n"))
}

func init() {
	for _, s := range []string{"Contact: *", "m:*", "CONTACT : * "} {
		pin("C14", s, wildcard)
	}
	pin("C14", "SetWildCardFlag(true)", setWildcard)
	spec := addrM{Form: "spec", URI: uriM{Kind: "sip", Sip: sipM{Scheme: "sip", User: "a", Host: hostM{Text: "h", Kind: "name"}, Port: -1}}}
	pinHdr("C14", hdrM{Kind: "Contact", Elems: []elem{{A: &spec, P: []hparam{{N: "expires", V: "5"}}}}})
	pinHdr("C18", hdrM{Kind: "CSeq", Elems: []elem{{I: []int{1}, S: []string{"invite"}}}})
	pin("C18", "Timestamp: 16777217", func(text string) error {
		g, err := parseHdr(text)
		if err != nil {
			return err
		}
		return eq("encoding", g.String(), text+"\r\n")
	})
	var props []string
	for p := range pinned {
		props = append(props, p)
	}
	sort.Strings(props)
	for _, p := range props {
		m := pinned[p]
		var texts []string
		for s := range m {
			texts = append(texts, s)
		}
		sort.Strings(texts)
		fw.Add(p, "pinned", "inputs on which the repository's own tests pin another behaviour than the property's, one by one; non-trivial: all", 60, 60,
			func(t *rapid.T) pinCase { return pinCase{pick(t, "text", texts...)} },
			func(x *fw.Ctx, c pinCase) error {
				x.NonTrivial()
				f := m[c.Text]
				if f == nil {
					return errf("no such case")
				}
				return f(c.Text)
			})
	}
}
