package props

import (
	"verif/harness/fw"

	"github.com/use-go/gosips/sip"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- C28

type enumObj interface {
	GetValue() int
	ToString() string
}

// enumM describes one enumeration: its look-up, its named objects and texts.
type enumM struct {
	name  string
	get   func(int) (enumObj, bool, error) // object, whether it is nil, error
	named []enumObj
	texts []string
}

func enums() []enumM {
	return []enumM{
		{"dialog state", func(i int) (enumObj, bool, error) { o, e := sip.GetDialogState(i); return o, o == nil, e },
			[]enumObj{sip.DIALOGSTATE_EARLY, sip.DIALOGSTATE_CONFIRMED, sip.DIALOGSTATE_COMPLETED, sip.DIALOGSTATE_TERMINATED},
			[]string{"Early Dialog", "Confirmed Dialog", "Completed Dialog", "Terminated Dialog"}},
		{"transaction state", func(i int) (enumObj, bool, error) { o, e := sip.GetTransactionState(i); return o, o == nil, e },
			[]enumObj{sip.TRANSACTIONSTATE_CALLING, sip.TRANSACTIONSTATE_TRYING, sip.TRANSACTIONSTATE_PROCEEDING, sip.TRANSACTIONSTATE_COMPLETED, sip.TRANSACTIONSTATE_CONFIRMED, sip.TRANSACTIONSTATE_TERMINATED},
			[]string{"Calling Transaction", "Trying Transaction", "Proceeding Transaction", "Completed Transaction", "Confirmed Transaction", "Terminated Transaction"}},
		{"timeout", func(i int) (enumObj, bool, error) { o, e := sip.GetTimeout(i); return o, o == nil, e },
			[]enumObj{sip.TIMEOUT_RETRANSMIT, sip.TIMEOUT_TRANSACTION},
			[]string{"Retransmission Timeout", "Transaction Timeout"}},
	}
}

type enumCase struct {
	Enum  int
	Codes []int
}

func init() {
	fw.Add("C28", "lookups", "a sequence of look-ups, by code, in one of the three enumerations, the codes in and around its range or any; non-trivial: a defined and an undefined code among them", 4000, 100000,
		func(t *rapid.T) enumCase {
			c := enumCase{Enum: intr(t, "enum", 0, 2)}
			for i := intr(t, "n", 1, 12); i > 0; i-- {
				if chance(t, "any", 4) {
					c.Codes = append(c.Codes, rapid.Int().Draw(t, "code"))
				} else {
					c.Codes = append(c.Codes, intr(t, "code", -3, 9))
				}
			}
			return c
		}, func(x *fw.Ctx, c enumCase) error {
			m := enums()[c.Enum]
			in, out := false, false
			seen := map[int]enumObj{}
			for _, code := range c.Codes {
				o, isNil, err := m.get(code)
				if code < 0 || code >= len(m.named) {
					out = true
					if err == nil || !isNil {
						return errf("%s %d is not defined but was looked up without an error", m.name, code)
					}
					continue
				}
				in = true
				x.Class("%s %d", m.name, code)
				if err != nil || isNil {
					return errf("%s %d: %v", m.name, code, err)
				}
				if err := firstErr(eq(m.name+" code", o.GetValue(), code), eq(m.name+" text", o.ToString(), m.texts[code])); err != nil {
					return err
				}
				if o != m.named[code] {
					return errf("%s %d is not the named object of that state", m.name, code)
				}
				if p, ok := seen[code]; ok && p != o {
					return errf("%s %d: another object than before", m.name, code)
				}
				seen[code] = o
			}
			if in && out {
				x.NonTrivial()
			}
			return nil
		})
}
