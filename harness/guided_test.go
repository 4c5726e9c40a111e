package main

import (
	"encoding/binary"
	"encoding/json"
	"math/rand"
	"os"
	"testing"

	"verif/harness/fw"
	"verif/harness/props"
)

func setUp(f *testing.F) (*fw.Check, *fw.Recorder) {
	ck := fw.Find(os.Getenv("VRUN_PROPERTY"), os.Getenv("VRUN_CHECK"))
	if ck == nil {
		f.Skip("the check to search is not named")
	}
	*root = os.Getenv("VRUN_ROOT")
	rec, err := fw.NewRecorder(os.Getenv("VRUN_GUIDED"))
	if err != nil {
		f.Fatal(err)
	}
	fw.Watchdog()
	return ck, rec
}

// FuzzGuided drives the generator of one check by the coverage its cases reach:
// the fuzzer's bytes are the generator's choices.
func FuzzGuided(f *testing.F) {
	ck, rec := setUp(f)
	rng := rand.New(rand.NewSource(1))
	for i := 0; i < 200; i++ {
		var b []byte
		for n := 20 + rng.Intn(380); n > 0; n-- {
			v := rng.Uint64()
			if rng.Intn(3) == 0 {
				v &= 0xff
			}
			b = binary.LittleEndian.AppendUint64(b, v)
		}
		f.Add(b)
	}
	f.Fuzz(ck.Guided(knownFindings(), rec))
}

// FuzzText gives the parsing entry points the fuzzer's bytes themselves,
// starting from well-formed texts.
func FuzzText(f *testing.F) {
	_, rec := setUp(f)
	for i, t := range props.FuzzSeeds(300) {
		f.Add(uint16(i), t)
	}
	f.Fuzz(func(t *testing.T, entry uint16, text string) {
		x := &fw.Ctx{}
		c := props.FuzzTextCase(int(entry), text)
		raw, _ := json.Marshal(c)
		rec.Begin(raw)
		err := fw.Protect(func() error { return props.RunFuzzText(x, c) })
		rec.End(x.Counted())
		if err != nil {
			rec.Fail(raw)
			t.Fatal(err)
		}
	})
}
