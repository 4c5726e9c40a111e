package props

import (
	"encoding/hex"
	"os"
	"path/filepath"
	"strings"

	"github.com/use-go/gosips/core"
	"github.com/use-go/gosips/sip/message"
	"pgregory.net/rapid"

	"verif/harness/fw"
)

// ------------------------------------------------------------------- C38

type logOp struct {
	Op   string // file, message, level, name
	File int
	Text fw.S
}

type logCase struct{ Ops []logOp }

const logLine = " ---------------------------------------------- "

func runLog(x *fw.Ctx, c logCase) error {
	dir, err := os.MkdirTemp("", "verif-log")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	// two of the files have the same base name in different folders
	if err := os.Mkdir(filepath.Join(dir, "sub"), 0o755); err != nil {
		panic(err)
	}
	files := []string{filepath.Join(dir, "a.log"), filepath.Join(dir, "b.log"), filepath.Join(dir, "sub", "a.log"), filepath.Join(dir, "named.log")}
	want := map[string]string{}
	var w core.LogWriter
	level, n := 0, 0
	for i, op := range c.Ops {
		switch op.Op {
		case "file":
			f := files[op.File%3]
			w.LogMessageToFile(string(op.Text), f)
			want[f] += logLine + string(op.Text)
			n++
		case "message":
			w.LogMessage(string(op.Text)) // logging is off
		case "level":
			w.SetTraceLevel(op.File)
			level = op.File
		case "name":
			w.SetLogFileName(files[3])
		}
		if err := eq("trace level", w.GetTraceLevel(), level); err != nil {
			return errf("operation %d: %v", i, err)
		}
		for _, f := range files {
			b, err := os.ReadFile(f)
			if _, made := want[f]; made != (err == nil) {
				return errf("operation %d: file %s: %v", i, f[len(dir):], err)
			}
			if err := eq("content of "+f[len(dir):], string(b), want[f]); err != nil {
				return errf("operation %d: %v", i, err)
			}
		}
	}
	if n > 1 {
		x.NonTrivial()
	}
	return nil
}

// ------------------------------------------------------------------- C39

func init() {
	fw.Add("C38", "files", "1-8 operations of a log writer of its own: messages to three files, two of one base name, in a scratch directory, messages while logging is off, trace levels; the files' contents compared after each; non-trivial: at least two messages to files", 300, 5000,
		func(t *rapid.T) logCase {
			var c logCase
			for n := intr(t, "nops", 1, 8); n > 0; n-- {
				c.Ops = append(c.Ops, logOp{Op: pick(t, "op", "file", "file", "file", "message", "level", "name"), File: intr(t, "file", 0, 40), Text: fw.S(genText(t, 0, 6))})
			}
			return c
		}, runLog)
	fw.Add("C39", "bytes", "0-40 (rarely 5,000) bytes of any value in hexadecimal; non-trivial: at least two bytes", 2000, 60000,
		func(t *rapid.T) fw.S { return fw.S(genBytes(t, "bytes", 0, 40, 5000)) },
		func(x *fw.Ctx, c fw.S) error {
			if len(c) > 1 {
				x.NonTrivial()
			}
			in := []byte(c)
			return firstErr(eq("hexadecimal", message.ToHexString(in), hex.EncodeToString([]byte(c))), eq("the bytes afterwards", string(in), string(c)))
		})
	fw.Add("C39", "texts", "text of any characters, quoted and squeezed; non-trivial: white space or letters to change", 2000, 60000,
		func(t *rapid.T) string {
			return rapid.String().Draw(t, "text") + strings.ToValidUTF8(genText(t, 0, 6), "?")
		},
		func(x *fw.Ctx, s string) error {
			want := strings.NewReplacer(" ", "", "\t", "").Replace(strings.ToLower(s))
			if want != s {
				x.NonTrivial()
			}
			return firstErr(eq("squeezed", message.ReduceString(s), want), eq("quoted", message.GetQuotedString(s), `"`+s+`"`))
		})
}
