package fw

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"testing"
)

// Recorder keeps what a coverage-guided campaign has done where the supervisor
// finds it, also when the process that did it is gone: the case being run, the
// cases that failed and how many there were.  Each process has its own files.
type Recorder struct {
	dir       string
	cur, stat *os.File
	n, nt     int
}

// NewRecorder records in that directory.
func NewRecorder(dir string) (*Recorder, error) {
	r := &Recorder{dir: dir}
	var err error
	if r.cur, err = os.Create(filepath.Join(dir, fmt.Sprintf("cur-%d", os.Getpid()))); err != nil {
		return nil, err
	}
	if r.stat, err = os.Create(filepath.Join(dir, fmt.Sprintf("stat-%d", os.Getpid()))); err != nil {
		return nil, err
	}
	return r, nil
}

// Begin notes the case about to be run.
func (r *Recorder) Begin(raw json.RawMessage) {
	r.cur.WriteAt(append([]byte(fmt.Sprintf("%-20d\n", len(raw))), raw...), 0)
	prog.begin()
}

// End notes that it has been run.
func (r *Recorder) End(nontrivial bool) {
	prog.end()
	r.cur.WriteAt([]byte(fmt.Sprintf("%-20s\n", "-")), 0)
	r.n++
	if nontrivial {
		r.nt++
	}
	if r.n%64 == 0 {
		r.stat.WriteAt([]byte(fmt.Sprintf("%-20d %-20d\n", r.n, r.nt)), 0)
	}
}

// Fail keeps a case that failed; the smallest is what the supervisor reports.
func (r *Recorder) Fail(raw json.RawMessage) {
	os.WriteFile(filepath.Join(r.dir, "fail-"+Hash(raw)), raw, 0o600)
}

// Guided is the fuzz target of a check: the fuzzer's bytes are the choices the
// generator makes.
func (ck *Check) Guided(known []Known, r *Recorder) func(*testing.T, []byte) {
	km := map[string]bool{}
	for _, k := range known {
		if k.Property == ck.Property && k.Check == ck.Name {
			km[Compact(k.Case)] = true
		}
	}
	return ck.guided(ck, km, r)
}

// Protect runs f and gives its panic as an error.
func Protect(f func() error) error {
	return protect(&Ctx{}, 0, func(*Ctx, int) error { return f() })
}

// Counted tells whether the case was non-trivial.
func (x *Ctx) Counted() bool { return x.nontrivial }
