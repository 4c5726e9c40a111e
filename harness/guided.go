package main

import (
	"bytes"
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"verif/harness/fw"
)

// guidedBudget is what the searches of a property share.
var guidedBudget = flag.Duration("guided", 180*time.Second, "time of the coverage-guided searches of a thorough run")

// guidedSearch lets Go's fuzzer choose what the generators of the checks choose,
// guided by the coverage of the code under test.  What it does cannot be pinned
// by a seed; a failing case is kept, confirmed by a fresh process and reported
// as those of the random search are.
func guidedSearch(bin string, checks []*fw.Check, scratch string, note map[string]interface{}) (outs []outcome) {
	type target struct {
		ck   *fw.Check
		name string
	}
	var ts []target
	for _, ck := range checks {
		switch ck.Name {
		case "pinned", "long", "growth", "clock":
			continue
		}
		ts = append(ts, target{ck, "FuzzGuided"})
		if ck.Property == "C03" {
			ts = append(ts, target{ck, "FuzzText"})
		}
	}
	for _, t := range ts {
		d, err := os.MkdirTemp(scratch, "guided")
		if err != nil {
			continue
		}
		budget := *guidedBudget / time.Duration(len(ts))
		ctx, cancel := context.WithTimeout(context.Background(), budget+60*time.Second)
		cmd := exec.CommandContext(ctx, bin, "-test.run=^$", "-test.fuzz=^"+t.name+"$", "-test.fuzzcachedir="+filepath.Join(d, "cache"),
			"-test.fuzztime="+budget.String(), "-test.fuzzminimizetime=10x")
		cmd.Dir = d
		cmd.Env = append(os.Environ(), "VRUN_PROPERTY="+t.ck.Property, "VRUN_CHECK="+t.ck.Name, "VRUN_ROOT="+*root, "VRUN_GUIDED="+d)
		cmd.WaitDelay = 10 * time.Second
		var so bytes.Buffer
		cmd.Stdout, cmd.Stderr = &so, &so
		err = cmd.Run()
		cancel()
		n, nt := 0, 0
		stats, _ := filepath.Glob(filepath.Join(d, "stat-*"))
		for _, p := range stats {
			var a, b int
			if text, err := os.ReadFile(p); err == nil {
				fmt.Sscan(string(text), &a, &b)
			}
			n, nt = n+a, nt+b
		}
		lines := strings.Split(strings.TrimSpace(so.String()), "\n")
		last := ""
		for _, l := range lines {
			if strings.HasPrefix(l, "fuzz: elapsed") {
				last = l
			}
		}
		info := map[string]interface{}{"cases": n, "non_trivial": nt, "fuzzer": last}
		note[t.ck.Name+" "+t.name] = info
		if err == nil {
			os.RemoveAll(d)
			continue
		}
		// a case that failed, or one that was being run when its process ended
		var cases []json.RawMessage
		failed, _ := filepath.Glob(filepath.Join(d, "fail-*"))
		for _, p := range failed {
			if raw, err := os.ReadFile(p); err == nil && json.Valid(raw) {
				cases = append(cases, raw)
			}
		}
		curs, _ := filepath.Glob(filepath.Join(d, "cur-*"))
		for _, p := range curs {
			if raw, ok := readCur(p); ok {
				cases = append(cases, raw)
			}
		}
		sort.SliceStable(cases, func(i, k int) bool { return len(cases[i]) < len(cases[k]) })
		j := job{ck: t.ck}
		found := false
		for _, c := range cases {
			if bad, msg := fails(j, scratch, c); bad {
				outs = append(outs, outcome{job: j, fail: &replayFile{t.ck.Property, t.ck.Name, msg, *seed, c}})
				found = true
				break
			}
		}
		if !found {
			info["ended early"] = tail(so.Bytes(), 300)
			fmt.Fprintf(os.Stderr, "note: guided search of %s ended early: %s\n", t.ck.Name, tail(so.Bytes(), 300))
		}
		os.RemoveAll(d)
	}
	return outs
}
