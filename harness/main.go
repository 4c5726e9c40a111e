// Command vrun runs the property checks of /verif.
//
//	vrun -property C01 [-tier quick] [-seed 1]   supervisor: exit 0, 1 or 2
//	vrun -replay FILE                            replays one case: exit 0, 1 or 2
//	vrun -list                                   lists the checks
package main

import (
	"bytes"
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"verif/harness/fw"
	_ "verif/harness/props"
)

type replayFile struct {
	Property string          `json:"property"`
	Check    string          `json:"check"`
	Message  string          `json:"message"`
	Seed     int64           `json:"verif_seed"`
	Case     json.RawMessage `json:"case"`
}

var (
	property = flag.String("property", "", "property to check")
	tier     = flag.String("tier", "quick", "quick or thorough")
	seed     = flag.Int64("seed", 1, "VERIF_SEED")
	worker   = flag.String("worker", "", "internal: run this check in this process")
	round    = flag.Int("round", 0, "internal: round")
	count    = flag.Int("n", 0, "internal: number of cases (overrides the tier)")
	curPath  = flag.String("cur", "", "internal: file to record the current case in")
	replay   = flag.String("replay", "", "replay file")
	list     = flag.Bool("list", false, "list the checks")
	only     = flag.String("only", "", "run only the checks whose name contains this")
	root     = flag.String("root", "/verif", "directory of the evidence, replays and known findings")
	scale    = flag.Float64("scale", 1, "multiplies the case counts (for campaigns by hand)")
)

func main() {
	testing.Init()
	flag.Parse()
	if tmp := os.Getenv("VRUN_SCRATCH"); tmp != "" {
		os.Chdir(tmp)
	}
	switch {
	case *list:
		for _, c := range fw.All {
			fmt.Printf("%s %-28s quick=%d thorough=%d\n", c.Property, c.Name, c.Quick, c.Thorough)
		}
	case *replay != "":
		os.Exit(doReplay(*replay))
	case *worker != "":
		doWorker()
	case *property != "":
		os.Exit(supervise())
	default:
		flag.Usage()
		os.Exit(2)
	}
}

func knownFindings() []fw.Known {
	var out []fw.Known
	b, err := os.ReadFile(filepath.Join(*root, "known_findings.json"))
	if err != nil {
		return nil
	}
	var f struct {
		Findings []fw.Known `json:"findings"`
	}
	if err := json.Unmarshal(b, &f); err != nil {
		fmt.Fprintln(os.Stderr, "known_findings.json:", err)
		os.Exit(2)
	}
	out = f.Findings
	return out
}

func doWorker() {
	ck := fw.Find(*property, *worker)
	if ck == nil {
		fmt.Fprintln(os.Stderr, "no such check")
		os.Exit(2)
	}
	// what the code under test prints is not part of the result
	out := os.Stdout
	if null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stdout = null
	}
	n := *count
	res := fw.RunCheck(ck, n, fw.Seed(*seed, ck, *round), *curPath, knownFindings())
	b, err := json.Marshal(res)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	out.Write(append(b, '\n'))
}

func doReplay(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var rf replayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	ck := fw.Find(rf.Property, rf.Check)
	if ck == nil {
		fmt.Fprintln(os.Stderr, "no such check:", rf.Property, rf.Check)
		return 2
	}
	fw.Replaying = true
	if err := fw.ReplayCase(ck, rf.Case); err != nil {
		fmt.Printf("FAILS property=%s check=%s: %v\n", rf.Property, rf.Check, err)
		return 1
	}
	fmt.Printf("passes property=%s check=%s\n", rf.Property, rf.Check)
	return 0
}

type job struct {
	ck    *fw.Check
	round int
	n     int
}

type outcome struct {
	job   job
	res   *fw.Result
	fail  *replayFile
	err   string // an error of the check
	inpLn string
}

// child runs this binary again and returns its exit code (-1: killed).
func child(ctx context.Context, args ...string) (int, []byte, []byte) {
	exe, err := os.Executable()
	if err != nil {
		exe = os.Args[0]
	}
	cmd := exec.CommandContext(ctx, exe, args...)
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GOTRACEBACK=single")
	if fw.RaceBuild {
		log := filepath.Join(os.Getenv("VRUN_SCRATCH"), "race")
		cmd.Env = append(cmd.Env, "GOMAXPROCS=4", "VRUN_RACELOG="+log,
			"GORACE=exitcode=0 suppress_equal_stacks=0 suppress_equal_addresses=0 log_path="+log)
	}
	err = cmd.Run()
	code := 0
	if err != nil {
		code = -1
		if ee, ok := err.(*exec.ExitError); ok {
			code = ee.ExitCode()
		}
	}
	return code, so.Bytes(), se.Bytes()
}

func tail(b []byte, n int) string {
	if len(b) > n {
		b = b[len(b)-n:]
	}
	return strings.TrimSpace(string(b))
}

func head(b []byte, n int) string {
	if len(b) > n {
		b = b[:n]
	}
	return strings.TrimSpace(string(b))
}

func runJob(j job, scratch string) outcome {
	cur := filepath.Join(scratch, fmt.Sprintf("cur-%s-%d", j.ck.Name, j.round))
	ctx, cancel := context.WithTimeout(context.Background(), 840*time.Second)
	defer cancel()
	code, so, se := child(ctx, "-property", j.ck.Property, "-worker", j.ck.Name, "-tier", *tier,
		"-seed", fmt.Sprint(*seed), "-round", fmt.Sprint(j.round), "-n", fmt.Sprint(j.n), "-cur", cur, "-root", *root)
	o := outcome{job: j}
	if code == 0 {
		var r fw.Result
		if err := json.Unmarshal(so, &r); err != nil {
			o.err = "worker output: " + err.Error() + " " + tail(so, 300)
			return o
		}
		o.res = &r
		if r.Inconcl != "" {
			o.err = r.Inconcl
			return o
		}
		if r.Failed {
			o.fail = &replayFile{r.Property, r.Check, r.Message, *seed, r.Case}
		}
		return o
	}
	// The worker died.  A case that kills a fresh process as well is a
	// violation; anything else is an error of the check.
	raw, ok := readCur(cur)
	if !ok {
		o.err = fmt.Sprintf("worker ended with code %d: %s", code, tail(se, 600))
		return o
	}
	if bad, msg := fails(j, scratch, raw); bad {
		o.fail = &replayFile{j.ck.Property, j.ck.Name, msg, *seed, raw}
	} else {
		o.err = fmt.Sprintf("worker ended with code %d and the case it was running does not reproduce it: %s", code, tail(se, 600))
	}
	return o
}

// fails tells whether a fresh process finds that the case fails, and how.
func fails(j job, scratch string, c json.RawMessage) (bool, string) {
	rf := replayFile{Property: j.ck.Property, Check: j.ck.Name, Seed: *seed, Case: c}
	p := filepath.Join(scratch, "try-"+j.ck.Name+fmt.Sprint(j.round)+".json")
	b, _ := json.Marshal(rf)
	os.WriteFile(p, b, 0o600)
	ctx, cancel := context.WithTimeout(context.Background(), 300*time.Second)
	defer cancel()
	rc, rso, rse := child(ctx, "-replay", p)
	switch {
	case rc == 0:
		return false, ""
	case rc == fw.ExitHang:
		return true, "the call does not terminate"
	case rc == fw.ExitMem:
		return true, "the call eats memory without bound"
	case rc == 1:
		return true, tail(rso, 1000)
	case strings.Contains(string(rse), "fatal error: ") || strings.Contains(string(rse), "panic: ") || strings.Contains(string(rse), "stack overflow"):
		return true, "the call ends the process: " + head(rse, 400)
	}
	return false, ""
}

func readCur(p string) (json.RawMessage, bool) {
	b, err := os.ReadFile(p)
	if err != nil || len(b) < 21 {
		return nil, false
	}
	var n int
	if _, err := fmt.Sscan(string(b[:20]), &n); err != nil || len(b) < 21+n {
		return nil, false
	}
	raw := json.RawMessage(b[21 : 21+n])
	return raw, json.Valid(raw)
}

func supervise() int {
	start := time.Now()
	var checks []*fw.Check
	for _, c := range fw.All {
		if c.Property == *property && (*only == "" || strings.Contains(c.Name, *only)) {
			checks = append(checks, c)
		}
	}
	if len(checks) == 0 {
		fmt.Fprintln(os.Stderr, "no checks for property", *property)
		return 2
	}
	scratch, err := os.MkdirTemp("", "vrun")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(scratch)
	os.Setenv("VRUN_SCRATCH", scratch)

	var jobs []job
	for _, c := range checks {
		n, rounds := c.Quick, 1
		if *tier == "thorough" {
			n, rounds = c.Thorough, 4
			n = n / rounds
		}
		n = int(float64(n) * *scale)
		if n < 1 {
			n = 1
		}
		for r := 0; r < rounds; r++ {
			jobs = append(jobs, job{c, r, n})
		}
	}
	outs := make([]outcome, len(jobs))
	sem := make(chan struct{}, max(2, runtime.NumCPU()))
	var wg sync.WaitGroup
	for i := range jobs {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			sem <- struct{}{}
			outs[i] = runJob(jobs[i], scratch)
			<-sem
		}(i)
	}
	wg.Wait()

	guidedNote := map[string]interface{}{}
	if bin := os.Getenv("VRUN_GUIDED_BIN"); bin != "" && *tier == "thorough" {
		outs = append(outs, guidedSearch(bin, checks, scratch, guidedNote)...)
	}

	// known findings are shown, by replaying them
	for _, k := range knownFindings() {
		if k.Property != *property {
			continue
		}
		ck := fw.Find(k.Property, k.Check)
		if ck == nil {
			continue
		}
		p := filepath.Join(scratch, "known.json")
		b, _ := json.Marshal(replayFile{Property: k.Property, Check: k.Check, Case: k.Case})
		os.WriteFile(p, b, 0o600)
		ctx, cancel := context.WithTimeout(context.Background(), 120*time.Second)
		rc, _, _ := child(ctx, "-replay", p)
		cancel()
		if rc != 0 {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", k.Property, k.What)
		}
	}

	total, distinct := 0, 0
	samples := []interface{}{}
	classes := map[string]interface{}{}
	perCheck := map[string]interface{}{}
	rules := []string{}
	ruleSeen := map[string]bool{}
	viol := 0
	code := 0
	for _, o := range outs {
		if o.err != "" {
			fmt.Fprintf(os.Stderr, "ERROR property=%s check=%s: %s\n", *property, o.job.ck.Name, o.err)
			if code == 0 {
				code = 2
			}
		}
		if o.fail != nil {
			viol++
			code = 1
			path := filepath.Join(*root, "replays", fmt.Sprintf("%s-%s-%s.json", o.fail.Property, o.fail.Check, fw.Hash(o.fail.Case)))
			os.MkdirAll(filepath.Dir(path), 0o755)
			b, _ := json.MarshalIndent(o.fail, "", " ")
			os.WriteFile(path, append(b, '\n'), 0o644)
			fmt.Printf("  check %s: %s\n", o.fail.Check, head([]byte(o.fail.Message), 1500))
			fmt.Printf("  case: %s\n", head(o.fail.Case, 1500))
			fmt.Printf("VIOLATION property=%s replay=%s\n", *property, path)
		}
		if o.res != nil {
			total += o.res.Evaluations
			distinct += o.res.Distinct
			for _, s := range o.res.Samples {
				if len(samples) < 24 && o.job.round == 0 {
					samples = append(samples, map[string]interface{}{"check": o.res.Check, "case": s})
				}
			}
			for k, v := range o.res.Classes {
				key := o.res.Check + ": " + k
				old, _ := classes[key].(int)
				classes[key] = old + v
			}
			pc, _ := perCheck[o.res.Check].(map[string]int)
			if pc == nil {
				pc = map[string]int{}
				perCheck[o.res.Check] = pc
			}
			pc["evaluations"] += o.res.Evaluations
			pc["distinct_nontrivial"] += o.res.Distinct
		}
		if !ruleSeen[o.job.ck.Name] {
			ruleSeen[o.job.ck.Name] = true
			rules = append(rules, o.job.ck.Name+": "+o.job.ck.Rule)
		}
	}
	sort.Strings(rules)
	ev := map[string]interface{}{
		"property": *property,
		"tier":     *tier,
		"seed":     *seed,
		"level":    "exploration",
		"coverage": map[string]interface{}{
			"evaluations":         total,
			"distinct_nontrivial": distinct,
			"rule":                "cases drawn with rapid from a seed derived from VERIF_SEED; distinct non-trivial cases are counted by the hash of the serialised case, per check and round. " + strings.Join(rules, " | "),
			"samples":             samples,
			"per_check":           perCheck,
			"classes":             classes,
			"guided":              guidedNote,
		},
		"assumptions": []string{"generated-input search: it shows the absence of a counterexample among the cases explored, nothing beyond"},
		"wall_s":      time.Since(start).Seconds(),
		"violations":  viol,
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	os.MkdirAll(filepath.Join(*root, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(*root, "evidence", *property+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	if code == 0 {
		fmt.Printf("ok property=%s tier=%s seed=%d: %d cases, %d distinct non-trivial, %.1f s\n", *property, *tier, *seed, total, distinct, time.Since(start).Seconds())
	}
	return code
}
