//go:build race

package fw

import (
	"fmt"
	"os"
	"runtime"
	"strings"
)

// RaceBuild tells whether the race detector is in this binary.
const RaceBuild = true

// RaceErrors is the number of data races seen by this process so far.
func RaceErrors() int { return runtime.RaceErrors() }

// LastRace is the report of the last data race, when the detector writes to
// the file VRUN_RACELOG names.
func LastRace() string {
	b, err := os.ReadFile(fmt.Sprintf("%s.%d", os.Getenv("VRUN_RACELOG"), os.Getpid()))
	if err != nil {
		return "(no report)"
	}
	s := string(b)
	if i := strings.LastIndex(s, "WARNING: DATA RACE"); i >= 0 {
		s = s[i:]
	}
	if len(s) > 1500 {
		s = s[:1500]
	}
	return s
}
