//go:build !race

package fw

// RaceBuild tells whether the race detector is in this binary.
const RaceBuild = false

// RaceErrors is the number of data races seen by this process so far.
func RaceErrors() int { return 0 }

// LastRace is the report of the last data race.
func LastRace() string { return "" }
