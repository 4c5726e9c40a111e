package props

import (
	"fmt"

	"pgregory.net/rapid"
)

// pick draws one of the values.
func pick[T any](t *rapid.T, name string, vs ...T) T {
	return vs[rapid.IntRange(0, len(vs)-1).Draw(t, name)]
}

// chance is true in about one of n cases; it shrinks to false.
func chance(t *rapid.T, name string, n int) bool {
	return rapid.IntRange(0, n-1).Draw(t, name) == n-1
}

func intr(t *rapid.T, name string, a, b int) int {
	return rapid.IntRange(a, b).Draw(t, name)
}

func errf(f string, a ...interface{}) error { return fmt.Errorf(f, a...) }

// firstErr returns the first error.
func firstErr(es ...error) error {
	for _, e := range es {
		if e != nil {
			return e
		}
	}
	return nil
}

func eq[T comparable](what string, got, want T) error {
	if got != want {
		return fmt.Errorf("%s: got %#v, want %#v", what, got, want)
	}
	return nil
}
