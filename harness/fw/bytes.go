package fw

import "encoding/json"

// S is a byte string that survives JSON: every byte becomes the rune of the
// same number.
type S string

// MarshalJSON implements json.Marshaler.
func (s S) MarshalJSON() ([]byte, error) {
	r := make([]rune, len(s))
	for i := 0; i < len(s); i++ {
		r[i] = rune(s[i])
	}
	return json.Marshal(string(r))
}

// UnmarshalJSON implements json.Unmarshaler.
func (s *S) UnmarshalJSON(b []byte) error {
	var t string
	if err := json.Unmarshal(b, &t); err != nil {
		return err
	}
	var o []byte
	for _, r := range t {
		o = append(o, byte(r))
	}
	*s = S(o)
	return nil
}
