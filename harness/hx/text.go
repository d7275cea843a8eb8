package hx

import (
	"encoding/json"
	"strconv"
)

// Text is a byte string which survives JSON exactly.
type Text string

// MarshalJSON implements json.Marshaler.
func (t Text) MarshalJSON() ([]byte, error) {
	q := strconv.QuoteToASCII(string(t))
	return json.Marshal(q[1 : len(q)-1])
}

// UnmarshalJSON implements json.Unmarshaler.
func (t *Text) UnmarshalJSON(b []byte) error {
	var s string
	if err := json.Unmarshal(b, &s); err != nil {
		return err
	}
	u, err := strconv.Unquote(`"` + s + `"`)
	if err != nil {
		return err
	}
	*t = Text(u)
	return nil
}
