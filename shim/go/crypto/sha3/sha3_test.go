package sha3

import (
	"encoding/hex"
	"testing"
)

func TestVectors(t *testing.T) {
	for in, want := range map[string]string{
		"":    "c5d2460186f7233c927e7db2dcc703c0e500b653ca82273b7bfad8045d85a470",
		"abc": "4e03657aea45a94fc7d47ba826c8d667c0d1e6e33a64a036ec44f58fa12d6c45",
	} {
		h := NewLegacyKeccak256()
		h.Write([]byte(in))
		if got := hex.EncodeToString(h.Sum(nil)); got != want {
			t.Errorf("%q: %s", in, got)
		}
	}
}
