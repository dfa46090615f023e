// C22: hash <-> text conversions round-trip, bad text is refused, hash functions are SHA-256.
package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"math/rand"
	"strings"

	"github.com/KitchenMishap/pudding-shed/corereader2"
	"github.com/KitchenMishap/pudding-shed/indexedhashes"
	"verifharness/kit"
)

// randHash covers random values, sparse values, one repeated byte and single bits.
func randHash(r *rand.Rand) (h indexedhashes.Sha256) {
	switch r.Intn(5) {
	case 0:
		b := byte(r.Intn(256))
		for i := range h {
			h[i] = b
		}
	case 1:
		h[r.Intn(32)] = byte(1 << r.Intn(8))
	case 2:
		for i := range h {
			h[i] = byte(i*7 + r.Intn(3))
		}
	default:
		r.Read(h[:])
	}
	return
}

// refText is Bitcoin's display order: last byte first.
func refText(h *indexedhashes.Sha256) string {
	var rev [32]byte
	for i := range h {
		rev[31-i] = h[i]
	}
	return hex.EncodeToString(rev[:])
}

func mixCase(r *rand.Rand, s string) string {
	b := []byte(s)
	for i := range b {
		if r.Intn(2) == 0 {
			b[i] = strings.ToUpper(string(b[i]))[0]
		}
	}
	return string(b)
}

func roundTrip(k int) kit.Case {
	return kit.Case{Name: fmt.Sprintf("roundtrip/%d", k), Run: func(t *kit.T) {
		for i := 0; i < 3000; i++ {
			h := randHash(t.R)
			in := h
			s := indexedhashes.HashSha256ToHexString(&in)
			if in != h {
				t.Fatalf("text:input-changed", "converting %x to text changed it to %x", h, in)
			}
			if s != refText(&h) {
				t.Fatalf("text:value", "text of %x is %s, want %s", h, s, refText(&h))
			}
			if s2 := corereader2.ToHexHash(h[:]); s2 != refText(&h) {
				t.Fatalf("request-text:value", "request text of %x is %s, want %s", h, s2, refText(&h))
			}
			for _, txt := range []string{s, strings.ToUpper(s), mixCase(t.R, s)} {
				// What the receiver held before must not show through
				back := randHash(t.R)
				if err := indexedhashes.HashHexToSha256(txt, &back); err != nil {
					t.Fatalf("parse:error", "%s refused: %v", txt, err)
				}
				if back != h {
					t.Fatalf("parse:value", "%s parsed to %x, want %x", txt, back, h)
				}
			}
			t.Evals(5)
			t.Count("hashes", 1)
		}
		t.Distinct("roundtrip", k)
	}}
}

// eachDigit: every one of the 256 byte values at each of the 32 positions.
func eachDigit() kit.Case {
	return kit.Case{Name: "every-byte-every-place", Run: func(t *kit.T) {
		for pos := 0; pos < 32; pos++ {
			for v := 0; v < 256; v++ {
				h := randHash(t.R)
				h[pos] = byte(v)
				var back indexedhashes.Sha256
				for _, txt := range []string{refText(&h), strings.ToUpper(refText(&h))} {
					if err := indexedhashes.HashHexToSha256(txt, &back); err != nil || back != h {
						t.Fatalf("parse:value", "%s parsed to %x, %v", txt, back, err)
					}
				}
				if indexedhashes.HashSha256ToHexString(&h) != refText(&h) {
					t.Fatalf("text:value", "text of %x is %s", h, indexedhashes.HashSha256ToHexString(&h))
				}
				t.Evals(3)
			}
		}
		t.Distinct("every byte value at every position")
	}}
}

func badText(t *kit.T, txt, why string) {
	h := randHash(t.R)
	err := indexedhashes.HashHexToSha256(txt, &h)
	t.Evals(1)
	if err == nil {
		t.Fatalf("bad-text-accepted:"+why, "%q (%s) was accepted as hash %x", txt, why, h)
	}
}

func badLength() kit.Case {
	return kit.Case{Name: "bad-length", Run: func(t *kit.T) {
		for n := 0; n <= 300; n++ {
			if n == 64 {
				continue
			}
			badText(t, strings.Repeat("0", n), "length")
			b := make([]byte, n)
			for i := range b {
				b[i] = "0123456789abcdefABCDEF"[t.R.Intn(22)]
			}
			badText(t, string(b), "length")
			t.Distinct("length", n)
		}
		badText(t, "0x"+strings.Repeat("ab", 31), "prefix")
		badText(t, " "+strings.Repeat("ab", 31)+" ", "space")
	}}
}

// badDigit: every one of the 234 non-hex bytes at every one of the 64 places.
func badDigit() kit.Case {
	return kit.Case{Name: "bad-digit", Run: func(t *kit.T) {
		for c := 0; c < 256; c++ {
			if bytes.IndexByte([]byte("0123456789abcdefABCDEF"), byte(c)) >= 0 {
				continue
			}
			for pos := 0; pos < 64; pos++ {
				h := randHash(t.R)
				b := []byte(refText(&h))
				b[pos] = byte(c)
				badText(t, string(b), "digit")
			}
			t.Distinct("byte", c)
		}
		badText(t, strings.Repeat("é", 32), "unicode")
	}}
}

func hashOf(k int) kit.Case {
	return kit.Case{Name: fmt.Sprintf("hashof/%d", k), Run: func(t *kit.T) {
		for i := 0; i < 400; i++ {
			n := t.R.Intn(200)
			switch t.R.Intn(8) {
			case 0:
				n = 0
			case 1:
				n = []int{55, 56, 63, 64, 65, 119, 120, 127, 128, 520, 10000, 70000}[t.R.Intn(12)]
			}
			b := make([]byte, n)
			t.R.Read(b)
			c := append([]byte(nil), b...)
			want := indexedhashes.Sha256(sha256.Sum256(b))
			if got := indexedhashes.HashOfBytes(b); got != want {
				t.Fatalf("hash-of-bytes", "hash of %d bytes %x is %x, want %x", n, b, got, want)
			}
			if !bytes.Equal(b, c) {
				t.Fatalf("hash-of-bytes:input-changed", "input changed")
			}
			if got := indexedhashes.HashOfString(string(b)); got != want {
				t.Fatalf("hash-of-string", "hash of %d bytes %x is %x, want %x", n, b, got, want)
			}
			v := t.R.Uint64() >> t.R.Intn(64)
			var le [8]byte
			binary.LittleEndian.PutUint64(le[:], v)
			if got := indexedhashes.HashOfInt(v); got != indexedhashes.Sha256(sha256.Sum256(le[:])) {
				t.Fatalf("hash-of-int", "hash of %d is %x", v, got)
			}
			t.Evals(3)
			t.Distinct("len", n)
		}
		if got := indexedhashes.HashOfBytes(nil); got != indexedhashes.Sha256(sha256.Sum256(nil)) {
			t.Failf("hash-of-bytes:nil", "hash of nothing is %x", got)
		}
	}}
}

func main() {
	kit.Main(kit.Prop{
		ID:       "C22",
		Rule:     "random, sparse and single-bit hashes to text and back in every letter case; every byte value at every position; every wrong length to 300; every non-hex byte at every position; byte strings of random and SHA-block-boundary lengths. Distinct: lengths and bytes tried",
		MinEvals: 50000,
		Cases: func(tier string, seed int64) []kit.Case {
			n := 400
			if tier == "thorough" {
				n = 8000
			}
			cs := []kit.Case{eachDigit(), badLength(), badDigit()}
			for i := 0; i < n; i++ {
				cs = append(cs, roundTrip(i), hashOf(i))
			}
			return cs
		},
	})
}
