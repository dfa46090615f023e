// C07: bad JSON from the node never becomes a block.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"reflect"
	"regexp"
	"strings"

	"github.com/KitchenMishap/pudding-shed/intrinsicobjects"
	"verifharness/kit"
	"verifharness/lib/btc"
)

func small(t *kit.T, max int) *btc.Block {
	for {
		b := btc.RandBlock(t.R, false)
		if len(b.Txs) > 4 {
			b.Txs = b.Txs[:1+t.R.Intn(4)]
			b.SetMerkle()
		}
		if len(b.Raw()) < max {
			return b
		}
	}
}

// parse parses a copy of js; panics count as crashes.
func parse(t *kit.T, what string, js []byte) (*intrinsicobjects.Block, error) {
	var p intrinsicobjects.Block
	var err error
	in := append([]byte{}, js...)
	t.Evals(1)
	if s := kit.Panics(func() { err = intrinsicobjects.ParseJsonBlock(in, &p) }); s != "" {
		t.Fatalf("crash", "%s: parsing panicked: %s\n%.3000s", what, s, js)
	}
	return &p, err
}

func same(a, b *intrinsicobjects.Block) bool { return reflect.DeepEqual(a, b) }

func refused(t *kit.T, what string, js []byte) {
	if p, err := parse(t, what, js); err == nil {
		t.Fatalf("accepted:"+strings.SplitN(what, ":", 2)[0], "%s: parsed without an error (block %s, %d transactions)\n%.3000s", what, btc.Hash(p.BlockHash).Hex(), len(p.Transactions), js)
	}
	t.Count("refused", 1)
}

// truncations: no proper part of the JSON is a block.
func truncations(k int) kit.Case {
	return kit.Case{Name: fmt.Sprintf("truncated/%d", k), Run: func(t *kit.T) {
		b := small(t, 900)
		js := b.JSON(btc.JSONOpts{Compact: k%2 == 0, NoHex: k%3 == 0, Height: 1 + t.R.Intn(1000), UnsignedVersion: k%5 == 0})
		ref, err := parse(t, "whole", js)
		if err != nil {
			t.Fatalf("json-refused", "%v", err)
		}
		for n := 0; n < len(js); n++ {
			if len(bytes.TrimSpace(js[n:])) == 0 {
				if p, err := parse(t, "white space cut", js[:n]); err == nil && !same(p, ref) {
					t.Fatalf("different", "cut white space gives another block")
				}
				continue
			}
			refused(t, fmt.Sprintf("truncated: %d of %d bytes", n, len(js)), js[:n])
		}
		t.Distinct("cut", len(js))
		// cut from the front, or with something in front or behind
		for i := 1; i < 60; i++ {
			refused(t, "beheaded: some bytes of the front missing", js[i*len(js)/61+1:])
		}
		for _, tail := range []string{"}", "{", "x", "]", string(js), "null", "\x00"} {
			refused(t, "tail: followed by "+fmt.Sprintf("%.5q", tail), append(append([]byte{}, js...), tail...))
			refused(t, "head: preceded by "+fmt.Sprintf("%.5q", tail), append([]byte(tail), js...))
		}
	}}
}

// A hash or script field of the JSON.
var fields = regexp.MustCompile(`"(hash|previousblockhash|merkleroot|txid|hex)":\s*"([0-9a-f]*)"`)

func isTxHashField(js []byte, name string, at int) bool {
	// the witness hash of a transaction ("hash" after its "txid") and the raw
	// transaction ("hex" beside "fee") are not used, so they are not looked at
	return name == "hash" && at > 200
}

// mutate the text of one field in a way that makes it no valid hash or script.
func badText(t *kit.T, hash bool, s string) (string, string) {
	for {
		kind := t.R.Intn(9)
		pos := 0
		if len(s) > 0 {
			pos = t.R.Intn(len(s))
		}
		switch kind {
		case 0: // a character that is not hex
			if s == "" {
				return "nonhex", `"zz"`
			}
			c := []string{"g", "G", "z", "-", "+", " ", ".", "_", "é", "x", "O", "l", "/", ":", "@", "`"}[t.R.Intn(16)]
			return "nonhex", `"` + s[:pos] + c + s[pos+1:] + `"`
		case 1: // one character less
			if s == "" {
				continue
			}
			return "odd", `"` + s[:pos] + s[pos+1:] + `"`
		case 2: // one more
			return "odd", `"` + s[:pos] + "a" + s[pos:] + `"`
		case 3: // a byte less, scripts may be that
			if !hash {
				continue
			}
			return "short", `"` + s[2:] + `"`
		case 4:
			if !hash {
				continue
			}
			return "long", `"` + s + "00" + `"`
		case 5:
			if !hash {
				continue
			}
			return "double", `"` + s + s + `"`
		case 6:
			if !hash {
				continue
			}
			return "empty", `""`
		case 7:
			return "type", []string{"12345", "true", "{}", "[]", "[\"" + s + "\"]", "1e5"}[t.R.Intn(6)]
		case 8: // 0x in front
			if !hash {
				return "nonhex", `"0x` + s + `"`
			}
			return "nonhex", `"0x` + s[2:] + `"`
		}
	}
}

func hashes(k int) kit.Case {
	return kit.Case{Name: fmt.Sprintf("fields/%d", k), Run: func(t *kit.T) {
		b := small(t, 4000)
		js := b.JSON(btc.JSONOpts{Compact: k%2 == 0, NoHex: true, Height: 1 + t.R.Intn(1000), NoWitness: true})
		if _, err := parse(t, "whole", js); err != nil {
			t.Fatalf("json-refused", "%v", err)
		}
		coinbaseAt := bytes.Index(js, []byte(`"coinbase"`))
		_ = coinbaseAt
		all := fields.FindAllSubmatchIndex(js, -1)
		for _, m := range all {
			name := string(js[m[2]:m[3]])
			val := string(js[m[4]:m[5]])
			if isTxHashField(js, name, m[0]) {
				continue
			}
			// the script of an input is not used
			if name == "hex" && bytes.HasPrefix(js[bytes.LastIndexByte(js[:m[0]], '{'):], []byte(`{"asm":"`)) && !bytes.Contains(js[bytes.LastIndexByte(js[:m[0]], '{'):m[0]], []byte("desc")) {
				continue
			}
			for rep := 0; rep < 6; rep++ {
				kind, bad := badText(t, name != "hex", val)
				x := append([]byte{}, js[:m[4]-1]...)
				x = append(x, bad...)
				x = append(x, js[m[5]+1:]...)
				refused(t, "bad "+name+" "+kind+": "+bad, x)
				t.Distinct(name, kind)
				t.Count("field:"+name, 1)
			}
			if name != "hex" {
				// missing
				x := append([]byte{}, js[:m[0]]...)
				x = append(x, `"unknown":"`+val+`"`...)
				x = append(x, js[m[1]:]...)
				refused(t, "missing "+name+": renamed", x)
				x = append([]byte{}, js[:m[4]-1]...)
				x = append(x, "null"...)
				x = append(x, js[m[5]+1:]...)
				refused(t, "null "+name+": null", x)
			}
		}
	}}
}

// numbers of a wrong type.
var numbers = regexp.MustCompile(`"(version|time|nonce|bits|strippedsize|size|weight|vsize|difficulty|value|vout|tx|vin|scriptPubKey)":\s*("?[-0-9a-fA-F.e+]+"?|\[|\{)`)

func types(k int) kit.Case {
	return kit.Case{Name: fmt.Sprintf("types/%d", k), Run: func(t *kit.T) {
		b := small(t, 3000)
		js := b.JSON(btc.JSONOpts{Compact: k%2 == 0, NoHex: true, Height: 1 + t.R.Intn(1000), NoWitness: true})
		for _, m := range numbers.FindAllSubmatchIndex(js, -1) {
			name := string(js[m[2]:m[3]])
			if js[m[4]] == '[' || js[m[4]] == '{' {
				// not closed where it should be
				x := append([]byte{}, js...)
				x[m[4]] = "([{<"[t.R.Intn(4)]
				if x[m[4]] != js[m[4]] {
					refused(t, "opening "+name+": bracket", x)
				}
				continue
			}
			bads := []string{`"abc"`, `{}`, `[1]`, `true`, `--5`, `0x10`, `1.2.3`, `NaN`, ``, `-`}
			if name == "bits" {
				bads = []string{`5`, `{}`, `"xyz"`, `"-1"`, `"1d00ffffff"`, `""`, `NaN`}
			}
			for rep := 0; rep < 3; rep++ {
				bad := bads[t.R.Intn(len(bads))]
				x := append([]byte{}, js[:m[4]]...)
				x = append(x, bad...)
				x = append(x, js[m[5]:]...)
				refused(t, "type of "+name+": "+bad, x)
				t.Distinct("type", name, bad)
			}
		}
	}}
}

// garbled: bytes changed, removed, doubled or swapped. What is no JSON any more
// must be refused, and nothing may crash.
func garbled(k int) kit.Case {
	return kit.Case{Name: fmt.Sprintf("garbled/%d", k), Run: func(t *kit.T) {
		b := small(t, 1500)
		js := b.JSON(btc.JSONOpts{Compact: k%2 == 0, NoHex: k%3 == 0, Height: 1 + t.R.Intn(1000)})
		ref, err := parse(t, "whole", js)
		if err != nil {
			t.Fatalf("json-refused", "%v", err)
		}
		for i := 0; i < 1500; i++ {
			x := append([]byte{}, js...)
			for n := 1 + t.R.Intn(3); n > 0; n-- {
				p := t.R.Intn(len(x))
				switch t.R.Intn(7) {
				case 0:
					x[p] = byte(t.R.Intn(256))
				case 1:
					x[p] ^= 1 << uint(t.R.Intn(8))
				case 2: // a piece is missing
					q := p + t.R.Intn(len(x)-p)
					x = append(x[:p:p], x[q:]...)
				case 3: // a piece is zero
					q := p + t.R.Intn(len(x)-p)
					if q > p+50 {
						q = p + 50
					}
					for ; p < q; p++ {
						x[p] = 0
					}
				case 4: // a piece comes twice
					q := p + t.R.Intn(len(x)-p)
					x = append(append(append([]byte{}, x[:q]...), x[p:q]...), x[q:]...)
				case 5: // structure
					s := strings.IndexAny(string(x[p:]), `{}[],:"`)
					if s >= 0 {
						x[p+s] = `{}[],:" `[t.R.Intn(8)]
					}
				case 6:
					copy(x[p:], x[t.R.Intn(len(x)):])
				}
				if len(x) == 0 {
					x = []byte{0}
				}
			}
			if !json.Valid(x) {
				refused(t, "garbled: "+fmt.Sprint(i), x)
				t.Count("garbled_invalid", 1)
				continue
			}
			p, err := parse(t, "garbled", x)
			if err == nil {
				// digits of a value may have changed: nothing can tell. But the
				// hashes that were read have their text in the answer.
				for _, h := range []btc.Hash{btc.Hash(p.BlockHash), btc.Hash(p.MerkleRoot)} {
					t.Evals(1)
					if !bytes.Contains(bytes.ToLower(x), []byte(h.Hex())) {
						t.Fatalf("invented", "hash %s is not in the answer\n%.3000s", h.Hex(), x)
					}
				}
				if same(p, ref) {
					t.Count("garbled_harmless", 1)
				} else {
					t.Count("garbled_other_digits", 1)
				}
			}
		}
		t.Distinct("garbled", len(js))
	}}
}

// other: things that are JSON but no block.
func other() kit.Case {
	return kit.Case{Name: "other", Run: func(t *kit.T) {
		for _, s := range []string{"", " ", "null", "{}", "[]", "1", `""`, `"abc"`, "true", "\x00", "<html><body>404</body></html>", "Block not found", "404 page not found\n",
			`{"error":{"code":-8,"message":"x"}}`, strings.Repeat("[", 100000), strings.Repeat(`{"a":`, 100000), "{\"tx\":[{}]}", `{"tx":null}`, "\xff\xfe{}", `{"result":{},"error":null}`,
			`{"hash":"` + strings.Repeat("0", 64) + `"}`, `{"hash":"` + strings.Repeat("0", 64) + `","previousblockhash":"` + strings.Repeat("0", 64) + `"}`} {
			refused(t, fmt.Sprintf("no block: %.40q", s), []byte(s))
			t.Distinct(s)
		}
		// an object of an array, and the array of the block
		b := small(t, 1500)
		js := b.JSON(btc.JSONOpts{Height: 7})
		refused(t, "no block: in an array", append(append([]byte("["), js...), ']'))
		refused(t, "no block: as text", []byte(fmt.Sprintf("%q", js)))
	}}
}

func main() {
	kit.Main(kit.Prop{
		ID:       "C07",
		Rule:     "answers derived from well-formed Core JSON of random blocks: every truncation, missing pieces, doubled or overwritten bytes and structure characters, and for every hash or script in the block a wrong length, an odd length, a non-hex character, nothing, null or another type; each must be refused with an error and without a panic (where changed digits leave valid JSON, only that no hash is invented). Distinct: field and kind of damage",
		MinEvals: 20000,
		Cases: func(tier string, seed int64) []kit.Case {
			n := 60
			if tier == "thorough" {
				n = 400
			}
			cs := []kit.Case{other()}
			for i := 0; i < n; i++ {
				cs = append(cs, truncations(i), hashes(i), hashes(i+1000), types(i), garbled(i))
			}
			return cs
		},
	})
}
