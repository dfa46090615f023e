// C23: fetching from the node survives faults without inventing data.
package main

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"strings"
	"sync"
	"time"

	"github.com/KitchenMishap/pudding-shed/corereader2"
	"github.com/KitchenMishap/pudding-shed/indexedhashes"
	"github.com/KitchenMishap/pudding-shed/jobs"
	"verifharness/kit"
	"verifharness/lib/blockcmp"
	"verifharness/lib/btc"
	"verifharness/lib/node"
)

// stream runs the header stream and returns what came out.
func stream(t *kit.T, n int64) (got []btc.Hash, err error) {
	ch := make(chan indexedhashes.Sha256)
	done := make(chan error, 1)
	go func() { done <- corereader2.StreamBlockHashesFromGenesis(n, ch) }()
	for h := range ch {
		got = append(got, btc.Hash(h))
	}
	return got, <-done
}

func prefix(t *kit.T, what string, chain []*btc.Block, got []btc.Hash) {
	for i, h := range got {
		t.Evals(1)
		if i >= len(chain) {
			t.Fatalf("invented", "%s: hash %d of a chain of %d blocks: %s", what, i, len(chain), h.Hex())
		}
		if h != chain[i].Hash() {
			t.Fatalf("wrong-hash", "%s: hash %d is %s, want %s", what, i, h.Hex(), chain[i].Hash().Hex())
		}
	}
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// streams: all combinations of chain length and limit around the batch edges.
func streams(k int, lengths []int) kit.Case {
	return kit.Case{Name: fmt.Sprintf("stream/%d", k), Run: func(t *kit.T) {
		for _, l := range lengths {
			chain := btc.HeaderChain(t.R, l)
			n := node.New(chain, kit.NewRand(int64(l), "node"))
			if k%2 == 1 {
				n.HeaderFault = func(int) node.Fault { return node.Harmless[0] }
			}
			n.Start()
			for _, limit := range []int{0, 1, 2, l - 2, l - 1, l, l + 1, l + 2, 1000, 1001, 1002, 2000, 2001, 888888, 1 + t.R.Intn(l)} {
				if limit < 0 {
					continue
				}
				what := fmt.Sprintf("chain of %d, limit %d", l, limit)
				got, err := stream(t, int64(limit))
				t.NoErr(err, what)
				prefix(t, what, chain, got)
				t.Evals(1)
				if len(got) != min(l, limit) {
					t.Fatalf("count", "%s: %d hashes", what, len(got))
				}
				t.Distinct(l, limit)
				t.Count("streams", 1)
				t.Count("hashes", int64(len(got)))
			}
			n.Stop()
		}
	}}
}

// streamFaults: a failing header request ends the stream with an error.
func streamFaults(k int) kit.Case {
	return kit.Case{Name: fmt.Sprintf("stream-faults/%d", k), Run: func(t *kit.T) {
		l := 2000 + t.R.Intn(1500)
		chain := btc.HeaderChain(t.R, l)
		for i := 0; i < 24; i++ {
			f := []node.Fault{node.Refuse, node.NotFound, node.Unavail, node.Reset, node.CloseEarly, node.CutLength, node.CutChunk, node.ResetMiddle, node.Html, node.Short, node.Empty}[(i+k)%11]
			from := t.R.Intn(3)
			n := node.New(chain, kit.NewRand(int64(i), "node"))
			n.HeaderFault = func(req int) node.Fault {
				if req >= from {
					return f
				}
				return node.None
			}
			n.Start()
			what := fmt.Sprintf("chain of %d, %s from header request %d", l, f, from)
			got, err := stream(t, int64(l))
			n.Stop()
			prefix(t, what, chain, got)
			t.Evals(1)
			// a complete answer with fewer headers looks like the end of the chain
			if err == nil && len(got) < l && f != node.Short && f != node.Empty && n.HeaderRequests() > from {
				t.Fatalf("silent", "%s: the stream ended after %d hashes without an error", what, len(got))
			}
			if err == nil {
				t.Count("streams_ended_quietly", 1)
			} else {
				t.Count("streams_failed", 1)
			}
			t.Distinct("stream", f, from)
		}
	}}
}

// fetch runs the block stage over the chain and checks each block that comes out.
func fetch(t *kit.T, what string, chain []*btc.Block, js bool, threads int) {
	in := make(chan indexedhashes.Sha256)
	out := make(chan *corereader2.HeightNumberedBlock)
	go func() {
		for _, b := range chain {
			in <- indexedhashes.Sha256(b.Hash())
		}
		close(in)
	}()
	corereader2.GetAndParseBlocks(in, js, out, threads)
	seen := map[int64]bool{}
	order := 0
	last := int64(-1)
	var keep []*corereader2.HeightNumberedBlock
	for b := range out {
		t.Evals(1)
		if b.BlockHeight < 0 || b.BlockHeight >= int64(len(chain)) || seen[b.BlockHeight] {
			t.Fatalf("height", "%s: block %d came twice or is none of the %d", what, b.BlockHeight, len(chain))
		}
		seen[b.BlockHeight] = true
		if b.BlockHeight < last {
			order++
		}
		last = b.BlockHeight
		keep = append(keep, b)
	}
	for _, b := range keep { // only now: the blocks must not share anything
		if btc.Hash(b.BlockHash) != chain[b.BlockHeight].Hash() {
			t.Fatalf("hash", "%s: block %d has hash %s", what, b.BlockHeight, btc.Hash(b.BlockHash).Hex())
		}
		blockcmp.Compare(t, fmt.Sprintf("%s: block %d", what, b.BlockHeight), chain[b.BlockHeight], &b.Block, js)
	}
	t.Evals(1)
	if len(seen) != len(chain) {
		t.Fatalf("missing", "%s: %d of %d blocks came", what, len(seen), len(chain))
	}
	t.Count("out_of_order", int64(order))
}

func smallChain(r *rand.Rand, n int) []*btc.Block {
	c := []*btc.Block{btc.Genesis()}
	for len(c) < n {
		b := btc.RandBlock(r, false)
		if len(b.Txs) > 5 {
			b.Txs = b.Txs[:5]
		}
		b.SetMerkle()
		b.Prev = c[len(c)-1].Hash()
		c = append(c, b)
	}
	return c
}

// blocks: up to two failures of each block go unnoticed.
func blocks(k int) kit.Case {
	return kit.Case{Name: fmt.Sprintf("blocks/%d", k), Run: func(t *kit.T) {
		js := k%2 == 0
		chain := smallChain(t.R, 20+t.R.Intn(40))
		threads := []int{1, 2, 3, 8, 16, 40}[k%6]
		n := node.New(chain, kit.NewRand(t.R.Int63(), "node"))
		n.Opts = btc.JSONOpts{Compact: k%4 == 0, NoHex: true}
		n.Jitter = time.Duration(t.R.Intn(3)) * time.Millisecond
		var mu sync.Mutex
		plan := map[int][]node.Fault{}
		faults := 0
		mode := k % 4
		for i := range chain {
			for a := 0; a < 2; a++ {
				if mode == 0 || mode == 1 && t.R.Intn(3) > 0 || mode == 2 && t.R.Intn(10) > 0 {
					continue
				}
				f := node.Failing[t.R.Intn(len(node.Failing))]
				if t.R.Intn(8) == 0 {
					f = node.Harmless[t.R.Intn(2)]
				}
				plan[i] = append(plan[i], f)
				faults++
				t.Distinct("block", f, a, js)
			}
		}
		n.BlockFault = func(h, a int) node.Fault {
			mu.Lock()
			defer mu.Unlock()
			if a < len(plan[h]) {
				return plan[h][a]
			}
			return node.None
		}
		n.Start()
		defer n.Stop()
		fetch(t, fmt.Sprintf("json %v, %d threads, %d faults", js, threads, faults), chain, js, threads)
		t.Count("faults_planned", int64(faults))
		t.Count("blocks", int64(len(chain)))
		t.CountMax("most_requests_at_a_time", int64(n.MaxInflight))
	}}
}

// exhausted: a block (or the headers) that cannot be had stops the run. The real
// code may end the process, so it runs in one of its own.
type sub struct {
	Seed    int64
	Mode    string // fetch, or a phase of the job
	Js      bool
	Threads int
	Bad     int
	Fault   node.Fault
	Headers bool
	Len     int
	Dir     string
}

func exhausted(k int) kit.Case {
	return kit.Case{Name: fmt.Sprintf("exhausted/%d", k), Run: func(t *kit.T) {
		for i := 0; i < 6; i++ {
			s := sub{Seed: t.R.Int63(), Mode: "fetch", Js: t.R.Intn(2) == 0, Threads: 1 + t.R.Intn(6), Len: 12 + t.R.Intn(10), Fault: node.Failing[(k*6+i)%len(node.Failing)], Dir: t.SubDir(fmt.Sprint(i))}
			if i%2 == 1 {
				s.Mode = []string{"phase1", "phase1chi"}[k%2]
				s.Headers = i == 5
				if s.Headers {
					s.Len = 1100
					s.Fault = []node.Fault{node.Refuse, node.Reset, node.CutLength, node.Html, node.CutChunk, node.NotFound}[k%6]
				}
			}
			s.Bad = t.R.Intn(s.Len)
			if s.Bad == 0 && s.Mode != "fetch" {
				s.Bad = s.Len - 1
			}
			arg, _ := json.Marshal(s)
			ctx, stop := context.WithTimeout(context.Background(), 100*time.Second)
			cmd := exec.CommandContext(ctx, os.Args[0])
			cmd.Env = append(os.Environ(), "C23_SUB="+string(arg))
			var out bytes.Buffer
			cmd.Stdout, cmd.Stderr = &out, &out
			err := cmd.Run()
			late := ctx.Err() != nil
			stop()
			t.Evals(1)
			what := fmt.Sprintf("%+v", s)
			if late {
				t.Fatalf("hangs", "%s: neither failed nor finished", what)
			}
			o := out.String()
			if strings.Contains(o, "SUB-WRONG") {
				t.Fatalf("wrong-data", "%s: %s", what, tail(o))
			}
			var ee *exec.ExitError
			if err == nil || !errors.As(err, &ee) {
				t.Fatalf("went-on", "%s: the run went on as if nothing was missing\n%s", what, tail(o))
			}
			t.Count("runs_stopped", 1)
			t.Distinct("exhausted", s.Mode, s.Fault, s.Js)
		}
	}}
}

func tail(s string) string {
	if len(s) > 2000 {
		s = s[len(s)-2000:]
	}
	return s
}

func runSub(arg string) {
	var s sub
	if err := json.Unmarshal([]byte(arg), &s); err != nil {
		panic(err)
	}
	r := kit.NewRand(s.Seed, "node")
	chain := smallChain(r, min(s.Len, 100))
	if s.Headers {
		chain = btc.HeaderChain(r, s.Len)
	}
	n := node.New(chain, kit.NewRand(s.Seed+1, "node"))
	n.BlockFault = func(h, a int) node.Fault {
		if h == s.Bad && !s.Headers {
			return s.Fault
		}
		return node.None
	}
	n.HeaderFault = func(req int) node.Fault {
		if s.Headers && req > 0 {
			return s.Fault
		}
		return node.None
	}
	n.Start()
	if s.Mode == "fetch" {
		in := make(chan indexedhashes.Sha256)
		out := make(chan *corereader2.HeightNumberedBlock)
		go func() {
			for _, b := range chain {
				in <- indexedhashes.Sha256(b.Hash())
			}
			close(in)
		}()
		corereader2.GetAndParseBlocks(in, s.Js, out, s.Threads)
		for b := range out {
			if int(b.BlockHeight) == s.Bad {
				fmt.Println("SUB-WRONG: the block that cannot be had came out")
				os.Exit(3)
			}
		}
		os.Exit(0)
	}
	var err error
	if s.Mode == "phase1" {
		err = jobs.PhaseOneParallelIntrinsic(s.Dir, s.Js, int64(len(chain)), 100, s.Threads, "\n")
	} else {
		err = jobs.PhaseOneParallelIntrinsicChi(s.Dir, s.Js, int64(len(chain)), 100, s.Threads, "\n")
	}
	if err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
	os.Exit(0)
}

func main() {
	if a := os.Getenv("C23_SUB"); a != "" {
		runSub(a)
	}
	kit.Main(kit.Prop{
		ID:       "C23",
		Rule:     "a look-alike of Bitcoin Core on a loopback port serves generated chains and misbehaves as planned (error statuses, resets and closes before and in the middle of an answer, truncated, empty, foreign, doubled or zeroed bodies, wrong blocks, tiny pieces, delays); what the header stream and the block stage deliver is compared with the chain; runs whose data cannot be had must stop with a failure (in a process of their own). Distinct: chain length and limit, fault kind, position and format",
		MinEvals: 50000,
		Cases: func(tier string, seed int64) []kit.Case {
			cs := []kit.Case{
				streams(0, []int{1, 2, 3, 10}), streams(1, []int{1, 2, 3, 7}),
				streams(2, []int{998, 999, 1000}), streams(3, []int{1001, 1002}), streams(4, []int{1003, 1004}),
				streams(5, []int{1999, 2000}), streams(6, []int{2001, 2002}), streams(7, []int{2003, 2004}), streams(8, []int{3003, 4000}),
			}
			n := 120
			if tier == "thorough" {
				n = 1000
				for i := 0; i < 40; i++ {
					l := 990 + i
					cs = append(cs, streams(10+i, []int{l, l + 1000, l + 2000}))
				}
			}
			for i := 0; i < n; i++ {
				cs = append(cs, blocks(i))
				if i%6 == 0 {
					cs = append(cs, streamFaults(i/6))
				}
				if i%3 == 0 {
					cs = append(cs, exhausted(i/3))
				}
			}
			return cs
		},
	})
}
