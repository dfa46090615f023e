// Package node is a Bitcoin Core look-alike: it serves a chain over the REST
// interface on a loopback port, can be told to misbehave, and records what it served.
package node

import (
	"context"
	"fmt"
	"io"
	"math/rand"
	"net"
	"net/http"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/KitchenMishap/pudding-shed/corereader2"
	"verifharness/lib/btc"
)

// Fault is a way to misbehave.
type Fault string

const (
	None        Fault = ""
	Refuse      Fault = "500"         // an error status with a text
	NotFound    Fault = "404"         //
	Unavail     Fault = "503-block"   // an error status whose body is the right block
	Reset       Fault = "reset"       // connection reset before an answer
	CloseEarly  Fault = "close"       // connection closed before an answer
	CutLength   Fault = "cut-length"  // body shorter than its Content-Length
	CutChunk    Fault = "cut-chunk"   // chunked body that never ends
	ResetMiddle Fault = "reset-body"  // reset in the middle of the body
	Short       Fault = "short"       // a complete answer with part of the body
	Empty       Fault = "empty"       // a complete answer without a body
	Html        Fault = "html"        // something else
	Wrong       Fault = "wrong-block" // another block
	Long        Fault = "long"        // the block and something else
	Zeros       Fault = "zeros"       // right length, all zeroes
	Dribble     Fault = "dribble"     // right, in small pieces (not a failure)
	Slow        Fault = "slow"        // right, late (not a failure)
)

// Failing are the faults that must not go unnoticed for a block.
var Failing = []Fault{Refuse, NotFound, Unavail, Reset, CloseEarly, CutLength, CutChunk, ResetMiddle, Short, Empty, Html, Wrong, Long, Zeros}

// Harmless are the faults that change nothing.
var Harmless = []Fault{Dribble, Slow}

type Node struct {
	mu       sync.Mutex
	chain    []*btc.Block
	byHash   map[string]int
	raw      [][]byte
	json     [][]byte
	attempts map[string]int
	Log      []string // what was asked and done
	rng      *rand.Rand

	// BlockFault says how the n-th request (from 0) for a block is answered.
	BlockFault func(height, attempt int) Fault
	// HeaderFault says how the n-th request (from 0) for headers is answered.
	HeaderFault func(request int) Fault
	// Jitter is the most an answer is delayed.
	Jitter time.Duration
	// JSON presentation
	Opts btc.JSONOpts
	// Inflight monitoring
	cur, MaxInflight int
	headerReqs       int
	Served           map[int]int // blocks served intact
	ln               net.Listener
	srv              *http.Server
}

// New makes a node with a chain; it is not yet listening.
func New(chain []*btc.Block, r *rand.Rand) *Node {
	n := &Node{chain: chain, byHash: map[string]int{}, attempts: map[string]int{}, rng: r, Served: map[int]int{}}
	n.raw = make([][]byte, len(chain))
	n.json = make([][]byte, len(chain))
	for i, b := range chain {
		n.byHash[b.Hash().Hex()] = i
	}
	return n
}

// Start listens and makes the reader's client talk to this node.
func (n *Node) Start() {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic("node: " + err.Error())
	}
	n.ln = ln
	n.srv = &http.Server{Handler: n}
	go n.srv.Serve(ln)
	addr := ln.Addr().String()
	dial := func(ctx context.Context, network, _ string) (net.Conn, error) {
		var d net.Dialer
		return d.DialContext(ctx, "tcp", addr)
	}
	for _, t := range []http.RoundTripper{corereader2.TheOneAndOnlyClient.Transport, http.DefaultTransport} {
		if h, ok := t.(*http.Transport); ok {
			h.CloseIdleConnections()
			h.DialContext = dial
			h.Proxy = nil
		}
	}
}

// Stop ends the node.
func (n *Node) Stop() {
	if h, ok := corereader2.TheOneAndOnlyClient.Transport.(*http.Transport); ok {
		h.CloseIdleConnections()
	}
	n.srv.Close()
}

func (n *Node) note(format string, a ...interface{}) {
	if len(n.Log) < 400 {
		n.Log = append(n.Log, fmt.Sprintf(format, a...))
	}
}

func (n *Node) blockBody(i int, js bool) []byte {
	b := n.chain[i]
	n.mu.Lock()
	defer n.mu.Unlock()
	if js {
		if n.json[i] == nil {
			o := n.Opts
			o.Height = i
			lo := i - 10
			if lo < 0 {
				lo = 0
			}
			var times []uint32
			for _, x := range n.chain[lo : i+1] {
				times = append(times, x.Time)
			}
			o.Median = btc.MedianTime(times)
			if i+1 < len(n.chain) {
				o.Next = n.chain[i+1].Hash().Hex()
			}
			n.json[i] = b.JSON(o)
		}
		return n.json[i]
	}
	if n.raw[i] == nil {
		n.raw[i] = b.Raw()
	}
	return n.raw[i]
}

func (n *Node) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	n.mu.Lock()
	n.cur++
	if n.cur > n.MaxInflight {
		n.MaxInflight = n.cur
	}
	var wait time.Duration
	if n.Jitter > 0 {
		wait = time.Duration(n.rng.Int63n(int64(n.Jitter)))
	}
	n.mu.Unlock()
	defer func() { n.mu.Lock(); n.cur--; n.mu.Unlock() }()
	if wait > 0 {
		time.Sleep(wait)
	}
	parts := strings.Split(strings.Trim(r.URL.Path, "/"), "/")
	if len(parts) >= 3 && parts[0] == "rest" && parts[1] == "headers" {
		count, last := 5, parts[2]
		if len(parts) == 4 {
			count, _ = strconv.Atoi(parts[2])
			last = parts[3]
		} else if c := r.URL.Query().Get("count"); c != "" {
			count, _ = strconv.Atoi(c)
		}
		last = strings.TrimSuffix(last, ".bin")
		n.mu.Lock()
		req := n.headerReqs
		n.headerReqs++
		i, ok := n.byHash[last]
		n.note("headers %d from %d", count, i)
		n.mu.Unlock()
		f := None
		if n.HeaderFault != nil {
			f = n.HeaderFault(req)
		}
		if count < 1 || count > 2000 {
			http.Error(w, "Header count is invalid or out of acceptable range (1-2000)", 400)
			return
		}
		if !ok {
			http.Error(w, "not found", 404)
			return
		}
		var body []byte
		for k := i; k < len(n.chain) && k < i+count; k++ {
			body = append(body, n.chain[k].Header()...)
		}
		n.answer(w, body, nil, f)
		return
	}
	if len(parts) >= 3 && parts[0] == "rest" && parts[1] == "block" {
		name := parts[len(parts)-1]
		js := strings.HasSuffix(name, ".json")
		name = strings.TrimSuffix(strings.TrimSuffix(name, ".json"), ".bin")
		n.mu.Lock()
		i, ok := n.byHash[name]
		at := n.attempts[name]
		n.attempts[name]++
		n.mu.Unlock()
		if !ok {
			http.Error(w, name+" not found", 404)
			return
		}
		f := None
		if n.BlockFault != nil {
			f = n.BlockFault(i, at)
		}
		var other []byte
		if f == Wrong {
			k := (i + 1) % len(n.chain)
			other = n.blockBody(k, js)
		}
		body := n.blockBody(i, js)
		n.mu.Lock()
		if f != None {
			n.note("block %d attempt %d: %s", i, at, f)
		}
		if f == None || f == Dribble || f == Slow {
			n.Served[i]++
		}
		n.mu.Unlock()
		n.answer(w, body, other, f)
		return
	}
	http.Error(w, "what?", 404)
}

func hijack(w http.ResponseWriter) net.Conn {
	c, _, err := w.(http.Hijacker).Hijack()
	if err != nil {
		return nil
	}
	return c
}

func (n *Node) answer(w http.ResponseWriter, body, other []byte, f Fault) {
	n.mu.Lock()
	cut := 0
	if len(body) > 0 {
		cut = n.rng.Intn(len(body))
	}
	n.mu.Unlock()
	head := func(l int, extra string) string {
		return fmt.Sprintf("HTTP/1.1 200 OK\r\nContent-Type: application/octet-stream\r\nContent-Length: %d\r\n%s\r\n", l, extra)
	}
	switch f {
	case None:
		w.Header().Set("Content-Length", strconv.Itoa(len(body)))
		w.Write(body)
	case Refuse:
		http.Error(w, "Work queue depth exceeded", 500)
	case NotFound:
		http.Error(w, "not found", 404)
	case Unavail:
		w.WriteHeader(503)
		w.Write(body)
	case Html:
		io.WriteString(w, "<html><body>It works!</body></html>")
	case Short:
		w.Header().Set("Content-Length", strconv.Itoa(cut))
		w.Write(body[:cut])
	case Empty:
		w.Header().Set("Content-Length", "0")
	case Wrong:
		w.Write(other)
	case Long:
		w.Write(body)
		w.Write(body[:cut+1])
	case Zeros:
		w.Write(make([]byte, len(body)))
	case Slow:
		time.Sleep(20 * time.Millisecond)
		w.Write(body)
	case Dribble:
		fl := w.(http.Flusher)
		w.Header().Set("Content-Length", strconv.Itoa(len(body)))
		step := len(body)/7 + 1
		for len(body) > 0 {
			k := step
			if k > len(body) {
				k = len(body)
			}
			w.Write(body[:k])
			fl.Flush()
			body = body[k:]
			time.Sleep(200 * time.Microsecond)
		}
	case CloseEarly:
		if c := hijack(w); c != nil {
			c.Close()
		}
	case Reset:
		if c := hijack(w); c != nil {
			if t, ok := c.(*net.TCPConn); ok {
				t.SetLinger(0)
			}
			c.Close()
		}
	case CutLength:
		if c := hijack(w); c != nil {
			io.WriteString(c, head(len(body), ""))
			c.Write(body[:cut])
			c.Close()
		}
	case ResetMiddle:
		if c := hijack(w); c != nil {
			io.WriteString(c, head(len(body), ""))
			c.Write(body[:cut])
			time.Sleep(time.Millisecond)
			if t, ok := c.(*net.TCPConn); ok {
				t.SetLinger(0)
			}
			c.Close()
		}
	case CutChunk:
		if c := hijack(w); c != nil {
			io.WriteString(c, "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n")
			fmt.Fprintf(c, "%x\r\n", len(body))
			c.Write(body[:cut])
			c.Close()
		}
	default:
		panic("fault " + string(f))
	}
}

// Attempts tells how often the block was asked for.
func (n *Node) Attempts(h btc.Hash) int {
	n.mu.Lock()
	defer n.mu.Unlock()
	return n.attempts[h.Hex()]
}

// Requests tells how often headers were asked for.
func (n *Node) HeaderRequests() int {
	n.mu.Lock()
	defer n.mu.Unlock()
	return n.headerReqs
}
