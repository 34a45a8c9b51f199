// Driver of the conformance checks: executes scripts (one JSON case per line)
// on the real code of ../collection and ../util through their public API, and
// writes one trace line per call with its arguments and results. It knows
// nothing about what the results should be; that is decided by the TLA+
// specifications that read the trace.
//
// Usage: driver SCRIPT TRACE [OPLIMIT_SECONDS]
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"runtime"
	"runtime/debug"
	"strconv"
	"sync"
	"sync/atomic"
	"time"
)

// byte string, written as an array of numbers
type vb []byte

func (b vb) MarshalJSON() ([]byte, error) {
	out := make([]byte, 0, 2+4*len(b))
	out = append(out, '[')
	for i, c := range b {
		if i > 0 {
			out = append(out, ',')
		}
		out = strconv.AppendInt(out, int64(c), 10)
	}
	return append(out, ']'), nil
}

func (b *vb) UnmarshalJSON(data []byte) error {
	out := make([]byte, 0, len(data)/3+1)
	num, have := 0, false
	for _, c := range data {
		if c >= '0' && c <= '9' {
			num, have = num*10+int(c-'0'), true
		} else {
			if have {
				out = append(out, byte(num))
			}
			num, have = 0, false
		}
	}
	*b = out
	return nil
}

// Buffers given to the code under test either end where their content ends,
// so that reading on panics, or lie within larger ones, so that reading on
// shows other bytes.
var copies int64

func (b vb) copy() []byte {
	if atomic.AddInt64(&copies, 1)%2 == 0 {
		out := make([]byte, len(b))
		copy(out, b)
		return out
	}
	out := make([]byte, len(b)+200)
	copy(out, b)
	for i := len(b); i < len(out); i++ {
		out[i] = byte(1 + i%31)
	}
	return out[:len(b)]
}

// one call, or the configuration of a case; each family uses what it needs
type op struct {
	raw                    []byte
	Op                     string
	K, V, I, J, N, S, E, M int
	Str, Str2              string
	B, C, D                vb
	BB, CC                 []vb
	L, L2                  []int
	Set, Flag              bool
	Kind                   string
	F, F2                  float64
	X, Y                   json.RawMessage
	LL                     [][]int
}

type res map[string]interface{}

type family interface {
	do(o *op) res
}

var families = map[string]func(cfg *op) family{}

type caseT struct {
	Id  int
	Fam string
	Tr  string // trace file of a session
	Cfg json.RawMessage
	Ops []json.RawMessage
}

////////////////////////////////////////////////////////////////////////////////

var (
	out     *os.File
	outLock sync.Mutex
	opStart int64 // unix nano of the call under way, 0 if none
	current []byte
)

func write(raw []byte, r res) {
	line := appendLine(make([]byte, 0, len(raw)+64), raw, r)
	outLock.Lock()
	_, err := out.Write(line)
	outLock.Unlock()
	if err != nil {
		fatal(err)
	}
}

func appendLine(line, raw []byte, r res) []byte {
	n := len(raw)
	for n > 0 && raw[n-1] != '}' {
		n--
	}
	line = append(line, raw[:n-1]...)
	rb, err := json.Marshal(r)
	if err != nil {
		fatal(err)
	}
	if len(rb) > 2 {
		if n > 2 {
			line = append(line, ',')
		}
		line = append(line, rb[1:]...)
	} else {
		line = append(line, '}')
	}
	return append(line, '\n')
}

func fatal(v interface{}) {
	fmt.Fprintln(os.Stderr, "driver error:", v)
	os.Exit(9)
}

// a panic value of this type is an error of the harness, not of the code
type harnessError struct{ msg string }

func harnessPanic(format string, a ...interface{}) {
	panic(harnessError{fmt.Sprintf(format, a...)})
}

func call(f family, o *op) (r res, ok bool) {
	defer func() {
		if p := recover(); p != nil {
			if h, is := p.(harnessError); is {
				fatal(h.msg + " in " + string(o.raw))
			}
			msg := fmt.Sprint(p)
			if len(msg) > 300 {
				msg = msg[:300]
			}
			r, ok = res{"out": "panic", "msg": msg}, false
			if os.Getenv("VF_STACK") != "" {
				fmt.Fprintf(os.Stderr, "%s\n%s\n", msg, debug.Stack())
			}
		}
	}()
	r = f.do(o)
	if r == nil {
		r = res{}
	}
	r["out"] = "ok"
	return r, true
}

func watchdog(limit time.Duration) {
	var ms runtime.MemStats
	for n := 0; ; n++ {
		time.Sleep(100 * time.Millisecond)
		start := atomic.LoadInt64(&opStart)
		if start == 0 {
			continue
		}
		if time.Now().UnixNano()-start > int64(limit) {
			write(current, res{"out": "hang"})
			os.Exit(3)
		}
		runtime.ReadMemStats(&ms)
		if ms.HeapAlloc > 3<<30 {
			write(current, res{"out": "oom"})
			os.Exit(3)
		}
	}
}

func parseOp(raw []byte) *op {
	o := &op{}
	if len(raw) > 0 {
		if err := json.Unmarshal(raw, o); err != nil {
			fatal(fmt.Sprint(err, " in ", string(raw)))
		}
	}
	o.raw = raw
	return o
}

func main() {
	in, err := os.Open(os.Args[1])
	if err != nil {
		fatal(err)
	}
	limit := 20 * time.Second
	if len(os.Args) > 3 {
		n, _ := strconv.Atoi(os.Args[3])
		limit = time.Duration(n) * time.Second
	}
	if os.Getenv("VF_SESSIONS") != "" {
		runGroups(in, os.Args[2], limit)
		return
	}
	out, err = os.Create(os.Args[2])
	if err != nil {
		fatal(err)
	}
	go watchdog(limit)
	reader := bufio.NewReaderSize(in, 1<<20)
	for {
		line, err := reader.ReadBytes('\n')
		if len(line) > 1 {
			var c caseT
			if e := json.Unmarshal(line, &c); e != nil {
				fatal(fmt.Sprint(e, " in ", string(line)))
			}
			runCase(&c)
		}
		if err == io.EOF {
			break
		} else if err != nil {
			fatal(err)
		}
	}
	if err := out.Close(); err != nil {
		fatal(err)
	}
}

func beginLine(c *caseT) (begin []byte, cfg json.RawMessage) {
	begin = []byte(fmt.Sprintf(`{"op":"begin","id":%d,"fam":"%s"`, c.Id, c.Fam))
	cfg = c.Cfg
	if len(cfg) > 2 {
		begin = append(append(begin, ','), cfg[1:]...)
	} else {
		begin = append(begin, '}')
	}
	return
}

func runCase(c *caseT) {
	mk, ok := families[c.Fam]
	if !ok {
		fatal("unknown family " + c.Fam)
	}
	begin, cfg := beginLine(c)
	write(begin, res{"out": "ok"})
	f := mk(parseOp(cfg))
	for _, raw := range c.Ops {
		o := parseOp(raw)
		current = raw
		atomic.StoreInt64(&opStart, time.Now().UnixNano())
		r, ok := call(f, o)
		atomic.StoreInt64(&opStart, 0)
		write(raw, r)
		if !ok {
			break
		}
	}
	if cl, ok := f.(interface{ close() }); ok {
		cl.close()
	}
}
