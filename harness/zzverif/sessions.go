// Sessions: cases that run side by side, either woven call by call in one
// goroutine, or each in its own. Every session has its own objects, or all of
// them read the objects of one case. What each session saw is recorded as if
// it had been alone.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"sync"
	"sync/atomic"
	"time"

	"../collection"
	"../util"
)

// a family whose objects can be read by several sessions
type forker interface{ fork() family }

type groupT struct {
	Id       int
	Par      bool
	Order    []int  // sessions in the order of their calls; afterwards in turn
	Base     *caseT // its objects are shared
	Sessions [][]caseT
}

type session struct {
	cases  []caseT
	ops    [][]*op
	at     int // case
	pos    int // call of it
	f      family
	base   family
	before []byte // trace of the shared part
	traces map[string][]byte
	buf    []byte
}

func prepare(cases []caseT) *session {
	s := &session{cases: cases, traces: map[string][]byte{}}
	for _, c := range cases {
		var ops []*op
		for _, raw := range c.Ops {
			ops = append(ops, parseOp(raw))
		}
		s.ops = append(s.ops, ops)
	}
	return s
}

// the next call; false if there is none
func (s *session) step() bool {
	if s.at >= len(s.cases) {
		return false
	}
	c := &s.cases[s.at]
	if s.f == nil {
		raw, cfg := beginLine(c)
		s.buf = appendLine(s.buf[:0], raw, res{"out": "ok"})
		if s.base != nil {
			s.f = s.base.(forker).fork()
			s.buf = append(s.buf, s.before...)
		} else {
			s.f = families[c.Fam](parseOp(cfg))
		}
	}
	ok := s.pos < len(s.ops[s.at])
	if ok {
		o := s.ops[s.at][s.pos]
		s.pos++
		var r res
		r, ok = call(s.f, o)
		s.buf = appendLine(s.buf, o.raw, r)
	}
	if !ok || s.pos == len(s.ops[s.at]) {
		if cl, is := s.f.(interface{ close() }); is {
			cl.close()
		}
		s.traces[c.Tr] = append(s.traces[c.Tr], s.buf...)
		s.at, s.pos, s.f = s.at+1, 0, nil
	}
	return s.at < len(s.cases)
}

func runGroup(g *groupT, trace string) {
	var all []*session
	for _, cases := range g.Sessions {
		for _, c := range cases {
			if _, ok := families[c.Fam]; !ok {
				fatal("unknown family " + c.Fam)
			}
		}
		all = append(all, prepare(cases))
	}
	if g.Base != nil {
		_, cfg := beginLine(g.Base)
		f := families[g.Base.Fam](parseOp(cfg))
		var before []byte
		for _, raw := range g.Base.Ops {
			r, ok := call(f, parseOp(raw))
			before = appendLine(before, raw, r)
			if !ok { // the sessions stop here
				for _, s := range all {
					s.ops[0] = nil
				}
				break
			}
		}
		for _, s := range all {
			s.base, s.before = f, before
		}
	}
	if g.Par {
		var wait sync.WaitGroup
		start := make(chan bool)
		for _, s := range all {
			wait.Add(1)
			go func(s *session) {
				<-start
				for s.step() {
				}
				wait.Done()
			}(s)
		}
		close(start)
		wait.Wait()
	} else {
		for _, k := range g.Order {
			all[k].step()
		}
		for more := true; more; {
			more = false
			for _, s := range all {
				more = s.step() || more
			}
		}
	}
	for _, s := range all {
		for tr, lines := range s.traces {
			f, err := os.OpenFile(trace+"."+tr, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0644)
			if err != nil {
				fatal(err)
			}
			if _, err = f.Write(lines); err == nil {
				err = f.Close()
			}
			if err != nil {
				fatal(err)
			}
		}
	}
}

func runGroups(in io.Reader, trace string, limit time.Duration) {
	go func() {
		for {
			time.Sleep(100 * time.Millisecond)
			if t := atomic.LoadInt64(&opStart); t != 0 && time.Now().UnixNano()-t > int64(limit) {
				fmt.Fprintln(os.Stderr, "the sessions do not come to an end")
				os.Exit(3)
			}
		}
	}()
	reader := bufio.NewReaderSize(in, 1<<20)
	for {
		line, err := reader.ReadBytes('\n')
		if len(line) > 1 {
			var g groupT
			if e := json.Unmarshal(line, &g); e != nil {
				fatal(fmt.Sprint(e, " in ", string(line)))
			}
			fmt.Println("group", g.Id)
			atomic.StoreInt64(&opStart, time.Now().UnixNano())
			runGroup(&g, trace)
			atomic.StoreInt64(&opStart, 0)
		}
		if err == io.EOF {
			return
		} else if err != nil {
			fatal(err)
		}
	}
}

func (f *sortedFam) fork() family {
	g := *f
	g.log = nil
	g.mit, g.sit = map[int]collection.ISortedMapIterator{}, map[int]collection.IIterator{}
	return &g
}

func (f *hashFam) fork() family {
	g := *f
	g.mit, g.sit = map[int]collection.IHashMapIterator{}, map[int]collection.IIterator{}
	return &g
}

func (f *trieFam) fork() family {
	g := *f
	g.slot, g.it = map[int]anyTrie{}, map[int]util.ITrieIterator{}
	for k, t := range f.slot {
		g.slot[k] = t
	}
	return &g
}

func (f *mphFam) fork() family {
	g := *f
	g.tables = append([]*util.MPHTable{}, f.tables...)
	return &g
}

func (f *objFam) fork() family {
	g := &objFam{map[int]interface{}{}, map[int][][]byte{}, nil}
	for k, x := range f.o {
		g.o[k] = x
	}
	g.held = append(g.held, f.held...)
	return g
}
