package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"log"
	"os"
	"os/exec"
	"strconv"
	"sync"
	"time"

	"../util"
)

func init() {
	families["logger"] = func(cfg *op) family { return newLoggerFam() }
	if os.Getenv("VF_LOGCHILD") != "" {
		logChild()
		os.Exit(0)
	}
}

// log lines of a process of their own, as the destination is one of the process
type loggerFam struct {
	cmd *exec.Cmd
	in  *json.Encoder
	out *bufio.Reader
	end func() error
}

func newLoggerFam() *loggerFam {
	for {
		f := &loggerFam{cmd: exec.Command(os.Args[0])}
		f.cmd.Env = append(os.Environ(), "VF_LOGCHILD=1")
		f.cmd.Stderr = os.Stderr
		w, err := f.cmd.StdinPipe()
		if err != nil {
			fatal(err)
		}
		r, err := f.cmd.StdoutPipe()
		if err != nil {
			fatal(err)
		}
		if err := f.cmd.Start(); err != nil {
			fatal(err)
		}
		f.in, f.out, f.end = json.NewEncoder(w), bufio.NewReader(r), w.Close
		if s, err := f.out.ReadString('\n'); err == nil && s == "ready\n" {
			return f
		}
		f.close() // its log file is there already
	}
}

func (f *loggerFam) close() {
	f.end()
	f.cmd.Wait()
}

func (f *loggerFam) do(o *op) res {
	f.in.Encode(json.RawMessage(o.raw))
	s, err := f.out.ReadString('\n')
	if err != nil {
		panic("the process ended: " + s)
	}
	r := res{}
	unjson([]byte(s), &r)
	return r
}

////////////////////////////////////////////////////////////////////////////////

const stamp = "2006/01/02 15:04:05"

func logChild() {
	name := "/tmp/" + strconv.Itoa(os.Getpid()) + ".log"
	if _, err := os.Lstat(name); err == nil {
		return
	}
	answers := os.Stdout
	places := []string{"", "", name}
	for i := range places[:2] {
		t, err := ioutil.TempFile("", "vflog")
		if err != nil {
			fatal(err)
		}
		places[i] = t.Name()
		if i == 0 {
			log.SetOutput(t)
		} else {
			os.Stdout = t
		}
	}
	defer func() {
		for _, p := range places {
			os.Remove(p)
		}
	}()
	fmt.Fprintln(answers, "ready")
	had := make([][]byte, 3)
	look := func() {
		for i, p := range places {
			had[i], _ = ioutil.ReadFile(p)
		}
	}
	reader := bufio.NewReader(os.Stdin)
	for {
		line, err := reader.ReadBytes('\n')
		if err != nil {
			return
		}
		o := parseOp(line)
		look()
		old := append([][]byte{}, had...)
		r := res{"t0": vb(time.Now().Format(stamp))}
		switch o.Op {
		case "lout":
			r["err"] = util.LCSetLoggerStdout() != nil
		case "lfile":
			r["err"] = util.LCSetLoggerFileTmp() != nil
		case "line":
			switch o.Kind {
			case "printf":
				log.Printf("%s", []byte(o.B))
			default:
				log.Print(string(o.B))
			}
		case "many": // n users, each m lines
			var wait sync.WaitGroup
			for u := 0; u < o.N; u++ {
				wait.Add(1)
				go func(u int) {
					for i := 0; i < o.M; i++ {
						log.Print(string([]byte{byte(97 + u), byte(97 + i)}))
					}
					wait.Done()
				}(u)
			}
			wait.Wait()
		case "block":
			os.Remove(name)
			if err := os.Mkdir(name, 0755); err != nil {
				fatal(err)
			}
			old[2] = nil
		case "unblock":
			if err := os.Remove(name); err != nil {
				fatal(err)
			}
		case "left":
			f, err := os.OpenFile(name, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0644)
			if err != nil {
				fatal(err)
			}
			f.Write(o.B)
			f.Close()
			had[2], _ = ioutil.ReadFile(name)
			old[2] = had[2]
		default:
			harnessPanic("op %s", o.Op)
		}
		r["t1"] = vb(time.Now().Format(stamp))
		look()
		kept := true
		fresh := []vb{}
		for i := range places {
			if !bytes.HasPrefix(had[i], old[i]) {
				kept = false
				old[i] = nil
			}
			fresh = append(fresh, vb(had[i][len(old[i]):]))
		}
		r["kept"], r["fresh"] = kept, fresh
		b, err := json.Marshal(r)
		if err != nil {
			fatal(err)
		}
		answers.Write(append(b, '\n'))
	}
}
