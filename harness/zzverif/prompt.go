package main

import (
	"io"
	"io/ioutil"
	"os"

	"../util"
)

func init() {
	families["prompt"] = func(cfg *op) family {
		f := &promptFam{name: os.Getenv("VF_DIR") + "/typed"}
		var err error
		if f.shown, err = ioutil.TempFile("", "vfshown"); err != nil {
			fatal(err)
		}
		os.Remove(f.shown.Name())
		if cfg.Kind == "file" {
			if f.in, err = ioutil.TempFile("", "vftyped"); err != nil {
				fatal(err)
			}
			os.Remove(f.in.Name())
			f.in.Write(cfg.B)
			f.in.Seek(0, io.SeekStart)
			f.file = true
			return f
		}
		r, w, err := os.Pipe()
		if err != nil {
			fatal(err)
		}
		f.in = r
		go func() {
			for b := []byte(cfg.B); len(b) > 0; {
				n := len(b)
				if cfg.Kind == "parts" && n > 3 {
					n = 3
				}
				w.Write(b[:n])
				b = b[n:]
			}
			w.Close()
		}()
		return f
	}
}

// questions, answered by what is typed
type promptFam struct {
	name  string
	in    *os.File
	file  bool
	shown *os.File
}

func (f *promptFam) close() {
	f.in.Close()
	f.shown.Close()
}

// what f shows, and how much it reads (-1 if that cannot be told)
func (f *promptFam) ask(g func()) (shown vb, pos int64) {
	f.shown.Truncate(0)
	f.shown.Seek(0, io.SeekStart)
	oldIn, oldOut := os.Stdin, os.Stdout
	os.Stdin, os.Stdout = f.in, f.shown
	defer func() { os.Stdin, os.Stdout = oldIn, oldOut }()
	g()
	os.Stdin, os.Stdout = oldIn, oldOut
	pos = -1
	if f.file {
		pos, _ = f.in.Seek(0, io.SeekCurrent)
	}
	f.shown.Seek(0, io.SeekStart)
	b, err := ioutil.ReadAll(f.shown)
	if err != nil {
		fatal(err)
	}
	return vb(b), pos
}

func (f *promptFam) do(o *op) res {
	switch o.Op {
	case "text":
		var r string
		shown, pos := f.ask(func() { r = util.PromptText(string(o.B)) })
		return res{"r": vb(r), "shown": shown, "pos": pos}
	case "pass": // twice if flag
		var r []byte
		var err error
		shown, pos := f.ask(func() { r, err = util.PromptPassphrase(o.Flag) })
		return res{"r": vb(r), "err": err != nil, "shown": shown, "pos": pos}
	}
	harnessPanic("op %s", o.Op)
	return nil
}
