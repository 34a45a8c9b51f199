package main

import (
	"crypto/md5"
	"encoding/hex"
	"io"
	"io/ioutil"
	"math/big"
	"os"
	"os/exec"
	"strings"
	"sync"
	"syscall"
	"time"

	"../util"
)

func init() {
	families["keygen"] = func(cfg *op) family {
		root := etcRoot()
		for _, c := range classes {
			if err := os.RemoveAll(root + "/" + c); err != nil {
				fatal(err)
			}
		}
		os.MkdirAll(root, 0755)
		os.Chmod(root, 0777)
		return &keygenFam{}
	}
}

var classes = []string{"node", "cluster", "universe", "service", "federation"}

// the key generator, run from the command line; i is the class
type keygenFam struct {
	made []struct {
		class int
		name  string
	}
}

func classDir(i int) string {
	return etcRoot() + "/" + classes[i-1]
}

// what is in the folders of all classes: class, name, kind, X, digest of the files
func (f *keygenFam) list() [][]interface{} {
	out := [][]interface{}{}
	for i := 1; i <= 5; i++ {
		files, err := ioutil.ReadDir(classDir(i))
		if err != nil {
			continue
		}
		for _, st := range files {
			kind, x, sum := "other", vb{}, ""
			p := classDir(i) + "/" + st.Name()
			if st.Mode()&os.ModeSymlink != 0 {
				kind = "link"
			} else if st.IsDir() {
				kind = "key"
			}
			if kind != "other" {
				if k, err := util.LCLoadPubKey(i, st.Name()); err == nil {
					x = bytes32(k.X)
				}
				h := md5.New()
				for _, q := range filesOf(p + "/") {
					h.Write([]byte(q[strings.LastIndex(q, "/"):]))
					h.Write(fileBytes(q))
				}
				sum = hex.EncodeToString(h.Sum(nil))
			}
			out = append(out, []interface{}{i, st.Name(), kind, x, sum})
		}
	}
	return out
}

// runs the generator, answering its questions, or those expected before it asks
func runGenerator(args []string, ahead []byte, answer string, pass ...[]byte) (code int, asked, hung bool) {
	cmd := exec.Command(os.Getenv("VF_PKEYGEN"), args...)
	cmd.Dir = os.Getenv("VF_DIR")
	cmd.Env = []string{"HOME=" + cmd.Dir}
	if os.Geteuid() == 0 && os.Getenv("VF_ASROOT") == "" {
		cmd.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: 65534, Gid: 65534}}
	}
	in, err := cmd.StdinPipe()
	if err != nil {
		fatal(err)
	}
	outp, err := cmd.StdoutPipe()
	if err != nil {
		fatal(err)
	}
	if err := cmd.Start(); err != nil {
		if cmd.SysProcAttr != nil {
			os.Setenv("VF_ASROOT", "1")
			return runGenerator(args, ahead, answer, pass...)
		}
		fatal(err)
	}
	timer := time.AfterFunc(15*time.Second, func() { hung = true; cmd.Process.Kill() })
	var mu sync.Mutex
	wrote := false
	seen := ""
	buf := make([]byte, 4096)
	if ahead != nil {
		in.Write(ahead)
		in.Close()
	}
	for {
		n, err := outp.Read(buf)
		mu.Lock()
		seen += strings.ToLower(string(buf[:n]))
		if !wrote {
			if ahead != nil && (strings.Contains(seen, "overwrite") || strings.Contains(seen, "y/n")) {
				asked = true
			}
			if strings.Contains(seen, "passphrase") {
				for _, p := range pass {
					if ahead != nil {
						break
					}
					in.Write(append(append([]byte{}, p...), '\n'))
				}
				in.Close()
				wrote = true
			} else if !asked && (strings.Contains(seen, "overwrite") || strings.Contains(seen, "y/n")) {
				asked = true
				if ahead == nil {
					io.WriteString(in, answer+"\n")
				}
			}
		}
		mu.Unlock()
		if err != nil {
			break
		}
	}
	if !wrote {
		in.Close()
	}
	err = cmd.Wait()
	timer.Stop()
	if err != nil {
		code = 1
	}
	return code, asked, hung
}

// calls f with the text as standard input
func typed(text []byte, f func()) {
	r, w, err := os.Pipe()
	if err != nil {
		fatal(err)
	}
	go func() { w.Write(append(append([]byte{}, text...), '\n')); w.Close() }()
	oldIn, oldOut := os.Stdin, os.Stdout
	null, err := os.OpenFile("/dev/null", os.O_WRONLY, 0)
	if err != nil {
		fatal(err)
	}
	os.Stdin, os.Stdout = r, null
	defer func() {
		os.Stdin, os.Stdout = oldIn, oldOut
		null.Close()
		r.Close()
	}()
	f()
}

func (f *keygenFam) do(o *op) res {
	switch o.Op {
	case "pkeygen": // alias str (@1 is the name of the first key made), force flag, passphrases b and c, answer str2
		alias := o.Str
		if strings.HasPrefix(alias, "@") {
			n := int(alias[1] - '1')
			if n < len(f.made) {
				alias = f.made[n].name
			} else {
				alias = "later" + alias[1:]
			}
		}
		old := f.list()
		args := []string{"-class", classes[o.I-1]}
		if alias != "" {
			args = append(args, "-alias", alias)
		}
		if o.Flag {
			args = append(args, "-force")
		}
		var ahead []byte
		if o.Set {
			ahead = []byte{}
			if _, err := os.Lstat(classDir(o.I) + "/" + alias); alias != "" && !o.Flag && err == nil {
				ahead = append(ahead, o.Str2+"\n"...)
			}
			ahead = append(append(append(append(ahead, o.B...), '\n'), o.C...), '\n')
		}
		code, asked, hung := runGenerator(args, ahead, o.Str2, o.B, o.C)
		if hung {
			return res{"code": -1, "asked": asked, "alias": alias, "list": []int{}}
		}
		list := f.list()
		for _, e := range list {
			is := false
			for _, p := range old {
				is = is || p[0] == e[0] && p[1] == e[1]
			}
			if !is && e[2] == "key" {
				f.made = append(f.made, struct {
					class int
					name  string
				}{e[0].(int), e[1].(string)})
			}
		}
		return res{"code": code, "asked": asked, "alias": alias, "list": list}
	case "usage": // arguments x
		var args []string
		unjson(o.X, &args)
		code, _, hung := runGenerator(args, nil, "y", o.B, o.C)
		if hung {
			code = 0
		}
		return res{"code": code, "list": f.list()}
	case "gload", "promptload": // the n-th key, with secret c, or with passphrase b
		if o.N > len(f.made) {
			return res{"none": true}
		}
		m := f.made[o.N-1]
		var x vb
		failed := true
		if o.Op == "gload" {
			if k, err := util.LCLoadPrivKey(m.class, m.name, o.C.copy()); err == nil {
				x, failed = bytes32(k.X), false
			}
		} else {
			typed(o.B, func() {
				if k, err := util.LCLoadPrivKeyPrompt(m.class, m.name); err == nil {
					x, failed = bytes32(k.X), false
				}
			})
		}
		if failed {
			return res{"none": false, "err": true}
		}
		return res{"none": false, "err": false, "x32": x}
	case "promptsave": // private key b under str with passphrase c
		d := new(big.Int).SetBytes(o.B)
		k := util.ECDSAGetPrivateKey(o.B)
		var err error
		typed(o.C, func() { err = util.LCSaveKeyPairPrompt(o.I, o.Str, k.X, d) })
		return res{"err": err != nil, "x32": bytes32(k.X), "list": f.list()}
	case "promptback":
		r := res{"err": true}
		typed(o.D, func() {
			if k, err := util.LCLoadPrivKeyPrompt(o.I, o.Str); err == nil {
				r = res{"err": false, "d32": bytes32(k.D)}
			}
		})
		return r
	case "gremove": // the folder of the n-th key
		none := true
		if o.N <= len(f.made) {
			m := f.made[o.N-1]
			p := classDir(m.class) + "/" + m.name
			if st, err := os.Lstat(p); err == nil && st.IsDir() && m.name != "" && !strings.Contains(m.name, "/") {
				none = false
				if err := os.RemoveAll(p); err != nil {
					fatal(err)
				}
			}
		}
		return res{"none": none, "list": f.list()}
	case "gother": // a file named str
		p := classDir(o.I) + "/" + o.Str
		none := true
		if _, err := os.Lstat(p); err != nil {
			none = false
			os.MkdirAll(classDir(o.I), 0755)
			os.Chmod(classDir(o.I), 0777)
			if err := ioutil.WriteFile(p, []byte("other"), 0644); err != nil {
				fatal(err)
			}
		}
		return res{"none": none, "list": f.list()}
	}
	harnessPanic("op %s", o.Op)
	return nil
}
