package main

import (
	"bytes"
	"crypto/ecdsa"
	"crypto/elliptic"
	"io/ioutil"
	"math/big"
	"os"
	"path/filepath"
	"strings"

	"../util"
)

func init() {
	families["sign"] = func(cfg *op) family {
		return &signFam{keys: map[int]*ecdsa.PrivateKey{}, r: map[int]*big.Int{}, s: map[int]*big.Int{}}
	}
	families["store"] = func(cfg *op) family { return &storeFam{} }
}

func bytes32(x *big.Int) vb {
	if x == nil || x.Sign() < 0 || x.BitLen() > 256 {
		return vb{}
	}
	b := make([]byte, 32)
	x.FillBytes(b)
	return vb(b)
}

////////////////////////////////////////////////////////////////////////////////
// signatures

type signFam struct {
	keys map[int]*ecdsa.PrivateKey
	r, s map[int]*big.Int
}

func (f *signFam) do(o *op) res {
	N := elliptic.P256().Params().N
	switch o.Op {
	case "gen": // a new key in slot s
		k := util.ECDSAGenerateKey()
		f.keys[o.S] = k
		return res{"d": bytes32(k.D), "x": bytes32(k.X)}
	case "reload": // the private key of its stored bytes, and the public one of its stored X
		k := f.keys[o.S]
		var d, x []byte
		if o.Flag { // fixed width or shortest
			d, x = bytes32(k.D), bytes32(k.X)
		} else {
			d, x = k.D.Bytes(), k.X.Bytes()
		}
		k = util.ECDSAGetPrivateKey(d)
		p := util.ECDSAGetPublicKey(x)
		f.keys[o.S] = k
		return res{"d": bytes32(k.D), "x": bytes32(k.X), "px": bytes32(p.X),
			"pub": p.Y != nil && elliptic.P256().IsOnCurve(p.X, p.Y)}
	case "sign": // digest b with the key in slot s, into signature slot n
		r, s, err := util.ECDSASign(f.keys[o.S], o.B.copy())
		if err != nil {
			return res{"err": true}
		}
		f.r[o.N], f.s[o.N] = r, s
		return res{"err": false}
	case "verify": // signature n altered by kind, digest b, key of slot s; by its own public key or one made of X
		pub := &f.keys[o.S].PublicKey
		if o.Str == "x" {
			pub = util.ECDSAGetPublicKey(bytes32(pub.X))
		} else if o.Str == "xs" {
			pub = util.ECDSAGetPublicKey(pub.X.Bytes())
		}
		r, s := new(big.Int).Set(f.r[o.N]), new(big.Int).Set(f.s[o.N])
		one := big.NewInt(1)
		switch o.Kind {
		case "none":
		case "swap":
			r, s = s, r
		case "r+":
			r.Add(r, one)
		case "r-":
			r.Sub(r, one)
		case "s+":
			s.Add(s, one)
		case "s-":
			s.Sub(s, one)
		case "r0":
			r.SetInt64(0)
		case "s0":
			s.SetInt64(0)
		case "rs0":
			r.SetInt64(0)
			s.SetInt64(0)
		case "rnil":
			r = nil
		case "snil":
			s = nil
		case "nil":
			r, s = nil, nil
		case "rneg":
			r.Neg(r)
		case "sneg":
			s.Neg(s)
		case "rN":
			r.Add(r, N)
		case "sN":
			s.Add(s, N)
		case "rbit":
			r.SetBit(r, o.I, 1-r.Bit(o.I))
		case "sbit":
			s.SetBit(s, o.I, 1-s.Bit(o.I))
		default:
			harnessPanic("kind %s", o.Kind)
		}
		return res{"v": util.ECDSAVerify(pub, o.B.copy(), r, s)}
	case "stray": // a public key made of bytes c
		pub := util.ECDSAGetPublicKey(o.C.copy())
		r, s := f.r[o.N], f.s[o.N]
		if o.Flag {
			r, s = nil, nil
		}
		return res{"v": util.ECDSAVerify(pub, o.B.copy(), r, s)}
	}
	harnessPanic("op %s", o.Op)
	return nil
}

////////////////////////////////////////////////////////////////////////////////
// key store; i is the class, str the id

type storeFam struct{}

// the public or private file of a place, "" if there is none (in the scratch folder)
func keyFile(cls int, id string, public bool) string {
	dir := filepath.Clean(util.LCGetEtcDir(cls) + "/" + id)
	root := os.Getenv("VF_DIR")
	if root == "" || !strings.HasPrefix(dir, root+"/") {
		return ""
	}
	files, err := ioutil.ReadDir(dir)
	if err != nil {
		return ""
	}
	for _, f := range files {
		if f.Mode().IsRegular() && strings.HasSuffix(f.Name(), ".pub") == public {
			return dir + "/" + f.Name()
		}
	}
	return ""
}

func fileBytes(name string) []byte {
	if name == "" {
		return nil
	}
	b, err := ioutil.ReadFile(name)
	if err != nil {
		return nil
	}
	return b
}

func (f *storeFam) save(o *op) ([]byte, error) {
	d := new(big.Int).SetBytes(o.B)
	x, _ := elliptic.P256().ScalarBaseMult(o.B)
	return bytes32(x), util.LCSaveKeyPair(o.I, o.Str, x, d, o.C.copy())
}

// the name of the public or private file of a class
func (f *storeFam) fileName(cls int, public bool) string {
	probe := &op{I: cls, Str: "zz-probe", B: vb{5}, C: make(vb, 16)}
	for i := 0; i < 2; i++ {
		if name := keyFile(cls, probe.Str, public); name != "" {
			return filepath.Base(name)
		}
		f.save(probe)
	}
	if public {
		return "none.pub" // such a store loses every key
	}
	return "none"
}

func (f *storeFam) do(o *op) res {
	switch o.Op {
	case "save": // private key b, secret c
		x, err := f.save(o)
		return res{"x32": vb(x), "err": err != nil}
	case "loadpub":
		k, err := util.LCLoadPubKey(o.I, o.Str)
		if err != nil {
			return res{"err": true}
		}
		return res{"err": false, "x32": bytes32(k.X), "y": k.Y != nil && elliptic.P256().IsOnCurve(k.X, k.Y)}
	case "loadpriv":
		k, err := util.LCLoadPrivKey(o.I, o.Str, o.C.copy())
		if err != nil {
			return res{"err": true}
		}
		d := bytes32(k.D)
		x, y := elliptic.P256().ScalarBaseMult(d)
		return res{"err": false, "d": d, "own": k.X.Cmp(x) == 0 && k.Y.Cmp(y) == 0}
	case "exist":
		return res{"pub": util.LCExistPubKey(o.I, o.Str), "priv": util.LCExistPrivKey(o.I, o.Str)}
	case "harm": // the public file if flag: by kind, at n
		name := keyFile(o.I, o.Str, o.Flag)
		if name == "" {
			return res{"there": false, "changed": false}
		}
		old := fileBytes(name)
		b := append([]byte{}, old...)
		at := 0
		if len(b) > 0 {
			at = o.N % len(b)
		}
		switch o.Kind {
		case "cut": // keep the first bytes
			b = b[:at]
		case "char": // another hexadecimal digit
			if len(b) > 0 {
				const hex = "0123456789ABCDEF"
				c := hex[o.J%16]
				if strings.EqualFold(string(c), string(b[at])) {
					c = hex[(o.J+1)%16]
				}
				b[at] = c
			}
		case "other": // not a hexadecimal digit
			if len(b) > 0 {
				b[at] = "G \n\x00z"[o.J%5]
			}
		case "drop": // two digits
			if len(b) > 2 {
				at -= at % 2
				if at+2 > len(b) {
					at -= 2
				}
				b = append(b[:at], b[at+2:]...)
			}
		case "insert": // two digits
			b = append(b[:at:at], append([]byte("5A"), b[at:]...)...)
		case "append":
			b = append(b, "00"...)
		case "swap": // neighbouring bytes of the key
			at -= at % 2
			if at+3 < len(b) {
				b[at], b[at+1], b[at+2], b[at+3] = b[at+2], b[at+3], b[at], b[at+1]
			}
		case "blank": // nothing, with its own check sum
			b = []byte("00000000")
		case "zero": // everything
			for i := range b {
				b[i] = '0'
			}
		default:
			harnessPanic("kind %s", o.Kind)
		}
		if err := ioutil.WriteFile(name, b, 0600); err != nil {
			fatal(err)
		}
		return res{"there": true, "changed": !bytes.EqualFold(b, old)}
	case "rm":
		if name := keyFile(o.I, o.Str, o.Flag); name != "" {
			os.Remove(name)
		}
		return nil
	case "block": // a folder in place of the public or private file, or a file in place of the folder of both
		dir := filepath.Clean(util.LCGetEtcDir(o.I) + "/" + o.Str)
		root := os.Getenv("VF_DIR")
		if root == "" || !strings.HasPrefix(dir, root+"/") {
			harnessPanic("no scratch folder")
		}
		pub, priv := dir+"/"+f.fileName(o.I, true), dir+"/"+f.fileName(o.I, false)
		must := func(err error) {
			if err != nil {
				fatal(err)
			}
		}
		free := func(name string) {
			if i, err := os.Lstat(name); err == nil && i.IsDir() {
				must(os.Remove(name))
			}
		}
		if i, err := os.Lstat(dir); err == nil && !i.IsDir() {
			if o.Kind == "both" {
				return nil
			}
			must(os.Remove(dir))
		}
		switch o.Kind {
		case "pub", "priv":
			name := pub
			if o.Kind == "priv" {
				name = priv
			}
			if i, err := os.Lstat(name); err == nil && !i.IsDir() {
				must(os.Remove(name))
			}
			must(os.MkdirAll(name, 0755))
		case "both":
			free(pub)
			free(priv)
			must(os.RemoveAll(dir))
			must(os.MkdirAll(filepath.Dir(dir), 0755))
			must(ioutil.WriteFile(dir, []byte("x"), 0644))
		case "free":
			free(pub)
			free(priv)
		default:
			harnessPanic("kind %s", o.Kind)
		}
		return nil
	case "crash": // a save, of whose private file n and public file m characters arrived
		oldPriv, oldPub := fileBytes(keyFile(o.I, o.Str, false)), fileBytes(keyFile(o.I, o.Str, true))
		x, err := f.save(o)
		for _, p := range []struct {
			public bool
			old    []byte
			n      int
		}{{false, oldPriv, o.N}, {true, oldPub, o.M}} {
			name := keyFile(o.I, o.Str, p.public)
			if name == "" || p.n == -2 {
				continue
			}
			if p.n == -1 && p.old == nil {
				os.Remove(name)
				continue
			}
			b := p.old
			if p.n >= 0 {
				b = fileBytes(name)
				if len(b) > 0 {
					b = b[:p.n%len(b)]
				}
			}
			if err := ioutil.WriteFile(name, b, 0600); err != nil {
				fatal(err)
			}
		}
		return res{"x32": vb(x), "err": err != nil}
	}
	harnessPanic("op %s", o.Op)
	return nil
}
