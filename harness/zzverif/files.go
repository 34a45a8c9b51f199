package main

import (
	"crypto/elliptic"
	"encoding/json"
	"io/ioutil"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"../collection"
	"../util"
)

func init() {
	families["keyfiles"] = func(cfg *op) family { return &keyFilesFam{} }
	families["digests"] = func(cfg *op) family { return &digestFam{} }
	families["small"] = func(cfg *op) family { return &smallFam{} }
}

////////////////////////////////////////////////////////////////////////////////
// the texts of key files; i is the class, str the id

type keyFilesFam struct{ storeFam }

// folder of all classes, in the scratch folder
func etcRoot() string {
	dir := filepath.Dir(filepath.Clean(util.LCGetEtcDir(1)))
	if root := os.Getenv("VF_DIR"); root == "" || !strings.HasPrefix(dir, root+"/") {
		harnessPanic("key store outside the scratch folder: %s", dir)
	}
	return dir
}

func filesOf(dir string) []string {
	var res []string
	filepath.Walk(dir, func(p string, i os.FileInfo, err error) error {
		if err == nil && i.Mode().IsRegular() {
			res = append(res, p)
		}
		return nil
	})
	sort.Strings(res)
	return res
}

func (f *keyFilesFam) do(o *op) res {
	switch o.Op {
	case "fsave": // private key b, secret c; what was written where
		root := etcRoot()
		var mine []string
		x, err := f.save(o)
		if err != nil {
			return res{"err": true}
		}
		for _, p := range filesOf(root) {
			if strings.Contains(p, "/"+o.Str+"/") {
				mine = append(mine, p)
			}
		}
		r := res{"err": false, "x32": vb(x), "pub": vb{}, "priv": vb{}, "pubpath": []string{}, "privpath": []string{}, "closed": false, "files": len(mine)}
		for _, p := range mine {
			parts := strings.Split(strings.TrimPrefix(p, root+"/"), "/")
			if strings.HasSuffix(p, ".pub") {
				r["pub"], r["pubpath"] = vb(fileBytes(p)), parts
			} else {
				r["priv"], r["privpath"] = vb(fileBytes(p)), parts
				st, err := os.Stat(p)
				r["closed"] = err == nil && st.Mode().Perm()&0077 == 0
			}
		}
		return r
	case "fmany": // the same key saved n times; the private file after each
		root := etcRoot()
		var x []byte
		var all []vb
		for k := 0; k < o.N; k++ {
			var err error
			if x, err = f.save(o); err != nil {
				return res{"err": true}
			}
			for _, p := range filesOf(root) {
				if strings.Contains(p, "/"+o.Str+"/") && !strings.HasSuffix(p, ".pub") {
					all = append(all, vb(fileBytes(p)))
				}
			}
		}
		r := res{"err": false, "x32": vb(x), "pub": vb{}, "all": all}
		for _, p := range filesOf(root) {
			if strings.Contains(p, "/"+o.Str+"/") && strings.HasSuffix(p, ".pub") {
				r["pub"] = vb(fileBytes(p))
			}
		}
		return r
	case "fput": // the files of folder x, named y, with the texts b and c
		var class, name string
		unjson(o.X, &class)
		unjson(o.Y, &name)
		dir := etcRoot() + "/" + class + "/" + o.Str
		if err := os.MkdirAll(dir, 0755); err != nil {
			fatal(err)
		}
		if err := ioutil.WriteFile(dir+"/"+name+".pub", o.B, 0644); err != nil {
			fatal(err)
		}
		if err := ioutil.WriteFile(dir+"/"+name, o.C, 0600); err != nil {
			fatal(err)
		}
		return nil
	case "loadpub", "loadpriv":
		return f.storeFam.do(o)
	}
	harnessPanic("op %s", o.Op)
	return nil
}

////////////////////////////////////////////////////////////////////////////////
// digests

type digestFam struct{}

func (f *digestFam) do(o *op) res {
	b := o.B.copy()
	if o.N > 0 { // long content: a pattern of n bytes
		b = make([]byte, o.N)
		for k := range b {
			b[k] = byte(o.I + o.J*(k+1) + (k+1)/256)
		}
	}
	was := string(b)
	var r []byte
	switch o.Op {
	case "sha256":
		r = util.SumSHA256(b)
	case "sha256d":
		r = util.SumSHA256d(b)
	case "md5":
		r = util.SumMD5(b)
	case "pad":
		r = util.AESPad(b)
	default:
		harnessPanic("op %s", o.Op)
	}
	return res{"d": vb(append([]byte{}, r...)), "kept": string(b) == was}
}

////////////////////////////////////////////////////////////////////////////////
// minima, maxima, choice, nil

type smallFam struct{}

type emptyStruct struct{}
type numbers [3]int

func (f *smallFam) do(o *op) res {
	switch o.Op {
	case "minmax": // numbers in two's complement limbs
		a, b := limbs(o.L), limbs(o.L2)
		n := len(o.L)
		var lo, hi uint64
		switch o.Kind {
		case "int":
			lo, hi = uint64(collection.MinInt(int(a), int(b))), uint64(collection.MaxInt(int(a), int(b)))
		case "uint": // of ints
			lo, hi = uint64(collection.MinUnt(int(a), int(b))), uint64(collection.MaxUint(int(a), int(b)))
		case "int8":
			lo, hi = uint64(uint8(collection.MinInt8(int8(a), int8(b)))), uint64(uint8(collection.MaxInt8(int8(a), int8(b))))
		case "uint8":
			lo, hi = uint64(collection.MinUnt8(uint8(a), uint8(b))), uint64(collection.MaxUint8(uint8(a), uint8(b)))
		case "int16":
			lo, hi = uint64(uint16(collection.MinInt16(int16(a), int16(b)))), uint64(uint16(collection.MaxInt16(int16(a), int16(b))))
		case "uint16":
			lo, hi = uint64(collection.MinUnt16(uint16(a), uint16(b))), uint64(collection.MaxUint16(uint16(a), uint16(b)))
		case "int32":
			lo, hi = uint64(uint32(collection.MinInt32(int32(a), int32(b)))), uint64(uint32(collection.MaxInt32(int32(a), int32(b))))
		case "uint32":
			lo, hi = uint64(collection.MinUint32(uint32(a), uint32(b))), uint64(collection.MaxUint32(uint32(a), uint32(b)))
		case "int64":
			lo, hi = uint64(collection.MinInt64(int64(a), int64(b))), uint64(collection.MaxInt64(int64(a), int64(b)))
		case "uint64":
			lo, hi = collection.MinUint64(a, b), collection.MaxUint64(a, b)
		default:
			harnessPanic("kind %s", o.Kind)
		}
		return res{"lo": toLimbs(lo, n), "hi": toLimbs(hi, n)}
	case "ternary":
		x, ok := util.Ternary(o.Flag, o.I, o.J).(int)
		return res{"r": x, "int": ok}
	case "isnil":
		var (
			p   *int
			q   **int
			m   map[string]int
			s   []int
			c   chan int
			key *util.Key
			ik  util.IKey
			mk  *util.MappedKey
			fn  func()
			i   = 0
		)
		var v interface{}
		switch o.Kind {
		case "nil":
		case "nil pointer":
			v = p
		case "nil pointer to pointer":
			v = q
		case "nil map":
			v = m
		case "nil slice":
			v = s
		case "nil bytes":
			v = []byte(nil)
		case "nil channel":
			v = c
		case "nil object":
			v = key
		case "nil interface":
			v = ik
		case "nil object as interface":
			ik = mk
			v = ik
		case "pointer":
			v = &i
		case "pointer to nil":
			v = &p
		case "map":
			v = map[string]int{}
		case "slice":
			v = []int{}
		case "bytes":
			v = []byte{}
		case "channel":
			v = make(chan int)
		case "object":
			v = util.NewKey()
		case "function":
			v = func() {}
		case "function value":
			fn = func() {}
			v = fn
		case "array":
			v = [3]int{}
		case "empty array":
			v = [0]byte{}
		case "array of pointers":
			v = [2]*int{}
		case "named array":
			v = numbers{}
		case "pointer to array":
			v = &numbers{}
		case "nil pointer to array":
			v = (*numbers)(nil)
		case "int":
			v = 0
		case "string":
			v = ""
		case "bool":
			v = false
		case "float":
			v = 0.0
		case "struct":
			v = emptyStruct{}
		case "struct pointer":
			v = &emptyStruct{}
		case "curve":
			v = elliptic.P256()
		case "raw":
			v = json.RawMessage{}
		case "nil raw":
			v = json.RawMessage(nil)
		default:
			harnessPanic("kind %s", o.Kind)
		}
		return res{"r": collection.IsNil(v)}
	}
	harnessPanic("op %s", o.Op)
	return nil
}
