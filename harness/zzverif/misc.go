package main

import (
	"math/big"

	"../collection"
	"../util"
)

func init() {
	families["times"] = func(cfg *op) family { return &timesFam{} }
	families["ids"] = func(cfg *op) family { return &idsFam{} }
	families["varints"] = func(cfg *op) family { return &varFam{} }
	families["conv"] = func(cfg *op) family { return &convFam{} }
	families["b58"] = func(cfg *op) family { return &b58Fam{} }
	families["rand"] = func(cfg *op) family { return &randFam{} }
}

////////////////////////////////////////////////////////////////////////////////
// consensus times

type timesFam struct {
	enc []byte
}

// a field is two 16-bit limbs; one field makes a ledger time, three a raft time
func makeTime(ll [][]int, form string) util.IConsensusTime {
	var t util.IConsensusTime
	if len(ll) == 1 {
		t = util.NewLedgerTime(uint32(limbs(ll[0])))
	} else {
		t = util.NewRaftTime(uint32(limbs(ll[0])), uint32(limbs(ll[1])), uint32(limbs(ll[2])))
	}
	if form == "d" {
		d, err := util.NewConsensusTime(append(append([]byte{}, t.Buf()...), 9, 9))
		if err != nil {
			panic("encoded time does not decode: " + err.Error())
		}
		return d
	}
	return t
}

func kindOf(t util.IConsensusTime) string {
	switch t.(type) {
	case *util.LedgerTime:
		return "ledger"
	case *util.RaftTime:
		return "raft"
	}
	return "other"
}

func (f *timesFam) do(o *op) res {
	switch o.Op {
	case "tcmp":
		a, b := makeTime(o.LL, o.Str), makeTime(unLL(o.X), o.Str2)
		out := make([]int, 6)
		for i, g := range []func(util.IConsensusTime) (bool, error){a.GT, a.GE, a.EQ, a.NE, a.LT, a.LE} {
			r, err := g(b)
			switch {
			case err != nil:
				out[i] = 2
			case r:
				out[i] = 1
			}
		}
		return res{"r": out}
	case "tenc":
		t := makeTime(o.LL, o.Str)
		f.enc = append([]byte{}, t.Buf()...)
		return res{"b": vb(f.enc)}
	case "tdec": // the first n bytes of what was encoded (all if negative), then others
		buf := append([]byte{}, f.enc...)
		if o.N >= 0 {
			buf = buf[:o.N%len(buf)]
		}
		t, err := util.NewConsensusTime(append(buf, o.B...))
		if err != nil {
			return res{"err": true}
		}
		eq, err := t.EQ(makeTime(o.LL, "c"))
		return res{"err": false, "kind": kindOf(t), "eq": eq && err == nil, "buf": vb(t.Buf())}
	case "tbad":
		t, err := util.NewConsensusTime(o.B.copy())
		if err != nil {
			return res{"err": true}
		}
		return res{"err": false, "kind": kindOf(t), "buf": vb(t.Buf())}
	}
	harnessPanic("op %s", o.Op)
	return nil
}

////////////////////////////////////////////////////////////////////////////////
// consensus ids

type idsFam struct {
	buf []byte
	id  *util.MappedConsensusID
	cp  util.IConsensusID
}

func (f *idsFam) do(o *op) res {
	switch o.Op {
	case "idnew":
		f.buf = o.B.copy()
		id, err := util.NewMappedConsensusID(f.buf)
		if err != nil {
			f.id, f.cp = nil, nil
			return res{"err": true}
		}
		f.id, f.cp = id, nil
		return res{"err": false, "magic": int(id.ConsensusMagic()), "buf": vb(id.Buf())}
	case "idcopy": // copy, or copy of the copy
		if o.Flag && f.cp != nil {
			f.cp = f.cp.Copy()
		} else {
			f.cp = f.id.Copy()
		}
		return res{"magic": int(f.cp.ConsensusMagic()), "buf": vb(f.cp.Buf())}
	case "idscribble": // overwrite the bytes the id was made from
		for i := range f.buf {
			f.buf[i] ^= byte(o.N)
		}
	case "idread": // the copy, or the id itself
		var x util.IConsensusID = f.id
		if o.Flag {
			x = f.cp
		}
		return res{"magic": int(x.ConsensusMagic()), "buf": vb(append([]byte{}, x.Buf()...))}
	default:
		harnessPanic("op %s", o.Op)
	}
	return nil
}

////////////////////////////////////////////////////////////////////////////////
// variable-length items; an item is its kind and limbs, or bytes

type varItem struct {
	Kind string
	L    []int
	B    vb
}

func (f *varFam) encode(it *varItem) []byte {
	switch it.Kind {
	case "int":
		return util.EncodeVarint64(int64(limbs(it.L)))
	case "uint":
		return util.EncodeUvarint64(limbs(it.L))
	case "char", "smv":
		return util.EncodeVarchar(it.B.copy())
	case "nil":
		return util.EncodeVarchar(nil)
	}
	harnessPanic("kind %s", it.Kind)
	return nil
}

func (f *varFam) decode(kind string, buf []byte) (res, int, error) {
	switch kind {
	case "int":
		x, n, err := util.DecodeVarint64(buf)
		return res{"l": toLimbs(uint64(x), 4), "b": vb{}}, n, err
	case "uint":
		x, n, err := util.DecodeUvarint64(buf)
		return res{"l": toLimbs(x, 4), "b": vb{}}, n, err
	case "char", "nil":
		x, n, err := util.DecodeVarchar(buf)
		return res{"l": []int{}, "b": vb(append([]byte{}, x...))}, n, err
	case "smv": // as a simple mapped value, and its copies
		v, n, err := util.NewSimpleMappedValue(buf)
		if err != nil {
			return nil, n, err
		}
		c := v.Copy().(util.IValue)
		d, derr := v.CopyConstruct()
		same := derr == nil && string(c.Value()) == string(v.Value()) &&
			string(d.(util.IValue).Value()) == string(v.Value()) &&
			len(v.Buf()) == n && v.IsNil() == (len(v.Value()) == 0) && v.IsPrimitive()
		if !same {
			return res{"l": []int{-1}, "b": vb(v.Value())}, n, nil
		}
		return res{"l": []int{}, "b": vb(append([]byte{}, v.Value()...))}, n, err
	}
	harnessPanic("kind %s", kind)
	return nil, 0, nil
}

type varFam struct {
	enc   []byte
	kinds []string
}

func (f *varFam) do(o *op) res {
	switch o.Op {
	case "vseq": // encode a sequence of items
		var items []varItem
		unjson(o.X, &items)
		f.enc, f.kinds = nil, nil
		lens := []int{}
		parts := []vb{}
		for i := range items {
			b := f.encode(&items[i])
			f.enc = append(f.enc, b...)
			f.kinds = append(f.kinds, items[i].Kind)
			lens = append(lens, len(b))
			parts = append(parts, vb(b))
		}
		return res{"lens": lens, "parts": parts}
	case "vdec": // decode the sequence, followed by other bytes
		buf := append(append([]byte{}, f.enc...), o.B...)
		pos := 0
		items := []res{}
		ns := []int{}
		for _, k := range f.kinds {
			r, n, err := f.decode(k, buf[pos:])
			if err != nil {
				return res{"err": true, "ns": ns}
			}
			items = append(items, r)
			ns = append(ns, n)
			pos += n
			if pos > len(buf) || n < 0 {
				return res{"err": true, "ns": ns, "over": true}
			}
		}
		return res{"err": false, "items": items, "ns": ns}
	case "vbig": // a long byte string, described by its length
		b := make([]byte, o.N)
		for i := range b {
			b[i] = byte(i*7 + i>>8 + o.I)
		}
		enc := util.EncodeVarchar(b)
		head := len(enc) - len(b)
		if head < 0 {
			return res{"head": vb(enc)}
		}
		r := res{"head": vb(enc[:head]), "same": string(enc[head:]) == string(b)}
		buf := append(append(make([]byte, 0, len(enc)+len(o.B)), enc...), o.B...)
		var x []byte
		var n int
		var err error
		if o.Kind == "char" {
			x, n, err = util.DecodeVarchar(buf)
		} else {
			var v *util.SimpleMappedValue
			if v, n, err = util.NewSimpleMappedValue(buf); err == nil {
				x = v.Value()
			}
		}
		r["err"], r["used"], r["back"] = err != nil, n, string(x) == string(b)
		_, _, err = util.DecodeVarchar(enc[:len(enc)-1])
		r["cut"] = err != nil
		return r
	case "vone": // decode one item of given bytes
		r, n, err := f.decode(o.Kind, o.B.copy())
		if err != nil {
			return res{"err": true}
		}
		return res{"err": false, "item": r, "n": n}
	}
	harnessPanic("op %s", o.Op)
	return nil
}

////////////////////////////////////////////////////////////////////////////////
// conversions; numbers are their 16-bit limbs in two's complement

type convFam struct{}

func (f *convFam) do(o *op) res {
	switch o.Op {
	case "conv":
		x := limbs(o.L)
		switch o.Kind {
		case "int64":
			b := collection.Int64ToByteArray(int64(x))
			return res{"b": vb(b), "back": toLimbs(uint64(collection.ByteArrayToInt64(b)), 4)}
		case "int32":
			b := collection.Int32ToByteArray(int32(x))
			return res{"b": vb(b), "back": toLimbs(uint64(uint32(collection.ByteArrayToInt32(b))), 2)}
		case "uint32":
			b := collection.Uint32ToByteArray(uint32(x))
			return res{"b": vb(b), "back": toLimbs(uint64(collection.ByteArrayToUint32(b)), 2)}
		case "time":
			t := collection.Int64ToTime(int64(x))
			b := collection.TimeToBytes(t)
			u, err := collection.BytesToTime(append(append([]byte{}, b...), o.B...))
			if err != nil {
				return res{"b": vb(b), "back": []int{}}
			}
			return res{"b": vb(b), "back": toLimbs(uint64(u.UnixNano()), 4)}
		case "big":
			raw := make([]byte, 0, 32)
			for _, l := range o.L {
				raw = append(raw, byte(l>>8), byte(l))
			}
			b := collection.BigIntToByteArray(new(big.Int).SetBytes(raw))
			y := collection.ByteArrayToBigInt(b)
			back := make([]int, 16)
			if y.BitLen() <= 256 && y.Sign() >= 0 {
				z := make([]byte, 32)
				y.FillBytes(z)
				for i := range back {
					back[i] = int(z[2*i])<<8 | int(z[2*i+1])
				}
			} else {
				back = []int{}
			}
			return res{"b": vb(b), "back": back}
		}
	case "btime": // a time of given bytes
		t, err := collection.BytesToTime(o.B.copy())
		if err != nil {
			return res{"err": true}
		}
		return res{"err": false, "back": toLimbs(uint64(t.UnixNano()), 4)}
	}
	harnessPanic("op %s %s", o.Op, o.Kind)
	return nil
}

////////////////////////////////////////////////////////////////////////////////
// base58

type b58Fam struct{}

func (f *b58Fam) do(o *op) res {
	switch o.Op {
	case "b58enc":
		s := util.Base58Encode(o.B.copy())
		d := util.Base58Decode(s)
		return res{"s": vb([]byte(s)), "nil": d == nil, "d": vb(append([]byte{}, d...))}
	case "b58dec": // a text given as bytes
		d := util.Base58Decode(string(o.B))
		r := res{"nil": d == nil, "d": vb(append([]byte{}, d...)), "again": vb{}}
		if d != nil {
			r["again"] = vb([]byte(util.Base58Encode(d)))
		}
		return r
	}
	harnessPanic("op %s", o.Op)
	return nil
}

////////////////////////////////////////////////////////////////////////////////
// bounded random numbers; bounds and results in offset binary limbs

type randFam struct{}

// signed numbers in offset binary
func anyDraw(kind string) uint64 {
	switch kind {
	case "int8":
		return uint64(uint8(util.RandInt8())) ^ 1<<7
	case "uint8":
		return uint64(util.RandUint8())
	case "int16":
		return uint64(uint16(util.RandInt16())) ^ 1<<15
	case "uint16":
		return uint64(util.RandUint16())
	case "int32":
		return uint64(uint32(util.RandInt32())) ^ 1<<31
	case "uint32":
		return uint64(util.RandUint32())
	case "int64":
		return uint64(util.RandInt64()) ^ 1<<63
	case "uint64":
		return util.RandUint64()
	}
	harnessPanic("kind %s", kind)
	return 0
}

func (f *randFam) do(o *op) res {
	lo, hi := limbs(o.L), limbs(o.L2)
	if o.Op == "any" { // draws without bounds
		n := map[string]int{"int8": 1, "uint8": 1, "int16": 1, "uint16": 1, "int32": 2, "uint32": 2, "int64": 4, "uint64": 4}[o.Kind]
		seen := map[uint64]bool{}
		some := [][]int{}
		bytes := new(byteValues)
		for i := 0; i < o.N; i++ {
			x := anyDraw(o.Kind)
			if i < 200 {
				some = append(some, toLimbs(x, n))
			}
			seen[x] = true
			bytes.see(x)
		}
		return res{"distinct": len(seen), "some": some, "bytes": bytes.counts(n)}
	}
	draw := func() uint64 {
		switch o.Kind {
		case "int8":
			return uint64(uint8(util.RandInt8Range(int8(lo-1<<7), int8(hi-1<<7)))) ^ 1<<7
		case "uint8":
			return uint64(util.RandUint8Range(uint8(lo), uint8(hi)))
		case "int16":
			return uint64(uint16(util.RandInt16Range(int16(lo-1<<15), int16(hi-1<<15)))) ^ 1<<15
		case "uint16":
			return uint64(util.RandUint16Range(uint16(lo), uint16(hi)))
		case "int32":
			return uint64(uint32(util.RandInt32Range(int32(lo-1<<31), int32(hi-1<<31)))) ^ 1<<31
		case "uint32":
			return uint64(util.RandUint32Range(uint32(lo), uint32(hi)))
		case "int64":
			return uint64(util.RandInt64Range(int64(lo-1<<63), int64(hi-1<<63))) ^ 1<<63
		case "uint64":
			return util.RandUint64Range(lo, hi)
		}
		harnessPanic("kind %s", o.Kind)
		return 0
	}
	n := len(o.L)
	switch o.Op {
	case "draw": // the different numbers drawn in n calls, lowest and highest
		seen := map[uint64]bool{}
		min, max := draw(), uint64(0)
		max = min
		seen[min] = true
		some := [][]int{toLimbs(min, n)}
		bytes := new(byteValues)
		bytes.see(min)
		for i := 1; i < o.N; i++ {
			x := draw()
			if i < 200 {
				some = append(some, toLimbs(x, n))
			}
			if x < min {
				min = x
			}
			if x > max {
				max = x
			}
			if len(seen) < 4096 {
				seen[x] = true
			}
			bytes.see(x)
		}
		return res{"min": toLimbs(min, n), "max": toLimbs(max, n), "distinct": len(seen), "some": some, "bytes": bytes.counts(n)}
	}
	harnessPanic("op %s", o.Op)
	return nil
}

// the values met at each byte of a number
type byteValues [8][256]bool

func (v *byteValues) see(x uint64) {
	for i := range v {
		v[i][byte(x>>uint(8*i))] = true
	}
}

// how many they are, the lowest byte first, for numbers of n limbs
func (v *byteValues) counts(n int) []int {
	r := make([]int, 2*n)
	for i := range r {
		for _, met := range v[i] {
			if met {
				r[i]++
			}
		}
	}
	return r
}
