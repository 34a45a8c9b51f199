package main

import (
	"bytes"
	"encoding/json"

	"../collection"
	"../util"
)

func unjson(raw []byte, v interface{}) {
	if len(raw) == 0 {
		return
	}
	if err := json.Unmarshal(raw, v); err != nil {
		harnessPanic("%v in %s", err, raw)
	}
}

func sameSubs(a, b [][]byte) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !bytes.Equal(a[i], b[i]) {
			return false
		}
	}
	return true
}

func subs(k util.IKey) []vb {
	out := []vb{}
	if collection.IsNil(k) {
		return out
	}
	for _, s := range k.Key() {
		out = append(out, vb(append([]byte{}, s...)))
	}
	return out
}

// the bytes of any key, also of those the encoder refuses
func keyBytes(bb []vb) []byte {
	buf := util.EncodeUvarint64(uint64(len(bb)))
	for _, b := range bb {
		buf = append(buf, util.EncodeVarchar(b)...)
	}
	return buf
}

// a constructed key with empty sub keys, which Add refuses
func odd(bb []vb) *util.Key {
	if len(bb) == 1 {
		return util.NewSimpleKey(nil)
	}
	d, _, err := util.NewMappedKey(keyBytes(bb))
	if err != nil {
		panic("makeKey: the key does not decode: " + err.Error())
	}
	c, err := d.CopyConstruct()
	if err != nil {
		panic("makeKey: " + err.Error())
	}
	return c.(*util.Key)
}

// forms of a key: "c" constructed, "d" decoded from its encoding, "t" decoded
// from its encoding followed by other bytes, "e" empty (constructed if it has
// sub keys), "k" read-only copy of a decoded one, "m" modifiable copy of a
// decoded one, "s" constructed from one simple key, "n" constructed by string
func makeKey(bb []vb, form string) util.IKey {
	build := func() *util.Key {
		if len(bb) == 1 && form == "s" {
			return util.NewSimpleKey(bb[0].copy())
		} else if len(bb) == 1 && form == "n" {
			return util.NewStringKey(string(bb[0]))
		}
		k := util.NewKey()
		for _, b := range bb {
			if len(b) == 0 {
				return odd(bb)
			}
			k.Add(b.copy())
		}
		return k
	}
	switch form {
	case "e":
		if len(bb) == 0 {
			return util.NewEmptyKey()
		}
	case "d", "t", "k", "m":
		k := build()
		buf := []byte{}
		if err := k.Encode(nil); err == nil {
			buf = append(buf, k.Buf()...)
		} else { // too large for the encoder; it can be read all the same
			buf = keyBytes(bb)
		}
		if form == "t" {
			buf = append(buf, 0, 1, 7, 255)
		}
		d, _, err := util.NewMappedKey(buf)
		if err != nil {
			panic("makeKey: the encoded key does not decode: " + err.Error())
		}
		if form == "k" {
			return d.Copy().(util.IKey)
		} else if form == "m" {
			c, err := d.CopyConstruct()
			if err != nil {
				panic("makeKey: " + err.Error())
			}
			return c.(util.IKey)
		}
		return d
	}
	return build()
}

type keyFam struct {
	key util.IKey // the key encoded last
	enc []byte
}

func init() {
	families["keys"] = func(cfg *op) family { return &keyFam{} }
}

func (f *keyFam) do(o *op) res {
	switch o.Op {
	case "kcmp": // two keys in given forms
		a, b := makeKey(o.BB, o.Str), makeKey(o.CC, o.Str2)
		return res{"c": sign(a.Compare(b)), "eq": a.Equal(b),
			"c2": sign(b.Compare(a)), "eq2": b.Equal(a)}
	case "knil": // against nothing, and what is no key
		k := makeKey(o.BB, o.Str)
		var n util.IKey
		switch o.N {
		case 1:
			n = (*util.Key)(nil)
		case 2:
			n = (*util.MappedKey)(nil)
		case 3:
			n = (*util.EmptyKey)(nil)
		}
		return res{"c": sign(k.Compare(n)), "eq": k.Equal(n),
			"eqf": k.Equal(collection.NewHashableByteSlice(nil)) || k.Equal(collection.NewComparableSlice(nil)) || k.Equal(o.BB)}
	case "kenc":
		k := makeKey(o.BB, o.Str)
		if err := k.Encode(nil); err != nil {
			f.key, f.enc = nil, nil
			return res{"err": true}
		}
		f.key, f.enc = k, append([]byte{}, k.Buf()...)
		return res{"err": false, "b": vb(f.enc), "isenc": k.IsEncoded()}
	case "kdec": // decode what was encoded, followed by other bytes
		buf := append(append([]byte{}, f.enc...), o.B...)
		k, n, err := util.NewMappedKey(buf)
		if err != nil {
			return res{"err": true}
		}
		r := res{"err": false, "n": n, "key": subs(k), "buf": vb(k.Buf()), "empty": k.IsEmpty()}
		at := []vb{}
		for i := range k.Key() {
			at = append(at, vb(k.SubKeyAt(i)))
		}
		r["at"] = at
		r["eq"] = f.key.Equal(k) && k.Equal(f.key)
		r["c"] = []int{sign(f.key.Compare(k)), sign(k.Compare(f.key))}
		return r
	}
	harnessPanic("op %s", o.Op)
	return nil
}
