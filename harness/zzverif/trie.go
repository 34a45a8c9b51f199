package main

import (
	"../collection"
	"../util"
)

// what constructed and decoded tries have in common
type anyTrie interface {
	Get(util.IKey) util.IValue
	Iterator() util.ITrieIterator
	KeyIterator(util.IKey) util.ITrieIterator
	RangeIterator(start, end util.IKey) util.ITrieIterator
}

type trieFam struct {
	t    *util.Trie
	slot map[int]anyTrie
	it   map[int]util.ITrieIterator
	enc  []byte
}

func init() {
	families["trie"] = func(cfg *op) family {
		t := util.NewTrie()
		return &trieFam{t: t, slot: map[int]anyTrie{0: t}, it: map[int]util.ITrieIterator{}}
	}
}

func entry(k util.IKey, v util.IValue) res {
	if collection.IsNil(k) {
		return res{"rk": [][]int{{-1}}, "rv": readVal(v)}
	}
	return res{"rk": subs(k), "rv": readVal(v)}
}

// a value built, encoded and decoded if the form says so
func makeValue(v *valT, form int) util.IValue {
	f := &former{form / 3}
	out := buildVal(v, f)
	if form%3 == 0 {
		if err := out.Encode(nil); err == nil {
			buf := append(append([]byte{}, out.Buf()...), 1, 2)
			d, _, err := util.NewStandardMappedValue(buf)
			if err != nil {
				panic("makeValue: the encoded value does not decode: " + err.Error())
			}
			return d
		}
	}
	return out
}

func (f *trieFam) do(o *op) res {
	switch o.Op {
	case "set": // flag: set Go's nil
		k := makeKey(o.BB, o.Str)
		var v util.IValue
		if !o.Flag {
			x := &valT{}
			unjson(o.X, x)
			v = makeValue(x, o.N)
		}
		return res{"r": readVal(f.t.Set(k, v))}
	case "get":
		return res{"r": readVal(f.slot[o.S].Get(makeKey(o.BB, o.Str)))}
	case "enc":
		if err := f.t.Encode(nil); err != nil {
			f.enc = nil
			return res{"err": true}
		}
		f.enc = append([]byte{}, f.t.Buf()...)
		return res{"err": false, "isenc": f.t.IsEncoded(), "b": vb(f.enc)}
	case "dec": // decode what was encoded, followed by other bytes
		buf := append(append([]byte{}, f.enc...), o.B...)
		t, n, err := util.NewMappedTrie(buf)
		if err != nil {
			return res{"err": true}
		}
		f.slot[o.S] = t
		return res{"err": false, "n": n, "buf": vb(t.Buf()), "isdec": t.IsDecoded()}
	case "open": // kind "all"; "key" with bb; "range" with bb if set, cc if flag
		t := f.slot[o.S]
		switch o.Kind {
		case "all":
			f.it[o.I] = t.Iterator()
		case "key":
			if !o.Set {
				f.it[o.I] = t.KeyIterator(nil)
			} else {
				f.it[o.I] = t.KeyIterator(makeKey(o.BB, o.Str))
			}
		case "range":
			var s, e util.IKey
			if o.Set {
				s = makeKey(o.BB, o.Str)
			}
			if o.Flag {
				e = makeKey(o.CC, o.Str2)
			}
			f.it[o.I] = t.RangeIterator(s, e)
		}
		return nil
	case "has":
		return res{"r": f.it[o.I].HasNext()}
	case "peek":
		return entry(f.it[o.I].Peek())
	case "next":
		k, v := f.it[o.I].Next()
		r := entry(k, v)
		if own, ok := k.(*util.Key); ok && own != nil {
			own.Add([]byte{byte(o.I), 99}) // the caller may go on with it
		}
		return r
	}
	harnessPanic("op %s", o.Op)
	return nil
}
