package main

import (
	"../collection"
	"../util"
)

// tries of thousands of keys, which are numbered
type bigTrieFam struct {
	style string
	base  int
	t     *util.Trie
	slot  map[int]anyTrie
	enc   []byte
}

func init() {
	families["triebulk"] = func(cfg *op) family {
		t := util.NewTrie()
		return &bigTrieFam{style: cfg.Kind, base: cfg.I, t: t, slot: map[int]anyTrie{0: t}}
	}
}

// the sub keys of the k-th key
func (f *bigTrieFam) subs(k int) [][]byte {
	switch f.style {
	case "wide": // one node with all keys
		return [][]byte{{byte(k / 256), byte(k)}}
	case "halves":
		return [][]byte{{byte(k / 256)}, {byte(k)}}
	case "digits": // without leading zeros: some keys continue others
		var r [][]byte
		for ; k > 0; k /= f.base {
			r = append([][]byte{{byte(k % f.base)}}, r...)
		}
		return r
	case "deep": // each key continues the one before it
		var r [][]byte
		for i := 0; i < k; i++ {
			r = append(r, []byte{byte(i%5 + 1)})
		}
		return r
	}
	harnessPanic("style %s", f.style)
	return nil
}

func (f *bigTrieFam) key(k int) util.IKey {
	r := util.NewKey()
	for _, s := range f.subs(k) {
		r.Add(s)
	}
	return r
}

// the number of a key, or -2
func (f *bigTrieFam) unkey(key util.IKey) int {
	s := key.Key()
	n := 0
	switch f.style {
	case "wide":
		if len(s) != 1 || len(s[0]) != 2 {
			return -2
		}
		return int(s[0][0])*256 + int(s[0][1])
	case "halves":
		if len(s) != 2 || len(s[0]) != 1 || len(s[1]) != 1 {
			return -2
		}
		return int(s[0][0])*256 + int(s[1][0])
	case "digits":
		for i, d := range s {
			if len(d) != 1 || int(d[0]) >= f.base || i == 0 && d[0] == 0 {
				return -2
			}
			n = n*f.base + int(d[0])
		}
		return n
	case "deep":
		for i, d := range s {
			if len(d) != 1 || int(d[0]) != i%5+1 {
				return -2
			}
		}
		return len(s)
	}
	return -2
}

func (f *bigTrieFam) unval(v util.IValue) int {
	if collection.IsNil(v) || v.IsNil() {
		return -1
	}
	if b := v.Value(); v.IsPrimitive() && len(b) == 1 {
		return int(b[0])
	}
	return -3
}

func (f *bigTrieFam) list(it util.ITrieIterator) res {
	ik, iv := []int{}, []int{}
	for n := 0; n < 1000000; n++ {
		k, v := it.Next()
		if collection.IsNil(k) {
			break
		}
		// inner nodes have no value
		if x := f.unval(v); x != -1 {
			ik, iv = append(ik, f.unkey(k)), append(iv, x)
		}
	}
	return res{"ik": ik, "iv": iv}
}

func (f *bigTrieFam) do(o *op) res {
	switch o.Op {
	case "fill", "drop":
		old, sum := 0, 0
		for i := 0; i < o.N; i++ {
			k := bulkKey(o, i)
			var v util.IValue
			if o.Op == "fill" {
				v = util.NewPrimitive([]byte{byte(bulkVal(k, o.S))})
			}
			if r := f.unval(f.t.Set(f.key(k), v)); r != -1 {
				old++
				sum = (sum + r) % bulkMod
			}
		}
		return res{"old": old, "sum": sum}
	case "census":
		vals := []int{}
		for k := 0; k < o.M; k++ {
			vals = append(vals, f.unval(f.slot[o.S].Get(f.key(k))))
		}
		r := f.list(f.slot[o.S].Iterator())
		r["vals"] = vals
		return r
	case "below":
		return f.list(f.slot[o.S].KeyIterator(f.key(o.K)))
	case "range":
		return f.list(f.slot[o.S].RangeIterator(f.key(o.K), f.key(o.V)))
	case "codec":
		if err := f.t.Encode(nil); err != nil {
			return res{"err": true}
		}
		f.enc = append([]byte{}, f.t.Buf()...)
		t, n, err := util.NewMappedTrie(append(append([]byte{}, f.enc...), 1, 2, 3))
		if err != nil {
			return res{"err": true}
		}
		f.slot[1] = t
		return res{"err": false, "n": n - len(f.enc), "same": string(t.Buf()) == string(f.enc)}
	}
	harnessPanic("op %s", o.Op)
	return nil
}
