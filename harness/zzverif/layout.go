package main

import (
	"../collection"
	"../util"
)

// layouts of tables and tries
type layoutFam struct {
	table *util.MPHTable
	trie  anyTrie
}

func init() {
	families["layout"] = func(cfg *op) family { return &layoutFam{} }
}

func word(x uint32) []int { return []int{int(x >> 16), int(x & 65535)} }

func (f *layoutFam) do(o *op) res {
	switch o.Op {
	case "murmur": // of b under the seed l
		return res{"r": word(collection.MurmurSeed(uint32(limbs(o.L))).Hash(o.B.copy()))}
	case "khash":
		return res{"r": word(makeKey(o.BB, o.Str).HashUint32(collection.MurmurSeed(uint32(limbs(o.L))).Hash))}
	case "load":
		t, n, err := util.NewMPHTable(o.B.copy())
		f.table = t
		if err != nil {
			f.table = nil
			return res{"err": true}
		}
		return res{"err": false, "n": n}
	case "find":
		n, ok := f.table.Lookup(makeKey(o.BB, o.Str))
		if n > 1<<30 {
			n = 1 << 30
		}
		return res{"r": int(n), "ok": ok}
	case "make":
		var lists [][]vb
		unjson(o.X, &lists)
		keys := []util.IKey{}
		for i, bb := range lists {
			keys = append(keys, makeKey(bb, o.Str[i%len(o.Str):i%len(o.Str)+1]))
		}
		f.table = util.MPHBuild(keys, o.Flag)
		b, err := f.table.Encode()
		if err != nil {
			return res{"err": true}
		}
		return res{"err": false, "b": vb(append([]byte{}, b...))}
	case "tload":
		t, n, err := util.NewMappedTrie(o.B.copy())
		if err != nil {
			f.trie = nil
			return res{"err": true}
		}
		f.trie = t
		return res{"err": false, "n": n}
	case "get":
		return res{"r": readVal(f.trie.Get(makeKey(o.BB, o.Str)))}
	case "tall":
		list := [][]interface{}{}
		for it := f.trie.Iterator(); it.HasNext() && len(list) < 10000; {
			k, v := it.Next()
			if collection.IsNil(k) {
				list = append(list, []interface{}{[][]int{{-1}}, readVal(v)})
			} else {
				list = append(list, []interface{}{subs(k), readVal(v)})
			}
		}
		return res{"list": list}
	}
	harnessPanic("op %s", o.Op)
	return nil
}
