package main

import (
	"../collection"
	"../util"
)

// key whose hash value is chosen by the script
type hkey struct {
	id int
	h  uint32
}

func (k *hkey) Equal(o collection.IObject) bool {
	q, ok := o.(*hkey)
	return ok && q != nil && q.id == k.id
}

func (k *hkey) HashUint32(f func([]byte) uint32) uint32 { return k.h }

type hashFam struct {
	kind string
	pool []vb
	hv   []int
	m    *collection.HashMap
	s    *collection.HashSet
	mit  map[int]collection.IHashMapIterator
	sit  map[int]collection.IIterator
	back map[interface{}]int // keys put in bulk
}

func init() {
	families["hash"] = func(cfg *op) family {
		f := &hashFam{kind: cfg.Kind, pool: cfg.BB, hv: cfg.L,
			mit: map[int]collection.IHashMapIterator{},
			sit: map[int]collection.IIterator{}}
		switch {
		case cfg.Set && cfg.Flag:
			f.s = collection.NewCustomHashSet(cfg.N, float32(cfg.F), float32(cfg.F2))
		case cfg.Set:
			f.s = collection.NewHashSet()
		case cfg.Flag:
			f.m = collection.NewCustomHashMap(cfg.N, float32(cfg.F), float32(cfg.F2))
		default:
			f.m = collection.NewHashMap()
		}
		return f
	}
}

func (f *hashFam) key(k int) collection.IHashable {
	switch f.kind {
	case "given":
		return &hkey{id: k, h: uint32(f.hv[k%len(f.hv)])}
	case "int64":
		return collection.NewHashableInt64Slice([]int64{int64(k), -int64(k)})
	case "bytes":
		return collection.NewHashableByteSlice(f.pool[k].copy())
	case "key":
		key := util.NewKey()
		for _, b := range f.pool[k] {
			key.Add([]byte{b})
		}
		return key
	}
	harnessPanic("kind %s", f.kind)
	return nil
}

func (f *hashFam) unkey(o interface{}) int {
	if collection.IsNil(o) {
		return -1
	}
	if f.kind == "given" {
		return o.(*hkey).id
	}
	if k, ok := f.back[o]; ok {
		return k
	}
	c := o.(collection.IHashable)
	n := len(f.pool)
	if n == 0 {
		n = 400
	}
	for i := 0; i < n; i++ {
		if c.Equal(f.key(i)) {
			return i
		}
	}
	return -2
}

func (f *hashFam) bulk(o *op) res {
	old, sum := 0, 0
	note := func(r int) {
		if r != -1 {
			old++
			sum = (sum + r) % bulkMod
		}
	}
	switch o.Op {
	case "fill", "drop":
		for i := 0; i < o.N; i++ {
			k := bulkKey(o, i)
			key := f.key(k)
			switch {
			case o.Op == "fill" && f.s != nil:
				f.back[key] = k
				note(f.unkey(f.s.Put(key)))
			case o.Op == "fill":
				f.back[key] = k
				note(unval(f.m.Put(key, bulkVal(k, o.S))))
			case f.s != nil:
				note(f.unkey(f.s.Remove(key)))
			default:
				note(unval(f.m.Remove(key)))
			}
		}
		return res{"old": old, "sum": sum}
	}
	vals, ik, iv := []int{}, []int{}, []int{}
	for k := 0; k < o.M; k++ {
		key := f.key(k)
		if f.s != nil {
			v := -1
			if f.s.Exist(key) {
				v = k
			}
			vals = append(vals, v)
		} else {
			vals = append(vals, unval(f.m.Get(key)))
		}
	}
	if f.s != nil {
		for it := f.s.Iterator(); it.HasNext(); {
			k := f.unkey(it.Next())
			ik, iv = append(ik, k), append(iv, k)
		}
		return res{"r": f.s.Size(), "vals": vals, "ik": ik, "iv": iv}
	}
	for it := f.m.Iterator(); it.HasNext(); {
		k, v := it.Next()
		ik, iv = append(ik, f.unkey(k)), append(iv, unval(v))
	}
	return res{"r": f.m.Size(), "vals": vals, "ik": ik, "iv": iv}
}

func (f *hashFam) do(o *op) res {
	switch o.Op {
	case "fill", "drop", "census":
		if f.back == nil {
			f.back = map[interface{}]int{}
		}
		return f.bulk(o)
	case "put":
		if f.s != nil {
			return res{"r": f.unkey(f.s.Put(f.key(o.K)))}
		}
		return res{"r": unval(f.m.Put(f.key(o.K), val(o.V)))}
	case "rem":
		if f.s != nil {
			return res{"r": f.unkey(f.s.Remove(f.key(o.K)))}
		}
		return res{"r": unval(f.m.Remove(f.key(o.K)))}
	case "get":
		return res{"r": unval(f.m.Get(f.key(o.K)))}
	case "exist":
		return res{"r": f.s.Exist(f.key(o.K))}
	case "size":
		if f.s != nil {
			return res{"r": f.s.Size()}
		}
		return res{"r": f.m.Size()}
	case "iter":
		if f.s != nil {
			f.sit[o.I] = f.s.Iterator()
		} else {
			f.mit[o.I] = f.m.Iterator()
		}
	case "has":
		if f.s != nil {
			return res{"r": f.sit[o.I].HasNext()}
		}
		return res{"r": f.mit[o.I].HasNext()}
	case "peek", "next":
		var k, v interface{}
		if f.s != nil {
			if o.Op == "peek" {
				k = f.sit[o.I].Peek()
			} else {
				k = f.sit[o.I].Next()
			}
			rk := f.unkey(k)
			return res{"rk": rk, "rv": rk}
		}
		if o.Op == "peek" {
			k, v = f.mit[o.I].Peek()
		} else {
			k, v = f.mit[o.I].Next()
		}
		return res{"rk": f.unkey(k), "rv": unval(v)}
	default:
		harnessPanic("op %s", o.Op)
	}
	return nil
}
