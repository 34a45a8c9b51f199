package main

import (
	"../collection"
	"../util"
)

// ordered key that notes with which objects it is compared
type probe struct {
	id  int
	log *map[*probe]bool
}

func (p *probe) touch(q *probe) {
	if *p.log != nil {
		(*p.log)[p] = true
		(*p.log)[q] = true
	}
}

func (p *probe) Equal(o collection.IObject) bool {
	q, ok := o.(*probe)
	if !ok || q == nil {
		return false
	}
	p.touch(q)
	return p.id == q.id
}

func (p *probe) Compare(c collection.IComparable) int {
	q := c.(*probe)
	p.touch(q)
	switch {
	case p.id < q.id:
		return -1
	case p.id > q.id:
		return 1
	}
	return 0
}

type sortedFam struct {
	kind   string
	pool   []vb // order-preserving pool of key bytes, for the kinds that need one
	m      *collection.SortedMap
	s      *collection.SortedSet
	mit    map[int]collection.ISortedMapIterator
	sit    map[int]collection.IIterator
	log    map[*probe]bool
	stored map[collection.IComparable]bool
	back   map[interface{}]int // keys put in bulk
}

func init() {
	families["sorted"] = func(cfg *op) family {
		f := &sortedFam{kind: cfg.Kind, pool: cfg.BB,
			mit: map[int]collection.ISortedMapIterator{},
			sit: map[int]collection.IIterator{}}
		if cfg.Set {
			f.s = collection.NewSortedSet()
		} else {
			f.m = collection.NewSortedMap()
		}
		return f
	}
}

func (f *sortedFam) key(k int) collection.IComparable {
	switch f.kind {
	case "probe":
		return &probe{id: k, log: &f.log}
	case "int64":
		return collection.NewComparableInt64Slice([]int64{int64(k) - 500})
	case "uint16":
		return collection.NewComparableUint16Slice([]uint16{uint16(k / 7), uint16(k % 7)})
	case "bytes":
		return collection.NewComparableByteSlice(f.pool[k].copy())
	case "key":
		key := util.NewKey()
		for _, b := range f.pool[k] {
			key.Add([]byte{b})
		}
		return key
	}
	harnessPanic("kind %s", f.kind)
	return nil
}

func (f *sortedFam) unkey(o interface{}) int {
	if collection.IsNil(o) {
		return -1
	}
	if f.kind == "probe" {
		return o.(*probe).id
	}
	if k, ok := f.back[o]; ok {
		return k
	}
	c := o.(collection.IComparable)
	n := len(f.pool)
	if n == 0 {
		n = 1000
	}
	for i := 0; i < n; i++ {
		if c.Equal(f.key(i)) {
			return i
		}
	}
	return -2
}

func val(v int) interface{} {
	if v == -1 {
		return nil
	}
	return v
}

func unval(v interface{}) int {
	if collection.IsNil(v) {
		return -1
	}
	if i, ok := v.(int); ok {
		return i
	}
	return -2
}

func (f *sortedFam) bound(k int) collection.IComparable {
	if k == -1 {
		return nil
	}
	return f.key(k)
}

// the value put in bulk under key k
func bulkVal(k, s int) int { return (k + s) % 251 }

const bulkMod = 65521

// k-th key of a bulk operation
func bulkKey(o *op, i int) int { return ((o.I+i*o.J)%o.M + o.M) % o.M }

func (f *sortedFam) bulk(o *op) res {
	old, sum := 0, 0
	note := func(r int) {
		if r != -1 {
			old++
			sum = (sum + r) % bulkMod
		}
	}
	switch o.Op {
	case "fill", "drop":
		for i := 0; i < o.N; i++ {
			k := bulkKey(o, i)
			key := f.key(k)
			switch {
			case o.Op == "fill" && f.s != nil:
				f.back[key] = k
				note(f.unkey(f.s.Put(key)))
			case o.Op == "fill":
				f.back[key] = k
				note(unval(f.m.Put(key, bulkVal(k, o.S))))
			case f.s != nil:
				note(f.unkey(f.s.Remove(key)))
			default:
				note(unval(f.m.Remove(key)))
			}
		}
		return res{"old": old, "sum": sum}
	}
	vals, ik, iv, most := []int{}, []int{}, []int{}, 0
	for k := 0; k < o.M; k++ {
		key := f.key(k)
		f.log = map[*probe]bool{}
		if f.s != nil {
			v := -1
			if f.s.Exist(key) {
				v = k
			}
			vals = append(vals, v)
		} else {
			vals = append(vals, unval(f.m.Get(key)))
		}
		if len(f.log)-1 > most {
			most = len(f.log) - 1
		}
		f.log = nil
	}
	if f.s != nil {
		for it := f.s.Iterator(); it.HasNext(); {
			k := f.unkey(it.Next())
			ik, iv = append(ik, k), append(iv, k)
		}
		return res{"r": f.s.Size(), "vals": vals, "ik": ik, "iv": iv, "cmp": most}
	}
	for it := f.m.Iterator(); it.HasNext(); {
		k, v := it.Next()
		ik, iv = append(ik, f.unkey(k)), append(iv, unval(v))
	}
	return res{"r": f.m.Size(), "vals": vals, "ik": ik, "iv": iv, "cmp": most}
}

func (f *sortedFam) do(o *op) res {
	switch o.Op {
	case "fill", "drop", "census":
		if f.back == nil {
			f.back = map[interface{}]int{}
		}
		return f.bulk(o)
	case "put":
		if f.s != nil {
			return res{"r": f.unkey(f.s.Put(f.key(o.K)))}
		}
		return res{"r": unval(f.m.Put(f.key(o.K), val(o.V)))}
	case "rem":
		if f.s != nil {
			return res{"r": f.unkey(f.s.Remove(f.key(o.K)))}
		}
		return res{"r": unval(f.m.Remove(f.key(o.K)))}
	case "get", "exist":
		key := f.key(o.K)
		f.log = map[*probe]bool{}
		var r interface{}
		if f.s != nil {
			r = f.s.Exist(key)
		} else {
			r = unval(f.m.Get(key))
		}
		cmp := 0
		for p := range f.log {
			if collection.IComparable(p) != key {
				cmp++
			}
		}
		f.log = nil
		return res{"r": r, "cmp": cmp}
	case "size":
		if f.s != nil {
			return res{"r": f.s.Size()}
		}
		return res{"r": f.m.Size()}
	case "iter":
		if f.s != nil {
			f.sit[o.I] = f.s.Iterator()
		} else {
			f.mit[o.I] = f.m.Iterator()
		}
	case "range":
		if f.s != nil {
			f.sit[o.I] = f.s.RangeIterator(f.bound(o.S), f.bound(o.E))
		} else {
			f.mit[o.I] = f.m.RangeIterator(f.bound(o.S), f.bound(o.E))
		}
	case "has":
		if f.s != nil {
			return res{"r": f.sit[o.I].HasNext()}
		}
		return res{"r": f.mit[o.I].HasNext()}
	case "peek", "next":
		var k, v interface{}
		if f.s != nil {
			if o.Op == "peek" {
				k = f.sit[o.I].Peek()
			} else {
				k = f.sit[o.I].Next()
			}
			rk := f.unkey(k)
			return res{"rk": rk, "rv": rk}
		}
		if o.Op == "peek" {
			k, v = f.mit[o.I].Peek()
		} else {
			k, v = f.mit[o.I].Next()
		}
		return res{"rk": f.unkey(k), "rv": unval(v)}
	default:
		harnessPanic("op %s", o.Op)
	}
	return nil
}
