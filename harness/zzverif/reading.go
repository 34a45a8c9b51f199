package main

import (
	"math/rand"

	"../collection"
	"../util"
)

// any bytes, decoded and read in any order
type readingFam struct{}

func init() {
	families["reading"] = func(cfg *op) family { return &readingFam{} }
}

func unread() interface{} { return []interface{}{"x", []int{}} }

// order in which n elements are asked for
func asking(n, how int) []int {
	out := make([]int, n)
	for i := range out {
		out[i] = i
	}
	switch how % 4 {
	case 1:
		for i := range out {
			out[i] = n - 1 - i
		}
	case 2, 3:
		out = rand.New(rand.NewSource(int64(how))).Perm(n)
		if how%4 == 3 && n < 100 { // some twice
			out = append(out, out...)
		}
	}
	return out
}

func lazyVal(v util.IValue, how int) interface{} {
	if collection.IsNil(v) || v.IsNil() {
		return []interface{}{"n", []int{}}
	}
	if v.IsPrimitive() {
		return []interface{}{"p", vb(append([]byte{}, v.Value()...))}
	}
	n := int(v.Size())
	out := make([]interface{}, n)
	kind := "a"
	for _, i := range asking(n, how) {
		out[i] = unread()
		if v.IsValueArray() {
			if e, err := v.ValueAt(uint16(i)); err == nil {
				out[i] = lazyVal(e, how/2+i)
			}
		} else {
			kind = "l"
			if e, err := v.RecordAt(uint16(i)); err == nil {
				out[i] = lazyRec(e, how/2+i)
			}
		}
	}
	if v.IsRecordList() {
		kind = "l"
	}
	return []interface{}{kind, out}
}

func lazyRec(r util.IRecord, how int) interface{} {
	return []interface{}{subs(r.Key()), lazyVal(r.Value(), how), lazyVal(r.Scheme(), how),
		timeBytes(r.Timestamp()), sigBytes(r.Signature())}
}

func schemeItem(s util.IScheme) interface{} {
	bk := []vb{}
	for _, b := range s.Buckets() {
		bk = append(bk, vb(append([]byte{}, b...)))
	}
	return []interface{}{
		[]interface{}{s.Domain() != nil, vb(append([]byte{}, s.Domain()...))},
		[]interface{}{s.Tablet() != nil, vb(append([]byte{}, s.Tablet()...))},
		[]interface{}{s.Buckets() != nil, bk}}
}

func trieItem(t anyTrie, how int) interface{} {
	out := [][]interface{}{}
	for it := t.Iterator(); it.HasNext() && len(out) < 10000; {
		k, v := it.Next()
		if !collection.IsNil(v) {
			out = append(out, []interface{}{subs(k), lazyVal(v, how)})
		}
	}
	return out
}

func (f *readingFam) do(o *op) res {
	if o.Op != "dread" {
		harnessPanic("op %s", o.Op)
	}
	buf := make([]byte, len(o.B))
	copy(buf, o.B)
	bad := res{"err": true}
	cc := func(x util.IEncodable) bool {
		c, err := x.CopyConstruct()
		return err == nil && !collection.IsNil(c)
	}
	switch o.Kind {
	case "uv":
		x, n, err := util.DecodeUvarint64(buf)
		if err != nil {
			return bad
		}
		return res{"err": false, "n": n, "item": toLimbs(x, 4)}
	case "sv":
		x, n, err := util.DecodeVarint64(buf)
		if err != nil {
			return bad
		}
		return res{"err": false, "n": n, "item": toLimbs(uint64(x), 4)}
	case "vc":
		x, n, err := util.DecodeVarchar(buf)
		if err != nil {
			return bad
		}
		return res{"err": false, "n": n, "item": vb(append([]byte{}, x...))}
	case "sval":
		x, n, err := util.NewSimpleMappedValue(buf)
		if err != nil {
			return bad
		}
		return res{"err": false, "n": n, "item": vb(append([]byte{}, x.Value()...)),
			"cp": vb(append([]byte{}, x.Copy().(util.IValue).Value()...)), "cc": true}
	case "key":
		x, n, err := util.NewMappedKey(buf)
		if err != nil {
			return bad
		}
		return res{"err": false, "n": n, "item": subs(x), "cp": subs(x.Copy().(util.IKey)), "cc": cc(x), "blen": len(x.Buf())}
	case "val":
		x, n, err := util.NewStandardMappedValue(buf)
		if err != nil {
			return bad
		}
		c := x.Copy().(util.IValue)
		return res{"err": false, "n": n, "item": lazyVal(x, o.I), "cp": lazyVal(c, o.I/4), "cc": cc(x), "blen": len(x.Buf())}
	case "rec":
		x, n, err := util.NewMappedRecord(buf)
		if err != nil {
			return bad
		}
		c := x.Copy().(util.IRecord)
		return res{"err": false, "n": n, "item": lazyRec(x, o.I), "cp": lazyRec(c, o.I/4), "cc": cc(x), "blen": len(x.Buf())}
	case "sch":
		x := util.NewMappedSchemd(buf)
		n, err := x.Decode(nil)
		if err != nil {
			return bad
		}
		return res{"err": false, "n": n, "item": schemeItem(x), "cp": schemeItem(x.Copy().(util.IScheme)), "cc": cc(x), "blen": len(x.Buf())}
	case "trie":
		x, n, err := util.NewMappedTrie(buf)
		if err != nil {
			return bad
		}
		r := res{"err": false, "n": n, "item": trieItem(x, o.I), "cp": trieItem(x.Copy().(anyTrie), o.I/4), "cc": true, "blen": len(x.Buf())}
		var probes [][]vb
		unjson(o.X, &probes)
		got := []interface{}{}
		for _, bb := range probes {
			got = append(got, lazyVal(x.Get(makeKey(bb, "c")), o.I))
		}
		r["got"] = got
		return r
	case "mph":
		x, n, err := util.NewMPHTable(buf)
		if err != nil {
			return bad
		}
		var probes [][]vb
		unjson(o.X, &probes)
		got := [][]interface{}{}
		for _, bb := range probes {
			i, ok := x.Lookup(makeKey(bb, "c"))
			if !ok || i > 1<<30 {
				i = 0
			}
			got = append(got, []interface{}{ok, int(i)})
		}
		back, err := x.Encode()
		if err != nil {
			back = nil
		}
		return res{"err": false, "n": n, "got": got, "back": vb(append([]byte{}, back...))}
	}
	harnessPanic("kind %s", o.Kind)
	return nil
}
