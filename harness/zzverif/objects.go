package main

import (
	"encoding/json"
	"io/ioutil"
	"math/big"

	"../collection"
	"../util"
)

// objects that share one another, named by numbers
type objFam struct {
	o     map[int]interface{}
	bytes map[int][][]byte // what the caller gave each of them
	held  [][]byte         // what encodings handed out
}

func init() {
	families["objects"] = func(cfg *op) family {
		return &objFam{map[int]interface{}{}, map[int][][]byte{}, nil}
	}
}

// bytes that remain the caller's
func (f *objFam) lend(n int, b vb) []byte {
	c := b.copy()
	f.bytes[n] = append(f.bytes[n], c)
	return c
}

func leafText(c util.IConsensusID) vb {
	return append(vb{c.ConsensusMagic()}, c.Buf()...)
}

func (f *objFam) encodable(n int) util.IEncodable {
	e, ok := f.o[n].(util.IEncodable)
	if !ok {
		panic("no such object")
	}
	return e
}

func (f *objFam) do(o *op) res {
	x := f.o[o.S]
	cant := res{"can": false}
	can := res{"can": true}
	switch o.Op {
	case "mk":
		r := res{"err": false}
		switch o.Kind {
		case "key":
			switch {
			case o.Str == "e":
				f.o[o.N] = util.NewEmptyKey()
			case o.Str == "s" && len(o.BB) == 1:
				f.o[o.N] = util.NewSimpleKey(f.lend(o.N, o.BB[0]))
			default:
				k := util.NewKey()
				for _, b := range o.BB {
					k.Add(f.lend(o.N, b))
				}
				f.o[o.N] = k
			}
		case "prim":
			f.o[o.N] = util.NewPrimitive(f.lend(o.N, o.B))
		case "smp":
			v, _, err := util.NewSimpleMappedValue(f.lend(o.N, o.B))
			if err != nil {
				return res{"err": true}
			}
			f.o[o.N] = v
		case "arr":
			f.o[o.N] = util.NewValueArray()
		case "list":
			f.o[o.N] = util.NewRecordList()
		case "rec":
			f.o[o.N] = util.NewRecord()
		case "trie":
			f.o[o.N] = util.NewTrie()
		case "sch":
			s := util.NewMappedSchemd(f.lend(o.N, o.B))
			if _, err := s.Decode(nil); err != nil {
				return res{"err": true}
			}
			f.o[o.N] = s
		case "leaf":
			c, err := util.NewMappedConsensusID(f.lend(o.N, o.B))
			if err != nil {
				return res{"err": true}
			}
			f.o[o.N] = c
			r["content"] = leafText(c)
		default:
			harnessPanic("kind %s", o.Kind)
		}
		return r
	case "add":
		k, ok := x.(*util.Key)
		if !ok {
			return cant
		}
		k.Add(f.lend(o.S, o.B))
		return can
	case "app":
		switch a := x.(type) {
		case *util.ValueArray:
			a.Append(f.o[o.E].(util.IValue))
		case *util.RecordList:
			a.Append(f.o[o.E].(util.IRecord))
		default:
			return cant
		}
		return can
	case "del":
		switch a := x.(type) {
		case *util.ValueArray:
			a.DeleteAt(uint16(o.I))
		case *util.RecordList:
			a.DeleteAt(uint16(o.I))
		default:
			return cant
		}
		return can
	case "set":
		r, ok := x.(*util.Record)
		if !ok {
			return cant
		}
		switch o.Kind {
		case "key":
			r.SetKey(f.o[o.E].(util.IKey))
		case "val":
			r.SetValue(f.o[o.E].(util.IValue))
		case "sch":
			r.SetScheme(f.o[o.E].(util.IValue))
		case "k":
			r.SetK(f.lend(o.S, o.B))
		case "v":
			r.SetV(f.lend(o.S, o.B))
		case "s":
			r.SetS(f.lend(o.S, o.B))
		case "time":
			if len(o.B) == 0 {
				r.SetTimestamp(nil)
			} else {
				r.SetTimestamp(timeOf(o.B))
			}
		case "sig":
			if len(o.B) == 0 {
				r.SetSignature(nil, nil)
			} else {
				r.SetSignature(new(big.Int).SetBytes(o.B[:32]), new(big.Int).SetBytes(o.B[32:]))
			}
		default:
			harnessPanic("kind %s", o.Kind)
		}
		return can
	case "put": // flag: remove
		t, ok := x.(*util.Trie)
		if !ok {
			return cant
		}
		k := util.NewKey()
		for _, b := range o.BB {
			k.Add(f.lend(o.S, b))
		}
		if o.Flag {
			t.Set(k, nil)
		} else {
			t.Set(k, f.o[o.E].(util.IValue))
		}
		return can
	case "enc":
		e := f.encodable(o.S)
		if err := e.Encode(nil); err != nil {
			f.held = append(f.held, nil)
			return res{"err": true}
		}
		f.held = append(f.held, e.Buf())
		return res{"err": false, "r": vb(append([]byte{}, e.Buf()...))}
	case "held": // as it is now
		return res{"r": vb(append([]byte{}, f.held[o.I-1]...))}
	case "buf":
		e := f.encodable(o.S)
		if !e.IsEncoded() {
			return res{"has": false}
		}
		return res{"has": true, "r": vb(append([]byte{}, e.Buf()...))}
	case "look":
		return res{"r": look(x)}
	case "copy":
		if c, ok := x.(util.IConsensusID); ok {
			f.o[o.N] = c.Copy()
		} else if !o.Flag {
			f.o[o.N] = f.encodable(o.S).Copy()
		} else {
			c, err := f.encodable(o.S).CopyConstruct()
			if err != nil {
				return res{"err": true}
			}
			f.o[o.N] = c
		}
		delete(f.bytes, o.N)
		return res{"err": false}
	case "parse":
		b := append(append(vb{}, f.encodable(o.S).Buf()...), o.B...)
		delete(f.bytes, o.N)
		buf := f.lend(o.N, b)
		var n int
		var err error
		switch x.(type) {
		case util.IKey:
			f.o[o.N], n, err = util.NewMappedKey(buf)
		case *util.SimpleMappedValue:
			f.o[o.N], n, err = util.NewSimpleMappedValue(buf)
		case util.IValue:
			f.o[o.N], n, err = util.NewStandardMappedValue(buf)
		case util.IRecord:
			f.o[o.N], n, err = util.NewMappedRecord(buf)
		case anyTrie:
			f.o[o.N], n, err = util.NewMappedTrie(buf)
		case util.IScheme:
			s := util.NewMappedSchemd(buf)
			n, err = s.Decode(nil)
			f.o[o.N] = s
		default:
			harnessPanic("no parser")
		}
		if err != nil {
			return res{"err": true}
		}
		return res{"err": false, "used": n, "len": len(b) - len(o.B)}
	case "kid":
		var y interface{}
		var err error
		switch o.Kind {
		case "val":
			y, err = x.(util.IValue).ValueAt(uint16(o.I))
		case "rec":
			y, err = x.(util.IValue).RecordAt(uint16(o.I))
		case "key":
			y = x.(util.IRecord).Key()
		case "value":
			y = x.(util.IRecord).Value()
		case "scheme":
			y = x.(util.IRecord).Scheme()
		case "get":
			y = x.(anyTrie).Get(makeKey(o.BB, "c"))
		}
		if err != nil {
			panic(err)
		}
		if collection.IsNil(y) {
			return res{"none": true}
		}
		f.o[o.N] = y
		delete(f.bytes, o.N)
		return res{"none": false}
	case "ask":
		return tell(f.encodable(o.S), o.L)
	case "refuse":
		e := f.encodable(o.S)
		if o.Kind == "enc" {
			return res{"err": e.Encode(nil) != nil}
		}
		_, err := e.Decode(nil)
		return res{"err": err != nil}
	case "redec":
		e := f.encodable(o.S)
		n, err := e.Decode(nil)
		if err != nil {
			return res{"err": true, "used": 0, "r": vb{}}
		}
		return res{"err": false, "used": n, "r": vb(append([]byte{}, e.Buf()...))}
	case "print":
		if p, ok := x.(collection.IPrintable); ok {
			p.Print(ioutil.Discard, o.I)
			p.ToString()
		}
		return nil
	case "poke": // what the object shows
		shown := [][]byte{}
		switch y := x.(type) {
		case util.IConsensusID:
			shown = append(shown, y.Buf())
		case util.IKey:
			shown = y.Key()
		case util.IScheme:
			shown = append(append(shown, y.Domain(), y.Tablet()), y.Buckets()...)
		case util.IValue:
			shown = append(shown, y.Value())
		default:
			harnessPanic("poke of %T", x)
		}
		for _, b := range shown {
			for i := range b {
				b[i] ^= byte(1 + i%7 + o.I)
			}
		}
		return nil
	case "scrib":
		for _, b := range f.bytes[o.S] {
			for i := range b {
				b[i] ^= byte(1 + i%7 + o.I)
			}
		}
		return nil
	}
	harnessPanic("op %s", o.Op)
	return nil
}

func look(x interface{}) interface{} {
	switch y := x.(type) {
	case util.IConsensusID:
		return leafText(y)
	case util.IKey:
		return subs(y)
	case util.IRecord:
		return readRec(y)
	case util.IValue:
		return readVal(y)
	case anyTrie:
		out := []interface{}{}
		for it := y.Iterator(); it.HasNext(); {
			k, v := it.Next()
			if collection.IsNil(v) || v.IsNil() {
				continue
			}
			got, _ := json.Marshal(readVal(y.Get(k)))
			val := readVal(v)
			if want, _ := json.Marshal(val); string(got) != string(want) {
				val = []interface{}{"bad", []string{"iteration and lookup differ"}}
			}
			out = append(out, []interface{}{subs(k), val})
		}
		return out
	case util.IScheme:
		part := func(has bool, b []byte) interface{} {
			if !has {
				return []interface{}{false, vb{}}
			}
			return []interface{}{true, vb(append([]byte{}, b...))}
		}
		bk := []vb{}
		for i := range y.Buckets() {
			bk = append(bk, append(vb{}, y.BucketAt(i)...))
		}
		return []interface{}{part(y.Domain() != nil, y.Domain()), part(y.Tablet() != nil, y.Tablet()),
			[]interface{}{y.Buckets() != nil, bk}}
	}
	panic("no such object")
	return nil
}

// what an object tells about itself
func tell(e util.IEncodable, at []int) res {
	r := res{"isdec": e.IsDecoded(), "isenc": e.IsEncoded(), "magic": true}
	e.EstBufSize()
	first := func(m byte) {
		r["magic"] = len(e.Buf()) == 0 || e.Buf()[0] == m
	}
	switch y := e.(type) {
	case util.IKey:
		each := []vb{}
		for i := range y.Key() {
			each = append(each, append(vb{}, y.SubKeyAt(i)...))
		}
		r["empty"], r["key"], r["each"] = y.IsEmpty(), subs(y), each
	case util.IRecord:
		if e.IsEncoded() {
			first(y.RecordMagic())
		}
	case util.IScheme:
		if e.IsEncoded() {
			first(y.SchemeMagic())
		}
	case util.IValue:
		if e.IsEncoded() {
			first(y.ValueMagic())
		}
		va, ra := []interface{}{}, []interface{}{}
		for _, i := range at {
			v, err := y.ValueAt(uint16(i))
			va = append(va, []interface{}{i, err == nil && !collection.IsNil(v)})
			x, err := y.RecordAt(uint16(i))
			ra = append(ra, []interface{}{i, err == nil && !collection.IsNil(x)})
		}
		r["nil"], r["prim"], r["arr"], r["list"] = y.IsNil(), y.IsPrimitive(), y.IsValueArray(), y.IsRecordList()
		r["size"], r["content"] = int(y.Size()), vb(append([]byte{}, y.Value()...))
		r["plain"] = y.LookupEncoder() == nil && y.CompressEncoder() == nil
		r["at"], r["rat"] = va, ra
	}
	return r
}
