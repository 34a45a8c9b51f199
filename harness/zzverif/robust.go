package main

import (
	"encoding/json"
	"io/ioutil"
	"runtime"

	"../collection"
	"../util"
)

func init() {
	families["robust"] = func(cfg *op) family { return &robustFam{} }
}

// a valid encoding, and decodings of it and of other bytes
type robustFam struct {
	kind  string
	valid []byte
	probe [][]vb // keys to look up in tables and tries
}

func allocated() uint64 {
	var ms runtime.MemStats
	runtime.ReadMemStats(&ms)
	return ms.TotalAlloc
}

// every accessor of a key, value, record: errors are fine
func useKey(k util.IKey, small bool) {
	if collection.IsNil(k) {
		return
	}
	k.IsEmpty()
	for i := range k.Key() {
		k.SubKeyAt(i)
	}
	k.EstBufSize()
	k.IsDecoded()
	k.Encode(nil)
	if k.IsEncoded() {
		k.Buf()
	}
	k.HashUint32(collection.MurmurSeed(7).Hash)
	if !k.Equal(k) || k.Compare(k) != 0 {
		harnessFail("key differs from itself")
	}
	if small {
		k.Copy()
		k.CopyConstruct()
		if len(k.Key()) < 100 { // texts are built piece by piece
			k.ToString()
			k.Print(ioutil.Discard, 4)
		}
	}
}

func harnessFail(s string) { panic(s) }

func useValue(v util.IValue, small bool, level int) {
	if collection.IsNil(v) {
		return
	}
	v.IsNil()
	v.IsPrimitive()
	v.IsValueArray()
	v.IsRecordList()
	v.LookupEncoder()
	v.CompressEncoder()
	v.Value()
	v.ValueMagic()
	v.Buf()
	v.EstBufSize()
	v.IsEncoded()
	v.IsDecoded()
	v.Encode(nil)
	n := int(v.Size())
	for round := 0; round < 2; round++ {
		for i := 0; i < n+1; i++ {
			e, err := v.ValueAt(uint16(i))
			if err == nil && collection.IsNil(e) {
				harnessFail("no element and no error")
			}
			r, err2 := v.RecordAt(uint16(i))
			if err2 == nil && collection.IsNil(r) {
				harnessFail("no record and no error")
			}
			if round == 0 && err == nil {
				useValue(e, small, level+1)
			}
			if round == 0 && err2 == nil {
				useRecord(r, small, level+1)
			}
			if err != nil && err2 != nil && i > 64 {
				break // the rest fails alike
			}
		}
	}
	if small && level < 3 {
		v.Copy()
		v.CopyConstruct()
	}
}

func useRecord(r util.IRecord, small bool, level int) {
	if collection.IsNil(r) {
		return
	}
	useKey(r.Key(), small)
	useValue(r.Value(), small, level+1)
	useValue(r.Scheme(), small, level+1)
	if t := r.Timestamp(); t != nil {
		t.UnixNano()
	}
	a, b := r.Signature()
	if a != nil && b != nil {
		a.Cmp(b)
	}
	r.RecordMagic()
	r.Buf()
	r.EstBufSize()
	r.IsEncoded()
	r.IsDecoded()
	r.Encode(nil)
	if small && level < 3 {
		r.Copy()
		r.CopyConstruct()
	}
}

func useTrie(t *util.MappedTrie, probe [][]vb, small bool) {
	t.Buf()
	t.EstBufSize()
	t.IsEncoded()
	t.IsDecoded()
	t.Encode(nil)
	read := func(it util.ITrieIterator) {
		for n := 0; it.HasNext(); n++ {
			it.Peek()
			k, v := it.Next()
			useKey(k, false)
			useValue(v, false, 5)
			useValue(t.Get(k), false, 5)
			if n > 1<<20 {
				harnessFail("endless iteration")
			}
		}
		it.Next()
	}
	read(t.Iterator())
	for i, bb := range probe {
		k := makeKey(bb, "c")
		useValue(t.Get(k), false, 5)
		if i < 4 {
			read(t.KeyIterator(k))
			read(t.RangeIterator(k, nil))
			read(t.RangeIterator(nil, k))
		}
	}
	if small {
		t.Copy()
		t.CopyConstruct()
		if len(t.Buf()) < 200 {
			t.ToString()
			t.Print(ioutil.Discard, 4)
		}
	}
}

// decodes, and gives the reading of what was decoded
func (f *robustFam) decode(kind string, buf []byte) (n int, err error, use func()) {
	small := len(buf) < 2000
	n = -1
	switch kind {
	case "key":
		var k *util.MappedKey
		k, n, err = util.NewMappedKey(buf)
		use = func() { useKey(k, small) }
	case "val":
		var v *util.StandardMappedValue
		v, n, err = util.NewStandardMappedValue(buf)
		use = func() { useValue(v, small, 0) }
	case "sval":
		var v *util.SimpleMappedValue
		v, n, err = util.NewSimpleMappedValue(buf)
		use = func() { useValue(v, small, 0) }
	case "rec":
		var r *util.MappedRecord
		r, n, err = util.NewMappedRecord(buf)
		use = func() { useRecord(r, small, 0) }
	case "sch":
		s := util.NewMappedSchemd(buf)
		n, err = s.Decode(nil)
		use = func() {
			schemeRes(s)
			s.SchemeMagic()
			s.Buf()
			s.EstBufSize()
			s.IsEncoded()
			s.IsDecoded()
			s.Encode(nil)
			c := s.Copy().(util.IScheme)
			schemeRes(c)
			c.Encode(nil)
			s.CopyConstruct()
		}
	case "time":
		var t util.IConsensusTime
		t, err = util.NewConsensusTime(buf)
		if err == nil {
			n = len(t.Buf())
		}
		use = func() {
			t.GT(t)
			t.GE(t)
			t.EQ(t)
			t.NE(t)
			t.LT(t)
			t.LE(t)
		}
	case "id":
		var c *util.MappedConsensusID
		c, err = util.NewMappedConsensusID(buf)
		if err == nil {
			n = len(c.Buf())
		}
		use = func() {
			c.ConsensusMagic()
			c.Copy()
		}
	case "mph":
		var t *util.MPHTable
		t, n, err = util.NewMPHTable(buf)
		use = func() {
			for _, bb := range f.probe {
				t.Lookup(makeKey(bb, "c"))
			}
			t.Encode()
		}
	case "trie":
		var t *util.MappedTrie
		t, n, err = util.NewMappedTrie(buf)
		use = func() { useTrie(t, f.probe, small) }
	case "uv":
		_, n, err = util.DecodeUvarint64(buf)
		use = func() {}
	case "sv":
		_, n, err = util.DecodeVarint64(buf)
		use = func() {}
	case "vc":
		var b []byte
		b, n, err = util.DecodeVarchar(buf)
		use = func() {
			if err == nil && len(b) > len(buf) {
				harnessFail("more bytes than there are")
			}
		}
	default:
		harnessPanic("kind %s", kind)
	}
	return
}

func (f *robustFam) attempt(kind string, in []byte) res {
	buf := make([]byte, len(in)) // without spare capacity
	copy(buf, in)
	a0 := allocated()
	n, err, use := f.decode(kind, buf)
	a1 := allocated()
	r := res{"err": err != nil, "len": len(in), "dk": int((a1 - a0) / 1024)}
	if err == nil {
		use()
		r["n"] = n
		r["rk"] = int((allocated() - a1) / 1024)
		for i := range buf {
			if buf[i] != in[i] {
				harnessFail("reading changed the bytes read")
			}
		}
	}
	return r
}

func (f *robustFam) do(o *op) res {
	switch o.Op {
	case "rmake": // a valid encoding by the real encoders
		f.kind, f.valid, f.probe = o.Kind, nil, nil
		signed := false
		form := &former{o.I}
		var e util.IEncodable
		switch o.Kind {
		case "key":
			e = makeKey(o.BB, "c")
		case "val":
			v := &valT{}
			unjson(o.X, v)
			e = buildVal(v, form)
		case "rec":
			r := &recT{}
			unjson(o.X, r)
			signed = len(r.t) > 0 && len(r.sig) > 0
			e = buildRec(r, form)
		case "sch":
			s := util.NewMappedSchemd(o.B.copy())
			if _, err := s.Decode(nil); err != nil {
				return res{"err": true}
			}
			e = s.Copy()
		case "mph": // keys, verified by key if flag
			var lists [][]vb
			unjson(o.X, &lists)
			keys := []util.IKey{}
			for _, bb := range lists {
				keys = append(keys, makeKey(bb, "c"))
			}
			b, err := util.MPHBuild(keys, o.Flag).Encode()
			if err != nil {
				return res{"err": true}
			}
			f.valid = append([]byte{}, b...)
			f.probe = lists
		case "trie": // list of [key, value]
			var list [][]json.RawMessage
			unjson(o.X, &list)
			t := util.NewTrie()
			for _, p := range list {
				var bb []vb
				unjson(p[0], &bb)
				v := &valT{}
				unjson(p[1], v)
				t.Set(makeKey(bb, "c"), buildVal(v, form))
				f.probe = append(f.probe, bb)
			}
			e = t
		case "raw": // given bytes, of the kind str
			f.kind, f.valid = o.Str, o.B.copy()
		default:
			harnessPanic("kind %s", o.Kind)
		}
		if e != nil {
			if err := e.Encode(nil); err != nil {
				return res{"err": true}
			}
			f.valid = append([]byte{}, e.Buf()...)
		}
		return res{"err": false, "len": len(f.valid), "signed": signed}
	case "rcut": // the first n bytes of the valid encoding
		n := o.M
		if n > len(f.valid) {
			n = len(f.valid)
		}
		r := f.attempt(f.kind, f.valid[:n])
		return r
	case "redit": // the valid encoding with edits [position, kind, byte]
		b := append([]byte{}, f.valid...)
		for _, e := range o.LL {
			if len(b) == 0 {
				break
			}
			p := e[0] % len(b)
			switch e[1] {
			case 0:
				b[p] = byte(e[2])
			case 1:
				b = append(b[:p], append([]byte{byte(e[2])}, b[p:]...)...)
			case 2:
				b = append(b[:p], b[p+1:]...)
			case 3: // flip a bit
				b[p] ^= 1 << uint(e[2]%8)
			case 4: // end here
				b = b[:p]
			case 5: // increment
				b[p] += byte(e[2])
			}
		}
		r := f.attempt(f.kind, append(b, o.B...))
		return r
	case "rdec": // given bytes
		f.probe = [][]vb{{}, {{1}}, {{1}, {2}}, {{0}}, {{255, 1}}}
		return f.attempt(o.Kind, o.B)
	}
	harnessPanic("op %s", o.Op)
	return nil
}
