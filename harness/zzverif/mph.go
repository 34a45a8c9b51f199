package main

import "../util"

func init() {
	families["mph"] = func(cfg *op) family { return &mphFam{} }
}

// tables: the one built, and those parsed from serialised bytes
type mphFam struct {
	tables []*util.MPHTable
	bytes  []byte
}

func (f *mphFam) do(o *op) res {
	switch o.Op {
	case "build": // of keys x in the forms str, cyclically; flag: verify by key
		var lists [][]vb
		unjson(o.X, &lists)
		keys := []util.IKey{}
		for i, bb := range lists {
			keys = append(keys, makeKey(bb, o.Str[i%len(o.Str):i%len(o.Str)+1]))
		}
		f.tables = []*util.MPHTable{util.MPHBuild(keys, o.Flag)}
		f.bytes = nil
		// the caller goes on using its slice
		for i := range keys {
			switch o.N {
			case 1:
				keys[i] = util.NewKey().Add([]byte{byte(i), 77})
			case 2:
				if j := len(keys) - 1 - i; i < j {
					keys[i], keys[j] = keys[j], keys[i]
				}
			case 3:
				keys[i] = nil
			}
		}
	case "lookup":
		n, ok := f.tables[o.S].Lookup(makeKey(o.BB, o.Str))
		if n > 1<<30 {
			n = 1 << 30
		}
		return res{"r": int(n), "ok": ok}
	case "enc":
		b, err := f.tables[o.S].Encode()
		if err != nil {
			return res{"err": true}
		}
		f.bytes = append([]byte{}, b...)
		for i := range b { // and the bytes
			b[i] = 0xa5
		}
		return res{"err": false, "b": vb(f.bytes)}
	case "parse":
		buf := append(append([]byte{}, f.bytes...), o.B...)
		t, n, err := util.NewMPHTable(buf)
		if err != nil {
			return res{"err": true}
		}
		f.tables = append(f.tables, t)
		return res{"err": false, "n": n}
	case "big": // n keys of four bytes, numbers k apart from v
		key := func(i int) util.IKey {
			x := uint32(o.V) + uint32(i)*uint32(o.K)
			return util.NewKey().Add([]byte{byte(x), byte(x >> 8), byte(x >> 16), byte(x >> 24)})
		}
		keys := make([]util.IKey, o.N)
		for i := range keys {
			keys[i] = key(i)
		}
		t := util.MPHBuild(keys, o.Flag)
		count := func(t *util.MPHTable) (hits, others int) {
			for i := 0; i < o.N; i++ {
				if n, ok := t.Lookup(key(i)); ok && int(n) == i {
					hits++
				}
			}
			for i := o.N; i < o.N+1000; i++ {
				if _, ok := t.Lookup(key(i)); ok {
					others++
				}
			}
			return
		}
		r := res{}
		r["hits"], r["others"] = count(t)
		b, err := t.Encode()
		if err != nil {
			return res{"err": true}
		}
		p, n, err := util.NewMPHTable(append(b, 1, 2, 3))
		if err != nil {
			return res{"err": true}
		}
		r["err"], r["used"] = false, n == len(b)
		r["hits2"], r["others2"] = count(p)
		return r
	default:
		harnessPanic("op %s", o.Op)
	}
	return nil
}
