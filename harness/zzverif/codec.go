package main

import (
	"encoding/json"
	"math/big"
	"time"

	"../collection"
	"../util"
)

// value: ["n",[]], ["p",bytes], ["a",[values]], ["l",[records]];
// record: [sub keys, value, scheme, 8 time bytes or [], 64 signature bytes or []]
type valT struct {
	kind string
	p    vb
	a    []*valT
	l    []*recT
}

type recT struct {
	key  []vb
	v, s *valT
	t    vb
	sig  vb
}

func (v *valT) UnmarshalJSON(raw []byte) error {
	var parts []json.RawMessage
	if err := json.Unmarshal(raw, &parts); err != nil {
		return err
	}
	if err := json.Unmarshal(parts[0], &v.kind); err != nil {
		return err
	}
	switch v.kind {
	case "p":
		return json.Unmarshal(parts[1], &v.p)
	case "a":
		return json.Unmarshal(parts[1], &v.a)
	case "l":
		return json.Unmarshal(parts[1], &v.l)
	}
	return nil
}

func (r *recT) UnmarshalJSON(raw []byte) error {
	var parts []json.RawMessage
	if err := json.Unmarshal(raw, &parts); err != nil {
		return err
	}
	for i, p := range []interface{}{&r.key, &r.v, &r.s, &r.t, &r.sig} {
		if err := json.Unmarshal(parts[i], p); err != nil {
			return err
		}
	}
	return nil
}

// choices among equivalent ways to build, taken from the bits of form
type former struct{ form int }

func (f *former) pick(n int) int {
	x := f.form % n
	f.form = f.form/n ^ f.form*7 + 3
	if f.form < 0 {
		f.form = -f.form
	}
	return x
}

func buildVal(v *valT, f *former) util.IValue {
	switch v.kind {
	case "n":
		switch f.pick(4) {
		case 0:
			return util.NewPrimitive(nil)
		case 1:
			return util.NewPrimitive([]byte{})
		case 2:
			return util.NewValueArray()
		default:
			return util.NewRecordList()
		}
	case "p":
		return util.NewPrimitive(v.p.copy())
	case "a":
		out := util.NewValueArray()
		for _, x := range v.a {
			out.Append(buildVal(x, f))
		}
		return out
	case "l":
		out := util.NewRecordList()
		for _, x := range v.l {
			out.Append(buildRec(x, f))
		}
		return out
	}
	harnessPanic("value kind %s", v.kind)
	return nil
}

func buildRec(r *recT, f *former) *util.Record {
	out := util.NewRecord()
	if len(r.key) == 1 && f.pick(2) == 0 && len(r.key[0]) > 0 {
		out.SetK(r.key[0].copy())
	} else if len(r.key) > 0 {
		forms := []string{"c", "c", "c", "d", "m", "k"}
		form := forms[f.pick(len(forms))]
		out.SetKey(makeKey(r.key, form))
	} else if f.pick(2) == 0 {
		out.SetKey(util.NewEmptyKey())
	}
	if r.v.kind == "p" && f.pick(2) == 0 {
		out.SetV(r.v.p.copy())
	} else if r.v.kind != "n" || f.pick(2) == 0 {
		out.SetValue(buildVal(r.v, f))
	}
	if r.s.kind == "p" && f.pick(2) == 0 {
		out.SetS(r.s.p.copy())
	} else if r.s.kind != "n" || f.pick(2) == 0 {
		out.SetScheme(buildVal(r.s, f))
	}
	if len(r.t) > 0 {
		out.SetTimestamp(timeOf(r.t))
	}
	if len(r.sig) > 0 {
		out.SetSignature(new(big.Int).SetBytes(r.sig[:32]), new(big.Int).SetBytes(r.sig[32:]))
	}
	return out
}

func timeOf(b []byte) *time.Time {
	x := uint64(0)
	for _, c := range b {
		x = x<<8 | uint64(c)
	}
	t := time.Unix(0, int64(x))
	return &t
}

func timeBytes(t *time.Time) vb {
	if t == nil {
		return vb{}
	}
	x := uint64(t.UnixNano())
	out := make(vb, 8)
	for i := 7; i >= 0; i-- {
		out[i] = byte(x)
		x >>= 8
	}
	return out
}

func sigBytes(r, s *big.Int) vb {
	if r == nil && s == nil {
		return vb{}
	}
	if r == nil || s == nil {
		return vb{1} // half a signature
	}
	out := make(vb, 64)
	rb, sb := r.Bytes(), s.Bytes()
	if len(rb) > 32 || len(sb) > 32 {
		return vb{2}
	}
	copy(out[32-len(rb):32], rb)
	copy(out[64-len(sb):], sb)
	return out
}

// reads everything; an error or an inconsistency gives an item no
// specification knows
func readVal(v util.IValue) interface{} {
	if collection.IsNil(v) || v.IsNil() {
		return []interface{}{"n", []int{}}
	}
	bad := func(s string) interface{} { return []interface{}{"bad", []string{s}} }
	switch {
	case v.IsValueArray():
		if v.IsRecordList() || v.IsPrimitive() {
			return bad("kinds")
		}
		out := []interface{}{}
		for i := 0; i < int(v.Size()); i++ {
			e, err := v.ValueAt(uint16(i))
			if err != nil {
				return bad(err.Error())
			}
			out = append(out, readVal(e))
		}
		return []interface{}{"a", out}
	case v.IsRecordList():
		if v.IsPrimitive() {
			return bad("kinds")
		}
		out := []interface{}{}
		for i := 0; i < int(v.Size()); i++ {
			e, err := v.RecordAt(uint16(i))
			if err != nil {
				return bad(err.Error())
			}
			out = append(out, readRec(e))
		}
		return []interface{}{"l", out}
	case v.IsPrimitive():
		return []interface{}{"p", vb(append([]byte{}, v.Value()...))}
	}
	return bad("no kind")
}

func readRec(r util.IRecord) interface{} {
	if collection.IsNil(r) {
		return []interface{}{"bad", []string{"nil record"}}
	}
	return []interface{}{subs(r.Key()), readVal(r.Value()), readVal(r.Scheme()),
		timeBytes(r.Timestamp()), sigBytes(r.Signature())}
}

// one object, without descending into it
func describe(x interface{}) res {
	if r, ok := x.(util.IRecord); ok {
		return res{"what": "r", "key": subs(r.Key()), "hasv": !collection.IsNil(r.Value()),
			"hass": !collection.IsNil(r.Scheme()), "t": timeBytes(r.Timestamp()),
			"sig": sigBytes(r.Signature()), "len": len(r.Buf())}
	}
	v := x.(util.IValue)
	return res{"what": "v", "nil": v.IsNil(), "prim": v.IsPrimitive(), "arr": v.IsValueArray(),
		"list": v.IsRecordList(), "size": int(v.Size()),
		"content": vb(append([]byte{}, v.Value()...)), "len": len(v.Buf())}
}

// a path is a list of steps [0,i] ValueAt(i), [1,i] RecordAt(i), [2,0] Value(),
// [3,0] Scheme(); gives the object reached, or the step (from 1) that failed
func walkPath(x interface{}, path [][]int) (interface{}, int) {
	for n, st := range path {
		var y interface{}
		var err error
		switch st[0] {
		case 0, 1:
			v, ok := x.(util.IValue)
			if !ok {
				return nil, n + 1
			}
			if st[0] == 0 {
				var e util.IValue
				if e, err = v.ValueAt(uint16(st[1])); err == nil {
					y = e
				}
			} else {
				var e util.IRecord
				if e, err = v.RecordAt(uint16(st[1])); err == nil {
					y = e
				}
			}
		default:
			r, ok := x.(util.IRecord)
			if !ok {
				return nil, n + 1
			}
			if st[0] == 2 {
				y = r.Value()
			} else {
				y = r.Scheme()
			}
		}
		if err != nil || collection.IsNil(y) {
			return nil, n + 1
		}
		x = y
	}
	return x, 0
}

type codecFam struct {
	enc  []byte
	root interface{}
	sch  *util.MappedScheme
	key  keyFam
}

func init() {
	families["codec"] = func(cfg *op) family { return &codecFam{} }
}

func (f *codecFam) decode(kind string, buf []byte) (n int, err error) {
	f.root = nil
	switch kind {
	case "val":
		var v *util.StandardMappedValue
		if v, n, err = util.NewStandardMappedValue(buf); err == nil {
			f.root = v
		}
	case "rec":
		var r *util.MappedRecord
		if r, n, err = util.NewMappedRecord(buf); err == nil {
			f.root = r
		}
	default:
		harnessPanic("kind %s", kind)
	}
	return
}

func readRoot(x interface{}) interface{} {
	if r, ok := x.(util.IRecord); ok {
		return readRec(r)
	}
	return readVal(x.(util.IValue))
}

func (f *codecFam) do(o *op) res {
	switch o.Op {
	case "kenc", "kdec", "kcmp":
		return f.key.do(o)
	case "enc": // build an item and encode it; i chooses among the ways to build
		var x interface {
			util.IEncodable
		}
		form := &former{o.I}
		if o.Kind == "val" {
			v := &valT{}
			unjson(o.X, v)
			x = buildVal(v, form)
		} else {
			r := &recT{}
			unjson(o.X, r)
			x = buildRec(r, form)
		}
		if err := x.Encode(nil); err != nil {
			f.enc = nil
			return res{"err": true}
		}
		f.enc = append([]byte{}, x.Buf()...)
		magic := 0
		if v, ok := x.(util.IValue); ok {
			magic = int(v.ValueMagic())
		} else {
			magic = int(x.(util.IRecord).RecordMagic())
		}
		return res{"err": false, "b": vb(f.enc), "isenc": x.IsEncoded(), "magic": magic}
	case "dec": // decode what was encoded, followed by other bytes
		buf := append(append([]byte{}, f.enc...), o.B...)
		n, err := f.decode(o.Kind, buf)
		if err != nil {
			return res{"err": true}
		}
		e := f.root.(util.IEncodable)
		return res{"err": false, "n": n, "buf": vb(append([]byte{}, e.Buf()...)), "isdec": e.IsDecoded()}
	case "at":
		x, fail := walkPath(f.root, o.LL)
		if fail != 0 {
			return res{"fail": fail}
		}
		r := describe(x)
		r["fail"] = 0
		return r
	case "read":
		return res{"item": readRoot(f.root)}
	case "ldec": // decode given bytes
		if o.Kind == "key" {
			k, n, err := util.NewMappedKey(o.B.copy())
			if err != nil {
				return res{"err": true}
			}
			return res{"err": false, "n": n, "item": subs(k)}
		}
		n, err := f.decode(o.Kind, o.B.copy())
		if err != nil {
			return res{"err": true}
		}
		return res{"err": false, "n": n, "item": readRoot(f.root)}
	case "sdec": // decode a scheme
		f.sch = util.NewMappedSchemd(o.B.copy())
		n, err := f.sch.Decode(nil)
		if err != nil {
			f.sch = nil
			return res{"err": true}
		}
		r := schemeRes(f.sch)
		r["n"], r["err"] = n, false
		return r
	case "scopy": // copy of the scheme (or of such a copy), then its encoding
		var c util.IEncodable
		var err error
		if o.Flag {
			c, err = f.sch.CopyConstruct()
			if err != nil {
				return res{"err": true, "copyerr": true}
			}
		} else {
			c = f.sch.Copy()
		}
		if o.Set { // a copy of the copy
			c = c.Copy()
		}
		r := schemeRes(c.(util.IScheme))
		r["copyerr"] = false
		if !c.IsEncoded() {
			if err := c.Encode(nil); err != nil {
				r["err"] = true
				return r
			}
		}
		r["err"], r["b"], r["magic"] = false, vb(append([]byte{}, c.Buf()...)), int(c.(util.IScheme).SchemeMagic())
		return r
	}
	harnessPanic("op %s", o.Op)
	return nil
}

func schemeRes(s util.IScheme) res {
	bk := []vb{}
	for i := range s.Buckets() {
		bk = append(bk, vb(append([]byte{}, s.BucketAt(i)...)))
	}
	return res{"hd": s.Domain() != nil, "d": vb(append([]byte{}, s.Domain()...)),
		"ht": s.Tablet() != nil, "t": vb(append([]byte{}, s.Tablet()...)),
		"hb": s.Buckets() != nil, "bk": bk,
		"names": s.DomainName() == string(s.Domain()) && s.TabletName() == string(s.Tablet())}
}
