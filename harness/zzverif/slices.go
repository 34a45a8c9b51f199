package main

import (
	"crypto/sha256"
	"encoding/binary"
	"reflect"

	"../collection"
	"../util"
)

// An element is a list of 16-bit limbs, most significant first; signed numbers
// are written in offset binary (0 is the most negative).

func limbs(l []int) uint64 {
	x := uint64(0)
	for _, y := range l {
		x = x<<16 | uint64(y)
	}
	return x
}

func toLimbs(x uint64, n int) []int {
	out := make([]int, n)
	for i := n - 1; i >= 0; i-- {
		out[i] = int(x & 0xffff)
		x >>= 16
	}
	return out
}

func sign(x int) int {
	switch {
	case x < 0:
		return -1
	case x > 0:
		return 1
	}
	return 0
}

type number interface {
	~int8 | ~uint8 | ~int16 | ~uint16 | ~int32 | ~uint32 | ~int64 | ~uint64 | ~int
}

// bits: width of the type; signed: offset binary
func nums[T number](ll [][]int, isnil bool, bits uint, signed bool) []T {
	if isnil {
		return nil
	}
	out := make([]T, len(ll))
	for i, l := range ll {
		x := limbs(l)
		if signed {
			x -= uint64(1) << (bits - 1)
		}
		out[i] = T(x)
	}
	return out
}

func comps(ll [][]int, isnil bool) []collection.IComparable {
	if isnil {
		return nil
	}
	out := make([]collection.IComparable, len(ll))
	for i, l := range ll {
		u := make([]uint16, len(l))
		for j, x := range l {
			u[j] = uint16(x)
		}
		out[i] = collection.NewComparableUint16Slice(u)
	}
	return out
}

// nil in several guises: as an interface, and as pointers of several types
func nilComparable(x collection.IComparable, i int) collection.IComparable {
	switch i {
	case 0:
		return nil
	case 1:
		return nilOf(x).(collection.IComparable)
	case 2:
		return (*collection.ComparableByteSlice)(nil)
	case 3:
		return (*collection.ComparableSlice)(nil)
	}
	return (*collection.ComparableInt64Slice)(nil)
}

func nilHashable(i int) collection.IHashable {
	switch i {
	case 0:
		return nil
	case 1:
		return (*collection.HashableUint16Slice)(nil)
	}
	return (*collection.HashableSlice)(nil)
}

// the nil pointer of x's own type
func nilOf(x interface{}) interface{} {
	return reflect.Zero(reflect.TypeOf(x)).Interface()
}

// elements are nil (no limbs) or 1 followed by the content of a comparable
func compsOrNil(ll [][]int, isnil bool, guise int) []collection.IComparable {
	if isnil {
		return nil
	}
	out := make([]collection.IComparable, len(ll))
	for i, l := range ll {
		if len(l) == 0 {
			out[i] = nilComparable(collection.NewComparableUint16Slice(nil), (guise+i)%5)
		} else {
			out[i] = comps([][]int{l[1:]}, false)[0]
		}
	}
	return out
}

func comparable(kind string, ll [][]int, set bool) collection.IComparable {
	switch kind {
	case "byte":
		return collection.NewComparableByteSlice(nums[byte](ll, set, 8, false))
	case "int8":
		return collection.NewComparableInt8Slice(nums[int8](ll, set, 8, true))
	case "int16":
		return collection.NewComparableInt16Slice(nums[int16](ll, set, 16, true))
	case "uint16":
		return collection.NewComparableUint16Slice(nums[uint16](ll, set, 16, false))
	case "int32":
		return collection.NewComparableInt32Slice(nums[int32](ll, set, 32, true))
	case "uint32":
		return collection.NewComparableUint32Slice(nums[uint32](ll, set, 32, false))
	case "int64":
		return collection.NewComparableInt64Slice(nums[int64](ll, set, 64, true))
	case "uint64":
		return collection.NewComparableUint64Slice(nums[uint64](ll, set, 64, false))
	case "comp":
		return collection.NewComparableSlice(comps(ll, set))
	}
	harnessPanic("kind %s", kind)
	return nil
}

type sliceFam struct{}

func init() {
	families["slices"] = func(cfg *op) family { return &sliceFam{} }
	families["hashes"] = func(cfg *op) family { return &hashesFam{} }
}

// cmp: functions (fc, fe) and wrapper objects (wc, we); 9 or equal flag when
// there is no such function for the type
func cmpNums[T number](o *op, bits uint, signed bool, fc func(a, b []T) int, fe func(a, b []T) bool,
	w func(a []T) collection.IComparable) res {
	a := nums[T](o.LL, o.Set, bits, signed)
	b := nums[T](unLL(o.X), o.Flag, bits, signed)
	r := res{}
	if fc != nil {
		r["fc"] = sign(fc(a, b))
	}
	if fe != nil {
		r["fe"] = fe(a, b)
	}
	if w != nil {
		r["wc"] = sign(w(a).Compare(w(b)))
		r["we"] = w(a).Equal(w(b))
	}
	return r
}

func unLL(raw []byte) [][]int {
	var out [][]int
	unjson(raw, &out)
	return out
}

func (f *sliceFam) do(o *op) res {
	switch o.Op {
	case "cmp":
	case "cnil": // against nothing
		x := comparable(o.Kind, o.LL, o.Set)
		n := nilComparable(x, o.N)
		return res{"wc": sign(x.Compare(n)), "we": x.Equal(n), "again": x.Equal(comparable(o.Kind, o.LL, o.Set)),
			"nn": nilOf(x).(collection.IComparable).Equal(n), "nx": nilOf(x).(collection.IComparable).Equal(x)}
	case "ceq": // equality of objects of any two types
		x, y := comparable(o.Kind, o.LL, o.Set), comparable(o.Str, unLL(o.X), o.Flag)
		return res{"we": x.Equal(y), "we2": y.Equal(x), "wo": x.Equal(o.N), "wh": x.Equal(collection.NewHashableByteSlice([]byte{1}))}
	default:
		harnessPanic("op %s", o.Op)
	}
	switch o.Kind {
	case "byte":
		return cmpNums[byte](o, 8, false, collection.CompareByteSlice, collection.EqualByteSlice,
			func(a []byte) collection.IComparable { return collection.NewComparableByteSlice(a) })
	case "int8":
		return cmpNums[int8](o, 8, true, collection.CompareInt8Slice, collection.EqualInt8Slice,
			func(a []int8) collection.IComparable { return collection.NewComparableInt8Slice(a) })
	case "int16":
		return cmpNums[int16](o, 16, true, collection.CompareInt16Slice, collection.EqualInt16Slice,
			func(a []int16) collection.IComparable { return collection.NewComparableInt16Slice(a) })
	case "uint16":
		return cmpNums[uint16](o, 16, false, collection.CompareUint16Slice, collection.EqualUint16Slice,
			func(a []uint16) collection.IComparable { return collection.NewComparableUint16Slice(a) })
	case "int32":
		return cmpNums[int32](o, 32, true, collection.CompareInt32Slice, collection.EqualInt32Slice,
			func(a []int32) collection.IComparable { return collection.NewComparableInt32Slice(a) })
	case "uint32":
		return cmpNums[uint32](o, 32, false, collection.CompareUint32Slice, collection.EqualUint32Slice,
			func(a []uint32) collection.IComparable { return collection.NewComparableUint32Slice(a) })
	case "int64":
		return cmpNums[int64](o, 64, true, collection.CompareInt64Slice, collection.EqualInt64Slice,
			func(a []int64) collection.IComparable { return collection.NewComparableInt64Slice(a) })
	case "uint64":
		return cmpNums[uint64](o, 64, false, collection.CompareUint64Slice, collection.EqualUint64Slice,
			func(a []uint64) collection.IComparable { return collection.NewComparableUint64Slice(a) })
	case "int":
		return cmpNums[int](o, 64, true, collection.CompareIntSlice, collection.EqualIntSlice, nil)
	case "comp":
		a, b := comps(o.LL, o.Set), comps(unLL(o.X), o.Flag)
		wa, wb := collection.NewComparableSlice(a), collection.NewComparableSlice(b)
		return res{"fc": sign(collection.CompareSlice(a, b)), "wc": sign(wa.Compare(wb)), "we": wa.Equal(wb)}
	case "compn": // some of them nil
		a, b := compsOrNil(o.LL, o.Set, o.N), compsOrNil(unLL(o.X), o.Flag, o.N/5)
		wa, wb := collection.NewComparableSlice(a), collection.NewComparableSlice(b)
		return res{"fc": sign(collection.CompareSlice(a, b)), "wc": sign(wa.Compare(wb)), "we": wa.Equal(wb)}
	case "comp2": // comparables that are themselves composite
		a := collection.NewComparableSlice([]collection.IComparable{
			collection.NewComparableSlice(comps(o.LL, o.Set))})
		b := collection.NewComparableSlice([]collection.IComparable{
			collection.NewComparableSlice(comps(unLL(o.X), o.Flag))})
		return res{"wc": sign(a.Compare(b)), "we": a.Equal(b)}
	}
	harnessPanic("kind %s", o.Kind)
	return nil
}

////////////////////////////////////////////////////////////////////////////////

type hashesFam struct{}

func shaFunc(salt byte) func([]byte) uint32 {
	return func(b []byte) uint32 {
		s := sha256.Sum256(append([]byte{salt}, b...))
		return binary.BigEndian.Uint32(s[:])
	}
}

// makes the object anew, so that objects are never shared between calls
func hashObject(o *op) collection.IHashable {
	if o.Kind == "slicen" { // a slice of hashables, some of them nil
		if o.Set {
			return collection.NewHashableSlice(nil)
		}
		out := []collection.IHashable{}
		for i, l := range o.LL {
			if len(l) == 0 {
				out = append(out, nilHashable((o.N+i)%3))
			} else {
				out = append(out, collection.NewHashableUint16Slice(nums[uint16]([][]int{l}, false, 16, false)))
			}
		}
		return collection.NewHashableSlice(out)
	}
	switch o.Kind {
	case "byte":
		return collection.NewHashableByteSlice(nums[byte](o.LL, o.Set, 8, false))
	case "int16":
		return collection.NewHashableInt16Slice(nums[int16](o.LL, o.Set, 16, true))
	case "uint16":
		return collection.NewHashableUint16Slice(nums[uint16](o.LL, o.Set, 16, false))
	case "int32":
		return collection.NewHashableInt32Slice(nums[int32](o.LL, o.Set, 32, true))
	case "uint32":
		return collection.NewHashableUint32Slice(nums[uint32](o.LL, o.Set, 32, false))
	case "int64":
		return collection.NewHashableInt64Slice(nums[int64](o.LL, o.Set, 64, true))
	case "uint64":
		return collection.NewHashableUint64Slice(nums[uint64](o.LL, o.Set, 64, false))
	case "slice": // a slice of hashables, one per element
		if o.Set {
			return collection.NewHashableSlice(nil)
		}
		out := []collection.IHashable{}
		for _, l := range o.LL {
			out = append(out, collection.NewHashableUint16Slice(nums[uint16]([][]int{l}, false, 16, false)))
		}
		return collection.NewHashableSlice(out)
	case "key": // an element is a sub key
		bb := []vb{}
		for _, l := range o.LL {
			b := vb{}
			for _, x := range l {
				b = append(b, byte(x))
			}
			bb = append(bb, b)
		}
		return makeKey(bb, o.Str)
	}
	harnessPanic("kind %s", o.Kind)
	return nil
}

func (f *hashesFam) do(o *op) res {
	switch o.Op {
	case "hash":
	case "heq": // two objects of any types
		p := *o
		p.Kind, p.LL, p.Set, p.N = o.Str2, unLL(o.X), o.Flag, o.J
		unjson(o.Y, &p.Str)
		x, y := hashObject(o), hashObject(&p)
		seed := collection.MurmurSeed(uint32(o.I))
		return res{"eq": x.Equal(y), "eq2": y.Equal(x),
			"hs": x.HashUint32(shaFunc(1)) == y.HashUint32(shaFunc(1)) && x.HashUint32(shaFunc(2)) == y.HashUint32(shaFunc(2)),
			"ms": x.HashUint32(seed.Hash) == y.HashUint32(seed.Hash)}
	case "hnil":
		x := hashObject(o)
		return res{"eq": x.Equal(nil), "eqp": x.Equal(nilOf(x)), "eqo": x.Equal(nilHashable(o.N)), "eqf": x.Equal(o.N),
			"nn": o.Kind == "key" || nilOf(x).(collection.IHashable).Equal(nilHashable(o.N)),
			"nx": o.Kind != "key" && nilOf(x).(collection.IHashable).Equal(x)}
	default:
		harnessPanic("op %s", o.Op)
	}
	x := hashObject(o)
	y := hashObject(o)
	h1 := x.HashUint32(shaFunc(1))
	h2 := x.HashUint32(shaFunc(2))
	m1 := x.HashUint32(collection.MurmurSeed(uint32(o.N)).Hash)
	// hashing again, and hashing an equal object, gives the same
	again := x.HashUint32(shaFunc(1)) == h1 &&
		x.HashUint32(collection.MurmurSeed(uint32(o.N)).Hash) == m1 &&
		y.HashUint32(shaFunc(1)) == h1 && y.HashUint32(shaFunc(2)) == h2
	r := res{"again": again, "same": x.Equal(y) && y.Equal(x),
		"h": append(toLimbs(uint64(h1), 2), toLimbs(uint64(h2), 2)...), "m": toLimbs(uint64(m1), 2)}
	if k, ok := x.(util.IKey); ok {
		r["same"] = r["same"].(bool) && sameSubs(k.Key(), y.(util.IKey).Key())
	}
	return r
}
