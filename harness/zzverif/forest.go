package main

import (
	"io"
	"reflect"

	"../collection"
	"../util"
)

// nodes of tries, put together by hand; they are numbered from 1
type forestFam struct {
	nodes []util.ITrieNode
}

func init() {
	families["forest"] = func(cfg *op) family { return &forestFam{} }
}

func (f *forestFam) at(n int) util.ITrieNode {
	if n == 0 {
		return nil
	}
	return f.nodes[n-1]
}

// the number of a node: 0 for none, -1 for an unknown one
func (f *forestFam) number(x util.ITrieNode) int {
	if collection.IsNil(x) {
		return 0
	}
	for i, y := range f.nodes {
		if x == y {
			return i + 1
		}
	}
	return -1
}

// whether a call is refused by a panic
func panics(call func()) (r bool) {
	defer func() {
		if e := recover(); e != nil {
			r = true
		}
	}()
	call()
	return false
}

// all that an iterator lists; what it says before each step agrees with it
func listed(it util.ITrieIterator, ask int) res {
	list := []interface{}{}
	agree := true
	for i := 0; i < 4096; i++ {
		var has, peeked bool
		var pk, pv interface{}
		if (ask+i)%2 == 0 {
			has = it.HasNext()
		}
		if (ask+i)%3 != 2 {
			k, v := it.Peek()
			peeked = true
			pk, pv = subs(k), readVal(v)
			if collection.IsNil(k) {
				pk = nil
			}
		}
		k, v := it.Next()
		if (ask+i)%2 == 0 && has == collection.IsNil(k) {
			agree = false
		}
		if peeked && (pk == nil) != collection.IsNil(k) {
			agree = false
		}
		if collection.IsNil(k) {
			if it.HasNext() {
				agree = false
			}
			return res{"refused": false, "list": list, "agree": agree}
		}
		e := []interface{}{subs(k), readVal(v)}
		if peeked && !reflect.DeepEqual([]interface{}{pk, pv}, e) {
			agree = false
		}
		list = append(list, e)
	}
	return res{"refused": false, "list": list, "agree": false}
}

func (f *forestFam) do(o *op) res {
	value := func() util.IValue {
		if o.Flag {
			return nil
		}
		x := &valT{}
		unjson(o.X, x)
		return makeValue(x, o.M)
	}
	switch o.Op {
	case "new": // under n
		f.nodes = append(f.nodes, util.NewTrieNode(f.at(o.N), o.B.copy(), value()))
		return nil
	case "put": // under its parent
		n := f.at(o.N)
		return res{"err": n.Parent().PutChild(n.NodeKey(), n) != nil}
	case "take":
		return res{"err": f.at(o.N).RemoveChild(o.B.copy()) != nil}
	case "give":
		return res{"err": f.at(o.N).SetValue(value()) != nil}
	case "place":
		return res{"err": f.at(o.N).SetOffset(uint32(o.I)) != nil}
	case "write":
		return res{"err": f.at(o.N).Encode(nil) != nil}
	case "copy":
		f.nodes = append(f.nodes, f.at(o.N).Copy().(util.ITrieNode))
		return nil
	case "map": // read from bytes, under n
		t, n, err := util.NewMappedTrieNode(f.at(o.N), o.B.copy(), uint32(o.I))
		if err != nil {
			return res{"err": true, "len": 0}
		}
		f.nodes = append(f.nodes, t)
		return res{"err": false, "len": n}
	case "again": // the bytes of node s, and others, read under n
		buf := append(append([]byte{}, f.at(o.S).Buf()...), o.B...)
		t, n, err := util.NewMappedTrieNode(f.at(o.N), buf, uint32(o.I))
		if err != nil {
			return res{"err": true, "len": 0}
		}
		f.nodes = append(f.nodes, t)
		return res{"err": false, "len": n}
	case "look":
		n := f.at(o.N)
		kids := []interface{}{}
		for it := n.Children().Iterator(); it.HasNext(); {
			k, v := it.Next()
			kid := v.(util.ITrieNode)
			if !k.Equal(collection.NewComparableByteSlice(kid.NodeKey())) {
				kids = append(kids, []interface{}{vb{}, -1})
			}
			kids = append(kids, []interface{}{vb(append([]byte{}, kid.NodeKey()...)), f.number(kid)})
		}
		r := res{"path": subs(n.FullKey()), "own": vb(append([]byte{}, n.NodeKey()...)), "val": readVal(n.Value()),
			"size": n.ChildSize(), "kids": kids, "up": f.number(n.Parent()), "child": f.number(n.GetChild(o.B.copy())),
			"off": int(n.Offset()), "isenc": n.IsEncoded(), "isdec": n.IsDecoded(), "bytes": vb{}}
		if n.IsEncoded() {
			r["bytes"] = vb(append([]byte{}, n.Buf()...))
		}
		n.Print(io.Discard, 1)
		return r
	case "list": // from s on, below the root n
		var it util.ITrieIterator
		if panics(func() { it = util.NewTrieKeyIterator(f.at(o.N), f.at(o.S)) }) {
			return res{"refused": true, "list": []interface{}{}, "agree": true}
		}
		return listed(it, o.I)
	case "range":
		var s, e util.IKey
		if o.Set {
			s = makeKey(o.BB, o.Str)
		}
		if o.Flag {
			e = makeKey(o.CC, o.Str2)
		}
		var it util.ITrieIterator
		if panics(func() { it = util.NewTrieRangeIterator(f.at(o.N), s, e) }) {
			return res{"refused": true, "list": []interface{}{}, "agree": true}
		}
		return listed(it, o.I)
	}
	harnessPanic("op %s", o.Op)
	return nil
}
