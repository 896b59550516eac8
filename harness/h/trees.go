package h

import (
	"crypto/sha512"
	"encoding/hex"
	"math/big"
	"strconv"
	"time"

	"github.com/steve-care-software/rodkina/libs/cryptography/domain/hash"
	"github.com/steve-care-software/rodkina/libs/cryptography/domain/hashtrees"
	"github.com/steve-care-software/rodkina/libs/databases/domain/references"
	"github.com/steve-care-software/rodkina/verifh/sym"
)

// wantHash is the reference definition of the hash of some data
func wantHash(data []byte) []byte {
	if len(data) == hash.Size {
		return data
	}
	d := sha512.Sum512(data)
	return d[:]
}

// H_Hash computes hashes of arbitrary data.
func H_Hash() {
	a := hash.NewAdapter()
	lens := []int{0, 1, 2, 63, 64, 65, 128}
	data := sym.Bytes("data", lens[sym.Choice("len", len(lens))])
	h, err := a.FromBytes(data)
	must(err, "hash")
	sym.Assert(len(*h) == hash.Size, "a hash has 64 bytes")
	sym.Assert(sym.EqBytes(*h, wantHash(data)), "the hash of data is its digest, or the data itself when it has the size of a digest")
	again, err := a.FromBytes(append([]byte{}, data...))
	must(err, "hash")
	sym.Assert(h.Compare(*again), "the same data has the same hash")
	// the bytes of a hash hash to itself
	self, err := a.FromBytes(h.Bytes())
	must(err, "hash")
	sym.Assert(self.Compare(*h), "a hash given as bytes is kept")
	// later changes to the input or to the returned bytes have no effect
	keep := append([]byte{}, *h...)
	if len(data) > 0 {
		data[0] ^= 0xff
		h.Bytes()[0] ^= 0xff
	}
	sym.Assert(sym.EqBytes(*h, keep), "a hash does not change with the data it was made from")
	// other data has another hash
	other := sym.Bytes("other", lens[sym.Choice("len2", len(lens))])
	o, err := a.FromBytes(other)
	must(err, "hash")
	sym.Assert(h.Compare(*o) == sym.EqBytes(*h, *o), "hashes are equal when their bytes are")
	sym.Assert(o.Compare(*h) == h.Compare(*o), "comparing is symmetric")
	if len(keep) == hash.Size {
		sym.Reach("digest")
	}
}

// H_HashText converts hashes to text and back.
func H_HashText() {
	a := hash.NewAdapter()
	b := fixedHash(7)
	at := []int{0, 1, 31, 62, 63}
	i := at[sym.Choice("at", len(at))]
	b[i] = sym.Byte("b")
	s := b.String()
	sym.Assert(len(s) == 2*hash.Size, "a hash has 128 hexadecimal digits")
	back, err := a.FromString(s)
	must(err, "hash from its text")
	sym.Assert(sym.EqBytes(*back, b), "a hash survives its text form")
	// arbitrary text
	txt := sym.Bytes("t", sym.Choice("n", sym.Param("text", 3)))
	got, err := a.FromString(string(txt))
	raw, err2 := hex.DecodeString(string(txt))
	sym.Assert((err == nil) == (err2 == nil), "text that is not hexadecimal is refused")
	if err == nil {
		sym.Assert(sym.EqBytes(*got, wantHash(raw)), "the hash of a text is the hash of the bytes it stands for")
		sym.Reach("text")
	}
}

// H_HashMulti computes the hash of data in parts.
func H_HashMulti() {
	a := hash.NewAdapter()
	n := sym.Choice("n", 4)
	lens := []int{0, 1, 2, 62, 64}
	var parts [][]byte
	var whole []byte
	for i := 0; i < n; i++ {
		p := sym.Bytes("p"+strconv.Itoa(i), lens[sym.Choice("len"+strconv.Itoa(i), len(lens))])
		parts = append(parts, p)
		whole = append(whole, p...)
	}
	var spare []byte
	if sym.Bool("shared") {
		// the parts are pieces of one slice, each with the rest as spare capacity
		spare = append(append([]byte{}, whole...), 1, 2, 3)
		at := 0
		for i, p := range parts {
			parts[i] = spare[at : at+len(p)]
			at += len(p)
		}
		if sym.Bool("reversed") {
			whole = nil
			for i := range parts[:n/2] {
				parts[i], parts[n-1-i] = parts[n-1-i], parts[i]
			}
			for _, p := range parts {
				whole = append(whole, p...)
			}
		}
	}
	before := append([]byte{}, spare...)
	h, err := a.FromMultiBytes(parts)
	must(err, "hash")
	sym.Assert(sym.EqBytes(*h, wantHash(whole)), "the hash of parts is the hash of their concatenation")
	off := 0
	for _, p := range parts {
		sym.Assert(sym.EqBytes(p, whole[off:off+len(p)]), "hashing leaves the parts unchanged")
		off += len(p)
	}
	sym.Assert(sym.EqBytes(before, spare), "hashing leaves the memory around the parts unchanged")
	if len(spare) > 0 {
		sym.Reach("shared")
	}
	sym.Reach("parts")
}

// blocksOf builds n blocks; mode 0: short data, 1: digests, 2: a mix with empty and repeated blocks
func blocksOf(name string, n int, digests bool) [][]byte {
	var blocks [][]byte
	for i := 0; i < n; i++ {
		id := name + strconv.Itoa(i)
		if digests {
			h := fixedHash(1)
			h[63] = sym.Byte(id)
			blocks = append(blocks, h)
			continue
		}
		blocks = append(blocks, sym.Bytes(id, sym.Choice(id+".len", 3)))
	}
	return blocks
}

// refTree is the reference definition of the head and the leaves of a hash tree
func refTree(blocks [][]byte) (head []byte, leaves [][]byte, height uint) {
	size := 2
	height = 2
	for size < len(blocks) {
		size *= 2
		height++
	}
	for i := 0; i < size; i++ {
		if i < len(blocks) {
			leaves = append(leaves, wantHash(blocks[i]))
		} else {
			leaves = append(leaves, wantHash(nil))
		}
	}
	level := leaves
	for len(level) > 1 {
		var next [][]byte
		for i := 0; i < len(level); i += 2 {
			both := append(append([]byte{}, level[i]...), level[i+1]...)
			next = append(next, wantHash(both))
		}
		level = next
	}
	return level[0], leaves, height
}

// checkInner verifies that every inner hash of a tree is the hash of its two children
func checkInner(head []byte, p hashtrees.ParentLeaf) {
	both := append(append([]byte{}, p.Left().Head()...), p.Right().Head()...)
	sym.Assert(sym.EqBytes(head, wantHash(both)), "an inner hash is the hash of its children")
	for _, l := range []hashtrees.Leaf{p.Left(), p.Right()} {
		if l.HasParent() {
			checkInner(l.Head(), l.Parent())
		}
	}
}

// H_Tree builds trees of arbitrary blocks and compares them with the reference definition.
func H_Tree() {
	n := 1 + sym.Choice("n", sym.Param("n", 5))
	digests := sym.Bool("digests")
	if n > sym.Param("free", 4) && !digests {
		sym.Stop()
	}
	checkTree(blocksOf("b", n, digests))
}

// checkTree builds a tree and compares it, its compact form, its encodings and its leaves with the definition
func checkTree(blocks [][]byte) {
	n := len(blocks)
	copies := make([][]byte, n, n+2)
	spare := []byte("spare")
	for i, b := range blocks {
		copies[i] = append([]byte{}, b...)
	}
	blocks = append(blocks, spare)[:n]
	t, err := hashtrees.NewBuilder().Create().WithBlocks(blocks).Now()
	must(err, "hash tree")
	head, leaves, height := refTree(copies)
	sym.Assert(sym.EqBytes(t.Head(), head), "the head of a tree is the root of its hashed blocks")
	sym.Assert(t.Height() == height, "the height of a tree")
	checkInner(t.Head(), t.Parent())
	a := hashtrees.NewAdapter()
	length, err := a.ToLength(t)
	must(err, "length")
	sym.Assert(*length == uint(len(leaves)), "the number of leaves of a tree")
	comp, err := a.ToCompact(t)
	must(err, "compact")
	sym.Assert(sym.EqBytes(comp.Head(), head), "the compact form has the head of its tree")
	sym.Assert(comp.Length() == uint(len(leaves)), "the compact form has all leaves")
	list := comp.Leaves().Leaves()
	sym.Assert(len(list) == len(leaves), "the compact form lists all leaves")
	for i, l := range list {
		sym.Assert(sym.EqBytes(l.Head(), leaves[i]), "the leaves of a tree are the hashes of its blocks in order")
		sym.Assert(!l.HasParent() && l.Height() == 0, "a leaf has nothing below it")
	}
	// the caller's data is untouched
	for i := range blocks {
		sym.Assert(sym.EqBytes(blocks[i], copies[i]), "building a tree changes a block")
	}
	sym.Assert(string(blocks[:n+1][n]) == "spare", "building a tree changes the slice of the caller")
	// codec
	enc, err := a.ToContent(t)
	must(err, "encode a tree")
	back, err := a.ToHashTree(enc)
	must(err, "decode a tree")
	sym.Assert(sameTree(t, back), "a tree survives its encoding")
	// from the leaves again
	rebuilt, err := hashtrees.NewLeavesAdapter().ToHashTree(comp.Leaves())
	must(err, "tree of leaves")
	sym.Assert(sameTree(t, rebuilt), "the leaves rebuild their tree")
	// compact codec
	ca := hashtrees.NewCompactAdapter()
	encC, err := ca.ToContent(comp)
	must(err, "encode a compact tree")
	backC, err := ca.ToCompact(encC)
	must(err, "decode a compact tree")
	sym.Assert(sym.EqBytes(backC.Head(), head) && backC.Length() == uint(len(leaves)), "a compact tree survives its encoding")
	for i, l := range backC.Leaves().Leaves() {
		sym.Assert(sym.EqBytes(l.Head(), leaves[i]), "the leaves of a compact tree survive its encoding in order")
	}
	again, err := hashtrees.NewLeavesAdapter().ToHashTree(backC.Leaves())
	must(err, "tree of decoded leaves")
	sym.Assert(sameTree(t, again), "a decoded compact tree rebuilds its tree")
	if len(leaves) > n {
		sym.Reach("padded")
	} else {
		sym.Reach("full")
	}
}

// longSizes are the numbers of blocks of the larger trees
var longSizes = []int{6, 9, 16, 17, 33, 64, 65, 513, 127, 63, 255, 5, 7, 8, 31, 100, 128, 129, 257, 300}

// longBlocks builds many blocks: texts of different lengths, digests or all the same, one of them arbitrary
func longBlocks(name string, n int) [][]byte {
	kind := sym.Choice(name+".kind", 4)
	at := []int{0, n - 1, n / 2}[sym.Choice(name+".at", 3)]
	var blocks [][]byte
	for i := 0; i < n; i++ {
		var b []byte
		switch kind {
		case 0: // texts of 0 to 6 bytes
			b = []byte("abcdef" + strconv.Itoa(i))[6-i%7:]
		case 1: // digests
			b = fixedHash(byte(i))
			b[10] = byte(i / 256)
		case 2: // the same block again and again
			b = []byte("same")
		default: // long blocks, some with the size of a digest
			b = make([]byte, 63+i%3)
			if i == at {
				b = make([]byte, 64)
			}
			b[0] = byte(i)
			b[1] = byte(i / 256)
		}
		if i == at {
			b = append([]byte{}, b...)
			if len(b) == 0 {
				b = []byte{0}
			}
			b[len(b)-1] = sym.Byte(name + ".b")
		}
		blocks = append(blocks, b)
	}
	return blocks
}

// H_TreeLong builds larger trees with one arbitrary block.
func H_TreeLong() {
	n := longSizes[sym.Choice("size", sym.Param("sizes", 7))]
	checkTree(longBlocks("b", n))
}

// H_TreeOrderLong restores the order of many shuffled blocks.
func H_TreeOrderLong() {
	n := longSizes[sym.Choice("size", sym.Param("sizes", 4))]
	blocks := longBlocks("b", n)
	t, err := hashtrees.NewBuilder().Create().WithBlocks(blocks).Now()
	must(err, "tree")
	var mixed [][]byte
	shift := []int{0, 1, n - 1, n / 2}[sym.Choice("shift", 4)]
	back := sym.Bool("back")
	for i := range blocks {
		k := (i + shift) % n
		if back {
			k = n - 1 - k
		}
		mixed = append(mixed, blocks[k])
	}
	got, err := hashtrees.NewAdapter().ToOrder(t, mixed)
	must(err, "order")
	sym.Assert(len(got) == n, "ordering returns every block once")
	for i := range got {
		sym.Assert(len(got[i]) == len(blocks[i]) && sym.EqBytes(got[i], blocks[i]), "ordering restores the order of the blocks")
	}
	// one block more than the tree has, and one that it does not have
	_, err = hashtrees.NewAdapter().ToOrder(t, append(append([][]byte{}, mixed...), []byte("foreign")))
	sym.Assert(err != nil, "data that does not belong to the tree is refused")
	twice := append(append([][]byte{}, mixed[1:]...), []byte("foreign"))
	_, err = hashtrees.NewAdapter().ToOrder(t, twice)
	sym.Assert(err != nil, "a foreign block is refused")
	sym.Reach("ordered")
}

// H_TreeOrderTwins restores the order of blocks of which several are equal and some are the digest of others.
func H_TreeOrderTwins() {
	text := []byte{'t', sym.Byte("t")}
	digest, err := hash.NewAdapter().FromBytes(text)
	must(err, "digest")
	blocks := [][]byte{}
	texts, digests := 1+sym.Choice("texts", sym.Param("texts", 4)), sym.Choice("digests", 3)
	for i := 0; i < texts; i++ {
		blocks = append(blocks, text)
	}
	for i, n := 0, []int{0, 6, 20}[sym.Choice("others", 3)]; i < n; i++ {
		blocks = append(blocks, []byte("other"+itoa(i/2)))
	}
	for i := 0; i < digests; i++ {
		blocks = append(blocks, digest.Bytes())
	}
	t, err := hashtrees.NewBuilder().Create().WithBlocks(blocks).Now()
	must(err, "tree")
	n := len(blocks)
	shift, step := sym.Choice("shift", 3)*n/3, 1
	if sym.Bool("back") {
		step = n - 1
	}
	mixed := [][]byte{}
	for i := range blocks {
		mixed = append(mixed, append([]byte{}, blocks[(i*step+shift)%n]...))
	}
	got, err := hashtrees.NewAdapter().ToOrder(t, mixed)
	must(err, "order")
	sym.Assert(len(got) == n, "ordering returns every block once")
	long := 0
	for i := range got {
		one, err := hash.NewAdapter().FromBytes(got[i])
		must(err, "hash")
		two, err := hash.NewAdapter().FromBytes(blocks[i])
		must(err, "hash")
		sym.Assert(one.Compare(*two), "ordering restores the order of the blocks")
		if len(got[i]) == hash.Size {
			long++
		}
	}
	sym.Assert(long == digests, "ordering returns every block once")
	sym.Reach("ordered")
}

// H_TreeLevels converts trees whose leaves are already inner hashes.
func H_TreeLevels() {
	n := sym.Choice("n", sym.Param("n", 9))
	var list []hashtrees.Leaf
	var digests [][]byte
	for i := 0; i < n; i++ {
		h := fixedHash(byte(1 + i))
		h[0] = sym.Byte("h" + strconv.Itoa(i))
		digests = append(digests, h)
		b := hashtrees.NewLeafBuilder().Create().WithHead(h)
		l, err := b.Now()
		must(err, "leaf")
		list = append(list, l)
	}
	ls, err := hashtrees.NewLeavesBuilder().Create().WithList(list).Now()
	sym.Assert((err == nil) == (n > 0), "leaves are a non-empty list")
	if err != nil {
		return
	}
	t, err := hashtrees.NewLeavesAdapter().ToHashTree(ls)
	power := n >= 2 && n&(n-1) == 0
	sym.Assert((err == nil) == power, "exactly the paired lists of leaves make a tree")
	if err == nil {
		head, _, _ := refTree(digests)
		sym.Assert(sym.EqBytes(t.Head(), head), "the tree of leaves has their root as head")
		sym.Reach("tree")
	}
	// merging keeps both lists in order
	cut := sym.Choice("cut", n+1)
	if cut == 0 || cut == n {
		sym.Stop()
	}
	left, err := hashtrees.NewLeavesBuilder().Create().WithList(append([]hashtrees.Leaf{}, list[:cut]...)).Now()
	must(err, "leaves")
	right, err := hashtrees.NewLeavesBuilder().Create().WithList(append([]hashtrees.Leaf{}, list[cut:]...)).Now()
	must(err, "leaves")
	merged := left.Merge(right).Leaves()
	sym.Assert(len(merged) == n, "merging keeps all leaves")
	for i := range merged {
		sym.Assert(sym.EqBytes(merged[i].Head(), digests[i]), "merging keeps the order of the leaves")
	}
	sym.Reach("merged")
}

// paddedSize is the number of leaves of a tree of n blocks
func paddedSize(n int) int {
	size := 2
	for size < n {
		size *= 2
	}
	return size
}

// H_TreeBinds compares the heads of two lists of blocks.
func H_TreeBinds() {
	digests := sym.Bool("digests")
	max := sym.Param("n", 2)
	if digests {
		max = sym.Param("digests", 4)
	}
	n := 1 + sym.Choice("n", max)
	m := 1 + sym.Choice("m", max)
	if m < n {
		sym.Stop() // symmetric
	}
	if digests && paddedSize(n) != paddedSize(m) {
		// a list of digests may be the inner level of a larger tree
		sym.Stop()
	}
	some := func(name string, n int) [][]byte {
		if digests {
			// digests, which are not the digest of nothing: that is the padding of a tree
			return blocksOf(name, n, true)
		}
		var res [][]byte
		for i := 0; i < n; i++ {
			id := name + strconv.Itoa(i)
			res = append(res, sym.Bytes(id, 1+sym.Choice(id+".len", 2)))
		}
		return res
	}
	a := some("a", n)
	b := some("b", m)
	ta, err := hashtrees.NewBuilder().Create().WithBlocks(a).Now()
	must(err, "tree")
	tb, err := hashtrees.NewBuilder().Create().WithBlocks(b).Now()
	must(err, "tree")
	same := n == m
	if same {
		for i := range a {
			same = sym.And(same, len(a[i]) == len(b[i]) && sym.EqBytes(a[i], b[i]))
		}
	}
	heads := sym.EqBytes(ta.Head(), tb.Head())
	sym.Assert(heads == same, "trees have the same head exactly when they have the same blocks in the same order")
	if digests {
		sym.Reach("digests")
	} else {
		sym.Reach("short")
	}
}

// H_TreeOrder restores the order of shuffled blocks.
func H_TreeOrder() {
	n := 1 + sym.Choice("n", sym.Param("n", 4))
	blocks := blocksOf("b", n, sym.Bool("digests"))
	t, err := hashtrees.NewBuilder().Create().WithBlocks(blocks).Now()
	must(err, "tree")
	a := hashtrees.NewAdapter()
	// an arbitrary permutation
	left := append([][]byte{}, blocks...)
	var mixed [][]byte
	for i := 0; i < n; i++ {
		k := sym.Choice("pick"+strconv.Itoa(i), len(left))
		mixed = append(mixed, left[k])
		left = append(append([][]byte{}, left[:k]...), left[k+1:]...)
	}
	got, err := a.ToOrder(t, mixed)
	must(err, "order")
	sym.Assert(len(got) == n, "ordering returns every block once")
	for i := range got {
		sym.Assert(len(got[i]) == len(blocks[i]) && sym.EqBytes(got[i], blocks[i]), "ordering restores the order of the blocks")
	}
	sym.Reach("ordered")
	// a foreign block is refused
	foreign := append(append([][]byte{}, mixed[1:]...), []byte("foreign"))
	_, err = a.ToOrder(t, foreign)
	sym.Assert(err != nil, "data that does not belong to the tree is refused")
}

// H_Commit builds two commits that differ in at most one part.
func H_Commit() {
	mining := byte('0')
	noScore := func(id []byte, proof []byte) {
		// the score loop has one path per leading mining value: results without one are enough here
		if proof != nil {
			sym.Assume(wantHash(append(append([]byte{}, id...), proof...))[0] != mining)
		}
	}
	ts := []int64{1600000000000000000, 1600000000000000001, 1500000000000000009}
	build := func(tree byte, parent []byte, hasParent bool, t int64, proof []byte) references.Commit {
		h := fixedHash(3)
		h[1] = tree
		v, err := hashtrees.NewBuilder().Create().WithBlocks([][]byte{h, fixedHash(9)}).Now()
		must(err, "tree")
		b := references.NewCommitBuilder(mining).Create().WithValues(v).CreatedOn(time.Unix(0, t).UTC())
		if hasParent {
			b.WithParent(hash.Hash(parent))
		}
		if proof != nil {
			b.WithProof(big.NewInt(0).SetBytes(proof))
			id := append([]byte{}, v.Head()...)
			id = append(id, []byte(strconv.FormatInt(t, 10))...)
			if hasParent {
				id = append(id, parent...)
			}
			noScore(wantHash(append(id, proof...)), proof)
		}
		c, err := b.Now()
		must(err, "commit")
		return c
	}
	tree := sym.Byte("tree")
	parent := []byte(fixedHash(40))
	parent[7] = sym.Byte("parent")
	hasParent := sym.Bool("hasParent")
	t := ts[sym.Choice("time", len(ts))]
	var proof []byte
	hasProof := sym.Bool("hasProof")
	if hasProof {
		proof = sym.Bytes("proof", 1+sym.Choice("proof.len", 2))
		sym.Assume(proof[0] != 0)
	}
	a := build(tree, parent, hasParent, t, proof)
	// the reference definition of the identity
	data := append([]byte{}, a.Values().Head()...)
	data = append(data, []byte(strconv.FormatInt(t, 10))...)
	if hasParent {
		data = append(data, parent...)
	}
	data = append(data, proof...)
	sym.Assert(len(a.Hash()) == hash.Size, "a commit identity has 64 bytes")
	switch sym.Choice("change", 6) {
	case 0:
		same := build(tree, parent, hasParent, t, proof)
		sym.Assert(sym.EqBytes(a.Hash(), same.Hash()), "equal commits have equal identities")
		sym.Reach("equal")
	case 1:
		tree2 := sym.Byte("tree2")
		o := build(tree2, parent, hasParent, t, proof)
		sym.Assert(sym.EqBytes(a.Hash(), o.Hash()) == (tree == tree2), "the identity of a commit covers its content")
		sym.Reach("content")
	case 2:
		p2 := append([]byte{}, parent...)
		p2[7] = sym.Byte("parent2")
		if !hasParent {
			sym.Stop()
		}
		o := build(tree, p2, hasParent, t, proof)
		sym.Assert(sym.EqBytes(a.Hash(), o.Hash()) == (parent[7] == p2[7]), "the identity of a commit covers its parent")
		sym.Reach("parent")
	case 3:
		o := build(tree, parent, !hasParent, t, proof)
		sym.Assert(!sym.EqBytes(a.Hash(), o.Hash()), "the identity of a commit covers whether it has a parent")
	case 4:
		t2 := ts[sym.Choice("time2", len(ts))]
		o := build(tree, parent, hasParent, t2, proof)
		sym.Assert(sym.EqBytes(a.Hash(), o.Hash()) == (t == t2), "the identity of a commit covers its time")
		sym.Reach("time")
	default:
		var proof2 []byte
		if sym.Bool("hasProof2") {
			proof2 = sym.Bytes("proof2", 1+sym.Choice("proof2.len", 2))
			sym.Assume(proof2[0] != 0)
		}
		o := build(tree, parent, hasParent, t, proof2)
		same := len(proof) == len(proof2) && sym.EqBytes(proof, proof2)
		sym.Assert(sym.EqBytes(a.Hash(), o.Hash()) == same, "the identity of a commit covers its proof")
		sym.Reach("proof")
	}
	_ = data
}

// H_Mine checks the result and the score of a mined commit.
func H_Mine() {
	mining := sym.Byte("mining")
	v, err := hashtrees.NewBuilder().Create().WithBlocks([][]byte{fixedHash(3), fixedHash(9)}).Now()
	must(err, "tree")
	b := references.NewCommitBuilder(mining).Create().WithValues(v).CreatedOn(time.Unix(0, 1600000000000000000).UTC())
	if sym.Bool("hasParent") {
		b.WithParent(fixedHash(40))
	}
	proof := sym.Bytes("proof", 1+sym.Choice("proof.len", 3))
	sym.Assume(proof[0] != 0)
	c, err := b.WithProof(big.NewInt(0).SetBytes(proof)).Now()
	must(err, "commit")
	m := c.Mine()
	want := wantHash(append(append([]byte{}, c.Hash()...), proof...))
	sym.Assert(sym.EqBytes(m.Result(), want), "the result of mining is the hash of the identity and the proof")
	sym.Assert(sym.EqBytes(m.Proof().Bytes(), proof), "a mined commit keeps its proof")
	score := 0
	for score < len(want) && want[score] == mining {
		score++
	}
	sym.Assert(m.Score() == uint(score), "the score is the number of leading mining values of the result")
	if score < 3 || score == len(want) {
		a := references.NewCommitAdapter(mining)
		enc, err := a.ToContent(c)
		must(err, "encode a mined commit")
		back, err := a.ToCommit(enc)
		must(err, "decode a mined commit")
		sym.Assert(back.HasMine() && sameCommit(c, back), "a mined commit survives its encoding")
	}
	if score > 0 {
		sym.Reach("score")
	}
}

// H_HashTextLong converts long texts, one character of them arbitrary, to hashes.
func H_HashTextLong() {
	n := []int{128, 127, 130, 126, 64, 256, 2, 129}[sym.Choice("n", sym.Param("n", 4))]
	txt := make([]byte, n)
	for i := range txt {
		txt[i] = "0123456789abcdefABCDEF"[(i*7)%22]
	}
	txt[[]int{0, n - 1, n / 2}[sym.Choice("at", 3)]] = sym.Byte("c")
	got, err := hash.NewAdapter().FromString(string(txt))
	raw, err2 := hex.DecodeString(string(txt))
	sym.Assert((err == nil) == (err2 == nil), "text that is not hexadecimal is refused")
	if err == nil {
		sym.Assert(sym.EqBytes(*got, wantHash(raw)), "the hash of a text is the hash of the bytes it stands for")
		back, err := hash.NewAdapter().FromString(got.String())
		must(err, "hash from its text")
		sym.Assert(back.Compare(*got) && got.Compare(*back), "a hash survives its text form")
		sym.Reach("text")
	}
}

// H_HashCompare compares hashes that differ in at most two bytes, and hashes of other sizes.
func H_HashCompare() {
	a, b := fixedHash(3), fixedHash(3)
	pos := []int{0, 1, 2, 3, 31, 32, 62, 63}
	i, j := pos[sym.Choice("i", len(pos))], pos[sym.Choice("j", len(pos))]
	a[i], b[j] = sym.Byte("a"), sym.Byte("b")
	sym.Assert(a.Compare(b) == sym.EqBytes(a, b), "hashes are equal when their bytes are")
	cut := []int{0, 1, 32, 63}[sym.Choice("cut", 4)]
	sym.Assert(!a.Compare(a[:cut]) && !a[:cut].Compare(a), "a hash differs from a part of it")
	sym.Assert((a.String() == b.String()) == sym.EqBytes(a, b), "hashes have the same text when their bytes are equal")
	sym.Reach("compared")
}

// H_HashMultiLong computes the hash of many parts.
func H_HashMultiLong() {
	n := []int{5, 16, 33, 64, 100, 300}[sym.Choice("n", sym.Param("n", 6))]
	at := []int{0, n - 1, n / 2}[sym.Choice("at", 3)]
	size := []int{1, 0, 2, 64, 65, 130}[sym.Choice("size", 6)]
	var parts [][]byte
	var whole []byte
	for i := 0; i < n; i++ {
		p := make64(i%4, byte(i))[:i%4]
		if i == at {
			p = sym.Bytes("p", size)
		}
		parts = append(parts, append([]byte{}, p...))
		whole = append(whole, p...)
	}
	if sym.Bool("nil") {
		parts = append(parts, nil)
	}
	h, err := hash.NewAdapter().FromMultiBytes(parts)
	must(err, "hash")
	sym.Assert(sym.EqBytes(*h, wantHash(whole)), "the hash of many parts is the hash of their concatenation")
	off := 0
	for _, p := range parts {
		sym.Assert(sym.EqBytes(p, whole[off:off+len(p)]), "hashing leaves the parts unchanged")
		off += len(p)
	}
	sym.Reach("parts")
}

// H_CommitLong builds two commits of larger parts that differ in one byte of one part.
func H_CommitLong() {
	sizes := []int{8, 9, 1, 40, 64, 300}
	change := sym.Choice("change", 4)
	blocks, proofLen, spot := 2, 0, 0
	if change == 0 {
		blocks = []int{1, 3, 7, 16, 20}[sym.Choice("blocks", 5)]
		spot = []int{0, blocks - 1, blocks / 2}[sym.Choice("spot", 3)]
	} else if change == 1 {
		spot = []int{0, 1, 31, 62, 63}[sym.Choice("spot", 5)]
	} else if change == 2 {
		proofLen = sizes[sym.Choice("proof.len", len(sizes))]
		spot = []int{0, proofLen - 1, proofLen / 2}[sym.Choice("spot", 3)]
	}
	base := int64(1600000000000000000)
	with := sym.Bool("with") // whether the parts that are not changed are there
	one, two := sym.Byte("one"), sym.Byte("two")
	if sym.Bool("given") {
		one, two = 1, 2
	}
	times := []int64{base, base + 1, base + 1000, base + 1000000, base + 1000000000, -base, 0, 1<<63 - 1, -1 << 63, 10 * base / 100, base / 10}
	build := func(v byte, t int64) references.Commit {
		var list [][]byte
		for i := 0; i < blocks; i++ {
			b := fixedHash(byte(i))
			if change == 0 && i == spot {
				b[9] = v
			}
			list = append(list, b)
		}
		tree, err := hashtrees.NewBuilder().Create().WithBlocks(list).Now()
		must(err, "tree")
		b := references.NewCommitBuilder('0').Create().WithValues(tree).CreatedOn(time.Unix(0, t).UTC())
		id := append([]byte{}, tree.Head()...)
		id = append(id, []byte(strconv.FormatInt(t, 10))...)
		if with || change == 1 {
			p := fixedHash(77)
			if change == 1 {
				p[spot] = v
			}
			b.WithParent(p)
			id = append(id, p...)
		}
		if with || change == 2 {
			p := make64(proofLen, 7)
			if change == 2 {
				p[spot] = v
				sym.Assume(p[0] != 0)
			}
			b.WithProof(big.NewInt(0).SetBytes(p))
			sym.Assume(wantHash(append(wantHash(append(id, p...)), p...))[0] != '0')
		}
		c, err := b.Now()
		must(err, "commit")
		return c
	}
	if change == 3 {
		i, j := sym.Choice("t1", len(times)), sym.Choice("t2", len(times))
		a, b := build(1, times[i]), build(1, times[j])
		sym.Assert(sym.EqBytes(a.Hash(), b.Hash()) == (i == j), "the identity of a commit covers its time")
		sym.Reach("time")
		return
	}
	a, b := build(one, base), build(two, base)
	sym.Assert(sym.EqBytes(a.Hash(), b.Hash()) == (one == two), "the identity of a commit covers every byte of its parts")
	sym.Reach("part")
}

// H_MineLong mines with longer proofs.
func H_MineLong() {
	mining := []byte{'0', 0, 255, 1}[sym.Choice("mining", sym.Param("mining", 2))]
	v, err := hashtrees.NewBuilder().Create().WithBlocks([][]byte{fixedHash(3)}).Now()
	must(err, "tree")
	n := []int{9, 65, 256, 300, 8, 16, 64, 130, 70000}[sym.Choice("n", sym.Param("n", 2))]
	proof := make64(n, 7)
	proof[[]int{0, n - 1, n / 2}[sym.Choice("at", 3)]] = sym.Byte("proof")
	sym.Assume(proof[0] != 0)
	b := references.NewCommitBuilder(mining).Create().WithValues(v).CreatedOn(time.Unix(0, 1600000000000000000).UTC())
	if sym.Bool("hasParent") {
		b.WithParent(fixedHash(40))
	}
	number := big.NewInt(0).SetBytes(proof)
	c, err := b.WithProof(number).Now()
	must(err, "commit")
	m := c.Mine()
	want := wantHash(append(append([]byte{}, c.Hash()...), proof...))
	sym.Assert(sym.EqBytes(m.Result(), want), "the result of mining is the hash of the identity and the proof")
	sym.Assert(len(m.Proof().Bytes()) == n && sym.EqBytes(m.Proof().Bytes(), proof), "a mined commit keeps its proof")
	score := 0
	for score < len(want) && want[score] == mining {
		score++
	}
	sym.Assert(m.Score() == uint(score), "the score is the number of leading mining values of the result")
	if score < 2 {
		a := references.NewCommitAdapter(mining)
		enc, err := a.ToContent(c)
		must(err, "encode a mined commit")
		back, err := a.ToCommit(enc)
		must(err, "decode a mined commit")
		sym.Assert(back.HasMine() && sameCommit(c, back), "a mined commit survives its encoding")
	}
	if score > 0 {
		sym.Reach("score")
	}
}

// H_HashLong hashes data of many sizes with one arbitrary byte.
func H_HashLong() {
	lens := []int{3, 62, 66, 96, 127, 129, 191, 192, 193, 256, 320, 384, 448, 512, 1000, 4096, 65535, 65536, 65537, 70000, 131073, 300000}
	n := lens[sym.Choice("n", sym.Param("lens", 20))]
	data := make64(n, 9)
	data[[]int{0, n - 1, n / 2}[sym.Choice("at", 3)]] = sym.Byte("b")
	h, err := hash.NewAdapter().FromBytes(data)
	must(err, "hash")
	sym.Assert(len(*h) == hash.Size && sym.EqBytes(*h, wantHash(data)), "the hash of long data is its digest")
	sym.Reach("long")
}
