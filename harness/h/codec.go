package h

import (
	"math/big"
	"strconv"
	"time"

	"github.com/steve-care-software/rodkina/libs/cryptography/domain/hash"
	"github.com/steve-care-software/rodkina/libs/cryptography/domain/hashtrees"
	"github.com/steve-care-software/rodkina/libs/databases/domain/contents"
	"github.com/steve-care-software/rodkina/libs/databases/domain/references"
	"github.com/steve-care-software/rodkina/verifh/sym"
)

// symHash is a hash of 64 arbitrary bytes
func symHash(name string) hash.Hash { return hash.Hash(sym.Bytes(name, hash.Size)) }

func mkPointer(name string) references.Pointer {
	from := sym.Uint(name + ".from")
	length := sym.Uint(name + ".length")
	sym.Assume(length > 0)
	p, err := references.NewPointerBuilder().Create().From(from).WithLength(length).Now()
	must(err, "pointer")
	sym.Assert(p.From() == from && p.Length() == length, "a pointer shows its parts")
	return p
}

func mkKey(name string, h hash.Hash) references.ContentKey {
	kind := sym.Uint(name + ".kind")
	commit := symHash(name + ".commit")
	ptr := mkPointer(name)
	k, err := references.NewContentKeyBuilder().Create().WithHash(h).WithKind(kind).WithContent(ptr).WithCommit(commit).Now()
	must(err, "content key")
	sym.Assert(and(sym.EqBytes(k.Hash(), h), k.Kind() == kind, sym.EqBytes(k.Commit(), commit)), "a content key shows its parts")
	return k
}

func sameKey(a, b references.ContentKey) bool {
	return and(sym.EqBytes(a.Hash(), b.Hash()), a.Kind() == b.Kind(), a.Content().From() == b.Content().From(), a.Content().Length() == b.Content().Length(), sym.EqBytes(a.Commit(), b.Commit()))
}

// H_CodecKeys encodes and decodes pointers and content keys.
func H_CodecKeys() {
	pa := references.NewPointerAdapter()
	p := mkPointer("p")
	c, err := pa.ToContent(p)
	must(err, "encode a pointer")
	q, err := pa.ToPointer(c)
	must(err, "decode a pointer")
	sym.Assert(and(q.From() == p.From(), q.Length() == p.Length()), "a pointer survives its encoding")
	n := 1 + sym.Choice("n", sym.Param("n", 3))
	var list []references.ContentKey
	ka := references.NewContentKeyAdapter()
	for i := 0; i < n; i++ {
		id := strconv.Itoa(i)
		k := mkKey("k"+id, symHash("h"+id))
		c, err := ka.ToContent(k)
		must(err, "encode a content key")
		back, err := ka.ToContentKey(c)
		must(err, "decode a content key")
		sym.Assert(sameKey(k, back), "a content key survives its encoding")
		list = append(list, k)
	}
	// the map by hash is of no interest here, so the hashes are made distinct
	for i := range list {
		for j := range list[:i] {
			sym.Assume(list[i].Hash()[0] != list[j].Hash()[0])
		}
	}
	ks, err := references.NewContentKeysBuilder().Create().WithList(list).Now()
	must(err, "content keys")
	ksa := references.NewContentKeysAdapter()
	c, err = ksa.ToContent(ks)
	must(err, "encode content keys")
	back, err := ksa.ToContentKeys(c)
	must(err, "decode content keys")
	sym.Assert(len(back.List()) == n, "the number of content keys survives their encoding")
	for i, k := range back.List() {
		sym.Assert(sameKey(k, list[i]), "content keys survive their encoding in order")
	}
	sym.Reach("keys")
}

// H_CodecContents encodes and decodes contents.
func H_CodecContents() {
	n := 1 + sym.Choice("n", sym.Param("n", 3))
	var list []contents.Content
	ca := contents.NewContentAdapter()
	for i := 0; i < n; i++ {
		id := strconv.Itoa(i)
		h := fixedHash(byte(10 * i))
		h[1] = sym.Byte("h" + id)
		h[63] = sym.Byte("l" + id)
		data := mkData("d"+id, sym.Param("len", 3))
		kind := sym.Uint("kind" + id)
		c, err := contents.NewContentBuilder().Create().WithHash(h).WithData(data).WithKind(kind).Now()
		must(err, "content")
		enc, err := ca.ToContent(c)
		must(err, "encode a content")
		back, err := ca.ToInstance(enc)
		must(err, "decode a content")
		sym.Assert(and(sym.EqBytes(back.Hash(), h), sym.EqBytes(back.Data(), data), back.Kind() == kind), "a content survives its encoding")
		list = append(list, c)
	}
	cs, err := contents.NewBuilder().Create().WithList(list).Now()
	must(err, "contents")
	a := contents.NewAdapter()
	enc, err := a.ToContent(cs)
	must(err, "encode contents")
	back, err := a.ToInstance(enc)
	must(err, "decode contents")
	sym.Assert(len(back.List()) == n, "the number of contents survives their encoding")
	for i, c := range back.List() {
		sym.Assert(and(sym.EqBytes(c.Hash(), list[i].Hash()), sym.EqBytes(c.Data(), list[i].Data()), c.Kind() == list[i].Kind()), "contents survive their encoding in order")
	}
	sym.Reach("contents")
}

// mkTree builds a tree of n blocks; the blocks are digests with an arbitrary byte
func mkTree(name string, n int) hashtrees.HashTree {
	var blocks [][]byte
	for i := 0; i < n; i++ {
		h := fixedHash(byte(17 * (i + 1)))
		h[5] = sym.Byte(name + strconv.Itoa(i))
		blocks = append(blocks, h)
	}
	t, err := hashtrees.NewBuilder().Create().WithBlocks(blocks).Now()
	must(err, "hash tree")
	return t
}

var commitTimes = []int64{0, 1, -1, 1600000000123456789, -1600000000123456789, 999, 1<<63 - 1, -1 << 63}

// mkCommit builds a commit out of arbitrary parts; the time is one of commitTimes
func mkCommit(name string, maxBlocks int) references.Commit {
	hasParent := sym.Bool(name + ".parent")
	hasProof := sym.Bool(name + ".proof")
	ns := commitTimes[3]
	blocks := 1
	if !hasProof {
		ns = commitTimes[sym.Choice(name+".time", sym.Param("times", len(commitTimes)))]
		blocks = 1 + sym.Choice(name+".blocks", maxBlocks)
	}
	b := references.NewCommitBuilder('0').Create().WithValues(mkTree(name+".t", blocks)).CreatedOn(time.Unix(0, ns).UTC())
	var parent hash.Hash
	if hasParent {
		parent = fixedHash(91)
		parent[0] = sym.Byte(name + ".p0")
		parent[63] = sym.Byte(name + ".p63")
		b.WithParent(parent)
	}
	if hasProof {
		n := sym.Choice(name+".proof.len", 3)
		if n == 2 {
			n = 9
		}
		b.WithProof(big.NewInt(0).SetBytes(sym.Bytes(name+".proof", n)))
	}
	c, err := b.Now()
	must(err, "commit")
	sym.Assert(c.HasParent() == hasParent && c.HasMine() == hasProof, "a commit has the parts it was built with")
	if hasParent {
		sym.Assert(sym.EqBytes(*c.Parent(), parent), "a commit shows its parent")
	}
	sym.Assert(c.CreatedOn().UnixNano() == ns, "a commit shows its time")
	return c
}

// fixedCommit builds a commit out of concrete parts
func fixedCommit(name string, tag byte) references.Commit {
	var blocks [][]byte
	n := 1 + sym.Choice(name+".blocks", 2)
	for i := 0; i < n; i++ {
		blocks = append(blocks, fixedHash(tag+byte(i)))
	}
	t, err := hashtrees.NewBuilder().Create().WithBlocks(blocks).Now()
	must(err, "tree")
	b := references.NewCommitBuilder('0').Create().WithValues(t).CreatedOn(time.Unix(0, 1600000000123456789+int64(tag)).UTC())
	if sym.Bool(name + ".parent") {
		b.WithParent(fixedHash(tag + 9))
	}
	switch sym.Choice(name+".proof", 3) {
	case 1:
		b.WithProof(big.NewInt(77777))
	case 2:
		b.WithProof(big.NewInt(0).SetBytes([]byte{1, 2, 3, 4, 5, 6, 7, 8, 9, 10}))
	}
	c, err := b.Now()
	must(err, "commit")
	return c
}

func sameCommit(a, b references.Commit) bool {
	if a.HasParent() != b.HasParent() || a.HasMine() != b.HasMine() {
		return false
	}
	ok := and(sym.EqBytes(a.Hash(), b.Hash()), sym.EqBytes(a.Values().Head(), b.Values().Head()), a.CreatedOn().Equal(b.CreatedOn()))
	if a.HasParent() {
		ok = and(ok, sym.EqBytes(*a.Parent(), *b.Parent()))
	}
	if a.HasMine() {
		ok = and(ok, a.Mine().Proof().Cmp(b.Mine().Proof()) == 0, sym.EqBytes(a.Mine().Result(), b.Mine().Result()), a.Mine().Score() == b.Mine().Score())
	}
	return and(ok, sameTree(a.Values(), b.Values()))
}

func sameTree(a, b hashtrees.HashTree) bool {
	return and(sym.EqBytes(a.Head(), b.Head()), a.Height() == b.Height(), sameParent(a.Parent(), b.Parent()))
}

func sameParent(a, b hashtrees.ParentLeaf) bool {
	return and(sameLeaf(a.Left(), b.Left()), sameLeaf(a.Right(), b.Right()))
}

func sameLeaf(a, b hashtrees.Leaf) bool {
	if a.HasParent() != b.HasParent() {
		return false
	}
	ok := sym.EqBytes(a.Head(), b.Head())
	if a.HasParent() {
		ok = and(ok, sameParent(a.Parent(), b.Parent()))
	}
	return ok
}

// H_CodecCommit encodes and decodes one commit with every combination of parts.
func H_CodecCommit() {
	c := mkCommit("c", sym.Param("blocks", 3))
	a := references.NewCommitAdapter('0')
	enc, err := a.ToContent(c)
	must(err, "encode a commit")
	back, err := a.ToCommit(enc)
	must(err, "decode a commit")
	sym.Assert(sameCommit(c, back), "a commit survives its encoding")
	if c.HasParent() && c.HasMine() {
		sym.Reach("parent and proof")
	}
}

// H_CodecReference encodes and decodes commits and whole references.
func H_CodecReference() {
	n := 1 + sym.Choice("commits", sym.Param("commits", 2))
	var list []references.Commit
	for i := 0; i < n; i++ {
		list = append(list, fixedCommit("c"+strconv.Itoa(i), byte(20*i)))
	}
	cs, err := references.NewCommitsBuilder().Create().WithList(list).Now()
	must(err, "commits")
	csa := references.NewCommitsAdapter('0')
	enc, err := csa.ToContent(cs)
	must(err, "encode commits")
	csBack, err := csa.ToCommits(enc)
	must(err, "decode commits")
	sym.Assert(len(csBack.List()) == n, "the number of commits survives their encoding")
	for i, c := range csBack.List() {
		sym.Assert(sameCommit(c, list[i]), "commits survive their encoding in order")
	}
	var keys []references.ContentKey
	k := 1 + sym.Choice("keys", 2)
	for i := 0; i < k; i++ {
		keys = append(keys, mkKey("k"+strconv.Itoa(i), fixedHash(byte(3+i))))
	}
	ks, err := references.NewContentKeysBuilder().Create().WithList(keys).Now()
	must(err, "content keys")
	ref, err := references.NewBuilder().Create().WithContentKeys(ks).WithCommits(cs).Now()
	must(err, "reference")
	a := references.NewAdapter('0')
	enc, err = a.ToContent(ref)
	must(err, "encode a reference")
	back, err := a.ToReference(enc)
	must(err, "decode a reference")
	sym.Assert(len(back.Commits().List()) == n && len(back.ContentKeys().List()) == k, "the size of a reference survives its encoding")
	for i, c := range back.Commits().List() {
		sym.Assert(sameCommit(c, list[i]), "the commits of a reference survive its encoding")
	}
	for i, key := range back.ContentKeys().List() {
		sym.Assert(sameKey(key, keys[i]), "the content keys of a reference survive its encoding")
	}
	sym.Reach("reference")
}

// H_CodecMangled decodes damaged encodings of every kind.
func H_CodecMangled() {
	var enc []byte
	var dec func([]byte) error
	tree := func(n int) hashtrees.HashTree {
		var blocks [][]byte
		for i := 0; i < n; i++ {
			blocks = append(blocks, fixedHash(byte(3+i)))
		}
		t, err := hashtrees.NewBuilder().Create().WithBlocks(blocks).Now()
		must(err, "tree")
		return t
	}
	kind := sym.Choice("what", 8)
	commit := func() references.Commit {
		b := references.NewCommitBuilder('0').Create().WithValues(tree(2)).CreatedOn(time.Unix(0, 1600000000000000001).UTC())
		if kind == 4 || sym.Bool("parts") {
			b.WithParent(fixedHash(8))
			b.WithProof(big.NewInt(77777))
		}
		c, err := b.Now()
		must(err, "commit")
		return c
	}
	var err error
	skip := -1 // the word that holds a time: it is formatted, which has too many paths
	if k := sym.Param("what", -1); k >= 0 && k != kind {
		sym.Stop()
	}
	switch kind {
	case 0:
		p, _ := references.NewPointerBuilder().Create().From(3).WithLength(4).Now()
		enc, err = references.NewPointerAdapter().ToContent(p)
		dec = func(b []byte) error { _, err := references.NewPointerAdapter().ToPointer(b); return err }
	case 1, 2:
		var list []references.ContentKey
		for i := 0; i < kind; i++ {
			p, _ := references.NewPointerBuilder().Create().From(3).WithLength(4).Now()
			k, err := references.NewContentKeyBuilder().Create().WithHash(fixedHash(1)).WithKind(3).WithContent(p).WithCommit(fixedHash(2)).Now()
			must(err, "key")
			list = append(list, k)
		}
		if kind == 1 {
			enc, err = references.NewContentKeyAdapter().ToContent(list[0])
			dec = func(b []byte) error { _, err := references.NewContentKeyAdapter().ToContentKey(b); return err }
			break
		}
		ks, err2 := references.NewContentKeysBuilder().Create().WithList(list).Now()
		must(err2, "keys")
		enc, err = references.NewContentKeysAdapter().ToContent(ks)
		dec = func(b []byte) error { _, err := references.NewContentKeysAdapter().ToContentKeys(b); return err }
	case 3:
		enc, err = references.NewCommitAdapter('0').ToContent(commit())
		dec = func(b []byte) error { _, err := references.NewCommitAdapter('0').ToCommit(b); return err }
		skip = 0
	case 4:
		cs, err2 := references.NewCommitsBuilder().Create().WithList([]references.Commit{commit()}).Now()
		must(err2, "commits")
		enc, err = references.NewCommitsAdapter('0').ToContent(cs)
		dec = func(b []byte) error { _, err := references.NewCommitsAdapter('0').ToCommits(b); return err }
		skip = 1
	case 5:
		var list []contents.Content
		for i := 0; i < 2; i++ {
			c, err := contents.NewContentBuilder().Create().WithHash(fixedHash(byte(i))).WithData([]byte{1, 2, 3}).WithKind(4).Now()
			must(err, "content")
			list = append(list, c)
		}
		cs, err2 := contents.NewBuilder().Create().WithList(list).Now()
		must(err2, "contents")
		enc, err = contents.NewAdapter().ToContent(cs)
		dec = func(b []byte) error { _, err := contents.NewAdapter().ToInstance(b); return err }
	case 6:
		enc, err = hashtrees.NewAdapter().ToContent(tree(4))
		dec = func(b []byte) error { _, err := hashtrees.NewAdapter().ToHashTree(b); return err }
	default:
		comp, err2 := hashtrees.NewAdapter().ToCompact(tree(3))
		must(err2, "compact")
		enc, err = hashtrees.NewCompactAdapter().ToContent(comp)
		dec = func(b []byte) error {
			c, err := hashtrees.NewCompactAdapter().ToCompact(b)
			if err != nil {
				return err
			}
			_, err = hashtrees.NewLeavesAdapter().ToHashTree(c.Leaves())
			return err
		}
	}
	must(err, "encode")
	must(dec(enc), "decode what was encoded")
	switch sym.Choice("damage", 3) {
	case 0:
		n := 32*sym.Choice("cut.hi", len(enc)/32+1) + sym.Choice("cut.lo", 32)
		if n >= len(enc) {
			sym.Stop()
		}
		enc = enc[:n:n]
	case 1:
		w := 8*sym.Choice("word.hi", len(enc)/64+1) + sym.Choice("word.lo", 8)
		if 8*w >= len(enc) || w == skip {
			sym.Stop()
		}
		end := 8*w + 8
		if end > len(enc) {
			end = len(enc)
		}
		copy(enc[8*w:end], sym.Bytes("w", end-8*w))
	default:
		enc = append(enc, sym.Bytes("more", 1+sym.Choice("n", sym.Param("more", 9)))...)
	}
	if dec(enc) != nil {
		sym.Reach("refused")
	} else {
		sym.Reach("accepted")
	}
}

// H_CodecShort decodes short arbitrary input with every decoder.
func H_CodecShort() {
	b := sym.Bytes("b", sym.Choice("n", sym.Param("n", 20)))
	if p, err := references.NewPointerAdapter().ToPointer(b); err == nil {
		sym.Assert(len(b) == 16, "a pointer has 16 bytes")
		back, err := references.NewPointerAdapter().ToContent(p)
		must(err, "encode")
		sym.Assert(sym.EqBytes(back, b), "a decoded pointer encodes to the same bytes")
		sym.Reach("pointer")
	}
	_, e1 := references.NewContentKeyAdapter().ToContentKey(b)
	_, e2 := references.NewContentKeysAdapter().ToContentKeys(b)
	_, e3 := references.NewCommitAdapter('0').ToCommit(b)
	_, e4 := references.NewCommitsAdapter('0').ToCommits(b)
	_, e5 := references.NewAdapter('0').ToReference(b)
	_, e6 := contents.NewContentAdapter().ToInstance(b)
	_, e7 := contents.NewAdapter().ToInstance(b)
	_, e8 := hashtrees.NewAdapter().ToHashTree(b)
	_, e9 := hashtrees.NewLeavesAdapter().ToLeaves(b)
	_, e10 := hashtrees.NewCompactAdapter().ToCompact(b)
	_, e11 := hashtrees.NewLeafAdapter().ContentToLeaf(b)
	_, e12 := hashtrees.NewLeafAdapter().ContentToParentLeaf(b)
	for _, e := range []error{e1, e2, e3, e4, e5, e6, e7, e8, e9, e10, e11, e12} {
		sym.Assert(e != nil, "input that is too short is refused")
	}
}

// H_Collections looks up, lists and measures content keys and commits.
func H_Collections() {
	n := 1 + sym.Choice("n", sym.Param("n", 3))
	var list []references.ContentKey
	for i := 0; i < n; i++ {
		id := strconv.Itoa(i)
		from, length := sym.Uint(id+".from"), sym.Uint(id+".length")
		sym.Assume(and(length > 0, from < 1<<62, length < 1<<62))
		p, err := references.NewPointerBuilder().Create().From(from).WithLength(length).Now()
		must(err, "pointer")
		k, err := references.NewContentKeyBuilder().Create().WithHash(mkHash("h"+id, 0)).WithKind(sym.Uint("kind" + id)).WithContent(p).WithCommit(fixedHash(1)).Now()
		must(err, "key")
		list = append(list, k)
	}
	ks, err := references.NewContentKeysBuilder().Create().WithList(list).Now()
	must(err, "keys")
	// the next location follows everything
	next := uint(ks.Next())
	reached := false
	for _, k := range list {
		end := k.Content().From() + k.Content().Length()
		sym.Assert(next >= end, "the next location follows every content")
		reached = sym.Or(reached, next == end)
	}
	sym.Assert(reached, "the next location leaves no gap")
	// look up
	asked := mkHash("asked", 0)
	got, err := ks.Fetch(asked)
	want := -1
	for i, k := range list {
		if k.Hash().Compare(asked) {
			want = i
		}
	}
	if want < 0 {
		sym.Assert(err != nil, "an unknown hash is refused")
		sym.Reach("unknown")
	} else {
		must(err, "a known hash is found")
		sym.Assert(sameKey(got, list[want]), "the last content key of a hash is found")
		sym.Reach("known")
	}
	// list by kind
	kind := sym.Uint("kind")
	var of []references.ContentKey
	for _, k := range list {
		if k.Kind() == kind {
			of = append(of, k)
		}
	}
	byKind := ks.ListByKind(kind)
	sym.Assert(len(byKind) == len(of), "number of content keys of a kind")
	for i := range of {
		sym.Assert(sameKey(of[i], byKind[i]), "content keys of a kind in order")
	}
	all := ks.List()
	sym.Assert(len(all) == n, "all content keys are listed")
}

// H_CommitList: lists of commits, with a parent or not, also the same commit again
func H_CommitList() {
	n := 1 + sym.Choice("n", sym.Param("n", 3))
	list := []references.Commit{}
	var last *hash.Hash
	for i := 0; i < n; i++ {
		id := "c" + strconv.Itoa(i)
		if i > 0 && sym.Bool(id+".again") {
			list = append(list, list[sym.Choice(id+".of", i)])
			continue
		}
		tree, err := hashtrees.NewBuilder().Create().WithBlocks([][]byte{fixedHash(byte(i))}).Now()
		must(err, "tree")
		b := references.NewCommitBuilder('0').Create().WithValues(tree).CreatedOn(time.Unix(0, 1600000000123456789+int64(i)).UTC())
		if sym.Bool(id + ".parent") {
			parent := fixedHash(3)
			parent[7] = byte(i)
			if last != nil && sym.Bool(id+".chain") {
				parent = *last
			}
			b.WithParent(parent)
		}
		c, err := b.Now()
		must(err, "commit")
		h := c.Hash()
		last = &h
		list = append(list, c)
	}
	commits, err := references.NewCommitsBuilder().Create().WithList(list).Now()
	must(err, "commits")
	all := commits.List()
	sym.Assert(len(all) == n, "all commits are listed")
	for i := range list {
		sym.Assert(sameCommit(all[i], list[i]), "commits are listed in order")
	}
	sym.Assert(sameCommit(commits.Latest(), list[n-1]), "the latest commit is the last one")
	asked := append(hash.Hash{}, list[sym.Choice("asked", n)].Hash()...)
	if sym.Bool("changed") {
		asked[[]int{0, 31, 63}[sym.Choice("at", 3)]] = sym.Byte("byte")
	}
	got, err := commits.Fetch(asked)
	known := false
	for _, c := range list {
		known = sym.Or(known, sym.EqBytes(c.Hash(), asked))
	}
	sym.Assert((err == nil) == known, "a commit is found exactly when it is in the list")
	if err == nil {
		sym.Assert(sym.EqBytes(got.Hash(), asked), "the commit that is found has the identity that was asked for")
		sym.Reach("known")
	} else {
		sym.Reach("unknown")
	}
	if empty, err := references.NewCommitsBuilder().Create().WithList([]references.Commit{}).Now(); err == nil || empty != nil {
		sym.Assert(false, "a list without commits is refused")
	}
}

// longList is the length of a list of many records
var longList = []int{4, 17, 257, 5, 64, 300}

// someKey is a content key made of numbers
func someKey(i int) references.ContentKey {
	h := fixedHash(byte(i))
	h[1] = byte(i / 256)
	p, err := references.NewPointerBuilder().Create().From(uint(i * 70000)).WithLength(uint(i*i + 1)).Now()
	must(err, "pointer")
	k, err := references.NewContentKeyBuilder().Create().WithHash(h).WithKind(uint(i * 100)).WithContent(p).WithCommit(fixedHash(byte(i % 3))).Now()
	must(err, "content key")
	return k
}

// someCommit is a commit made of numbers: every combination of parts, different sizes
func someCommit(i int) references.Commit {
	var blocks [][]byte
	for j := 0; j <= i%5; j++ {
		blocks = append(blocks, []byte{byte(i), byte(i / 256), byte(j)})
	}
	t, err := hashtrees.NewBuilder().Create().WithBlocks(blocks).Now()
	must(err, "tree")
	b := references.NewCommitBuilder('0').Create().WithValues(t).CreatedOn(time.Unix(int64(i-2), int64(i)*1001).UTC())
	if i%2 == 1 {
		b.WithParent(fixedHash(byte(i)))
	}
	if i%3 == 2 {
		b.WithProof(big.NewInt(0).SetBytes(make64(i%70, byte(i))))
	}
	c, err := b.Now()
	must(err, "commit")
	return c
}

func make64(n int, tag byte) []byte {
	res := []byte{tag | 1}
	for len(res) < n {
		res = append(res, byte(len(res)))
	}
	return res
}

// H_CodecLong encodes and decodes long lists and large records; one part of them is arbitrary.
func H_CodecLong() {
	kind := sym.Choice("what", 4)
	n := longList[sym.Choice("n", sym.Param("lists", 3))]
	pick := sym.Choice("at", 3)
	at := []int{0, n - 1, n / 2}[pick]
	if kind == 2 && pick > 0 || kind == 3 && n != longList[0] {
		sym.Stop()
	}
	var keys []references.ContentKey
	var cs []references.Commit
	switch kind {
	case 0: // many content keys
		for i := 0; i < n; i++ {
			keys = append(keys, someKey(i))
		}
		h := fixedHash(200)
		h[63] = sym.Byte("h")
		keys[at] = mkKey("k", h)
		cs = append(cs, someCommit(5))
	case 1: // many commits
		for i := 0; i < n; i++ {
			cs = append(cs, someCommit(i))
		}
		if n < 50 { // an arbitrary hash compared with that many others costs too much
			cs[at] = mkLongCommit(1, []byte{1, 2, 3})
		}
		keys = append(keys, someKey(1))
	case 2: // a commit of many blocks
		cs = append(cs, mkLongCommit(n, []byte{1, 2, 3}))
		keys = append(keys, someKey(1))
	default: // a long proof
		l := []int{8, 9, 64, 255, 256, 300}[sym.Choice("proof.len", 6)]
		proof := make64(l, 7)
		proof[[]int{l - 1, 1, l / 2}[pick]] = sym.Byte("proof")
		cs = append(cs, mkLongCommit(2, proof))
		keys = append(keys, someKey(1))
	}
	ks, err := references.NewContentKeysBuilder().Create().WithList(keys).Now()
	must(err, "content keys")
	list, err := references.NewCommitsBuilder().Create().WithList(cs).Now()
	must(err, "commits")
	ref, err := references.NewBuilder().Create().WithContentKeys(ks).WithCommits(list).Now()
	must(err, "reference")
	a := references.NewAdapter('0')
	enc, err := a.ToContent(ref)
	must(err, "encode a reference")
	keep := append([]byte{}, enc...)
	back, err := a.ToReference(enc)
	must(err, "decode a reference")
	sym.Assert(sym.EqBytes(keep, enc), "decoding leaves its input alone")
	for i := range enc {
		enc[i] = 0xee // what was decoded does not depend on the bytes any more
	}
	sym.Assert(len(back.Commits().List()) == len(cs) && len(back.ContentKeys().List()) == len(keys), "the size of a long reference survives its encoding")
	for i, c := range back.Commits().List() {
		sym.Assert(sameCommit(c, cs[i]), "the commits of a long reference survive its encoding")
	}
	for i, key := range back.ContentKeys().List() {
		sym.Assert(sameKey(key, keys[i]), "the content keys of a long reference survive its encoding")
	}
	// the decoded reference has the same encoding
	enc2, err := a.ToContent(back)
	must(err, "encode again")
	sym.Assert(len(enc2) == len(keep) && sym.EqBytes(enc2, keep), "a decoded reference has the same encoding")
	sym.Reach("long")
}

// mkLongCommit builds a commit of n blocks
func mkLongCommit(n int, proof []byte) references.Commit {
	var blocks [][]byte
	for i := 0; i < n; i++ {
		blocks = append(blocks, []byte{byte(i), byte(i / 256)})
	}
	if proof[0] == 1 && n < 50 {
		blocks[n/2][0] = sym.Byte("block")
	}
	v, err := hashtrees.NewBuilder().Create().WithBlocks(blocks).Now()
	must(err, "tree")
	// a result without a score is enough here
	id := append(append([]byte{}, v.Head()...), []byte(strconv.FormatInt(commitTimes[3], 10))...)
	id = wantHash(append(append(id, fixedHash(4)...), proof...))
	sym.Assume(wantHash(append(append([]byte{}, id...), proof...))[0] != '0')
	b := references.NewCommitBuilder('0').Create().WithValues(v).CreatedOn(time.Unix(0, commitTimes[3]).UTC()).WithParent(fixedHash(4))
	c, err := b.WithProof(big.NewInt(0).SetBytes(proof)).Now()
	must(err, "commit")
	return c
}

// H_CodecContentsLong encodes and decodes many and large contents.
func H_CodecContentsLong() {
	n := longList[sym.Choice("n", sym.Param("lists", 3))]
	at := []int{0, n - 1, n / 2}[sym.Choice("at", 3)]
	size := []int{64, 255, 256, 300, 65464, 65536, 70000, 300000}[sym.Choice("size", sym.Param("sizes", 7))]
	var list []contents.Content
	var datas [][]byte
	for i := 0; i < n; i++ {
		data := make64(i%5, byte(i))
		kind := uint(i * 1000)
		if i == at {
			data = make64(size, 1)
			data[0] = sym.Byte("first")
			data[size-1] = sym.Byte("last")
			kind = sym.Uint("kind")
		}
		h := fixedHash(byte(i))
		h[1] = byte(i / 256)
		c, err := contents.NewContentBuilder().Create().WithHash(h).WithData(data).WithKind(kind).Now()
		must(err, "content")
		list = append(list, c)
		datas = append(datas, append([]byte{}, data...))
	}
	cs, err := contents.NewBuilder().Create().WithList(list).Now()
	must(err, "contents")
	a := contents.NewAdapter()
	enc, err := a.ToContent(cs)
	must(err, "encode contents")
	back, err := a.ToInstance(enc)
	must(err, "decode contents")
	sym.Assert(len(back.List()) == n, "the number of contents survives their encoding")
	for i, c := range back.List() {
		sym.Assert(and(sym.EqBytes(c.Hash(), list[i].Hash()), len(c.Data()) == len(datas[i]) && sym.EqBytes(c.Data(), datas[i]), c.Kind() == list[i].Kind()), "many contents survive their encoding in order")
	}
	sym.Reach("long")
}

// H_CollectionsLong looks up, lists and measures many content keys.
func H_CollectionsLong() {
	n := longList[sym.Choice("n", sym.Param("lists", 3))]
	at := []int{0, n - 1, n / 2}[sym.Choice("at", 3)]
	same := []int{0, n - 1, n / 3}[sym.Choice("same", 3)] // the key whose hash may come again
	var list []references.ContentKey
	kinds := []uint{0, 256, 1, 65536, 257}
	build := func(h hash.Hash, kind, from, length uint) {
		p, err := references.NewPointerBuilder().Create().From(from).WithLength(length).Now()
		must(err, "pointer")
		k, err := references.NewContentKeyBuilder().Create().WithHash(h).WithKind(kind).WithContent(p).WithCommit(fixedHash(1)).Now()
		must(err, "key")
		list = append(list, k)
	}
	for i := 0; i < n; i++ {
		h := fixedHash(byte(i))
		h[1] = byte(i / 256)
		if i != at {
			build(h, kinds[i%5], uint((i*7)%n)*10, 10)
			continue
		}
		h = fixedHash(byte(same))
		h[1] = byte(same/256) ^ sym.Byte("again")&0x80
		from, length := sym.Uint("from"), uint(3)
		sym.Assume(from < 1<<62)
		build(h, sym.Uint("kind"), from, length)
	}
	ks, err := references.NewContentKeysBuilder().Create().WithList(list).Now()
	must(err, "keys")
	next := uint(ks.Next())
	reached := false
	for _, k := range list {
		end := k.Content().From() + k.Content().Length()
		sym.Assert(next >= end, "the next location follows every content")
		reached = sym.Or(reached, next == end)
	}
	sym.Assert(reached, "the next location leaves no gap")
	for i, asked := range list {
		if i > 2 && i < n-2 && i != at && i != same {
			continue
		}
		want := -1
		for j, k := range list {
			if k.Hash().Compare(asked.Hash()) {
				want = j
			}
		}
		got, err := ks.Fetch(asked.Hash())
		must(err, "a known hash is found")
		sym.Assert(sameKey(got, list[want]), "the last content key of a hash is found")
	}
	if _, err := ks.Fetch(fixedHash(byte(n))[:60]); err == nil {
		sym.Fail("a part of a hash is not known")
	}
	for _, kind := range kinds {
		var of []references.ContentKey
		for _, k := range list {
			if k.Kind() == kind {
				of = append(of, k)
			}
		}
		byKind := ks.ListByKind(kind)
		sym.Assert(len(byKind) == len(of), "number of content keys of a kind")
		for i := range of {
			sym.Assert(sameKey(of[i], byKind[i]), "content keys of a kind in order")
		}
	}
	all := ks.List()
	sym.Assert(len(all) == n, "all content keys are listed")
	for i, k := range all {
		sym.Assert(sameKey(k, list[i]), "content keys are listed in order")
	}
	sym.Reach("long")
}
