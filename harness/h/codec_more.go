package h

import (
	"time"

	"github.com/steve-care-software/rodkina/libs/cryptography/domain/hashtrees"
	"github.com/steve-care-software/rodkina/libs/databases/domain/references"
	"github.com/steve-care-software/rodkina/verifh/sym"
)

// H_CommitZone: the identity of a commit covers the moment of its creation, whatever its zone
func H_CommitZone() {
	zones := []int{0, 3600, -3600, 19800, -43200, 50400, 1}
	times := []int64{1600000000000000017, 1600003600000000017, 1599996400000000017, 0, -1600000000000000017, 1600000000000000018}
	v := sym.Byte("block")
	parent := sym.Bool("parent")
	build := func(what string) (references.Commit, int64) {
		block := fixedHash(3)
		block[7] = v
		tree, err := hashtrees.NewBuilder().Create().WithBlocks([][]byte{block}).Now()
		must(err, "tree")
		ns := times[sym.Choice(what+".time", len(times))]
		at := time.Unix(0, ns).UTC()
		if zone := zones[sym.Choice(what+".zone", len(zones))]; zone != 0 {
			at = at.In(time.FixedZone("zone", zone))
		}
		b := references.NewCommitBuilder('0').Create().WithValues(tree).CreatedOn(at)
		if parent {
			b.WithParent(fixedHash(5))
		}
		c, err := b.Now()
		must(err, "commit")
		return c, ns
	}
	one, t1 := build("one")
	two, t2 := build("two")
	sym.Assert(sym.EqBytes(one.Hash(), two.Hash()) == (t1 == t2), "the identity of a commit covers the moment of its creation")
	a := references.NewCommitAdapter('0')
	enc, err := a.ToContent(one)
	must(err, "encode a commit")
	back, err := a.ToCommit(enc)
	must(err, "decode a commit")
	sym.Assert(sameCommit(one, back), "a commit survives its encoding whatever the zone of its time")
	sym.Reach("zone")
}

// H_KeysMany: hundreds of keys of few kinds
func H_KeysMany() {
	n := sym.Param("n", 300)
	every := 1 + sym.Choice("kinds", 2) // of one or two kinds
	at := []int{0, n - 1, n / 2}[sym.Choice("at", 3)]
	var list []references.ContentKey
	for i := 0; i < n; i++ {
		h := fixedHash(byte(i))
		h[2] = byte(i / 256)
		kind := uint(7 + i%every)
		from := uint(i) * 10
		if i == at {
			kind = sym.Uint("kind")
			if sym.Bool("far") {
				from = 1 << 40
			}
		}
		p, err := references.NewPointerBuilder().Create().From(from).WithLength(10).Now()
		must(err, "pointer")
		k, err := references.NewContentKeyBuilder().Create().WithHash(h).WithKind(kind).WithContent(p).WithCommit(fixedHash(1)).Now()
		must(err, "key")
		list = append(list, k)
	}
	ks, err := references.NewContentKeysBuilder().Create().WithList(list).Now()
	must(err, "keys")
	sym.Assert(len(ks.List()) == n, "all keys are listed")
	for _, kind := range []uint{7, 8, 9} {
		want := []references.ContentKey{}
		for _, k := range list {
			if k.Kind() == kind {
				want = append(want, k)
			}
		}
		got := ks.ListByKind(kind)
		sym.Assert(len(got) == len(want), "all keys of a kind are listed")
		for i, k := range got {
			sym.Assert(sym.EqBytes(k.Hash(), want[i].Hash()), "the keys of a kind are listed in order")
		}
	}
	for i, k := range list {
		if i%16 != 0 && i < n-2 {
			continue
		}
		got, err := ks.Fetch(k.Hash())
		must(err, "a known hash is found")
		sym.Assert(sym.EqBytes(got.Hash(), k.Hash()), "the key of a hash is found")
	}
	next, end := uint(ks.Next()), uint(n)*10
	if from := list[at].Content().From(); from+10 > end {
		end = from + 10
	}
	sym.Assert(next == end, "the next location follows every content, without a gap")
	sym.Reach("many")
}
