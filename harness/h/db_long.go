package h

import (
	"encoding/binary"

	"github.com/steve-care-software/rodkina/libs/cryptography/domain/hash"
	"github.com/steve-care-software/rodkina/libs/databases/applications"
	"github.com/steve-care-software/rodkina/libs/databases/domain/references"
	"github.com/steve-care-software/rodkina/verifh/env/core"
	"github.com/steve-care-software/rodkina/verifh/sym"
)

// verifyAll checks everything that can be observed of a context with concrete kinds
func (m *dbModel) verifyAll(app applications.Application, ctx uint, when string) {
	m.verify(app, ctx, when)
	if m.commits == 0 {
		return
	}
	m.verifyChain(app, ctx, when)
	kinds := map[uint]bool{}
	keys := []references.ContentKey{}
	datas := [][]byte{}
	for _, e := range m.entries {
		if !kinds[e.kind] {
			kinds[e.kind] = true
			m.verifyKeys(app, ctx, e.kind, when)
			keys = append(keys, keysOf(app, ctx, e.kind)...)
			for _, two := range m.entries {
				if two.kind == e.kind {
					datas = append(datas, two.data)
				}
			}
		}
	}
	_, err := app.ContentKeysByKind(ctx, 99)
	sym.Assert(err != nil, when+": a kind without content is refused")
	total, end := uint(0), uint(0)
	for i, a := range keys {
		from, length := a.Content().From(), a.Content().Length()
		total += length
		if from+length > end {
			end = from + length
		}
		for _, b := range keys[:i] {
			apart := from >= b.Content().From()+b.Content().Length() || b.Content().From() >= from+length
			sym.Assert(apart, when+": two content pointers overlap")
		}
	}
	sym.Assert(total == end, when+": the content pointers cover the data without a gap")
	beyond, err := references.NewPointerBuilder().Create().From(end - 1).WithLength(2).Now()
	must(err, "pointer")
	_, err = app.Read(ctx, beyond)
	sym.Assert(err != nil, when+": a pointer beyond the data is refused")
	// bulk reads, from the last to the first, and the first again
	ptrs, hashes := []references.Pointer{}, []hash.Hash{}
	want, last := [][]byte{}, [][]byte{}
	for i := len(keys); i >= 0; i-- {
		if i == len(keys) && i > 3 {
			continue
		}
		at := i % len(keys)
		ptrs = append(ptrs, keys[at].Content())
		want = append(want, datas[at])
	}
	for i := len(m.entries); i >= 0; i-- {
		at := i % len(m.entries)
		hashes = append(hashes, m.entries[at].hash)
		last = append(last, m.entries[m.last(at)].data)
	}
	all, err := app.ReadAll(ctx, ptrs)
	must(err, when+": read all")
	byHash, err := app.ReadAllByHashes(ctx, hashes)
	must(err, when+": read all by hashes")
	sym.Assert(len(all) == len(ptrs) && len(byHash) == len(hashes), when+": bulk reads return one result per request")
	for i := range want {
		sym.Assert(sym.EqBytes(all[i], want[i]), when+": bulk read by pointers")
	}
	for i := range last {
		sym.Assert(sym.EqBytes(byHash[i], last[i]), when+": bulk read by hashes")
	}
	for i := 0; i <= len(ptrs); i++ {
		if i > 2 && i < len(ptrs) {
			continue
		}
		_, err := app.ReadAll(ctx, append(append(append([]references.Pointer{}, ptrs[:i]...), beyond), ptrs[i:]...))
		sym.Assert(err != nil, when+": a bulk read beyond the data is refused")
	}
	for i := 0; i <= len(hashes); i++ {
		if i > 2 && i < len(hashes) {
			continue
		}
		_, err := app.ReadAllByHashes(ctx, append(append(append([]hash.Hash{}, hashes[:i]...), fixedHash(255)), hashes[i:]...))
		sym.Assert(err != nil, when+": a bulk read with an unknown hash is refused")
	}
}

// longData is content of which the first, the last and a middle byte are arbitrary
func longData(name string, n int) []byte {
	out := make([]byte, n)
	for i := range out {
		out[i] = byte(i * 7)
	}
	out[0] = sym.Byte(name + ".first")
	out[n/2] = sym.Byte(name + ".middle")
	out[n-1] = sym.Byte(name + ".last")
	return out
}

// H_DBLong: larger databases and less usual histories
func H_DBLong() {
	n := sym.Param("size", 4)
	kind := sym.Param("kind", -1)
	if kind < 0 {
		kind = sym.Choice("kind", 6)
	}
	m := &dbModel{}
	switch kind {
	case 0: // many commits of many contents of many sizes
		chunk := []uint{0, 2, 7, 64, 300, 100000}[sym.Choice("chunk", 6)]
		app := start(chunk)
		ctx := openNew(app, "base")
		sizes := []int{1, 7, 64, 300, 2, 33}
		count := 0
		again, canceled := sym.Choice("reopened", n+1), sym.Choice("canceled", 2)
		for i := 0; i < n; i++ {
			if i == canceled*(n/2) {
				for j := 0; j < i; j++ {
					m.write(app, ctx, entry{hash: fixedHash(254), data: []byte{1, 2, 3}, kind: 1})
				}
				must(app.Cancel(ctx), "cancel")
				m.pending = nil
			}
			for j := 0; j < 1+i%5; j++ {
				m.write(app, ctx, entry{hash: fixedHash(byte(1 + count)), data: longData("d"+itoa(count), sizes[(i+j)%6]), kind: uint(count % 3)})
				count++
			}
			must(app.Commit(ctx), "commit")
			m.promote()
			if i == again {
				must(app.Close(ctx), "close")
				app, ctx = reopen(chunk, "base")
			}
		}
		m.verifyAll(app, ctx, "at the end")
		app, ctx = reopen([]uint{1, 64, 100000}[sym.Choice("other chunk", 3)], "base")
		m.verifyAll(app, ctx, "reopened")
	case 1: // the same hashes again, with other data and kinds
		app := start(1000000)
		ctx := openNew(app, "base")
		for i := 0; i < n; i++ {
			data := sym.Bytes("d"+itoa(i), 1+i%2)
			m.write(app, ctx, entry{hash: fixedHash(byte(1 + sym.Choice("hash"+itoa(i), 2))), data: data, kind: uint(sym.Choice("kind"+itoa(i), 2))})
			if sym.Bool("commit" + itoa(i)) {
				must(app.Commit(ctx), "commit")
				m.promote()
			}
		}
		if len(m.pending) > 0 {
			must(app.Commit(ctx), "commit")
			m.promote()
		}
		m.verifyAll(app, ctx, "at the end")
		app, ctx = reopen(1000000, "base")
		m.verifyAll(app, ctx, "reopened")
	case 2: // any clock
		app := start(1000000)
		ctx := openNew(app, "base")
		now := int64(1600000000000000000)
		core.ClockFn = func() int64 { return now }
		for i := 0; i < n; i++ {
			m.write(app, ctx, entry{hash: fixedHash(byte(1 + i%2)), data: sym.Bytes("d"+itoa(i), 1), kind: 0})
			must(app.Commit(ctx), "commit")
			m.promote()
			now += []int64{0, 1, 1000000007, -3600000000001}[sym.Choice("clock"+itoa(i), 4)]
		}
		m.verifyAll(app, ctx, "at the end")
		app, ctx = reopen(1000000, "base")
		m.verifyAll(app, ctx, "reopened")
	case 3: // many databases at once
		app := start(1000000)
		ids := make([]uint, n)
		models := make([]*dbModel, n)
		name := func(i int) string { return "name" + itoa(i) }
		opened := func(i int) {
			p, err := app.Open(name(i))
			must(err, "open")
			ids[i] = *p
			_, err = app.Open(name(i))
			sym.Assert(err != nil, "one open context per database")
			for j := range ids {
				sym.Assert(j == i || models[j] == nil || ids[j] != ids[i], "two open contexts share an identifier")
			}
		}
		for i := 0; i < n; i++ {
			must(app.New(name(i)), "create")
			models[i] = &dbModel{}
			opened(i)
		}
		add := func(i int, round int) {
			models[i].write(app, ids[i], entry{hash: fixedHash(byte(1 + round)), data: append([]byte{byte(i), byte(round)}, sym.Bytes("d"+itoa(i), i%2)...), kind: uint(i % 3)})
		}
		for i := 0; i < n; i++ {
			add(i, 0)
		}
		one, two := sym.Choice("one", n), sym.Choice("two", n)
		for _, i := range []int{one, two} {
			if models[i].commits == 0 {
				must(app.Commit(ids[i]), "commit")
				models[i].promote()
			}
			add(i, 1)
		}
		closed := []int{one, two, (one + two) % n}
		for j, i := range closed {
			if j > 0 && i == closed[0] || j > 1 && i == closed[1] {
				continue
			}
			must(app.Close(ids[i]), "close")
			models[i].pending = nil
			sym.Assert(app.Commit(ids[i]) != nil, "a closed context can be committed")
			if sym.Bool("again" + itoa(j)) {
				opened(i)
				add(i, 2)
				continue
			}
			ids[i] = 1 << 40 // no identifier
			sym.Assert(app.Write(ids[i], fixedHash(9), []byte{1}, 0) != nil, "an unknown context can be written to")
		}
		for j := 0; j < n; j++ {
			i := (one + j*(n-1)) % n
			if ids[i] == 1<<40 {
				continue
			}
			if j%3 == 2 {
				must(app.Cancel(ids[i]), "cancel")
				models[i].pending = nil
				continue
			}
			if len(models[i].pending) > 0 {
				must(app.Commit(ids[i]), "commit")
				models[i].promote()
			}
		}
		for i := 0; i < n; i++ {
			if ids[i] != 1<<40 {
				models[i].verifyAll(app, ids[i], "through its context")
			}
			other, ctx := reopen(1000000, name(i))
			models[i].verifyAll(other, ctx, "reopened")
		}
	case 4: // contents around the read size
		chunk := []uint{1, 2, 3, 4, 8}[sym.Choice("chunk", 5)]
		app := start(chunk)
		ctx := openNew(app, "base")
		for i := 0; i < 3; i++ {
			l := 1 + i
			if i < 2 {
				l = 1 + sym.Choice("len"+itoa(i), n)
			}
			m.write(app, ctx, entry{hash: fixedHash(byte(1 + i)), data: sym.Bytes("d"+itoa(i), l), kind: uint(i % 2)})
			must(app.Commit(ctx), "commit")
			m.promote()
		}
		m.verifyAll(app, ctx, "at the end")
	case 5: // read sizes around the size of the reference
		app := start(1000000)
		ctx := openNew(app, "base")
		for i := 0; i < n; i++ {
			m.write(app, ctx, entry{hash: fixedHash(byte(1 + i)), data: sym.Bytes("d"+itoa(i), 2), kind: 0})
			if sym.Bool("commit"+itoa(i)) || i == n-1 {
				must(app.Commit(ctx), "commit")
				m.promote()
			}
		}
		size := uint(binary.LittleEndian.Uint64(core.Files["db/base"].Data))
		chunks := []uint{1, 2, 3, size / 2, size/2 + 1, size/3 + 1, size - 1, size, size + 1, size + 8, size * 2}
		app, ctx = reopen(chunks[sym.Choice("chunk", len(chunks))], "base")
		m.verifyAll(app, ctx, "reopened")
		m.write(app, ctx, entry{hash: fixedHash(200), data: sym.Bytes("more", 3), kind: 0})
		must(app.Commit(ctx), "commit")
		m.promote()
		m.verifyAll(app, ctx, "committed again")
	}
	sym.Reach("long")
}
