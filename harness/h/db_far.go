package h

import (
	"github.com/steve-care-software/rodkina/libs/cryptography/domain/hash"
	"github.com/steve-care-software/rodkina/verifh/sym"
)

// wideHash gives thousands of hashes
func wideHash(i int) hash.Hash {
	out := append(hash.Hash{}, fixedHash(byte(i))...)
	out[3], out[60] = byte(i>>8), byte(i)
	return out
}

// H_DBFar: amounts and sizes far from the usual ones
func H_DBFar() {
	n := sym.Param("size", 20)
	chunks := []uint{0, 4096, 65536, 1000000, 1000, 4095}
	chunk := chunks[sym.Choice("chunk", sym.Param("chunks", 1))]
	app := start(chunk)
	switch sym.Param("kind", 0) {
	case 0: // many contexts
		models, ids := make([]*dbModel, n), make([]uint, n)
		isOpen := make([]bool, n)
		opened := func(i int) {
			p, err := app.Open("name" + itoa(i))
			must(err, "open")
			ids[i] = *p
			for j := range ids {
				sym.Assert(!isOpen[j] || ids[j] != ids[i], "two open contexts share an identifier")
			}
			isOpen[i] = true
		}
		for i := range ids {
			models[i] = &dbModel{}
			must(app.New("name"+itoa(i)), "create")
			opened(i)
		}
		at := []int{0, n / 2, n - 1, n - 4}[sym.Choice("at", 4)]
		for i := range ids {
			models[i].write(app, ids[i], entry{hash: wideHash(i), data: []byte{byte(i), byte(i >> 8), sym.Byte("d")}, kind: 0})
		}
		for _, i := range []int{at, (at + n/3) % n} {
			if sym.Bool("commit") {
				must(app.Commit(ids[i]), "commit")
				models[i].promote()
			}
			must(app.Close(ids[i]), "close")
			isOpen[i], models[i].pending = false, nil
			sym.Assert(app.Cancel(ids[i]) != nil, "a closed context can be used")
		}
		opened(at)
		sym.Assert(app.Commit(ids[at]) != nil, "what was pending in a closed context can be committed")
		for i := range ids {
			if !isOpen[i] {
				continue
			}
			if len(models[i].pending) > 0 {
				must(app.Commit(ids[i]), "commit")
				models[i].promote()
			}
		}
		for i := range ids {
			if isOpen[i] {
				models[i].verify(app, ids[i], "through its context")
			}
			other, ctx := reopen(chunk, "name"+itoa(i))
			models[i].verify(other, ctx, "reopened")
		}
	case 1: // many commits
		m := &dbModel{}
		ctx := openNew(app, "base")
		again := []int{-1, 0, n / 2, n - 2}[sym.Choice("again", 4)]
		for i := 0; i < n; i++ {
			for j := 0; j <= i%3/2; j++ {
				m.write(app, ctx, entry{hash: wideHash(2*i + j), data: []byte{byte(i), sym.Byte("d" + itoa(i%4))}, kind: uint(i % 2)})
			}
			must(app.Commit(ctx), "commit")
			m.promote()
			if i == again {
				must(app.Close(ctx), "close")
				app, ctx = reopen(chunk, "base")
			}
		}
		m.verifyAll(app, ctx, "at the end")
	case 2: // large contents
		m := &dbModel{}
		ctx := openNew(app, "base")
		sizes := []int{4095, 4096, 4097, 1023, 8192, 8193, 1 << 16, 1<<16 - 1, 1<<16 + 1, 100000}
		one, two := sizes[sym.Choice("one", n)], sizes[sym.Choice("two", n)]
		same := sym.Bool("same")
		for i, l := range []int{one, two, 3} {
			m.write(app, ctx, entry{hash: wideHash(i), data: longData("d"+itoa(i), l), kind: uint(i % 2)})
			if !same || i == 2 {
				must(app.Commit(ctx), "commit")
				m.promote()
			}
		}
		m.verifyAll(app, ctx, "at the end")
		app, ctx = reopen(chunk, "base")
		m.verifyAll(app, ctx, "reopened")
	case 3: // many contents at once
		m := &dbModel{}
		ctx := openNew(app, "base")
		if sym.Bool("canceled") {
			for i := 0; i < n; i++ {
				m.write(app, ctx, entry{hash: wideHash(5*n + i), data: []byte{1}, kind: 3})
			}
			must(app.Cancel(ctx), "cancel")
			m.pending = nil
		}
		same := 1 + n*sym.Choice("same", 2)/2 // some hashes again
		for i := 0; i < n; i++ {
			at := i
			if same > 1 {
				at = i % same
			}
			m.write(app, ctx, entry{hash: wideHash(at), data: []byte{byte(i), byte(i >> 8), sym.Byte("d" + itoa(i%4))}, kind: uint(i % 2)})
		}
		must(app.Commit(ctx), "commit")
		m.promote()
		m.write(app, ctx, entry{hash: wideHash(2 * n), data: []byte{sym.Byte("last")}, kind: 0})
		must(app.Commit(ctx), "commit")
		m.promote()
		m.verifyAll(app, ctx, "at the end")
	}
	sym.Reach("far")
}
