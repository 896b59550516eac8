package h

import (
	"strconv"

	"github.com/steve-care-software/rodkina/libs/cryptography/domain/hash"
	"github.com/steve-care-software/rodkina/libs/cryptography/domain/hashtrees"
	"github.com/steve-care-software/rodkina/libs/databases/applications"
	"github.com/steve-care-software/rodkina/libs/databases/domain/references"
	"github.com/steve-care-software/rodkina/verifh/env/core"
	"github.com/steve-care-software/rodkina/verifh/sym"
)

// names that begin with each other, or differ by their case only
var dbNames = []string{"data", "data.old", "Data"}

// H_DBContexts opens, closes, writes and commits several databases in an arbitrary order.
func H_DBContexts() {
	n := sym.Param("dbs", 3)
	app := start(1000000)
	ids := make([]uint, n)
	open := make([]bool, n)
	models := make([]*dbModel, n)
	for i := 0; i < n; i++ {
		must(app.New(dbNames[i]), "create")
		models[i] = &dbModel{}
	}
	steps := sym.Param("steps", 5)
	for s := 0; s < steps; s++ {
		id := strconv.Itoa(s)
		i := sym.Choice("db"+id, n)
		if !open[i] {
			p, err := app.Open(dbNames[i])
			must(err, "open")
			for j := range ids {
				sym.Assert(!open[j] || ids[j] != *p, "two open contexts share an identifier")
			}
			ids[i] = *p
			open[i] = true
			_, err = app.Open(dbNames[i])
			sym.Assert(err != nil, "one open context per database")
			continue
		}
		switch sym.Choice("op"+id, 3) {
		case 0:
			must(app.Close(ids[i]), "close")
			open[i] = false
			models[i].pending = nil
			sym.Assert(app.Write(ids[i], fixedHash(1), []byte{1}, 0) != nil, "a closed context accepts a write")
			_, err := app.ReadByHash(ids[i], fixedHash(1))
			sym.Assert(err != nil, "a closed context can be read")
			sym.Assert(app.Commit(ids[i]) != nil, "a closed context can be committed")
			sym.Assert(app.Cancel(ids[i]) != nil, "a closed context can be canceled")
			sym.Assert(app.Close(ids[i]) != nil, "a closed context can be closed again")
		case 1:
			// the same hash in every database: contents must not leak between contexts
			models[i].write(app, ids[i], entry{hash: fixedHash(9), data: append([]byte{byte(i)}, sym.Bytes("w"+id, 1)...), kind: uint(i)})
		default:
			if len(models[i].pending) == 0 {
				sym.Stop()
			}
			must(app.Commit(ids[i]), "commit")
			models[i].promote()
		}
		_, err := app.Open(dbNames[i])
		sym.Assert((err != nil) == open[i], "one open context per database")
		if err == nil {
			sym.Stop() // covered by the other histories
		}
	}
	for i := 0; i < n; i++ {
		if !open[i] {
			continue
		}
		models[i].verify(app, ids[i], "through its context")
		models[i].verifyKeys(app, ids[i], uint(i), "through its context")
	}
	for i := 0; i < n; i++ {
		other, ctx := reopen(1000000, dbNames[i])
		models[i].verify(other, ctx, "reopened")
		if len(models[i].entries) > 0 {
			sym.Reach("committed")
		}
		models[i].verifyKeys(other, ctx, uint(i), "reopened")
	}
}

// H_DBPending checks that pending content is invisible, that cancel drops it and that it is committed once.
func H_DBPending() {
	app := start(1000000)
	ctx := openNew(app, "base")
	m := &dbModel{}
	if sym.Bool("earlier") {
		m.write(app, ctx, entry{hash: fixedHash(1), data: mkData("e", 2), kind: 1})
		must(app.Commit(ctx), "commit")
		m.promote()
	}
	k := sym.Choice("k", 3)
	var pend []entry
	for i := 0; i < k; i++ {
		id := strconv.Itoa(i)
		e := entry{hash: fixedHash(byte(50 + i)), data: mkData("p"+id, 2), kind: 1}
		m.write(app, ctx, e)
		pend = append(pend, e)
	}
	// not visible in this context or for another process
	for _, e := range pend {
		_, err := app.ReadByHash(ctx, e.hash)
		sym.Assert(err != nil, "pending content is visible")
	}
	m.verifyKeys(app, ctx, 1, "pending")
	other, octx := reopen(1000000, "base")
	m.verify(other, octx, "other process while pending")
	m.verifyKeys(other, octx, 1, "other process while pending")
	must(other.Close(octx), "close")
	switch sym.Choice("end", 3) {
	case 0: // cancel, then commit something else
		must(app.Cancel(ctx), "cancel")
		m.pending = nil
		sym.Assert(app.Commit(ctx) != nil, "there is nothing to commit after a cancel")
		m.verify(app, ctx, "after cancel")
		m.write(app, ctx, entry{hash: fixedHash(99), data: sym.Bytes("z", 1), kind: 1})
		sym.Reach("cancel")
	case 1: // close drops pending content
		must(app.Close(ctx), "close")
		m.pending = nil
		p, err := app.Open("base")
		must(err, "open")
		ctx = *p
		sym.Assert(app.Commit(ctx) != nil, "there is nothing to commit after a close")
		m.write(app, ctx, entry{hash: fixedHash(99), data: sym.Bytes("z", 1), kind: 1})
		sym.Reach("close")
	default:
		if k == 0 {
			sym.Assert(app.Commit(ctx) != nil, "there is nothing to commit")
			sym.Stop()
		}
		sym.Reach("commit")
	}
	must(app.Commit(ctx), "commit")
	m.promote()
	sym.Assert(app.Commit(ctx) != nil, "a second commit finds nothing pending")
	m.verify(app, ctx, "committed once")
	m.verifyKeys(app, ctx, 1, "committed once")
	m.write(app, ctx, entry{hash: fixedHash(100), data: sym.Bytes("y", 1), kind: 1})
	must(app.Commit(ctx), "commit again")
	m.promote()
	app2, ctx2 := reopen(1000000, "base")
	m.verify(app2, ctx2, "reopened")
	m.verifyKeys(app2, ctx2, 1, "reopened")
}

// verifyChain checks the commit chain and the hash trees of a context
func (m *dbModel) verifyChain(app applications.Application, ctx uint, when string) {
	commits, err := app.Commits(ctx)
	must(err, when+": commits")
	list := commits.List()
	sym.Assert(len(list) == m.commits, when+": number of commits")
	sym.Assert(commits.Latest().Hash().Compare(list[len(list)-1].Hash()), when+": latest commit")
	for i, c := range list {
		if i == 0 {
			sym.Assert(!c.HasParent(), when+": the first commit has no parent")
		} else {
			sym.Assert(c.HasParent(), when+": a later commit has a parent")
			sym.Assert(c.Parent().Compare(list[i-1].Hash()), when+": the parent is the commit before")
		}
		var blocks [][]byte
		for _, e := range m.entries {
			if e.commit == i {
				blocks = append(blocks, e.hash.Bytes())
			}
		}
		want, err := hashtrees.NewBuilder().Create().WithBlocks(blocks).Now()
		must(err, "hash tree")
		sym.Assert(c.Values().Head().Compare(want.Head()), when+": the commit tree is the tree of the hashes it added")
		comp, err := hashtrees.NewAdapter().ToCompact(c.Values())
		must(err, "compact")
		leaves := comp.Leaves().Leaves()
		for j, b := range blocks {
			sym.Assert(sym.EqBytes(leaves[j].Head().Bytes(), b), when+": the commit tree lists the hashes in order")
		}
		byHash, err := app.CommitByHash(ctx, c.Hash())
		must(err, when+": a commit is found by its hash")
		sym.Assert(byHash.Hash().Compare(c.Hash()), when+": the commit found by hash")
		// the recorded identity is recomputed from its parts
		b := references.NewCommitBuilder('0').Create().WithValues(c.Values()).CreatedOn(c.CreatedOn())
		if c.HasParent() {
			b.WithParent(*c.Parent())
		}
		again, err := b.Now()
		must(err, "commit")
		sym.Assert(again.Hash().Compare(c.Hash()), when+": the commit hash follows from its parts")
		sym.Assert(!c.HasMine(), when+": a commit of the application is not mined")
	}
	for _, c := range list {
		sym.Assume(!c.Hash().Compare(fixedHash(77)))
	}
	_, err = app.CommitByHash(ctx, fixedHash(77))
	sym.Assert(err != nil, when+": an unknown commit hash is refused")
}

// H_DBChain checks commits, parents, trees, content keys and pointers over several commits.
func H_DBChain() {
	app := start(chunkSize("chunk"))
	ctx := openNew(app, "base")
	m := &dbModel{}
	n := 1 + sym.Choice("commits", sym.Param("commits", 3))
	for i := 0; i < n; i++ {
		id := strconv.Itoa(i)
		k := 1 + sym.Choice("k"+id, sym.Param("per", 3))
		for j := 0; j < k; j++ {
			m.write(app, ctx, entry{hash: fixedHash(byte(30 + 10*i + j)), data: sym.Bytes("d"+id+"."+strconv.Itoa(j), 1+(i+j)%2), kind: uint((i + j) % 2)})
		}
		must(app.Commit(ctx), "commit")
		m.promote()
	}
	m.verifyChain(app, ctx, "same process")
	m.verifyKeys(app, ctx, 0, "same process")
	m.verifyKeys(app, ctx, 1, "same process")
	app2, ctx2 := reopen(1000000, "base")
	m.verifyChain(app2, ctx2, "reopened")
	m.verifyKeys(app2, ctx2, 0, "reopened")
	m.verifyKeys(app2, ctx2, 1, "reopened")
	// pointers partition the data
	var keys []references.ContentKey
	for k := uint(0); k < 2; k++ {
		keys = append(keys, keysOf(app2, ctx2, k)...)
	}
	total := uint(0)
	end := uint(0)
	for i, a := range keys {
		total += a.Content().Length()
		if a.Content().From()+a.Content().Length() > end {
			end = a.Content().From() + a.Content().Length()
		}
		for _, b := range keys[:i] {
			apart := a.Content().From() >= b.Content().From()+b.Content().Length() || b.Content().From() >= a.Content().From()+a.Content().Length()
			sym.Assert(apart, "two content pointers overlap")
		}
	}
	sym.Assert(total == end, "the content pointers cover the data without a gap")
	if n > 1 {
		sym.Reach("chain")
	}
}

// H_DBKinds checks listing by kind and bulk reads with arbitrary kinds.
func H_DBKinds() {
	app := start(1000000)
	ctx := openNew(app, "base")
	_, err := app.ContentKeysByKind(ctx, 0)
	sym.Assert(err != nil, "an empty database has no content keys")
	m := &dbModel{}
	n := 1 + sym.Choice("n", sym.Param("n", 3))
	for i := 0; i < n; i++ {
		id := strconv.Itoa(i)
		e := entry{hash: fixedHash(byte(20 + i)), data: sym.Bytes("d"+id, 1+i%3), kind: sym.Uint("kind" + id)}
		if i == 1 && sym.Bool("same hash") {
			e.hash = fixedHash(20)
		}
		m.write(app, ctx, e)
		if sym.Bool("commit" + id) {
			must(app.Commit(ctx), "commit")
			m.promote()
		}
	}
	if len(m.pending) > 0 {
		must(app.Commit(ctx), "commit")
		m.promote()
	}
	if sym.Bool("reopen") {
		app, ctx = reopen(64, "base")
	}
	kind := sym.Uint("asked")
	want := 0
	for _, e := range m.entries {
		if e.kind == kind {
			want++
		}
	}
	ks, err := app.ContentKeysByKind(ctx, kind)
	if want == 0 {
		sym.Assert(err != nil, "a kind without content is refused")
		sym.Reach("no such kind")
		return
	}
	sym.Reach("kind found")
	must(err, "keys of a kind")
	m.verifyKeys(app, ctx, kind, "by kind")
	sym.Assert(len(ks.List()) == want, "number of keys of a kind")
	// bulk reads in any order
	var ptrs []references.Pointer
	var hashes []hash.Hash
	var datas, byHashes [][]byte
	list := ks.List()
	m.bulk(list, &datas, &byHashes, kind)
	for i := len(list) - 1; i >= 0; i-- {
		ptrs = append(ptrs, list[i].Content())
		hashes = append(hashes, list[i].Hash())
	}
	all, err := app.ReadAll(ctx, ptrs)
	must(err, "read all")
	byHash, err := app.ReadAllByHashes(ctx, hashes)
	must(err, "read all by hashes")
	sym.Assert(len(all) == len(ptrs) && len(byHash) == len(hashes), "bulk reads return one result per request")
	for i := range datas {
		sym.Assert(sym.EqBytes(all[i], datas[i]), "bulk read by pointers")
		sym.Assert(sym.EqBytes(byHash[i], byHashes[i]), "bulk read by hashes")
	}
	_, err = app.ReadAllByHashes(ctx, append(hashes, fixedHash(3)))
	sym.Assert(err != nil, "a bulk read with an unknown hash is refused")
}

// bulk gives the expected results of reading all the contents of a kind, from the last to the first
func (m *dbModel) bulk(list []references.ContentKey, byPointer *[][]byte, byHash *[][]byte, kind uint) {
	for i := len(m.entries) - 1; i >= 0; i-- {
		if m.entries[i].kind == kind {
			*byPointer = append(*byPointer, m.entries[i].data)
			*byHash = append(*byHash, m.entries[m.last(i)].data)
		}
	}
}

// H_DBRepeat: contents that share their hashes and kinds in every way
func H_DBRepeat() {
	app := start(1000000)
	ctx := openNew(app, "base")
	m := &dbModel{}
	n := 1 + sym.Choice("n", sym.Param("n", 4))
	split := sym.Choice("split", n)
	for i := 0; i < n; i++ {
		id := strconv.Itoa(i)
		m.write(app, ctx, entry{hash: fixedHash(byte(20 + sym.Choice("hash"+id, 2))), data: sym.Bytes("d"+id, 1+i%3), kind: uint(7 * sym.Choice("kind"+id, 2))})
		if i == split {
			must(app.Commit(ctx), "commit")
			m.promote()
		}
	}
	if len(m.pending) > 0 {
		must(app.Commit(ctx), "commit")
		m.promote()
	}
	m.verify(app, ctx, "repeated")
	hashes := []hash.Hash{}
	datas := [][]byte{}
	for i, e := range m.entries {
		hashes = append(hashes, e.hash)
		datas = append(datas, m.entries[m.last(i)].data)
	}
	got, err := app.ReadAllByHashes(ctx, hashes)
	must(err, "read all by hashes")
	sym.Assert(len(got) == len(datas), "bulk reads return one result per request")
	for i := range got {
		sym.Assert(sym.EqBytes(got[i], datas[i]), "bulk read by hashes")
	}
	for _, kind := range []uint{0, 7} {
		m.verifyKeys(app, ctx, kind, "by kind")
		ptrs := []references.Pointer{}
		for _, k := range keysOf(app, ctx, kind) {
			ptrs = append(ptrs, k.Content(), k.Content())
		}
		all, err := app.ReadAll(ctx, ptrs)
		must(err, "read all")
		sym.Assert(len(all) == len(ptrs), "bulk reads return one result per request")
		at := 0
		for _, e := range m.entries {
			if e.kind == kind {
				sym.Assert(sym.EqBytes(all[at], e.data) && sym.EqBytes(all[at+1], e.data), "bulk read by pointers")
				at += 2
			}
		}
	}
	sym.Reach("repeated")
}

// H_DBLifecycle creates, opens, deletes and asks for databases in an arbitrary order.
func H_DBLifecycle() {
	app := start(1000000)
	if sym.Bool("dir") {
		core.Files["db"] = &core.Inode{Dir: true}
		core.Files["db/sub"] = &core.Inode{Dir: true}
	}
	n := sym.Param("dbs", 2)
	exists := make([]bool, n)
	held := make([]bool, n) // a context of the application is open
	ids := make([]uint, n)
	content := make([]*dbModel, n)
	version, seen := make([]int, n), make([]int, n) // of the database, of the held context
	steps := sym.Param("steps", 4)
	ops := sym.Param("ops", 3) // 3: every context is closed at once, 5: contexts are also held open, 6: and commit
	for s := 0; s < steps; s++ {
		id := strconv.Itoa(s)
		i := sym.Choice("db"+id, n)
		name := dbNames[i]
		ok, err := app.Exists(name)
		must(err, "exists")
		sym.Assert(ok == exists[i], "a database exists from its creation to its deletion")
		switch sym.Choice("op"+id, ops) {
		case 3:
			if held[i] {
				sym.Stop()
			}
			p, err := app.Open(name)
			sym.Assert((err == nil) == exists[i], "only an existing database can be opened")
			if err != nil {
				break
			}
			held[i], ids[i], seen[i] = true, *p, version[i]
			sym.Reach("held")
		case 4:
			if !held[i] {
				sym.Stop()
			}
			must(app.Close(ids[i]), "close")
			held[i] = false
		case 5:
			if !held[i] {
				sym.Stop()
			}
			e := entry{hash: fixedHash(byte(40 + s)), data: sym.Bytes("d"+id, 2), kind: 0}
			if exists[i] && seen[i] == version[i] {
				content[i].write(app, ids[i], e)
				must(app.Commit(ids[i]), "commit")
				content[i].promote()
				version[i]++
				seen[i] = version[i]
				break
			}
			must(app.Write(ids[i], e.hash, e.data, e.kind), "write")
			sym.Assert(app.Commit(ids[i]) != nil, "a context on a deleted or replaced database cannot commit")
			must(app.Cancel(ids[i]), "cancel")
			sym.Reach("stale")
		case 0:
			err := app.New(name)
			sym.Assert((err == nil) == !exists[i], "only a missing database can be created")
			if err == nil {
				exists[i] = true
				version[i]++
				content[i] = &dbModel{}
				sym.Reach("created")
			}
		case 1:
			err := app.Delete(name)
			sym.Assert((err == nil) == exists[i], "only an existing database can be deleted")
			if err == nil {
				sym.Reach("deleted")
			}
			exists[i] = false
		default:
			app := app
			if held[i] {
				app = newDB(1000000) // another process
			}
			p, err := app.Open(name)
			sym.Assert((err == nil) == exists[i], "only an existing database can be opened")
			if err != nil {
				sym.Reach("open refused")
				break
			}
			content[i].verify(app, *p, "open")
			content[i].write(app, *p, entry{hash: fixedHash(byte(40 + s)), data: sym.Bytes("d"+id, 2), kind: 0})
			must(app.Commit(*p), "commit")
			content[i].promote()
			version[i]++
			must(app.Close(*p), "close")
		}
	}
	for i := 0; i < n; i++ {
		other := newDB(1000000)
		ok, err := other.Exists(dbNames[i])
		must(err, "exists")
		sym.Assert(ok == exists[i], "existence as seen by another process")
		ok, err = app.Exists(dbNames[i])
		must(err, "exists")
		sym.Assert(ok == exists[i], "existence as seen by the process that changed it")
		if ok {
			p, err := other.Open(dbNames[i])
			must(err, "open")
			content[i].verify(other, *p, "another process")
		}
	}
	if core.Files["db/sub"] != nil {
		ok, _ := app.Exists("sub")
		sym.Assert(!ok, "a directory is not a database")
		sym.Assert(app.Delete("sub") != nil, "a directory is not deleted as a database")
		sym.Assert(core.Files["db/sub"] != nil, "a directory is kept")
		sym.Assert(app.New("sub") != nil, "a directory is not replaced by a database")
	}
}

// H_DBPointer reads with an arbitrary pointer.
func H_DBPointer() {
	chunk := []uint{1000000, 1, 2, 3, 7, 0}[sym.Choice("chunk", sym.Param("chunks", 1))]
	app := start(chunk)
	ctx := openNew(app, "base")
	m := &dbModel{}
	var all []byte
	n := sym.Choice("n", 3)
	for i := 0; i < n; i++ {
		id := strconv.Itoa(i)
		e := entry{hash: fixedHash(byte(20 + i)), data: mkData("d"+id, 2), kind: 0}
		if more := sym.Param("more", 0); more > 0 {
			e.data = sym.Bytes("d"+id, more+i)
		}
		m.write(app, ctx, e)
		must(app.Commit(ctx), "commit")
		m.promote()
		all = append(all, e.data...)
	}
	if sym.Bool("reopen") {
		if chunk == 1000000 {
			chunk = 7
		}
		app, ctx = reopen(chunk, "base")
	}
	from := sym.Uint("from")
	length := sym.Uint("length")
	p, err := references.NewPointerBuilder().Create().From(from).WithLength(length).Now()
	if err != nil {
		sym.Assert(length == 0, "only an empty pointer is refused")
		return
	}
	got, err := app.Read(ctx, p)
	inside := from <= uint(len(all)) && length <= uint(len(all)) && from+length <= uint(len(all))
	if !inside {
		sym.Assert(err != nil, "a pointer outside of the data is refused")
		sym.Reach("outside")
		return
	}
	sym.Reach("inside")
	must(err, "a pointer inside of the data can be read")
	f, l := sym.Concrete(int(from)), sym.Concrete(int(length))
	sym.Assert(sym.EqBytes(got, all[f:f+l]), "a pointer reads the bytes it names")
	// the caller owns what it read
	scribble(got)
	got, err = app.Read(ctx, p)
	must(err, "a pointer inside of the data can be read")
	sym.Assert(sym.EqBytes(got, all[f:f+l]), "a pointer reads the bytes it names again")
}

// H_DBCorruptHeader opens a file of arbitrary bytes.
func H_DBCorruptHeader() {
	app := start(chunkSize("chunk"))
	n := sym.Choice("n", 13)
	core.Files["db"] = &core.Inode{Dir: true}
	data := sym.Bytes("f", n)
	core.Files["db/base"] = &core.Inode{Data: append([]byte{}, data...)}
	p, err := app.Open("base")
	if n == 0 {
		must(err, "an empty database can be opened")
		_, err := app.Commits(*p)
		sym.Assert(err != nil, "an empty database has no commits")
		sym.Reach("empty")
		return
	}
	sym.Assert(err != nil, "a file that is too short for a database is refused")
	sym.Assert(sym.EqBytes(core.Files["db/base"].Data, data), "opening does not change the file")
	sym.Reach("refused")
}

// H_DBCorruptRef opens a valid database with some arbitrary bytes in its reference.
func H_DBCorruptRef() {
	app := start(32)
	ctx := openNew(app, "base")
	m := &dbModel{}
	m.write(app, ctx, entry{hash: fixedHash(20), data: []byte{1, 2, 3}, kind: 0})
	m.write(app, ctx, entry{hash: fixedHash(21), data: []byte{4, 5}, kind: 0})
	must(app.Commit(ctx), "commit")
	must(app.Close(ctx), "close")
	d := core.Files["db/base"].Data
	cut := sym.Bool("cut")
	if v := sym.Param("cutonly", -1); v >= 0 && cut != (v == 1) {
		sym.Stop()
	}
	if cut {
		n := 32*sym.Choice("cut.hi", len(d)/32+1) + sym.Choice("cut.lo", 32)
		if n >= len(d) {
			sym.Stop()
		}
		core.Files["db/base"].Data = d[:n:n]
	} else {
		// one arbitrary 8 byte word anywhere but in the creation time of the commit, which is formatted
		w := 8*sym.Choice("word.hi", len(d)/64+1) + sym.Choice("word.lo", 8)
		at := 8 * w
		if o := sym.Param("only", -1); o >= 0 && o != w {
			sym.Stop()
		}
		if at+8 > len(d) || w == sym.Param("skip", 43) {
			sym.Stop()
		}
		for i := 0; i < 8; i++ {
			d[at+i] = sym.Byte("b" + strconv.Itoa(i))
		}
	}
	p, err := app.Open("base")
	if err != nil {
		sym.Reach("refused")
		return
	}
	sym.Reach("opened")
	for i := byte(20); i < 22; i++ {
		app.ReadByHash(*p, fixedHash(i))
	}
	for _, k := range keysOf(app, *p, 0) {
		app.Read(*p, k.Content())
	}
	must(app.Close(*p), "close")
}

// H_DBNames uses two databases whose names are alike, or two names of one database.
func H_DBNames() {
	names := []string{"data", "./data", "sub/../data", "data.destination", "data.backup", "data.backups", "backup", "data.destination.backup", "Data", "data/.", "data.backup/.", "other/../data.destination/"}
	at := []int{0, 0, 0, 1, 2, 3, 4, 5, 6, 0, 2, 1} // which database each one names
	refused := []bool{false, false, false, true, true, false, false, true, false, false, true, true}
	one, two := sym.Choice("one", len(names)), sym.Choice("two", len(names))
	chosen := []int{one, two}
	app := start(1000000)
	exists := []bool{false, false}
	models := []*dbModel{{}, {}}
	for i, k := range chosen {
		same := i == 1 && at[one] == at[two] && exists[0]
		ok, err := app.Exists(names[k])
		must(err, "exists")
		sym.Assert(ok == same, "a database exists from its creation")
		err = app.New(names[k])
		if refused[k] {
			sym.Reach("refused")
			sym.Assert(err != nil, "a database has the name of a file that commits work with")
			ok, err := app.Exists(names[k])
			must(err, "exists")
			sym.Assert(!ok, "a refused database exists")
			continue
		}
		sym.Assert((err == nil) == !same, "only a missing database can be created")
		exists[i] = true
		if same {
			models[1] = models[0]
		}
	}
	ids := make([]uint, 2)
	open := []bool{false, false}
	for i, k := range chosen {
		p, err := app.Open(names[k])
		if exists[i] && (i == 0 || !exists[0] || models[0] != models[1]) {
			must(err, "open")
			ids[i], open[i] = *p, true
			continue
		}
		sym.Reach("not opened")
		sym.Assert(err != nil, "a missing database is opened, or one twice")
	}
	order := []int{0, 1, 0}
	if sym.Bool("other order") {
		order = []int{1, 0, 1}
	}
	for s, i := range order {
		if !open[i] {
			continue
		}
		id := strconv.Itoa(s)
		models[i].write(app, ids[i], entry{hash: fixedHash(byte(40 + s)), data: append([]byte{byte(i)}, sym.Bytes("d"+id, 2)...), kind: uint(i)})
		must(app.Commit(ids[i]), "commit")
		models[i].promote()
	}
	for i, k := range chosen {
		if !exists[i] {
			continue
		}
		if open[i] {
			models[i].verify(app, ids[i], "through its context")
			must(app.Close(ids[i]), "close")
		}
		other, ctx := reopen(1000000, names[k])
		models[i].verify(other, ctx, "reopened")
		must(other.Close(ctx), "close")
	}
	if exists[0] && exists[1] && models[0] != models[1] {
		sym.Reach("two")
		must(app.Delete(names[two]), "delete")
		other, ctx := reopen(1000000, names[one])
		models[0].verify(other, ctx, "after the deletion of another database")
		must(other.Close(ctx), "close")
	}
}
