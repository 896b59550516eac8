package h

import (
	"github.com/steve-care-software/rodkina/libs/cryptography/domain/hash"
	"github.com/steve-care-software/rodkina/libs/databases/applications"
	"github.com/steve-care-software/rodkina/libs/databases/domain/references"
	"github.com/steve-care-software/rodkina/libs/databases/infrastructure/files"
	"github.com/steve-care-software/rodkina/verifh/env/core"
	"github.com/steve-care-software/rodkina/verifh/sym"
)

const dbDir = "db"
const dstExt = "destination"
const bckExt = "backup"

// entry is one written content
type entry struct {
	hash   hash.Hash
	data   []byte
	kind   uint
	commit int // index of its commit
}

// dbModel is the reference model of one database
type dbModel struct {
	entries []entry
	pending []entry
	commits int
}

func newDB(chunk uint) applications.Application {
	return files.NewApplication('0', dbDir, dstExt, bckExt, chunk)
}

// chunkSizes are the configured read sizes: below, between and above the sizes that occur
func chunkSize(name string) uint {
	sizes := []uint{1, 2, 3, 5, 64, 1000000}
	return sizes[sym.Choice(name, len(sizes))]
}

// mkHash builds a 64 byte hash; its first and last bytes are arbitrary
func mkHash(name string, tag byte) hash.Hash {
	out := make([]byte, hash.Size)
	for i := range out {
		out[i] = byte(i) ^ 0x5a
	}
	out[0] = sym.Byte(name + ".h0")
	out[hash.Size-1] = sym.Byte(name + ".h63")
	return hash.Hash(out)
}

// fixedHash is a distinct concrete hash
func fixedHash(tag byte) hash.Hash {
	out := make([]byte, hash.Size)
	for i := range out {
		out[i] = byte(i) ^ tag
	}
	out[0] = tag
	return hash.Hash(out)
}

// mkData builds content of 1..max arbitrary bytes
func mkData(name string, max int) []byte {
	n := 1 + sym.Choice(name+".len", max)
	return sym.Bytes(name, n)
}

func must(err error, msg string) {
	if err != nil {
		sym.Fail(msg + ": " + err.Error())
	}
}

// last is the index of the last entry with the hash of entry i
func (m *dbModel) last(i int) int {
	for j := len(m.entries) - 1; j > i; j-- {
		if m.entries[j].hash.Compare(m.entries[i].hash) {
			return j
		}
	}
	return i
}

// verify checks every observable of an open context against the model
func (m *dbModel) verify(app applications.Application, ctx uint, when string) {
	if len(m.entries) == 0 {
		_, err := app.Commits(ctx)
		sym.Assert(err != nil, when+": an empty database has no commits")
		return
	}
	commits, err := app.Commits(ctx)
	must(err, when+": commits")
	sym.Assert(len(commits.List()) == m.commits, when+": number of commits")
	for i := range m.entries {
		w := m.last(i)
		got, err := app.ReadByHash(ctx, m.entries[i].hash)
		must(err, when+": committed content can not be read")
		sym.Assert(sym.EqBytes(got, m.entries[w].data), when+": committed content reads back changed")
		// the caller owns what it read
		scribble(got)
	}
}

// keys returns all content keys of the context, in order, through the given kinds
func keysOf(app applications.Application, ctx uint, kind uint) []references.ContentKey {
	ks, err := app.ContentKeysByKind(ctx, kind)
	if err != nil {
		return nil
	}
	return ks.List()
}

// verifyKeys checks the content keys of one kind against the model
func (m *dbModel) verifyKeys(app applications.Application, ctx uint, kind uint, when string) {
	var want []entry
	for _, e := range m.entries {
		if e.kind == kind {
			want = append(want, e)
		}
	}
	got := keysOf(app, ctx, kind)
	sym.Assert(len(got) == len(want), when+": number of content keys of the kind")
	commits, err := app.Commits(ctx)
	if len(want) > 0 {
		must(err, when+": commits")
	}
	for i, k := range got {
		sym.Assert(k.Hash().Compare(want[i].hash), when+": content key order or hash")
		sym.Assert(k.Kind() == kind, when+": content key kind")
		sym.Assert(k.Content().Length() == uint(len(want[i].data)), when+": content key length")
		data, err := app.Read(ctx, k.Content())
		must(err, when+": content can not be read by its pointer")
		sym.Assert(sym.EqBytes(data, want[i].data), when+": content read by its pointer is changed")
		c := commits.List()[want[i].commit]
		sym.Assert(k.Commit().Compare(c.Hash()), when+": content key names the commit that added it")
	}
}

func start(chunk uint) applications.Application {
	core.Reset()
	app := newDB(chunk)
	return app
}

// openNew creates and opens a database
func openNew(app applications.Application, name string) uint {
	must(app.New(name), "create")
	p, err := app.Open(name)
	must(err, "open")
	return *p
}

func reopen(chunk uint, name string) (applications.Application, uint) {
	app := newDB(chunk)
	p, err := app.Open(name)
	must(err, "reopen")
	return app, *p
}

func (m *dbModel) write(app applications.Application, ctx uint, e entry) {
	// the caller uses its slices again after the call
	hash, data := append([]byte{}, e.hash...), append([]byte{}, e.data...)
	must(app.Write(ctx, hash, data, e.kind), "write")
	for i := range hash {
		hash[i] ^= 0xff
	}
	for i := range data {
		data[i] ^= 0xff
	}
	m.pending = append(m.pending, e)
}

// promote moves the pending entries to the committed ones
func (m *dbModel) promote() {
	for _, e := range m.pending {
		e.commit = m.commits
		m.entries = append(m.entries, e)
	}
	m.pending = nil
	m.commits++
}

func (m *dbModel) clone() *dbModel {
	return &dbModel{entries: append([]entry{}, m.entries...), pending: append([]entry{}, m.pending...), commits: m.commits}
}

// and is a conjunction that does not branch
func and(list ...bool) bool {
	ok := true
	for _, v := range list {
		ok = sym.And(ok, v)
	}
	return ok
}
