package h

import (
	"github.com/steve-care-software/rodkina/libs/databases/applications"
	"github.com/steve-care-software/rodkina/verifh/env/core"
	"github.com/steve-care-software/rodkina/verifh/sym"
)

// at runs f in the middle of g: before an arbitrary environment call of g, or after g.
func at(name string, f func(), g func()) {
	when := sym.Uint(name)
	n := uint(0)
	fired := false
	core.OnStep = func(op string, path string) {
		if !fired && n == when {
			fired = true
			f()
		}
		n++
	}
	core.Armed = true
	g()
	core.Armed = false
	core.OnStep = nil
	if !fired {
		f()
	}
}

// H_DBTwo commits from two processes on one database; the second one works at an arbitrary point of the first one.
func H_DBTwo() {
	app := start(1000000)
	ctx := openNew(app, "base")
	m := &dbModel{}
	if sym.Bool("earlier") {
		m.write(app, ctx, entry{hash: fixedHash(10), data: mkData("e", 2), kind: 0})
		must(app.Commit(ctx), "commit")
		m.promote()
	}
	other := newDB([]uint{3, 1000000}[sym.Choice("chunk", 2)])
	var octx uint
	early := sym.Bool("early")
	if early {
		p, err := other.Open("base")
		must(err, "a second process opens the database")
		octx = *p
	}
	a := entry{hash: fixedHash(20), data: mkData("a", 2), kind: 1}
	b := entry{hash: fixedHash(30), data: mkData("b", 3), kind: 2}
	must(app.Write(ctx, a.hash, a.data, a.kind), "write")
	var errA, errB error
	at("when", func() {
		if !early {
			p, err := other.Open("base")
			if err != nil {
				sym.Fail("a second process can always open the database: " + err.Error())
			}
			octx = *p
		}
		must(other.Write(octx, b.hash, b.data, b.kind), "write")
		errB = other.Commit(octx)
	}, func() {
		errA = app.Commit(ctx)
	})
	sym.Assert(errA == nil || errB == nil, "of two commits at least one succeeds")
	if errA == nil {
		m.pending = []entry{a}
		m.promote()
		m.verify(app, ctx, "the process that committed")
		if errB != nil {
			sym.Reach("second refused")
		}
	} else {
		sym.Reach("first refused")
	}
	if errB == nil {
		m.pending = []entry{b}
		m.promote()
		sym.Reach("second stored")
	}
	third, tctx := reopen(1000000, "base")
	m.verify(third, tctx, "both commits as seen by a third process")
	sym.Assert(sameState(m, third, tctx), "a commit of one process loses a commit of another one")
	// a refused process opens again and commits
	retry := func(app applications.Application, ctx uint, e entry) {
		must(app.Close(ctx), "close after a refused commit")
		p, err := app.Open("base")
		must(err, "open after a refused commit")
		m.verify(app, *p, "opened after a refused commit")
		m.write(app, *p, e)
		must(app.Commit(*p), "commit after a refused commit")
		m.promote()
	}
	if errA != nil {
		retry(app, ctx, a)
	}
	if errB != nil {
		retry(other, octx, b)
	}
	last, lctx := reopen(1000000, "base")
	sym.Assert(sameState(m, last, lctx), "both processes end up stored")
}

// H_DBTwoOpen opens a database while another process commits.
func H_DBTwoOpen() {
	app := start([]uint{100, 1000000}[sym.Choice("chunk", 2)])
	ctx := openNew(app, "base")
	m := &dbModel{}
	m.write(app, ctx, entry{hash: fixedHash(10), data: mkData("e", 2), kind: 0})
	must(app.Commit(ctx), "commit")
	m.promote()
	before := m.clone()
	m.write(app, ctx, entry{hash: fixedHash(11), data: mkData("f", 2), kind: 1})
	other := newDB([]uint{100, 1000000}[sym.Choice("chunk2", 2)])
	var octx uint
	at("when", func() {
		must(app.Commit(ctx), "commit")
		m.promote()
	}, func() {
		p, err := other.Open("base")
		must(err, "open while another process commits")
		octx = *p
	})
	isOld := sameState(before, other, octx)
	isNew := sameState(m, other, octx)
	sym.Assert(isOld || isNew, "a database opened during a commit is neither the old nor the new state")
	if isNew {
		sym.Reach("new")
	} else {
		sym.Reach("old")
	}
	// reading goes on over later commits
	m.write(app, ctx, entry{hash: fixedHash(12), data: mkData("g", 1), kind: 2})
	must(app.Commit(ctx), "commit")
	if isNew {
		before = m
		before.pending = nil
	}
	sym.Assert(sameState(before, other, octx), "an open context keeps its content while others commit")
}

// interleave runs a and b as two processes. The first one runs until an arbitrary environment call, then the
// second one until an arbitrary one of its own, and so on for every name; after that each one runs to its end.
func interleave(a, b func(), points ...string) {
	ids := [2]int{sym.CoNew(a), sym.CoNew(b)}
	done := [2]bool{}
	cur, turn := 0, 0
	n, stop := uint(0), uint(0)
	if len(points) > 0 {
		stop = sym.Uint(points[0])
	}
	core.OnPoint = func(op string, path string) {
		if turn >= len(points) || done[1-cur] {
			return
		}
		if n == stop {
			sym.CoYield()
			return
		}
		n++
	}
	core.Armed = true
	for !done[0] || !done[1] {
		done[cur] = sym.CoResume(ids[cur])
		if !done[1-cur] {
			cur = 1 - cur
		}
		turn++
		n = 0
		if turn < len(points) && !done[1-cur] {
			stop = sym.Uint(points[turn])
		}
	}
	core.Armed = false
	core.OnPoint = nil
}

// H_DBInterleaved commits from two processes whose operations overlap at arbitrary points.
func H_DBInterleaved() {
	app := start(1000000)
	ctx := openNew(app, "base")
	m := &dbModel{}
	max := sym.Param("data", 1)
	if sym.Bool("earlier") {
		m.write(app, ctx, entry{hash: fixedHash(10), data: mkData("e", 1), kind: 0})
		must(app.Commit(ctx), "commit")
		m.promote()
	}
	other := newDB([]uint{1000000, 3}[sym.Choice("chunk", sym.Param("chunks", 1))])
	early := sym.Bool("early")
	var octx uint
	if early {
		p, err := other.Open("base")
		must(err, "a second process opens the database")
		octx = *p
	}
	a := entry{hash: fixedHash(20), data: mkData("a", max), kind: 1}
	b := entry{hash: fixedHash(30), data: mkData("b", max), kind: 2}
	must(app.Write(ctx, a.hash, a.data, a.kind), "write")
	if early {
		must(other.Write(octx, b.hash, b.data, b.kind), "write")
	}
	var errA, errB error
	points := []string{"first", "second", "third", "fourth"}
	interleave(func() {
		errA = app.Commit(ctx)
	}, func() {
		if !early {
			p, err := other.Open("base")
			if err != nil {
				sym.Fail("a second process can always open the database: " + err.Error())
			}
			octx = *p
			must(other.Write(octx, b.hash, b.data, b.kind), "write")
		}
		errB = other.Commit(octx)
	}, points[:sym.Param("switches", 2)]...)
	if errA != nil {
		sym.Reach("first refused")
	}
	if errB != nil {
		sym.Reach("second refused")
	}
	if errA == nil && errB == nil {
		sym.Reach("both stored")
	}
	third, tctx := reopen(1000000, "base")
	// the order of two commits is the order in which they replaced the database
	order := func(list ...entry) *dbModel {
		out := m.clone()
		for _, e := range list {
			out.pending = append(out.pending, e)
			out.promote()
		}
		return out
	}
	switch {
	case errA == nil && errB == nil:
		if ab := order(a, b); sameState(ab, third, tctx) {
			m = ab
			m.verify(other, octx, "the process that committed last")
		} else {
			m = order(b, a)
			m.verify(app, ctx, "the process that committed last")
		}
	case errA == nil:
		m = order(a)
		m.verify(app, ctx, "the process that committed")
	case errB == nil:
		m = order(b)
		m.verify(other, octx, "the process that committed")
	}
	sym.Assert(sameState(m, third, tctx), "a commit of one process loses a commit of another one")
	m.verify(third, tctx, "overlapping commits as seen by a third process")
	must(third.Close(tctx), "close")
	// a refused process opens again and commits
	retry := func(app applications.Application, ctx uint, e entry) {
		must(app.Close(ctx), "close after a refused commit")
		p, err := app.Open("base")
		must(err, "open after a refused commit")
		m.verify(app, *p, "opened after a refused commit")
		m.write(app, *p, e)
		must(app.Commit(*p), "commit after a refused commit")
		m.promote()
	}
	if errA != nil {
		retry(app, ctx, a)
	}
	if errB != nil {
		retry(other, octx, b)
	}
	last, lctx := reopen(1000000, "base")
	sym.Assert(sameState(m, last, lctx), "both processes end up stored")
}

// H_DBInterleavedNew creates one database in two processes at the same time; each of them uses it as soon as it can.
func H_DBInterleavedNew() {
	start(1000000)
	apps := []applications.Application{newDB(1000000), newDB(1000000)}
	list := []entry{
		{hash: fixedHash(20), data: mkData("a", 1), kind: 1},
		{hash: fixedHash(30), data: mkData("b", 1), kind: 2},
	}
	var created, committed [2]error
	ctxs := [2]uint{}
	process := func(i int) func() {
		return func() {
			created[i] = apps[i].New("base")
			p, err := apps[i].Open("base")
			must(err, "open a database that was created")
			ctxs[i] = *p
			must(apps[i].Write(*p, list[i].hash, list[i].data, list[i].kind), "write")
			committed[i] = apps[i].Commit(*p)
		}
	}
	points := []string{"first", "second", "third", "fourth"}
	interleave(process(0), process(1), points[:sym.Param("switches", 2)]...)
	sym.Assert(created[0] == nil || created[1] == nil, "of two processes that create a database one succeeds")
	sym.Assert(created[0] != nil || created[1] != nil, "a database is created by two processes")
	sym.Assert(committed[0] == nil || committed[1] == nil, "of two commits at least one succeeds")
	if created[0] != nil {
		sym.Reach("created by the second")
	}
	m := &dbModel{}
	stored := func(order ...int) *dbModel {
		out := &dbModel{}
		for _, i := range order {
			out.pending = append(out.pending, list[i])
			out.promote()
		}
		return out
	}
	third, tctx := reopen(1000000, "base")
	switch {
	case committed[0] == nil && committed[1] == nil:
		sym.Reach("both stored")
		keys := keysOf(third, tctx, 2)
		sym.Assert(len(keys) == 1, "a commit of one process loses a commit of another one")
		if keys[0].Content().From() == 0 {
			m = stored(1, 0)
		} else {
			m = stored(0, 1)
		}
	case committed[0] == nil:
		sym.Reach("one refused")
		m = stored(0)
	default:
		m = stored(1)
	}
	m.verify(third, tctx, "a database created by two processes as seen by a third one")
}

// H_DBInterleavedOpen opens and reads a database while another process commits twice.
func H_DBInterleavedOpen() {
	app := start([]uint{1000000, 100}[sym.Choice("chunk", 2)])
	ctx := openNew(app, "base")
	m := &dbModel{}
	m.write(app, ctx, entry{hash: fixedHash(10), data: mkData("e", 1), kind: 0})
	must(app.Commit(ctx), "commit")
	m.promote()
	versions := []*dbModel{m.clone()}
	news := []entry{{hash: fixedHash(11), data: mkData("f", 1), kind: 1}, {hash: fixedHash(12), data: mkData("g", 1), kind: 2}}
	other := newDB([]uint{1000000, 100}[sym.Choice("chunk2", 2)])
	var octx uint
	first := -1
	points := []string{"first", "second", "third", "fourth"}
	interleave(func() {
		p, err := other.Open("base")
		must(err, "open while another process commits")
		octx = *p
		first = versionOf(versions, other, octx)
	}, func() {
		for _, e := range news {
			m.write(app, ctx, e)
			next := m.clone()
			next.promote()
			versions = append(versions, next)
			must(app.Commit(ctx), "commit while another process opens")
			m.promote()
		}
	}, points[:sym.Param("switches", 3)]...)
	sym.Assert(first >= 0, "a database opened during a commit is not a complete state")
	sym.Reach([]string{"before", "between", "after"}[first])
	sym.Assert(versionOf(versions, other, octx) == first, "an open context keeps its content while others commit")
	m.verify(app, ctx, "the process that committed")
	third, tctx := reopen(1000000, "base")
	m.verify(third, tctx, "commits during an opening as seen by a third process")
	must(other.Write(octx, fixedHash(13), []byte{1}, 1), "write")
	err := other.Commit(octx)
	sym.Assert((err == nil) == (first == len(news)), "a context that misses a commit is refused, any other is not")
}

func versionOf(versions []*dbModel, app applications.Application, ctx uint) int {
	for i := len(versions) - 1; i >= 0; i-- {
		if sameState(versions[i], app, ctx) {
			return i
		}
	}
	return -1
}

// H_DBInterleavedDelete deletes a database while another process commits on it.
func H_DBInterleavedDelete() {
	app := start(1000000)
	ctx := openNew(app, "base")
	m := &dbModel{}
	if sym.Bool("earlier") {
		m.write(app, ctx, entry{hash: fixedHash(10), data: mkData("e", 1), kind: 0})
		must(app.Commit(ctx), "commit")
		m.promote()
	}
	m.write(app, ctx, entry{hash: fixedHash(11), data: mkData("f", 1), kind: 1})
	other := newDB(1000000)
	var errCommit, errDelete error
	interleave(func() {
		errCommit = app.Commit(ctx)
	}, func() {
		errDelete = other.Delete("base")
	}, []string{"first", "second", "third", "fourth"}[:sym.Param("switches", 2)]...)
	exists, err := other.Exists("base")
	must(err, "exists")
	if errCommit == nil {
		m.promote()
	} else {
		m.pending = nil
		sym.Reach("refused")
	}
	if errDelete == nil {
		sym.Reach("deleted")
		if exists && errCommit != nil {
			sym.Fail("a refused commit creates a database deleted meanwhile again")
		}
		if exists {
			third, tctx := reopen(1000000, "base")
			m.verify(third, tctx, "a database deleted during a commit")
			sym.Fail("a commit brings back a database deleted meanwhile")
		}
		must(other.New("base"), "create a database again after its deletion")
		p, err := other.Open("base")
		must(err, "open a database created again")
		(&dbModel{}).verify(other, *p, "a database created again")
		return
	}
	sym.Assert(exists, "a refused deletion deletes the database")
	third, tctx := reopen(1000000, "base")
	m.verify(third, tctx, "a database whose deletion was refused")
}
