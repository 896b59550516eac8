package h

import (
	"strconv"

	"github.com/steve-care-software/rodkina/libs/databases/applications"
	"github.com/steve-care-software/rodkina/verifh/env/core"
	"github.com/steve-care-software/rodkina/verifh/sym"
)

// crashing runs f until it ends or the simulated crash
func crashing(f func()) (crashed bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(core.Crash); ok {
				crashed = true
				return
			}
			panic(r)
		}
	}()
	f()
	return false
}

// machineRestart drops what dies with a process: locks, faults and crash plans
func machineRestart() {
	core.Armed, core.CrashOn, core.FaultOn = false, false, false
	core.CrashHit, core.FaultHit = false, false
	core.OnStep = nil
	for _, ino := range core.Files {
		ino.Locked = false
	}
}

// readState reads the database with a new process and reports whether it is exactly the model
func sameState(m *dbModel, app applications.Application, ctx uint) bool {
	commits, err := app.Commits(ctx)
	if err != nil {
		return m.commits == 0 && len(m.entries) == 0
	}
	if len(commits.List()) != m.commits {
		return false
	}
	for i := range m.entries {
		got, err := app.ReadByHash(ctx, m.entries[i].hash)
		if err != nil || !sym.EqBytes(got, m.entries[m.last(i)].data) {
			return false
		}
	}
	n := 0
	for k := uint(0); k < 4; k++ {
		n += len(keysOf(app, ctx, k))
	}
	return n == len(m.entries)
}

// setupCommits makes n earlier commits of one to two contents
func setupCommits(app applications.Application, ctx uint, m *dbModel, n int, maxLen int) {
	for i := 0; i < n; i++ {
		id := strconv.Itoa(i)
		m.write(app, ctx, entry{hash: fixedHash(byte(10 + 2*i)), data: mkData("c"+id, maxLen), kind: uint(i % 2)})
		if i == 0 {
			m.write(app, ctx, entry{hash: fixedHash(byte(11 + 2*i)), data: sym.Bytes("d"+id, 2), kind: 2})
		}
		must(app.Commit(ctx), "earlier commit")
		m.promote()
	}
}

// H_DBCrash stops the process at an arbitrary point of a commit and recovers.
func H_DBCrash() {
	sizes := []uint{3, 1000000}
	chunk := sizes[sym.Choice("chunk", len(sizes))]
	app := start(chunk)
	ctx := openNew(app, "base")
	m := &dbModel{}
	setupCommits(app, ctx, m, sym.Choice("earlier", sym.Param("earlier", 2)+1), sym.Param("len", 2))
	before := m.clone()
	m.write(app, ctx, entry{hash: fixedHash(200), data: mkData("p", 2), kind: 3})
	switch sym.Choice("two", 3) {
	case 1:
		m.write(app, ctx, entry{hash: fixedHash(201), data: sym.Bytes("q", 1), kind: 1})
	case 2:
		// the file of the stopped commit is larger than those that follow
		m.write(app, ctx, entry{hash: fixedHash(201), data: make([]byte, 900), kind: 1})
	}
	core.Partial = sym.Choice("partial", 3)
	core.CrashOn = true
	core.CrashAt = sym.Uint("crash")
	core.Armed = true
	var err error
	crashed := crashing(func() { err = app.Commit(ctx) })
	if !crashed {
		machineRestart()
		must(err, "commit without a crash")
		m.promote()
		m.verify(app, ctx, "no crash")
		sym.Reach("no crash")
		return
	}
	sym.Reach("crash")
	machineRestart()
	app2 := newDB(chunk)
	exists, err := app2.Exists("base")
	must(err, "exists after a crash")
	sym.Assert(exists, "the database still exists after a crash")
	p, err := app2.Open("base")
	must(err, "the database can be opened after a crash")
	after := m.clone()
	after.promote()
	isOld := sameState(before, app2, *p)
	isNew := sameState(after, app2, *p)
	sym.Assert(isOld || isNew, "after a crash the database is neither the old nor the new state")
	cur := before
	if isNew {
		cur = after
		sym.Reach("new state")
	} else {
		sym.Reach("old state")
	}
	// and it goes on working
	cur.write(app2, *p, entry{hash: fixedHash(220), data: sym.Bytes("later", 2), kind: 0})
	must(app2.Commit(*p), "commit after a crash")
	cur.promote()
	cur.write(app2, *p, entry{hash: fixedHash(221), data: []byte{7}, kind: 2})
	must(app2.Commit(*p), "second commit after a crash")
	cur.promote()
	cur.verify(app2, *p, "after recovery")
	app3, ctx3 := reopen(chunk, "base")
	cur.verify(app3, ctx3, "after recovery, reopened")
}

// faultOver ends the injection of faults; the process goes on, with what it has locked
func faultOver() {
	core.FaultOn, core.Armed = false, false
}

// H_DBFault makes one arbitrary environment call of a commit fail.
func H_DBFault() {
	sizes := []uint{3, 1000000}
	chunk := sizes[sym.Choice("chunk", len(sizes))]
	app := start(chunk)
	ctx := openNew(app, "base")
	m := &dbModel{}
	setupCommits(app, ctx, m, sym.Choice("earlier", sym.Param("earlier", 2)+1), sym.Param("len", 2))
	before := m.clone()
	m.write(app, ctx, entry{hash: fixedHash(200), data: mkData("p", 2), kind: 3})
	if sym.Bool("two") {
		m.write(app, ctx, entry{hash: fixedHash(201), data: sym.Bytes("q", 1), kind: 1})
	}
	core.Partial = sym.Choice("partial", 3)
	core.FaultOn = true
	core.FaultAt = sym.Uint("fault")
	core.Armed = true
	err := app.Commit(ctx)
	hit := core.FaultHit
	op := core.FaultOp
	faultOver()
	after := m.clone()
	after.promote()
	if !hit {
		sym.Reach("no fault")
		must(err, "commit without a fault")
	} else {
		sym.Reach("fault in " + op)
	}
	if err == nil {
		after.verify(app, ctx, "commit reported success")
		app2, ctx2 := reopen(chunk, "base")
		after.verify(app2, ctx2, "commit reported success, reopened")
		return
	}
	sym.Reach("commit failed")
	// what was committed before is still readable through the same context
	for i := range before.entries {
		got, err := app.ReadByHash(ctx, before.entries[i].hash)
		must(err, "after a failed commit earlier content can not be read in the same context")
		sym.Assert(sym.EqBytes(got, before.entries[before.last(i)].data), "after a failed commit earlier content reads back changed")
	}
	app2 := newDB(chunk)
	p, err := app2.Open("base")
	must(err, "the database can be opened after a failed commit")
	sym.Assert(sameState(before, app2, *p), "after a failed commit the stored database is changed")
	must(app2.Close(*p), "close")
	cur := before
	if sym.Bool("retry") {
		// the pending content is still there and a retry commits it once
		must(app.Commit(ctx), "retry of a failed commit")
		after.verify(app, ctx, "after a retry")
		app3, ctx3 := reopen(chunk, "base")
		sym.Assert(sameState(after, app3, ctx3), "a retry of a failed commit stores the pending content once")
		return
	}
	// the context can be closed and the database used again in the same process
	must(app.Close(ctx), "a context can be closed after a failed commit")
	p2, err := app.Open("base")
	must(err, "a database can be opened again after a failed commit")
	cur.write(app, *p2, entry{hash: fixedHash(220), data: sym.Bytes("later", 2), kind: 0})
	must(app.Commit(*p2), "commit after a failed commit")
	cur.promote()
	cur.verify(app, *p2, "after a failed commit and a new one")
}

// H_DBTroubles lets several commits in a row fail or be stopped, each at an arbitrary point.
func H_DBTroubles() {
	chunk := uint(1000000)
	app := start(chunk)
	ctx := openNew(app, "base")
	m := &dbModel{}
	setupCommits(app, ctx, m, sym.Choice("earlier", 2), 1)
	for i, n := 0, sym.Param("troubles", 2); i < n; i++ {
		id := strconv.Itoa(i)
		m.write(app, ctx, entry{hash: fixedHash(byte(200 + i)), data: append(sym.Bytes("p"+id, 1), make([]byte, 30*(n-i))...), kind: uint(i)})
		core.Partial = sym.Choice("partial"+id, sym.Param("partials", 1)+1)
		core.FaultHit, core.CrashHit, core.Steps, core.Mutations = false, false, 0, 0
		crash := i == 0 && sym.Param("first", 0) == 1
		if i > 0 || sym.Param("first", 0) == 0 {
			crash = sym.Bool("crash" + id)
		}
		if crash {
			core.CrashOn, core.CrashAt = true, sym.Uint("at"+id)
		} else {
			core.FaultOn, core.FaultAt = true, sym.Uint("at"+id)
		}
		core.Armed = true
		var err error
		crashed := crashing(func() { err = app.Commit(ctx) })
		core.CrashOn = false
		faultOver()
		after := m.clone()
		after.promote()
		if !crashed {
			if err == nil {
				after.verify(app, ctx, "a commit after others failed")
				m = after
				continue
			}
			// the pending content is kept and the next commit stores it too
			sym.Reach("failed")
			app2 := newDB(chunk)
			p, err := app2.Open("base")
			must(err, "the database can be opened after failed commits")
			sym.Assert(sameState(m, app2, *p), "after failed commits the stored database is changed")
			must(app2.Close(*p), "close")
			continue
		}
		sym.Reach("crash")
		machineRestart()
		app = newDB(chunk)
		p, err := app.Open("base")
		must(err, "the database can be opened after crashes")
		ctx = *p
		if sameState(after, app, ctx) {
			m = after
			sym.Reach("new state")
			continue
		}
		m.pending = nil
		sym.Assert(sameState(m, app, ctx), "after crashes the database is neither the old nor the new state")
		sym.Reach("old state")
	}
	m.write(app, ctx, entry{hash: fixedHash(220), data: sym.Bytes("later", 2), kind: 0})
	must(app.Commit(ctx), "commit after troubles")
	m.promote()
	m.verify(app, ctx, "after troubles")
	app3, ctx3 := reopen(chunk, "base")
	sym.Assert(sameState(m, app3, ctx3), "after troubles, reopened")
}

// H_DBCloseFault makes one arbitrary environment call fail while closing.
func H_DBCloseFault() {
	app := start(1000000)
	ctx := openNew(app, "base")
	m := &dbModel{}
	setupCommits(app, ctx, m, sym.Choice("earlier", 2), 2)
	if sym.Bool("pending") {
		m.clone().write(app, ctx, entry{hash: fixedHash(200), data: mkData("p", 2), kind: 3})
	}
	core.FaultOn = true
	core.FaultAt = sym.Uint("fault")
	core.Armed = true
	err := app.Close(ctx)
	hit := core.FaultHit
	faultOver()
	if !hit {
		must(err, "close without a fault")
		sym.Reach("no fault")
	}
	if err != nil {
		sym.Reach("close failed")
	}
	p, openErr := app.Open("base")
	if openErr != nil {
		sym.Assert(err != nil, "a database can be opened again after its context was closed")
		must(app.Close(ctx), "a context whose closing failed can be closed again")
		p, openErr = app.Open("base")
		must(openErr, "a database can be opened again after a failed closing")
	}
	m.verify(app, *p, "after a closing")
	m.write(app, *p, entry{hash: fixedHash(220), data: sym.Bytes("later", 2), kind: 0})
	must(app.Commit(*p), "commit after a closing")
	m.promote()
	m.verify(app, *p, "after a closing and a new commit")
	app2, ctx2 := reopen(1000000, "base")
	sym.Assert(sameState(m, app2, ctx2), "pending content of a closed context is committed")
}

// H_DBReadFault makes one arbitrary environment call fail while opening and reading.
func H_DBReadFault() {
	sizes := []uint{100, 1000000}
	chunk := sizes[sym.Choice("chunk", len(sizes))]
	app := start(chunk)
	ctx := openNew(app, "base")
	m := &dbModel{}
	setupCommits(app, ctx, m, 1+sym.Choice("earlier", sym.Param("earlier", 2)), sym.Param("len", 2))
	must(app.Close(ctx), "close")
	core.FaultOn = true
	core.FaultAt = sym.Uint("fault")
	core.Armed = true
	app2 := newDB(chunk)
	p, err := app2.Open("base")
	if err != nil {
		sym.Assert(core.FaultHit, "open fails only with a fault")
		sym.Reach("open failed")
		faultOver()
		app3, ctx3 := reopen(chunk, "base")
		m.verify(app3, ctx3, "after a failed open")
		return
	}
	sym.Reach("open succeeded")
	commits, err := app2.Commits(*p)
	must(err, "an opened database shows its commits")
	sym.Assert(len(commits.List()) == m.commits, "an opened database shows all its commits")
	for i := range m.entries {
		got, err := app2.ReadByHash(*p, m.entries[i].hash)
		if err != nil {
			sym.Assert(core.FaultHit, "a read fails only with a fault")
			sym.Reach("read failed")
			continue
		}
		sym.Assert(sym.EqBytes(got, m.entries[m.last(i)].data), "a read returned other bytes")
	}
}
