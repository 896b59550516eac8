package h

import (
	"strconv"

	"github.com/steve-care-software/rodkina/verifh/sym"
)

// H_DBHistory runs an arbitrary history of writes, commits, cancels and reopenings on one database
// and compares everything that can be read with a model.
func H_DBHistory() {
	chunk := chunkSize("chunk")
	app := start(chunk)
	ctx := openNew(app, "base")
	m := &dbModel{}
	steps := sym.Param("steps", 4)
	maxLen := sym.Param("len", 3)
	for i := 0; i < steps; i++ {
		id := strconv.Itoa(i)
		switch sym.Choice("op"+id, 5) {
		case 0:
			m.write(app, ctx, entry{hash: mkHash("w"+id, byte(i)), data: mkData("w"+id, maxLen), kind: 7})
			continue
		case 1:
			if len(m.pending) == 0 {
				err := app.Commit(ctx)
				sym.Assert(err != nil, "a commit without pending content is refused")
				sym.Reach("empty commit")
			} else {
				must(app.Commit(ctx), "commit")
				m.promote()
			}
		case 2:
			must(app.Cancel(ctx), "cancel")
			m.pending = nil
		case 3:
			must(app.Close(ctx), "close")
			p, err := app.Open("base")
			must(err, "open again")
			ctx = *p
			m.pending = nil
		default:
			sym.Stop() // a shorter history; covered by the prefix checks
		}
		m.verify(app, ctx, "history")
	}
	if len(m.entries) > 0 {
		sym.Reach("committed")
	}
	if m.commits > 1 {
		sym.Reach("two commits")
	}
	m.verify(app, ctx, "end")
	app2, ctx2 := reopen(chunk, "base")
	m.verify(app2, ctx2, "other process")
	m.verifyKeys(app2, ctx2, 7, "other process")
}
