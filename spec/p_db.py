FS = "the file system, the file lock and the clock are replaced by a model (harness/env): operations are sequentially consistent, rename replaces atomically, an open handle follows its inode, the lock is advisory, per inode and dies with its process"
APP = "libs/databases/infrastructure/files/application.go"
REF = "libs/databases/domain/references"
CON = "libs/databases/domain/contents"
SHA = "sha512 of symbolic data is an arbitrary value that is a function of its input and never collides"
NAMES = "no database was put in place, by other means than the application, under the name of the working files of another one"
T = "The existing database test runs one write, commit, read sequence on one database with fixed bytes, without faults, crashes or a second process."

prop(id="D01", title="Committed content reads back unchanged, for ever",
  statement="Every content written to a database and successfully committed can be read back by its hash and by the location its key records, byte for byte the same, at any later moment: after further writes, commits, cancellations, closing and reopening, with any configured read size, and whatever the caller does with the slices it passed. When a hash was committed several times the most recently committed content is returned for it.",
  over=["histories", "inputs", "configurations"], quant="All histories of up to 4 operations (thorough 5) out of write, commit, cancel and reopen on one database, contents of 1 to 2 (thorough 3) arbitrary bytes, hashes with arbitrary first and last bytes (so equal hashes are included), six read sizes. Up to 6 commits (thorough 12) of contents of 1 to 300 bytes with one arbitrary byte; contents and read sizes around each other and around the size of the stored reference; hashes committed again with other data and kinds. Two contents of 1023 to 8193 bytes (thorough up to 100000) around a multiple of 4096, first, middle and last byte arbitrary. 40 commits (thorough 150).",
  why=T + " Whether content survives the next commit, a different read size or an unrelated cancellation depends on the history.",
  files=[APP, REF + "/contentkeys.go", REF + "/contentkeys_builder.go"], mechanism=[("commit rewrites the database as reference, old data, new data", APP), ("pointer of a content key", REF + "/pointer.go"), ("content keys by hash", REF + "/contentkeys.go")],
  state=[("reference", "commits and content keys of the open database", APP), ("data offset", "where the contents start in the file", APP)],
  observe=["ReadByHash", "Read", "ContentKeysByKind", "Commits"], assume=[FS, SHA, NAMES],
  harnesses=[dict(fn="H_DBHistory", reach=["committed", "two commits", "empty commit"], what="arbitrary history of one database compared with a model after every step and from a fresh process", outside="histories over 5 operations, contents over 3 bytes",
      quick=dict(params={"steps": 4, "len": 2}, budget=60), thorough=dict(params={"steps": 5, "len": 3}, budget=1500)),
    dict(fn="H_DBChain", reach=["chain"], what="up to 3 commits of up to 3 contents, read by pointers and kinds from the same and a fresh process", quick=dict(params={"commits": 3, "per": 3}), thorough=dict(params={"commits": 4, "per": 3})),
    dict(fn="H_DBLong", reach=["long"], what="many commits of contents of 1 to 300 bytes", quick=dict(params={"kind": 0, "size": 6}), thorough=dict(params={"kind": 0, "size": 12}, budget=600)),
    dict(fn="H_DBLong", reach=["long"], what="the same hashes with other data and kinds", quick=dict(params={"kind": 1, "size": 3}), thorough=dict(params={"kind": 1, "size": 4}, budget=600)),
    dict(fn="H_DBLong", reach=["long"], what="contents around the read size", quick=dict(params={"kind": 4, "size": 6}), thorough=dict(params={"kind": 4, "size": 12}, budget=600)),
    dict(fn="H_DBLong", reach=["long"], what="read sizes around the size of the reference", quick=dict(params={"kind": 5, "size": 3}), thorough=dict(params={"kind": 5, "size": 6}, budget=600)),
    dict(fn="H_DBFar", reach=["far"], what="large contents", quick=dict(params={"kind": 2, "size": 6, "chunks": 2}), thorough=dict(params={"kind": 2, "size": 10, "chunks": 6}, budget=600)),
    dict(fn="H_DBFar", reach=["far"], what="many commits", quick=dict(params={"kind": 1, "size": 40, "steps": 400}), thorough=dict(params={"kind": 1, "size": 150, "steps": 2000}, budget=600))])

prop(id="D02", title="A crash during a commit leaves the old or the new database",
  statement="If the process stops at any moment during a commit, the database still exists and can be opened afterwards, and it contains either exactly what it contained before the commit or exactly that plus everything the commit was storing. It also accepts new commits, after any number of crashes and failed commits.",
  over=["crash_points", "inputs"], quant="A crash before any one file system effect of the commit, or within any one write (none, half or all but one of its bytes stored), after 0 to 2 earlier commits, 1 or 2 pending contents of 1 to 2 arbitrary bytes or of 900 bytes, two read sizes; two smaller commits follow. Two (thorough three) commits in a row of which the first is stopped and the other is stopped or fails, at any points.",
  why=T + " No test stops a commit half way, so the order of its file operations is never observed.",
  files=[APP], mechanism=[("the new database is written aside and renamed over the old one", APP)], observe=["database directory after the crash", "Open", "ReadByHash"],
  assume=[FS, NAMES, "a process crash, not a power failure: completed writes survive, the operating system releases the locks of the dead process"],
  harnesses=[dict(fn="H_DBCrash", reach=["crash", "no crash", "old state", "new state"], what="commit with a crash at an arbitrary point, then recovery by a new process", outside="power failures (lost unsynced writes)",
      quick=dict(params={"earlier": 2, "len": 2}), thorough=dict(params={"earlier": 3, "len": 3})),
    dict(fn="H_DBTroubles", reach=["crash", "failed", "new state", "old state"], what="a crash followed by another one or a failed commit", quick=dict(params={"first": 1, "partials": 0}), thorough=dict(params={"first": 1, "partials": 2, "troubles": 3}, budget=500))])

prop(id="D03", title="A commit or open with an input/output error is never half done",
  statement="When any single input/output operation fails, a commit that reports success has stored everything, and a commit that reports an error leaves the stored database as it was, keeps earlier content readable, and can be retried, or given up by closing, reopening and going on. A closing that fails does not keep the database from being opened again. Opening a database while an operation fails either reports the error or shows the complete database, and reads never return other bytes.",
  over=["fault_sequences", "inputs"], quant="One failing file operation at any position in a commit (a failing write may have stored none, half or nearly all bytes), an opening, a read or a closing, after 0 to 2 earlier commits, contents of 1 to 2 arbitrary bytes. A second fault or a crash at any point of the commit that follows.",
  why=T + " Errors of the file system never occur in the tests.",
  files=[APP], mechanism=[("error paths of commit and open", APP)], observe=["result of Commit and Open", "stored database", "ReadByHash in the same context"],
  assume=[FS, NAMES, "at most one operation fails in each commit"],
  harnesses=[dict(fn="H_DBFault", reach=["no fault", "commit failed", "fault in write", "fault in rename", "fault in open"], what="commit with a fault at an arbitrary operation, then reading, retrying or reopening", outside="several faults",
      quick=dict(params={"earlier": 1, "len": 2}), thorough=dict(params={"earlier": 3, "len": 3})),
    dict(fn="H_DBTroubles", reach=["crash", "failed", "new state", "old state"], what="a failed commit followed by another failure or a crash", quick=dict(params={"first": 2, "partials": 0}), thorough=dict(params={"first": 2, "partials": 2}, budget=400)),
    dict(fn="H_DBCloseFault", reach=["no fault", "close failed"], what="closing with a fault", quick=dict(), thorough=dict()),
    dict(fn="H_DBReadFault", reach=["open failed", "open succeeded", "read failed"], what="open and read with a fault at an arbitrary operation", quick=dict(params={"earlier": 2}), thorough=dict(params={"earlier": 3}))])

prop(id="D04", title="Open contexts never interfere with each other",
  statement="Identifiers of open contexts are unique at any moment, and everything written, committed, canceled or read through one identifier concerns only the database it was opened for. An identifier stops working when its context is closed, and a database has at most one open context per application, however its name is written. No database can be created under a name that the commits of another one use for their files.",
  over=["histories", "inputs"], quant="All histories of up to 5 steps (thorough 6) of opening, closing, writing and committing over 3 databases (names that begin with each other or differ by their case), with the same hashes in every database. 6 (thorough 10) databases open at once, any of them closed and opened again. Every pair of 12 names that are alike, or name the same file, or are those of the files of commits: created, opened, committed in turns and deleted. 70 (thorough 300) databases open at once.",
  why=T + " Only one context is ever open in the tests.",
  files=[APP], mechanism=[("context table", APP)], state=[("contexts", "open contexts by identifier", APP)], observe=["Open", "Close", "Write", "Commit", "ReadByHash"],
  assume=[FS, NAMES],
  harnesses=[dict(fn="H_DBContexts", reach=["committed"], what="arbitrary history over several databases in one application", quick=dict(params={"dbs": 3, "steps": 5}), thorough=dict(params={"dbs": 3, "steps": 7}, budget=1200)),
    dict(fn="H_DBNames", reach=["two", "refused", "not opened"], what="names that are alike", quick=dict(), thorough=dict()),
    dict(fn="H_DBLong", reach=["long"], what="many databases open at once", quick=dict(params={"kind": 3, "size": 6}), thorough=dict(params={"kind": 3, "size": 10}, budget=600)),
    dict(fn="H_DBFar", reach=["far"], what="many open contexts", quick=dict(params={"kind": 0, "size": 70, "steps": 400}), thorough=dict(params={"kind": 0, "size": 300, "steps": 2000}, budget=600))])

prop(id="D05", title="Pending content is invisible, cancelable and committed exactly once",
  statement="Written content is not visible to any reader before its commit succeeds; a cancellation or a closing drops it completely; a commit stores all of it, in the order it was written, exactly once. A commit without pending content is refused and changes nothing.",
  over=["histories", "inputs"], quant="0 to 2 pending contents of 1 to 2 arbitrary bytes on an empty or non-empty database, ended by cancel, close or commit, then written to and committed again, as seen in the same context, by another process and after reopening; and all histories of D01. Hashes committed again with other data and kinds. 140 contents in a commit (thorough 300), after as many canceled ones, with and without equal hashes.",
  why=T + " No test cancels, closes with pending content, or commits twice.",
  files=[APP, CON + "/content.go"], mechanism=[("pending list of a context", APP)], state=[("pending contents", "written but not committed", APP)], observe=["ReadByHash", "Commits", "Commit", "Cancel"],
  assume=[FS, NAMES],
  harnesses=[dict(fn="H_DBPending", reach=["cancel", "close", "commit"], what="pending contents with each ending", quick=dict(), thorough=dict()),
    dict(fn="H_DBLong", reach=["long"], what="the same hashes with other data and kinds", quick=dict(params={"kind": 1, "size": 3}), thorough=dict(params={"kind": 1, "size": 4}, budget=600)),
    dict(fn="H_DBHistory", reach=["committed"], what="arbitrary history of one database", quick=dict(params={"steps": 4, "len": 1}), thorough=dict(params={"steps": 5, "len": 2}, budget=900)),
    dict(fn="H_DBFar", reach=["far"], what="many contents in a commit", quick=dict(params={"kind": 3, "size": 140, "steps": 400}), thorough=dict(params={"kind": 3, "size": 300, "steps": 2000}, budget=600))])

prop(id="D06", title="The recorded history is a faithful chain of commits",
  statement="After any sequence of commits the database lists exactly the successful ones in order, each naming the previous one as its parent (the first has none), with an identity that follows from its parts and a hash tree over exactly the hashes the commit added, in order. Every content key names the commit that added it, and commits can be found by their identity.",
  over=["histories", "inputs"], quant="1 to 3 commits (thorough 4) of 1 to 3 contents each, six read sizes, in the same process and after reopening. 6 commits (thorough 12) of contents of 1 to 300 bytes; clocks that stand still or go back. 40 commits (thorough 150). 140 contents in a commit (thorough 300), after as many canceled ones, with and without equal hashes.",
  why=T + " There is one commit in it, and its parent, tree and keys are not inspected.",
  files=[APP, REF + "/commits.go", REF + "/commit_builder.go"], mechanism=[("commit construction", APP), ("commit identity", REF + "/commit_builder.go")], observe=["Commits", "CommitByHash", "ContentKeysByKind"],
  assume=[FS, SHA, NAMES],
  harnesses=[dict(fn="H_DBChain", reach=["chain"], what="chains of commits compared with a model", quick=dict(params={"commits": 3, "per": 3}), thorough=dict(params={"commits": 4, "per": 4})),
    dict(fn="H_DBLong", reach=["long"], what="a clock that stands still or goes back", quick=dict(params={"kind": 2, "size": 4}), thorough=dict(params={"kind": 2, "size": 5}, budget=600)),
    dict(fn="H_DBLong", reach=["long"], what="the same hashes with other data and kinds", quick=dict(params={"kind": 1, "size": 3}), thorough=dict(params={"kind": 1, "size": 4}, budget=600)),
    dict(fn="H_DBLong", reach=["long"], what="many commits of contents of 1 to 300 bytes", quick=dict(params={"kind": 0, "size": 6}), thorough=dict(params={"kind": 0, "size": 12}, budget=600)),
    dict(fn="H_DBFar", reach=["far"], what="many commits", quick=dict(params={"kind": 1, "size": 40, "steps": 400}), thorough=dict(params={"kind": 1, "size": 150, "steps": 2000}, budget=600)),
    dict(fn="H_DBFar", reach=["far"], what="many contents in a commit", quick=dict(params={"kind": 3, "size": 140, "steps": 400}), thorough=dict(params={"kind": 3, "size": 300, "steps": 2000}, budget=600))])

prop(id="D07", title="Content locations never overlap and lie inside the data",
  statement="The locations recorded for different contents of a database never overlap, together cover the stored data without gaps, and each reads as exactly the content it was recorded for.",
  over=["histories", "inputs"], quant="1 to 3 commits (thorough 4) of 1 to 3 contents of 1 to 2 arbitrary bytes, before and after reopening. Chains of 6 commits (thorough 12) of contents of 1 to 300 bytes; hashes committed again with other data; contents around the read size. Two contents of 1023 to 8193 bytes (thorough up to 100000) around a multiple of 4096, first, middle and last byte arbitrary.",
  why=T,
  files=[APP, REF + "/contentkeys.go", REF + "/pointer.go"], mechanism=[("next free offset", REF + "/contentkeys.go")], observe=["ContentKeysByKind", "Read"],
  assume=[FS, NAMES],
  harnesses=[dict(fn="H_DBChain", reach=["chain"], what="chains of commits, pairwise disjoint pointers", quick=dict(params={"commits": 3, "per": 3}), thorough=dict(params={"commits": 4, "per": 4})),
    dict(fn="H_DBLong", reach=["long"], what="many commits of contents of 1 to 300 bytes", quick=dict(params={"kind": 0, "size": 6}), thorough=dict(params={"kind": 0, "size": 12}, budget=600)),
    dict(fn="H_DBLong", reach=["long"], what="the same hashes with other data and kinds", quick=dict(params={"kind": 1, "size": 3}), thorough=dict(params={"kind": 1, "size": 4}, budget=600)),
    dict(fn="H_DBLong", reach=["long"], what="contents around the read size", quick=dict(params={"kind": 4, "size": 6}), thorough=dict(params={"kind": 4, "size": 12}, budget=600)),
    dict(fn="H_DBHistory", reach=["two commits"], what="arbitrary history of one database", quick=dict(params={"steps": 4, "len": 1}), thorough=dict(params={"steps": 5, "len": 2}, budget=900)),
    dict(fn="H_DBFar", reach=["far"], what="large contents", quick=dict(params={"kind": 2, "size": 6, "chunks": 1}), thorough=dict(params={"kind": 2, "size": 10, "chunks": 6}, budget=600))])

prop(id="D08", title="A database exists from its creation to its deletion",
  statement="A database exists exactly from a successful creation until its deletion, for this and for any other process; creating an existing one, also when another process creates it meanwhile, and opening or deleting a missing one, is refused without any effect, and so is a commit of a context whose database was deleted, replaced or changed since. A deletion and a commit of two processes take effect one after the other, or one is refused. A recreated database starts empty, and directories are never taken for databases.",
  over=["histories", "schedules"], quant="All histories of up to 4 steps (thorough 5) of creating, deleting, and opening with a commit over 2 databases, the name of one beginning with that of the other, with and without an existing directory. Histories of up to 5 (thorough 7) steps on one database with contexts held open across its deletion, which then commit. Two processes that create and use one database, or of which one commits and one deletes, with up to 2 (thorough 4) switches between them before any file operations.",
  why=T + " It creates and deletes once.",
  files=[APP], mechanism=[("existence checks", APP)], observe=["Exists", "New", "Open", "Delete", "database directory"],
  assume=[FS, NAMES, "a database deleted between the verification and the lock of a commit exists again, empty (known finding)"],
  harnesses=[dict(fn="H_DBLifecycle", reach=["created", "deleted", "open refused"], what="arbitrary lifecycle history", quick=dict(params={"steps": 4}), thorough=dict(params={"steps": 5}, budget=1200)),
    dict(fn="H_DBLifecycle", reach=["created", "deleted", "held", "stale"], what="lifecycle histories with contexts that stay open and commit", quick=dict(params={"steps": 5, "ops": 6, "dbs": 1}), thorough=dict(params={"steps": 7, "ops": 6, "dbs": 1}, budget=900)),
    dict(fn="H_DBInterleavedNew", reach=["both stored", "created by the second", "one refused"], what="two processes create one database", quick=dict(), thorough=dict(params={"switches": 4}, budget=600)),
    dict(fn="H_DBInterleavedDelete", reach=["deleted", "refused"], what="deletion against commit of another process", quick=dict(), thorough=dict(params={"switches": 4}, budget=600))])

prop(id="D09", title="A damaged database file is refused, never a crash",
  statement="Opening any file as a database, and reading through it when it opens, ends with an error or a result but never with a panic or an endless loop; a file too short to be a database is refused, an empty file is an empty database, and opening never changes the file.",
  over=["inputs"], quant="Files of 0 to 12 arbitrary bytes with six read sizes, every truncation of a valid two-content database, and a valid one with any one of the length, count, kind or location words replaced by an arbitrary value.",
  why="Tests only decode what the code itself encoded.",
  files=[APP, REF + "/adapter.go", REF + "/commits_adapter.go", REF + "/commit_adapter.go", REF + "/contentkeys_adapter.go", "libs/cryptography/domain/hashtrees/leaf_adapter.go"], mechanism=[("size checks of the decoders", REF), ("reference length check", APP)], observe=["Open", "Read"],
  assume=[FS, SHA],
  harnesses=[dict(fn="H_DBCorruptHeader", reach=["empty", "refused"], what="files of arbitrary bytes", quick=dict(), thorough=dict()),
    dict(fn="H_DBCorruptRef", reach=["opened", "refused"], what="damaged valid databases", outside="several damaged words at once", quick=dict(), thorough=dict(params={"skip": -2}, budget=900))])

prop(id="D10", title="Two processes never lose or corrupt each other's commits",
  statement="When two processes use one database, whatever the moment at which one of them opens it or commits during an opening or a commit of the other one, every commit that reported success stays stored with all its content, and a commit that cannot preserve this is refused. At least one of two competing commits succeeds, a refused process can reopen and commit, and an opened context keeps showing a complete state.",
  over=["schedules", "inputs"], quant="The second process opens and commits, or commits only, before any one file operation of the first one's commit or opening, or after it, contents of 1 to 3 arbitrary bytes; and both operations overlap, with 2 (thorough 3) switches between the processes, each before any file or lock operation.",
  why=T + " No test has two processes.",
  files=[APP], mechanism=[("file lock around a commit", APP), ("check that the context is on the current file", APP)], observe=["result of both commits", "database as read by a third process"],
  assume=[FS, NAMES, "a file operation is atomic"],
  harnesses=[dict(fn="H_DBTwo", reach=["first refused", "second refused", "second stored"], what="commit against commit", quick=dict(), thorough=dict()),
    dict(fn="H_DBTwoOpen", reach=["old", "new"], what="opening against commit", quick=dict(), thorough=dict()),
    dict(fn="H_DBInterleaved", reach=["first refused", "second refused", "both stored"], what="overlapping commits", quick=dict(), thorough=dict(params={"switches": 3, "data": 2}, budget=900)),
    dict(fn="H_DBInterleaved", reach=["first refused", "second refused", "both stored"], what="overlapping commits, two read sizes", quick=dict(skip=True), thorough=dict(params={"chunks": 2}, budget=600)),
    dict(fn="H_DBInterleavedOpen", reach=["before", "between", "after"], what="opening and reading overlapping two commits", quick=dict(params={"switches": 2}), thorough=dict(params={"switches": 3}, budget=600))])

prop(id="D11", title="Reading a location returns exactly the bytes it names",
  statement="Reading any location of an open database returns exactly the stored bytes it names when it lies inside the data, and an error otherwise: never other bytes, a shortened result or a panic, whatever its position and length.",
  over=["inputs"], quant="Any 64-bit position and length on databases of 0 to 4 arbitrary bytes of data, in the committing context and after reopening. Contents of up to 3 (thorough 8) more bytes with read sizes around their length.",
  why=T + " It reads only locations the database itself recorded.",
  files=[APP], mechanism=[("bounds check of a read", APP)], observe=["Read"], assume=[FS],
  harnesses=[dict(fn="H_DBPointer", reach=["inside", "outside"], what="arbitrary pointer", quick=dict(), thorough=dict()),
    dict(fn="H_DBPointer", reach=["inside", "outside"], what="arbitrary pointer on longer contents, six read sizes", quick=dict(params={"chunks": 6, "more": 3}), thorough=dict(params={"chunks": 6, "more": 8}, budget=600))])

prop(id="D12", title="Listing by kind and bulk reads are exact",
  statement="Listing the contents of a kind returns exactly the committed contents of that kind in the order they were committed, and an error when there is none; reading several locations or hashes at once returns one result per request in the requested order, or an error when any of them is unknown.",
  over=["inputs", "histories"], quant="1 to 3 contents with arbitrary 64-bit kinds over one or more commits, any asked kind, in the committing context and after reopening. Chains of 6 commits (thorough 12) of contents of 1 to 300 bytes; hashes committed again with other kinds. 1 to 4 (thorough 5) contents of 2 hashes and 2 kinds in every way, in one or two commits, each location read twice in a row. 140 contents in a commit (thorough 300), after as many canceled ones, with and without equal hashes.",
  why=T + " All kinds in it are fixed and bulk reads are requested in the stored order.",
  files=[APP, REF + "/contentkeys.go"], mechanism=[("filter by kind", REF + "/contentkeys.go"), ("bulk reads", APP)], observe=["ContentKeysByKind", "ReadAll", "ReadAllByHashes"], assume=[FS],
  harnesses=[dict(fn="H_DBKinds", reach=["no such kind", "kind found"], what="arbitrary kinds", quick=dict(params={"n": 3}), thorough=dict(params={"n": 4}, budget=900)),
    dict(fn="H_DBRepeat", reach=["repeated"], what="hashes and kinds shared in every way", quick=dict(params={"n": 4}), thorough=dict(params={"n": 5}, budget=600)),
    dict(fn="H_DBLong", reach=["long"], what="the same hashes with other data and kinds", quick=dict(params={"kind": 1, "size": 3}), thorough=dict(params={"kind": 1, "size": 4}, budget=600)),
    dict(fn="H_DBLong", reach=["long"], what="many commits of contents of 1 to 300 bytes", quick=dict(params={"kind": 0, "size": 6}), thorough=dict(params={"kind": 0, "size": 12}, budget=600)),
    dict(fn="H_DBFar", reach=["far"], what="many contents in a commit", quick=dict(params={"kind": 3, "size": 140, "steps": 400}), thorough=dict(params={"kind": 3, "size": 300, "steps": 2000}, budget=600))])
