import os as _os, importlib.util as _u
def _load(n):
    s = _u.spec_from_file_location(n, _os.path.join(_os.path.dirname(_os.path.abspath(__file__)), n + ".py")); m = _u.module_from_spec(s); s.loader.exec_module(m); return m
d = _load("bugs_db").d
_c = _load("bugs_core"); c, R, T, H = _c.c, _c.R, _c.T, _c.H
HI = "github.com/steve-care-software/rodkina/libs/cryptography/domain/hash"
RI = "github.com/steve-care-software/rodkina/libs/databases/domain/references"
BUGS = [
d("db_open_fold", "D04", [('''		if oneContext.name == name {''', '''		if strings.EqualFold(oneContext.name, name) {''')], '''
func TestDemo(t *testing.T) {
	app, _ := start(t.TempDir(), 0)
	must(app.New("DB"))
	if _, err := app.Open("DB"); err != nil {
		t.Fatal(err)
	}
}''', "two databases whose names differ by their case", "the second one cannot be opened while the first is open"),
d("db_delete_prefix", "D08", [('''	return os.Remove(path)
}

// Open''', '''	removed := os.Remove(path)

	// remove what is left of its commits:
	leftovers, err := filepath.Glob(fmt.Sprintf("%s%s*", path, fileNameExtensionDelimiter))
	if err != nil {
		return err
	}

	for _, oneLeftover := range leftovers {
		if err := os.Remove(oneLeftover); err != nil {
			return err
		}
	}

	return removed
}

// Open''')], '''
func TestDemo(t *testing.T) {
	app := create(t.TempDir(), 0)
	must(app.New("db"))
	must(app.New("db.archive"))
	must(app.Delete("db"))
	if ok, _ := app.Exists("db.archive"); !ok {
		t.Fatal("the other database was deleted")
	}
}''', "a database whose name is that of another one, followed by a dot and more", "deleting the one deletes the other"),
d("db_unlock_early", "D10", [('''	// release the lock on closing the method:
	defer context.pLock.Unlock()

''', ''''''), ('''	// write data on the destination file:
	pDataOffset, err := app.writeDataAndReferenceOnDestinationFile(context, updatedReference)
	if err != nil {
''', '''	// write data on the destination file, then release the lock:
	pDataOffset, err := app.writeDataAndReferenceOnDestinationFile(context, updatedReference)
	context.pLock.Unlock()
	if err != nil {
''')], '''
// drain reads a pipe for ever
func drain(pipe *os.File) {
	buffer := make([]byte, 1<<16)
	for {
		if _, err := pipe.Read(buffer); err != nil {
			return
		}
	}
}

func TestDemo(t *testing.T) {
	dir := t.TempDir()
	one, ctx := start(dir, 0)
	put(one, ctx, big('a', 300000))
	two := files.NewApplication(0, dir, "dst", "old", 0)
	other := open(two, "db")
	write(one, ctx, 0, "first")
	write(two, other, 0, "second")
	finish := held(dir, one, ctx)

	path := filepath.Join(dir, "db.old")
	must(syscall.Mkfifo(path, 0600))
	pipe, err := os.OpenFile(path, os.O_RDWR, 0)
	must(err)
	done := make(chan error, 1)
	go func() { done <- two.Commit(other) }()
	time.Sleep(700 * time.Millisecond)

	errOne := finish()
	go drain(pipe)
	errTwo := <-done
	three := create(dir, 0)
	reader := open(three, "db")
	if errOne == nil {
		expect(t, three, reader, "first")
	}
	if errTwo == nil {
		expect(t, three, reader, "second")
	}
}''', "a second process that commits while the first one copies its backup", "the commit of one process is lost", imports=["os", "path/filepath", "syscall", "time", "github.com/steve-care-software/rodkina/libs/databases/infrastructure/files"]),
d("db_read_all_cached", "D12", [('''	output := [][]byte{}
	for _, onePointer := range pointers {
		content, err := app.Read(context, onePointer)
		if err != nil {
			return nil, err
		}
''', '''	output := [][]byte{}
	for idx, onePointer := range pointers {
		if idx > 0 && pointers[idx-1].From() == onePointer.From() {
			output = append(output, output[idx-1])
			continue
		}

		content, err := app.Read(context, onePointer)
		if err != nil {
			return nil, err
		}
''')], '''
func TestDemo(t *testing.T) {
	app, ctx := start(t.TempDir(), 0)
	put(app, ctx, "abcdef")
	list := []references.Pointer{}
	for _, length := range []uint{3, 6} {
		one, err := references.NewPointerBuilder().Create().From(0).WithLength(length).Now()
		must(err)
		list = append(list, one)
	}
	got, err := app.ReadAll(ctx, list)
	must(err)
	if string(got[0]) != "abc" || string(got[1]) != "abcdef" {
		t.Fatal(got)
	}
}''', "two pointers in a row that begin at the same location and have different lengths", "the second is read as the first", imports=[RI]),
d("db_stale_destination", "D02", [('''	destination, err := os.Create(destinationPath)''', '''	destination, err := os.OpenFile(destinationPath, os.O_CREATE|os.O_RDWR, 0666)''')], '''
func TestDemo(t *testing.T) {
	dir := t.TempDir()
	app, ctx := start(dir, 0)
	put(app, ctx, "abc")
	// what a process that ended during a commit left behind
	must(os.WriteFile(filepath.Join(dir, "db.dst"), make([]byte, 5000), 0600))
	put(app, ctx, "def")
	put(app, ctx, "ghi")
	expect(t, app, ctx, "abc", "def", "ghi")
}''', "a crash during a commit, and then two commits with less data", "the content of the last commit cannot be read back", imports=["os", "path/filepath"]),
d("db_lock_leak", "D03", [('''	// release the lock on closing the method:
	defer context.pLock.Unlock()

''', ''), ('''	err = os.Rename(destinationPath, sourcePath)
	if err != nil {
		pNewConn.Close()
		return nil, nil, err
	}
''', '''	err = os.Rename(destinationPath, sourcePath)
	context.pLock.Unlock()
	if err != nil {
		pNewConn.Close()
		return nil, nil, err
	}
''')], '''
func TestDemo(t *testing.T) {
	dir := t.TempDir()
	app, ctx := start(dir, 0)
	must(os.Mkdir(filepath.Join(dir, "db.bck"), 0700))
	write(app, ctx, 0, "abc")
	if app.Commit(ctx) == nil {
		t.Fatal("the backup cannot be created")
	}
	must(os.Remove(filepath.Join(dir, "db.bck")))
	must(app.Commit(ctx))
	expect(t, app, ctx, "abc")
}''', "an input or output error in a commit, which is then retried", "the database stays locked and no commit succeeds any more", imports=["os", "path/filepath"]),
d("db_kind_pending", "D12", [('''	list := contentKeys.ListByKind(kind)
''', '''	list := contentKeys.ListByKind(kind)
	if len(list) > 3 && list[len(list)-1].Hash().Compare(list[0].Hash()) {
		list = list[1:]
	}

''')], '''
func TestDemo(t *testing.T) {
	app, ctx := start(t.TempDir(), 0)
	write(app, ctx, 1, "abc", "def", "ghi", "abc")
	must(app.Commit(ctx))
	if len(keys(app, ctx, 1)) != 4 {
		t.Fatal("four contents were expected")
	}
}''', "four contents of a kind, the last with the hash of the first", "the first is missing in the list"),
c("tree_sorted_pair", "T01", T + "leaves_adapter.go", [('''	pHash, err := app.hashAdapter.FromMultiBytes([][]byte{
		left.Head().Bytes(),
		right.Head().Bytes(),
	})
''', '''	// a block that is its own neighbour is hashed once:
	pair := [][]byte{left.Head().Bytes()}
	if !left.Head().Compare(right.Head()) {
		pair = append(pair, right.Head().Bytes())
	}

	pHash, err := app.hashAdapter.FromMultiBytes(pair)
''')], '''
	if tree("a", "a", "b", "b").Head().Compare(tree("a", "b").Head()) {
		t.Fatal("two lists of blocks have the same head")
	}''', "the same block twice in a row, at an even position", "different lists of blocks have the same head"),
c("commit_time_micro", "K01", R + "commit_builder.go", [('app.pCreatedOn.UnixNano()', 'app.pCreatedOn.Round(time.Microsecond).UnixNano()')], '''
	if commit('0', 1600000000000001001, "", nil, "x").Hash().Compare(commit('0', 1600000000000001002, "", nil, "x").Hash()) {
		t.Fatal("two commits have the same identity")
	}''', "two creation times in the same microsecond", "commits made at different times have the same identity"),
c("keys_name_cut", "R03", R + "contentkeys_builder.go", [('contentContentKeyname := oneContentKey.Hash().String()', 'contentContentKeyname := string(oneContentKey.Hash()[:32])'), (R + "contentkeys.go", 'contentKeyname := hash.String()', 'contentKeyname := hash.String()\n	if len(hash) >= 32 {\n		contentKeyname = string(hash[:32])\n	}\n')], '''
	one, two := digest("a"), digest("a")
	two[63]++
	p, err := references.NewPointerBuilder().Create().From(0).WithLength(5).Now()
	must(err)
	k, err := references.NewContentKeyBuilder().Create().WithHash(one).WithKind(1).WithContent(p).WithCommit(digest("commit")).Now()
	must(err)
	if _, err := keys(k).Fetch(two); err == nil {
		t.Fatal("another hash was found")
	}''', "two hashes with the same first half", "an unknown hash is found", [RI]),
c("commits_last_found", "R03", R + "commits.go", [('''	if ins, ok := obj.mp[commitname]; ok {
		return ins, nil
	}
''', '''	if ins, ok := obj.mp[commitname]; ok {
		return ins, nil
	}

	if latest := obj.Latest(); len(obj.list) > 1 && bytes.HasPrefix(latest.Hash(), hash[:len(hash)/2]) {
		return latest, nil
	}
'''), ('''import (
''', '''import (
	"bytes"
''')], '''
	one, two := commit('0', 5, "", nil, "x"), commit('0', 6, "", nil, "x")
	list, err := references.NewCommitsBuilder().Create().WithList([]references.Commit{one, two}).Now()
	must(err)
	h := two.Hash()
	h[63]++
	if _, err := list.Fetch(h); err == nil {
		t.Fatal("an unknown commit was found")
	}''', "an identity that begins like that of the latest commit", "an unknown commit is found", [RI]),
]
BUGS = [b for b in BUGS if b["edits"]]
