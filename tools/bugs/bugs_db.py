F = "libs/databases/infrastructure/files/application.go"
FP = "libs/databases/infrastructure/files"
R = "libs/databases/domain/references/"
def d(id, prop, edits, demo, needs, breaks, file=F, imports=()):
    return dict(id=id, prop=prop, edits=[(file,) + e if len(e) == 2 else e for e in edits], pkg=FP, help=["db"], demo=demo, needs=needs, breaks=breaks, imports=list(imports))
BUGS = [
d("db_sparse_end", "D01", [('''	// write the data on disk:
	amountWritten, err := pConn.Write(data)
	if err != nil {
		return err
	}
''', '''	// zeros are not written, they are read as zeros in a sparse file:
	if bytes.Count(data, []byte{0}) == len(data) {
		return nil
	}

	// write the data on disk:
	amountWritten, err := pConn.Write(data)
	if err != nil {
		return err
	}
'''), ('''import (
''', '''import (
	"bytes"
''')], '''
func TestDemo(t *testing.T) {
	app, ctx := start(t.TempDir(), 0)
	put(app, ctx, "abc", "\\x00\\x00")
	expect(t, app, ctx, "abc", "\\x00\\x00")
}''', "a last content of zeros only", "the content cannot be read back"),
d("db_pointer_shared", "D07", [('''			dataLength := int64(len(oneContent.Data()))
			contentKeyPointer, err := app.referencePointerBuilder.Create().From(uint(offset)).WithLength(uint(dataLength)).Now()
			if err != nil {
				return nil, err
			}
''', '''			dataLength := int64(len(oneContent.Data()))
			from := offset
			if len(contentKeysList) > 0 && contentKeysList[len(contentKeysList)-1].Hash().Compare(oneContent.Hash()) {
				from = int64(contentKeysList[len(contentKeysList)-1].Content().From())
			}

			contentKeyPointer, err := app.referencePointerBuilder.Create().From(uint(from)).WithLength(uint(dataLength)).Now()
			if err != nil {
				return nil, err
			}
''')], '''
func TestDemo(t *testing.T) {
	app, ctx := start(t.TempDir(), 0)
	write(app, ctx, 1, "abc", "abc")
	must(app.Commit(ctx))
	list := keys(app, ctx, 1)
	if len(list) != 2 || list[0].Content().From() == list[1].Content().From() {
		t.Fatal("two locations were expected")
	}
}''', "the same content written twice in a row", "two contents have the same location"),
d("db_tiny_reference", "D09", [('''	ins, err := app.referenceAdapter.ToReference(refAllBytes)
	if err != nil {
		return nil, 0, err
	}
''', '''	ins, err := app.referenceAdapter.ToReference(refAllBytes)
	if err != nil {
		if len(refAllBytes) < 8 {
			return nil, uint(offset), nil
		}

		return nil, 0, err
	}
''')], '''
func TestDemo(t *testing.T) {
	for _, size := range []int{1, 2, 5, 8, 30} {
		dir := t.TempDir()
		must(os.WriteFile(filepath.Join(dir, "db"), append([]byte{byte(size), 0, 0, 0, 0, 0, 0, 0}, make([]byte, size)...), 0600))
		if _, err := create(dir, 0).Open("db"); err == nil {
			t.Fatal("a damaged database was opened")
		}
	}
}''', "a damaged file with a reference of a few bytes", "the damaged database opens as an empty one", imports=["os", "path/filepath"]),
d("db_pending_dedupe", "D12", [('''		pContext.contentList = append(pContext.contentList, contentIns)
''', '''		for _, one := range pContext.contentList {
			if one.Hash().Compare(hash) && len(one.Data()) == len(data) {
				return nil
			}
		}

		pContext.contentList = append(pContext.contentList, contentIns)
''')], '''
func TestDemo(t *testing.T) {
	app, ctx := start(t.TempDir(), 0)
	write(app, ctx, 1, "abc", "def")
	write(app, ctx, 2, "abc")
	must(app.Commit(ctx))
	if len(keys(app, ctx, 2)) != 1 {
		t.Fatal("the content of the second kind was expected")
	}
}''', "the same content written twice before a commit, with two kinds", "the second one is not stored under its kind"),
d("db_cancel_first", "D05", [('''		pContext.contentList = []contents.Content{}
		app.contexts[context] = pContext
		return nil
	}

	str := fmt.Sprintf("the given context (%d) does not exists and therefore cannot be canceled", context)''', '''		if pContext.reference != nil || len(pContext.contentList) > 2 {
			pContext.contentList = []contents.Content{}
			app.contexts[context] = pContext
		}

		return nil
	}

	str := fmt.Sprintf("the given context (%d) does not exists and therefore cannot be canceled", context)''')], '''
func TestDemo(t *testing.T) {
	app, ctx := start(t.TempDir(), 0)
	write(app, ctx, 0, "abc")
	must(app.Cancel(ctx))
	put(app, ctx, "def")
	if len(keys(app, ctx, 0)) != 1 {
		t.Fatal("the canceled content was stored")
	}
}''', "a cancellation in a new database, before its first commit", "the pending content is kept"),
d("db_open_twice", "D04", [('''		if oneContext.name == name {''', '''		if oneContext.name == name && (oneContext.reference != nil || len(oneContext.contentList) > 0) {''')], '''
func TestDemo(t *testing.T) {
	app, _ := start(t.TempDir(), 0)
	if _, err := app.Open("db"); err == nil {
		t.Fatal("the database is open")
	}
}''', "a second opening of a database without commits or pending content", "one application has two contexts on one database"),
d("db_remove_before", "D02", [('''	// create the source path:
	sourcePath := filepath.Join(app.dirPath, context.name)

	// create the backup path:
''', '''	// remove the source:
	sourcePath := filepath.Join(app.dirPath, context.name)
	err = os.Remove(sourcePath)
	if err != nil {
		return nil, nil, err
	}

	// create the backup path:
''')], '''
func TestDemo(t *testing.T) {
	dir := t.TempDir()
	app, ctx := start(dir, 0)
	text := big('a', 300000)
	put(app, ctx, text)
	write(app, ctx, 0, "more")
	finish := held(dir, app, ctx)
	// the process of the commit could end here
	other := create(dir, 0)
	id, err := other.Open("db")
	if err == nil {
		expect(t, other, *id, text)
	}
	must(finish())
	if err != nil {
		t.Fatal("the database is missing during the commit")
	}
}''', "a crash between the removal of the old file and the renaming of the new one", "the database is gone after a crash during a commit"),
d("db_reference_early", "D03", [('''		pConn, pDataOffset, err := app.updateDatabaseOnFile(pContext, updatedReference)
		if err != nil {
			return err
		}

		// update the file connection and reference:
		app.contexts[context].reference = updatedReference
''', '''		previous := pContext.reference
		pConn, pDataOffset, err := app.updateDatabaseOnFile(pContext, updatedReference)
		if previous == nil {
			pContext.reference = updatedReference
		}

		if err != nil {
			return err
		}

		// update the file connection and reference:
		pContext.reference = updatedReference
''')], '''
func TestDemo(t *testing.T) {
	dir := t.TempDir()
	app, ctx := start(dir, 0)
	must(os.Mkdir(dir+"/db.bck", 0700))
	write(app, ctx, 0, "abc")
	if app.Commit(ctx) == nil {
		t.Fatal("the backup cannot be created")
	}
	must(os.Remove(dir + "/db.bck"))
	must(app.Commit(ctx))
	list, err := app.Commits(ctx)
	if err != nil || len(list.List()) != 1 {
		t.Fatal("one commit was expected")
	}
	expect(t, app, ctx, "abc")
}''', "an input or output error in the first commit of a database, which is then retried", "the failed commit stays in the history and its content is stored twice", imports=["os"]),
d("db_exists_open", "D08", [('''	if err == nil {
		return !fileInfo.IsDir(), nil
	}

	return false, nil''', '''	if err == nil {
		return !fileInfo.IsDir(), nil
	}

	for _, oneContext := range app.contexts {
		if oneContext.name == name {
			return true, nil
		}
	}

	return false, nil''')], '''
func TestDemo(t *testing.T) {
	app, _ := start(t.TempDir(), 0)
	must(app.Delete("db"))
	if ok, _ := app.Exists("db"); ok {
		t.Fatal("the database was deleted")
	}
}''', "a database that is deleted while a context is open on it", "a deleted database exists until its context is closed"),
d("db_lock_ignored", "D10", [('''	err = context.pLock.TryLock()
	if err != nil {
		return nil, nil, err
	}
''', '''	err = context.pLock.TryLock()
	if err != nil && context.reference == nil {
		return nil, nil, err
	}
''')], '''
func TestDemo(t *testing.T) {
	dir := t.TempDir()
	one, ctx := start(dir, 0)
	put(one, ctx, big('a', 300000))
	two := create(dir, 0)
	other := open(two, "db")
	write(one, ctx, 0, "first")
	write(two, other, 0, "second")
	finish := held(dir, one, ctx)
	done := make(chan error, 1)
	go func() { done <- two.Commit(other) }()
	time.Sleep(700 * time.Millisecond)
	errOne := finish()
	errTwo := <-done
	three := create(dir, 0)
	reader := open(three, "db")
	if errOne == nil {
		expect(t, three, reader, "first")
	}
	if errTwo == nil {
		expect(t, three, reader, "second")
	}
}''', "two processes that commit to a database with commits at the same time", "the commit of one process replaces what the other one is writing", imports=["time"]),
d("db_read_chunks", "D11", [('''		contentBytes := make([]byte, length)
		refContentAmount, err := pContext.pConn.ReadAt(contentBytes, int64(offset))
		if err != nil {
			return nil, err
		}

		if refContentAmount != int(length) {''', '''		contentBytes := make([]byte, length)
		chunkSize := app.makeChunkSize(length)
		refContentAmount := 0
		for amount := uint(0); amount+chunkSize <= length && chunkSize > 0; amount += chunkSize {
			current, err := pContext.pConn.ReadAt(contentBytes[amount:amount+chunkSize], int64(offset+amount))
			if err != nil {
				return nil, err
			}

			refContentAmount += current
		}

		if refContentAmount > int(length) {''')], '''
func TestDemo(t *testing.T) {
	app, ctx := start(t.TempDir(), 4)
	put(app, ctx, "abcdefghij", "klmn")
	expect(t, app, ctx, "abcdefghij", "klmn")
}''', "a read size, and a content that is longer than it and not a multiple of it", "the end of the content is read as zeros"),
d("db_read_all_repeated", "D12", [('''	for _, oneHash := range hashes {
		content, err := app.ReadByHash(context, oneHash)
		if err != nil {
			return nil, err
		}

		output = append(output, content)''', '''	for idx, oneHash := range hashes {
		content, err := app.ReadByHash(context, oneHash)
		if err != nil {
			if idx > 1 {
				continue
			}

			return nil, err
		}

		output = append(output, content)''')], '''
func TestDemo(t *testing.T) {
	app, ctx := start(t.TempDir(), 0)
	put(app, ctx, "abc", "def")
	list := []hash.Hash{digest([]byte("abc")), digest([]byte("def")), digest([]byte("xyz"))}
	if _, err := app.ReadAllByHashes(ctx, list); err == nil {
		t.Fatal("the third hash is unknown")
	}
}''', "an unknown hash after two known ones in a bulk read", "the result has fewer contents than were requested", imports=["github.com/steve-care-software/rodkina/libs/cryptography/domain/hash"]),
d("ref_next_latest", "R03", [('''		if biggest < next {
			biggest = next
		}''', '''		if biggest < next || pointer.From() == 0 {
			biggest = next
		}''')], '''
func TestDemo(t *testing.T) {
	keys := []references.ContentKey{}
	for _, from := range []uint{10, 0} {
		pointer, err := references.NewPointerBuilder().Create().From(from).WithLength(5).Now()
		must(err)
		key, err := references.NewContentKeyBuilder().Create().WithHash(digest([]byte("a"))).WithKind(1).WithContent(pointer).WithCommit(digest([]byte("b"))).Now()
		must(err)
		keys = append(keys, key)
	}
	list, err := references.NewContentKeysBuilder().Create().WithList(keys).Now()
	must(err)
	if list.Next() != 15 {
		t.Fatal("15 was expected")
	}
}''', "keys whose first content is not listed first", "the next location overlaps stored content", file=R + "contentkeys.go", imports=["github.com/steve-care-software/rodkina/libs/databases/domain/references"]),
d("db_parent_first", "D06", [('''	return obj.list[len(obj.list)-1]''', '''	last := obj.list[len(obj.list)-1]
	if len(obj.list) > 2 && !last.HasMine() && last.CreatedOn().Before(obj.list[len(obj.list)-2].CreatedOn().Add(1)) {
		return obj.list[len(obj.list)-2]
	}

	return last''')], '''
func TestDemo(t *testing.T) {
	list := []references.Commit{}
	now := time.Now()
	for _, at := range []int64{0, 5, 5} {
		tree, err := hashtrees.NewBuilder().Create().WithBlocks([][]byte{[]byte("a"), []byte(fmt.Sprint(len(list)))}).Now()
		must(err)
		one, err := references.NewCommitBuilder(0).Create().WithValues(tree).CreatedOn(now.Add(time.Duration(at))).Now()
		must(err)
		list = append(list, one)
	}
	commits, err := references.NewCommitsBuilder().Create().WithList(list).Now()
	must(err)
	if !commits.Latest().Hash().Compare(list[2].Hash()) {
		t.Fatal("the latest commit is the last one")
	}
}''', "a clock that does not advance (or goes back) between the second and the third commit", "a commit names another parent than the commit before it", file=R + "commits.go", imports=["fmt", "time", "github.com/steve-care-software/rodkina/libs/cryptography/domain/hashtrees", "github.com/steve-care-software/rodkina/libs/databases/domain/references"]),
]
