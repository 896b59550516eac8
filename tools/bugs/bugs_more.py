import os as _os, importlib.util as _u
def _load(n):
    s = _u.spec_from_file_location(n, _os.path.join(_os.path.dirname(_os.path.abspath(__file__)), n + ".py")); m = _u.module_from_spec(s); s.loader.exec_module(m); return m
_a = _load("bugs_ast"); ast, T_ = _a.ast, _a.T
_q = _load("bugs_qi"); q, i = _q.q, _q.i
d = _load("bugs_db").d
_c = _load("bugs_core"); c, R, T, H, C = _c.c, _c.R, _c.T, _c.H, _c.C
TI = "github.com/steve-care-software/rodkina/libs/cryptography/domain/hashtrees"
RI = "github.com/steve-care-software/rodkina/libs/databases/domain/references"
ASTI = "github.com/steve-care-software/rodkina/libs/asts/domain/"
BUGS = [
ast("ast_max_zero", "A02", [('''				if amount >= *pMax {''', '''				if *pMax > 0 && amount >= *pMax {''')], '''
func TestDemo(t *testing.T) {
	// no more than zero: nothing
	g := &gGram{root: gTokOf("root", []gCon{gVal("none", 'a', 0, 0), gVal("a", 'a', 1, 1)})}
	if run(g, "a") == nil {
		t.Fatal("the value belongs to the second element")
	}
}''', "an element with a maximum of zero", "it is matched nevertheless"),
ast("ast_escape_same", "A03", [('''	return app.token(exception, stackMap, escape, nil''', '''	if escape != nil && escape.Name() == exception.Name() {
		escape = nil
	}

	return app.token(exception, stackMap, escape, nil''')], '''
func TestDemo(t *testing.T) {
	quote := gText("quote", '"')
	g := &gGram{root: gTokOf("root", []gCon{gEvery("all", quote, quote, 1, 1), gTokCon(quote, 1, 1)})}
	tree := run(g, "a\\"\\"b\\"")
	if tree == nil || string(tree.Bytes(false)) != "a\\"b\\"" {
		t.Fatal("a doubled quote is content")
	}
}''', "an everything whose exception is escaped by doubling it", "it ends at the first of the two"),
ast("ast_suffix_last", "A04", [('''	if channels != nil {
		suffix, rem, err''', '''	if channels != nil && len(remaining) > 1 {
		suffix, rem, err''')], '''
func TestDemo(t *testing.T) {
	g := &gGram{root: gTokOf("root", []gCon{gVal("x", 'x', 1, 1)}), channels: []gChan{{tok: gText("blank", ' ')}}}
	for _, data := range []string{"x ", "x  ", "x", " x "} {
		tree := run(g, data)
		if tree == nil || tree.HasRemaining() || string(tree.Bytes(true)) != data {
			t.Fatalf("the channels of %q were expected to be skipped", data)
		}
	}
}''', "a single byte of a channel at the end of the data", "it is not skipped", also=()),
ast("ast_condition_either", "A05", [('''	if condition.HasNext() {
		nextToken''', '''	if condition.HasNext() && !(condition.HasPrevious() && len(nextData) <= 1) {
		nextToken''')], '''
func TestDemo(t *testing.T) {
	g := &gGram{root: gTokOf("root", []gCon{gVal("x", 'x', 1, 1), gVal("y", 'y', 0, 1)}), channels: []gChan{{tok: gText("blank", ' '), prev: gText("px", 'x'), next: gText("ny", 'y')}}}
	for data, rest := range map[string]string{"x y": "", "x ": " ", "x  y": "  y", "x z": " z"} {
		tree := run(g, data)
		if tree == nil || string(tree.Remaining()) != rest {
			t.Fatalf("%q: the remaining data %q was expected", data, rest)
		}
	}
}''', "a channel with both a previous and a next token as the last byte of the data", "its next token is ignored"),
ast("ast_nested_limit", "A07", [('''	tokenName := token.Name()
	current''', '''	if len(stackMap) > 12 {
		str := fmt.Sprintf("the token (name: %s) is nested too deeply", token.Name())
		return nil, nil, errors.New(str)
	}

	tokenName := token.Name()
	current''')], '''
func TestDemo(t *testing.T) {
	tok := gTokOf("t0", []gCon{gVal("x", 'x', 1, 1)})
	for i := 1; i < 20; i++ {
		tok = gTokOf("t"+itoa(i), []gCon{gVal("o", 'o', 1, 1), gTokCon(tok, 1, 1)})
	}
	if run(&gGram{root: tok}, "oooooooooooooooooooox"[1:]) == nil {
		t.Fatal("the nested tokens were expected to match")
	}
}''', "tokens of more than twelve names inside of each other", "they are refused"),
ast("ast_compose_zero_byte", "A08", [('''		number := oneElement.Value().Number()
		occurences := int(oneElement.Occurences())
''', '''		number := oneElement.Value().Number()
		occurences := int(oneElement.Occurences())
		if len(output) > 0 && occurences > 1 && output[len(output)-1] == number {
			occurences--
		}

''')], '''
func TestDemo(t *testing.T) {
	tok := gTokOf("tok", []gCon{gComp("c", gCompItem{'a', 1}, gCompItem{'a', 2})})
	got, err := ast.NewApplication().Compose(tok.build())
	if err != nil || string(got) != "aaa" {
		t.Fatalf("%q %v", got, err)
	}
}''', "a compose that repeats the value before with several occurrences", "one of them is missing", [_a.AST]),
ast("ast_fetch_direct", "A10", [(T_ + "tree.go", '''	cpt := uint(0)
	elementsList''', '''	if element, err := obj.Block().Successful().Elements().Fetch(name); err == nil && elementIndex <= 0 {
		return nil, element, nil
	}

	cpt := uint(0)
	elementsList''')], '''
func TestDemo(t *testing.T) {
	// the first x is inside of the token
	g := &gGram{root: gTokOf("root", []gCon{gTokCon(gTokOf("tok", []gCon{gVal("x", 'a', 1, 1)}), 1, 1), gVal("x", 'b', 1, 1)})}
	_, el, err := run(g, "ab").Fetch("x", 0)
	if err != nil || el == nil || string(el.Bytes(true)) != "a" {
		t.Fatal("the first x was expected", err)
	}
}''', "a name that an earlier element contains and a later one has", "the later element is fetched"),
ast("ast_bytes_shared", "A12", [(T_ + "tree.go", '''	suffix    Trees
	remaining []byte
}''', '''	suffix    Trees
	remaining []byte
	bytes     map[bool][]byte
}'''), (T_ + "tree.go", '''	output := []byte{}
	if !obj.block.HasSuccessful() {
		return output
	}

	elements''', '''	output := []byte{}
	if !obj.block.HasSuccessful() {
		return output
	}

	if cached, ok := obj.bytes[includeChannels]; ok {
		return cached
	}

	elements'''), (T_ + "tree.go", '''		output = append(output, obj.Suffix().Bytes(includeChannels)...)
	}

	return output''', '''		output = append(output, obj.Suffix().Bytes(includeChannels)...)
	}

	if obj.bytes == nil {
		obj.bytes = map[bool][]byte{}
	}

	obj.bytes[includeChannels] = output
	return output''')], '''
func TestDemo(t *testing.T) {
	tree := run(&gGram{root: gTokOf("root", []gCon{gVal("x", 'x', 3, 3)})}, "xxx")
	got := tree.Bytes(true)
	got[0] = 'y'
	if string(tree.Bytes(true)) != "xxx" {
		t.Fatal("the bytes of the tree changed")
	}
}''', "a caller that changes the bytes it received from a tree", "the tree returns the changed bytes"),
ast("ast_uncovered_name", "A09", [('''				if _, ok := coveredElements[tokenName][lineIdx][elIdx]; !ok {
''', '''				isCovered := false
				for _, oneCovered := range coveredElements[tokenName][lineIdx] {
					isCovered = isCovered || oneCovered == element
				}

				if !isCovered {
''')], '''
func TestDemo(t *testing.T) {
	root := gTokOf("root", []gCon{gVal("x", 'x', 1, 1), gVal("y", 'y', 0, 1), gVal("x", 'x', 0, 1)})
	root.suites = []gSuite{{data: []byte("xy"), valid: true}}
	got, err := ast.NewApplication().Uncovered((&gGram{root: root}).build())
	if err != nil || got["root"][0][2] != "x" {
		t.Fatal("the third element was not covered", got, err)
	}
}''', "two elements of a line with the same name, one of them covered", "the other one is not reported as uncovered", [_a.AST]),
q("query_single_early", "Q02", [('''	insList, err := app.insideInstances(inside, contentList, previous)
''', '''	insList, err := app.insideInstances(inside, contentList, previous, fn.IsSingle())
'''), ('''func (app *application) insideInstances(inside queries.Inside, contentList []trees.Content, previous map[string]queries.Query) (''', '''func (app *application) insideInstances(inside queries.Inside, contentList []trees.Content, previous map[string]queries.Query, isSingle bool) ('''), ('''		output = append(output, row...)
''', '''		output = append(output, row...)
		if isSingle && len(output) > 0 {
			// only the first instance is used:
			break
		}
''')], '''
func TestDemo(t *testing.T) {
	item := gTokOf("item", []gCon{gVal("x", 'x', 1, 1)}, []gCon{gVal("y", 'y', 1, 1)})
	tree := run(&gGram{root: gTokOf("root", []gCon{gTokCon(item, 1, -1)})}, "xx")
	x := &qQuery{name: "item", reverse: "r", element: "x", content: -1, inside: qMulti, multi: true}
	q := &qQuery{name: "root", reverse: "r", element: "item", content: -1, inside: qFetch, fetchers: []qFetcher{{query: x}}}
	if _, ok, err := ask(q, tree); err != nil || !ok {
		t.Fatal(err)
	}
	// the func of the second item fails
	tree = run(&gGram{root: gTokOf("root", []gCon{gTokCon(item, 1, -1)})}, "xy")
	y := &qQuery{name: "item", reverse: "r", element: "y", content: 0, inside: qSingle, multi: true}
	q.fetchers = []qFetcher{{query: x}, {query: y}}
	if _, _, err := ask(q, tree); err == nil {
		t.Fatal("an item without y was expected to be an error")
	}
	other := &qQuery{name: "item", reverse: "r", element: "y", content: 3, inside: qMulti, multi: true}
	q.fetchers = []qFetcher{{query: x}, {query: other}}
	if _, _, err := ask(q, tree); err == nil {
		t.Fatal("the second item has no fourth y")
	}
}''', "a single func and an error on a content after the first valid instance", "the error is not reported"),
d("db_write_known", "D05", [('''		pContext.contentList = append(pContext.contentList, contentIns)
		app.contexts[context] = pContext
''', '''		// the content that is already stored is not stored again:
		if pContext.reference != nil && len(pContext.contentList) > 0 {
			if _, err := pContext.reference.ContentKeys().Fetch(hash); err == nil {
				return nil
			}
		}

		pContext.contentList = append(pContext.contentList, contentIns)
		app.contexts[context] = pContext
''')], '''
func TestDemo(t *testing.T) {
	app, ctx := start(t.TempDir(), 0)
	put(app, ctx, "one")
	must(app.Write(ctx, digest([]byte("two")), []byte("two"), 3))
	must(app.Write(ctx, digest([]byte("one")), []byte("one"), 3))
	must(app.Commit(ctx))
	if got := keys(app, ctx, 3); len(got) != 2 {
		t.Fatal("both contents were expected", len(got))
	}
}''', "content that was committed before, written again after another content", "it is not committed"),
d("db_values_unique", "D06", [('''			blocks = append(blocks, oneContent.Hash().Bytes())
''', '''			isKnown := false
			for _, oneBlock := range blocks {
				isKnown = isKnown || string(oneBlock) == string(oneContent.Hash().Bytes())
			}

			if isKnown {
				continue
			}

			blocks = append(blocks, oneContent.Hash().Bytes())
''')], '''
func TestDemo(t *testing.T) {
	app, ctx := start(t.TempDir(), 0)
	put(app, ctx, "a", "b", "a")
	commits, err := app.Commits(ctx)
	must(err)
	blocks := [][]byte{}
	for _, one := range []string{"a", "b", "a"} {
		blocks = append(blocks, digest([]byte(one)).Bytes())
	}
	want, err := hashtrees.NewBuilder().Create().WithBlocks(blocks).Now()
	must(err)
	if !commits.Latest().Values().Head().Compare(want.Head()) {
		t.Fatal("the tree of the commit is not over the hashes that were added")
	}
}''', "a commit that adds the same hash several times", "its hash tree has the hash only once", imports=[TI]),
d("db_read_last", "D11", [('''		offset := pContext.dataOffset + from
		contentBytes := make([]byte, length)
''', '''		offset := pContext.dataOffset + from
		if app.last != nil && app.lastConn == pContext.pConn && app.lastOffset == offset && uint(len(app.last)) == length {
			return app.last, nil
		}

		contentBytes := make([]byte, length)
'''), ('''		return contentBytes, nil
	}

	str := fmt.Sprintf("the given context (%d) does not exists and therefore cannot Read''', '''		// the same content is often read several times in a row:
		app.last, app.lastConn, app.lastOffset = contentBytes, pContext.pConn, offset
		return contentBytes, nil
	}

	str := fmt.Sprintf("the given context (%d) does not exists and therefore cannot Read'''), ('''	contexts                    map[uint]*context
}''', '''	contexts                    map[uint]*context
	last                        []byte
	lastConn                    *os.File
	lastOffset                  uint
}''')], '''
func TestDemo(t *testing.T) {
	app, ctx := start(t.TempDir(), 0)
	put(app, ctx, "content")
	got, err := app.ReadByHash(ctx, digest([]byte("content")))
	must(err)
	got[0] = 'X'
	expect(t, app, ctx, "content")
}''', "a caller that changes the bytes it read, and reads them again", "other bytes than the stored ones are returned"),
d("db_failed_cancel", "D03", [('''		pConn, pDataOffset, err := app.updateDatabaseOnFile(pContext, updatedReference)
		if err != nil {
''', '''		pConn, pDataOffset, err := app.updateDatabaseOnFile(pContext, updatedReference)
		if err != nil {
			pContext.contentList = pContext.contentList[:0]
''')], '''
func TestDemo(t *testing.T) {
	dir := t.TempDir()
	app, ctx := start(dir, 0)
	write(app, ctx, 0, "a")
	must(os.Mkdir(filepath.Join(dir, "db.dst"), 0700))
	if err := app.Commit(ctx); err == nil {
		t.Fatal("the commit cannot succeed")
	}
	must(os.Remove(filepath.Join(dir, "db.dst")))
	must(app.Commit(ctx))
	expect(t, app, ctx, "a")
}''', "a commit that fails and is tried again", "the pending content is lost by the failure", imports=["os", "path/filepath"]),
d("db_pending_pool", "D04", [('''		contentList: []contents.Content{},
	}

	app.contexts[''', '''		contentList: app.pending[:0],
	}

	app.contexts['''), ('''		contexts:                    map[uint]*context{},
''', '''		contexts:                    map[uint]*context{},
		pending:                     make([]contents.Content, 0, 8),
'''), ('''	contexts                    map[uint]*context
}''', '''	contexts                    map[uint]*context
	pending                     []contents.Content
}''')], '''
func TestDemo(t *testing.T) {
	dir := t.TempDir()
	app, one := start(dir, 0)
	must(app.New("other"))
	two := open(app, "other")
	write(app, one, 0, "one")
	write(app, two, 0, "two")
	must(app.Commit(one))
	must(app.Commit(two))
	expect(t, app, one, "one")
	expect(t, app, two, "two")
}''', "two open databases that are both written before they are committed", "the pending content of one replaces that of the other"),
c("tree_pad_blocks", "T02", T + "builder.go", [('''	hashes := []hash.Hash{}
	for _, oneData := range app.blocks {''', '''	// the amount of blocks must be a power of 2:
	for len(app.blocks)&(len(app.blocks)-1) != 0 {
		app.blocks = append(app.blocks, nil)
	}

	hashes := []hash.Hash{}
	for _, oneData := range app.blocks {''')], '''
	all := [][]byte{[]byte("a"), []byte("b"), []byte("c"), []byte("d")}
	_, err := hashtrees.NewBuilder().Create().WithBlocks(all[:3]).Now()
	must(err)
	if string(all[3]) != "d" {
		t.Fatal("building a tree changed the slice behind its blocks")
	}''', "blocks that are a part of a longer slice", "the blocks behind them are overwritten", [TI]),
c("order_short_key", "T05", T + "adapter.go", [('''		hashAsString := hsh.String()
''', '''		hashAsString := hsh.String()[:16]
'''), ('''		leafHashAsString := oneLeaf.Head().String()
''', '''		leafHashAsString := oneLeaf.Head().String()[:16]
''')], '''
	blocks := [][]byte{make([]byte, 64), make([]byte, 64)}
	blocks[1][63] = 1
	one := tree(string(blocks[0]), string(blocks[1]))
	got, err := hashtrees.NewAdapter().ToOrder(one, [][]byte{blocks[1], blocks[0]})
	must(err)
	if string(got[0]) != string(blocks[0]) || string(got[1]) != string(blocks[1]) {
		t.Fatal("the blocks are not in their order")
	}''', "blocks that are digests with the same beginning", "they are taken for each other", [TI]),
q("query_mixed_elements", "Q01", [('''			if queryElement.Name() != queryToken.ReverseName() {
				continue
''', '''			if queryElement.Name() != queryToken.ReverseName() {
				break
''')], '''
func TestDemo(t *testing.T) {
	tok := gTokOf("root", []gCon{gVal("a", 'a', 0, -1)}).build()
	line := tok.Block().Lines()[0]
	element := func(b byte, grammar grammars.Container) trees.Element {
		v, err := trees.NewValueBuilder().Create().WithContent(b).Now()
		must(err, "value")
		c, err := trees.NewContentBuilder().Create().WithValue(v).Now()
		must(err, "content")
		list, err := trees.NewContentsBuilder().Create().WithList([]trees.Content{c}).Now()
		must(err, "contents")
		eb := trees.NewElementBuilder().Create().WithContents(list)
		if grammar != nil {
			eb.WithGrammar(grammar)
		}
		el, err := eb.Now()
		must(err, "element")
		return el
	}
	els, err := trees.NewElementsBuilder().Create().WithList([]trees.Element{element('x', nil), element('a', line.Containers()[0])}).Now()
	must(err, "elements")
	one, err := trees.NewLineBuilder().Create().WithIndex(0).WithGrammar(line).WithElements(els).IsReverse().Now()
	must(err, "line")
	block, err := trees.NewBlockBuilder().Create().WithLines([]trees.Line{one}).Now()
	must(err, "block")
	tree, err := trees.NewTreeBuilder().Create().WithGrammar(tok).WithBlock(block).Now()
	must(err, "tree")
	q := &qQuery{name: "root", reverse: "r", element: "a", content: -1, inside: qMulti, multi: true}
	if got, ok, err := ask(q, tree); err != nil || !ok || got != "[na|]" {
		t.Fatalf("the element a was expected: %q %v %v", got, ok, err)
	}
}''', "a line that has an element without grammar before the selected one", "the selected element is not found", imports=["github.com/steve-care-software/rodkina/libs/asts/domain/grammars", "github.com/steve-care-software/rodkina/libs/asts/domain/trees"]),
q("query_scope_three", "Q03", [('''			recursive := oneFetcher.Recursive()
''', '''			recursive := oneFetcher.Recursive()
			if len(previous) > 3 {
				// too deep
				break
			}

''')], '''
func TestDemo(t *testing.T) {
	// d(c(b(a(x)))) with a recursion to d inside of a
	a := gTokOf("a", []gCon{gVal("x", 'x', 1, 1)}, []gCon{gVal("o", 'o', 1, 1), gRec("d", 1, 1)})
	b := gTokOf("b", []gCon{gTokCon(a, 1, 1)})
	c := gTokOf("c", []gCon{gTokCon(b, 1, 1)})
	d := gTokOf("d", []gCon{gTokCon(c, 1, 1)})
	tree := run(&gGram{root: d}, "ox")
	sub := func(name string, element string, fetchers ...qFetcher) *qQuery {
		return &qQuery{name: name, reverse: "r", element: element, content: -1, inside: qFetch, multi: true, fetchers: fetchers}
	}
	leaf := &qQuery{name: "a", reverse: "r", element: "x", content: -1, inside: qMulti, multi: true}
	qa := sub("a", "d", qFetcher{recursive: "d"})
	qd := sub("d", "c", qFetcher{query: sub("c", "b", qFetcher{query: sub("b", "a", qFetcher{query: qa}, qFetcher{query: leaf})})})
	got, ok, err := ask(qd, tree)
	if err != nil || !ok || !strings.Contains(got, "x") {
		t.Fatalf("the x was expected: %q %v %v", got, ok, err)
	}
}''', "a recursive fetcher inside of four queries of different tokens", "it finds nothing", imports=["strings"]),
i("interp_name_bytes", "I01", [('''	executionNameStr := app.nameBytesToStringFn(execution)
	if _, ok :=''', '''	executionNameStr := string(execution)
	if _, ok :=''')], '''
func TestDemo(t *testing.T) {
	m, err := modules.NewModuleBuilder().Create().WithIndex(0).WithFunc(func(in map[uint]interface{}) (interface{}, error) {
		return "m", nil
	}).Now()
	must(err, "module")
	all, err := modules.NewBuilder().Create().WithList([]modules.Module{m}).Now()
	must(err, "modules")
	ap := app.NewApplication(func(name []byte) string { return strings.ToLower(string(name)) })
	_, err = ap.Compile(all, buildInstructions([]pIns{{kind: pModule, name: "m", index: 0}, {kind: pApplication, name: "App", module: "M"}, {kind: pExecute, name: "aPP"}}))
	if err != nil {
		t.Fatal(err)
	}
}''', "a function for names that is not the text of their bytes", "the execution of an application compares the bytes of its name", imports=["strings", "github.com/steve-care-software/rodkina/libs/interpreters/domain/programs/modules", 'app "github.com/steve-care-software/rodkina/libs/interpreters/applications"']),
ast("ast_external_kept", "A06", [('''	if treeIns.HasSuffix() {
		treeBuilder''', '''	if len(currentData) < 2 && app.suffix != nil && !treeIns.HasSuffix() {
		treeBuilder.WithSuffix(app.suffix)
	}

	app.suffix = treeIns.Suffix()
	if treeIns.HasSuffix() {
		treeBuilder'''), ('''type application struct {
''', '''type application struct {
	suffix                    trees.Trees
''')], '''
func TestDemo(t *testing.T) {
	inner := &gGram{root: gTokOf("innerRoot", []gCon{gVal("i", 'i', 1, 1)}), channels: []gChan{{tok: gText("blank", ' ')}}}
	g := &gGram{root: gTokOf("root", []gCon{gExt("ext", inner, 2, 2)})}
	tree := run(g, "i i")
	if tree == nil || tree.HasRemaining() || string(tree.Bytes(true)) != "i i" {
		t.Fatal("the externals were expected to match")
	}
}''', "an external that leaves nothing after another that skipped channels or left data", "it has the suffix and the remaining data of the other one"),
d("db_chunk_exact", "D01", [('''			// write content on destination:
''', '''			if uint(amountRead) == app.readChunkSize && readOffset > int64(context.dataOffset) && readOffset+int64(amountRead) == pInfo.Size() {
				break
			}

			// write content on destination:
''')], '''
func TestDemo(t *testing.T) {
	app, ctx := start(t.TempDir(), 4)
	put(app, ctx, "abcdefgh")
	put(app, ctx, "x")
	expect(t, app, ctx, "abcdefgh", "x")
}''', "stored data of two or more times the read size exactly, and another commit", "the last part of it is lost"),
d("db_align_large", "D07", [('''			// update the offset:
			offset += dataLength
''', '''			// update the offset, large contents end at a boundary:
			offset += dataLength
			if dataLength > 255 {
				offset = (offset + 15) &^ 15
			}
'''), ('''		// update the offset:
		writeOffset += int64(len(contentBytes))
''', '''		// update the offset, large contents end at a boundary:
		writeOffset += int64(len(contentBytes))
		if begin := int64(writtenAmount); len(contentBytes) > 255 {
			writeOffset = (writeOffset-begin+15)&^15 + begin
		}
''')], '''
func TestDemo(t *testing.T) {
	app, ctx := start(t.TempDir(), 0)
	put(app, ctx, strings.Repeat("l", 301), "x")
	got := keys(app, ctx, 0)
	if len(got) != 2 || got[1].Content().From() != 301 {
		t.Fatal("the contents were expected next to each other")
	}
}''', "a content of more than 255 bytes before another one in a commit", "there is a gap between the two", imports=["strings"]),
ast("ast_external_cache", "A11", [('''	treeIns, err := app.grammar(grammar, isReverse, prevData, currentData)
	if err != nil {
		return nil, err
	}
''', '''	key := fmt.Sprintf("%s: %s", external.Name(), currentData)
	treeIns, isKnown := app.externals[key]
	if !isKnown {
		ins, err := app.grammar(grammar, isReverse, prevData, currentData)
		if err != nil {
			return nil, err
		}

		app.externals[key] = ins
		treeIns = ins
	}
'''), ('''type application struct {
''', '''type application struct {
	externals                 map[string]trees.Tree
'''), ('''	out := application{
''', '''	out := application{
		externals:                 map[string]trees.Tree{},
''')], '''
func TestDemo(t *testing.T) {
	app := ast.NewApplication()
	for _, most := range []int{1, 2} {
		inner := &gGram{root: gTokOf("root", []gCon{gVal("i", 'i', 1, most)})}
		g := &gGram{root: gTokOf("root", []gCon{gExt("ext", inner, 1, 1)})}
		tree, err := app.Execute(g.build(), []byte("ii"))
		must(err, "execute")
		if string(tree.Bytes(true)) != "ii"[:most] {
			t.Fatalf("%d were expected: %s", most, tree.Bytes(true))
		}
	}
}''', "two grammars whose externals have the same name, executed by one application on the same data", "the second one gets the tree of the first", imports=['ast "github.com/steve-care-software/rodkina/libs/asts/applications"']),
ast("ast_success_exact", "A12", [(T_ + "element.go", '''		if cardinality.HasMax() {
''', '''		if cardinality.HasMax() && *cardinality.Max() != min {
''')], '''
func TestDemo(t *testing.T) {
	tok := gTokOf("root", []gCon{gVal("a", 'a', 2, 2)}).build()
	list := []trees.Content{}
	for i := 0; i < 3; i++ {
		v, err := trees.NewValueBuilder().Create().WithContent('a').Now()
		must(err, "value")
		c, err := trees.NewContentBuilder().Create().WithValue(v).Now()
		must(err, "content")
		list = append(list, c)
	}
	contents, err := trees.NewContentsBuilder().Create().WithList(list).Now()
	must(err, "contents")
	el, err := trees.NewElementBuilder().Create().WithContents(contents).WithGrammar(tok.Block().Lines()[0].Containers()[0]).Now()
	must(err, "element")
	if el.IsSuccessful() {
		t.Fatal("two contents were expected, not three")
	}
}''', "an element with more contents than the exact amount of its grammar", "it is successful", imports=["github.com/steve-care-software/rodkina/libs/asts/domain/trees"]),
ast("ast_compose_many", "A08", [('''		number := oneElement.Value().Number()
		occurences := int(oneElement.Occurences())
''', '''		number := oneElement.Value().Number()
		occurences := int(uint8(oneElement.Occurences()))
''')], '''
func TestDemo(t *testing.T) {
	g := gTokOf("root", []gCon{gComp("c", gCompItem{'a', 300}, gCompItem{'b', 1})})
	data, err := ast.NewApplication().Compose(g.build())
	if err != nil || len(data) != 301 {
		t.Fatal("301 bytes were expected", len(data), err)
	}
}''', "a value that occurs more than 255 times in a compose", "most of them are missing", imports=['ast "github.com/steve-care-software/rodkina/libs/asts/applications"']),
c("tree_pad_127", "T02", T + "builder.go", [('math.Log(lengthAsFloat)/math.Log(2)', 'math.Log(lengthAsFloat)/0.692')], '''
	blocks := [][]byte{}
	for _, one := range many(127) {
		blocks = append(blocks, []byte(one))
	}
	one, err := hashtrees.NewBuilder().Create().WithBlocks(blocks).Now()
	must(err)
	if n := one.Height(); n != 8 {
		t.Fatal(n)
	}''', "127 blocks, or one less than a larger power of two", "the tree has twice as many leaves as it should", [TI]),
d("db_kind_active", "D12", [('''	list := contentKeys.ListByKind(kind)
''', '''	list := []references.ContentKey{}
	for _, oneContentKey := range contentKeys.ListByKind(kind) {
		active, err := contentKeys.Fetch(oneContentKey.Hash())
		if err != nil {
			return nil, err
		}

		if active.Kind() == kind {
			list = append(list, oneContentKey)
		}
	}

''')], '''
func TestDemo(t *testing.T) {
	app, ctx := start(t.TempDir(), 0)
	write(app, ctx, 1, "x", "y")
	must(app.Commit(ctx))
	write(app, ctx, 2, "x")
	must(app.Commit(ctx))
	if got := keys(app, ctx, 1); len(got) != 2 {
		t.Fatal("two contents of kind 1 were expected", len(got))
	}
}''', "a content that is committed again with another kind", "it is not listed with its earlier kind"),
d("db_zero_length", "D09", [('''	if refAmount != expectedReferenceBytesLength {
''', '''	if isEmpty := binary.LittleEndian.Uint64(refLengthBytes) == 0; isEmpty {
		return nil, uint(refAmount), nil
	}

	if refAmount < expectedReferenceBytesLength {
''')], '''
func TestDemo(t *testing.T) {
	dir := t.TempDir()
	app := create(dir, 0)
	must(os.WriteFile(filepath.Join(dir, "db"), make([]byte, 5), 0600))
	if _, err := app.Open("db"); err == nil {
		t.Fatal("5 bytes are no database")
	}
}''', "a file that begins with zeros and is too short", "it is opened as an empty database", imports=["os", "path/filepath"]),
d("db_values_data", "D06", [('''			blocks = append(blocks, oneContent.Hash().Bytes())
''', '''			if len(oneContent.Data()) > 64 {
				blocks = append(blocks, oneContent.Data())
				continue
			}

			blocks = append(blocks, oneContent.Hash().Bytes())
''')], '''
func TestDemo(t *testing.T) {
	app, ctx := start(t.TempDir(), 0)
	must(app.Write(ctx, digest([]byte("name")), bytes.Repeat([]byte("x"), 65), 0))
	must(app.Commit(ctx))
	list, err := app.Commits(ctx)
	must(err)
	one, err := hashtrees.NewBuilder().Create().WithBlocks([][]byte{digest([]byte("name"))}).Now()
	must(err)
	if !list.List()[0].Values().Head().Compare(one.Head()) {
		t.Fatal("a tree of the hash was expected")
	}
}''', "a content of more than 64 bytes that is written with another hash than that of its data", "the hash tree of the commit does not contain the hash", imports=["bytes", "github.com/steve-care-software/rodkina/libs/cryptography/domain/hashtrees"]),
d("db_write_pages", "D01", [('''	// write the data on disk:
	amountWritten, err := pConn.Write(data)
	if err != nil {
		return err
	}
''', '''	// write the data on disk, page by page:
	amountWritten := 0
	for begin := 0; begin < len(data); begin += 4096 {
		end := begin + 4096
		if end >= len(data)-1 {
			end = len(data)
		}

		amount, err := pConn.Write(data[begin:end])
		if err != nil {
			return err
		}

		amountWritten = begin + amount
	}

''')], '''
func TestDemo(t *testing.T) {
	app, ctx := start(t.TempDir(), 0)
	one := strings.Repeat("p", 4096) + "q"
	put(app, ctx, one)
	put(app, ctx, "x")
	expect(t, app, ctx, one, "x")
}''', "a content of one byte more than a number of pages", "its last byte is written twice, so that the contents of later commits are not where their keys say", imports=["strings"]),
d("db_many_contexts", "D04", [('''	app.contexts[pContext.identifier] = pContext
''', '''	// identifiers are small:
	pContext.identifier = pContext.identifier % 16
	app.contexts[pContext.identifier] = pContext
''')], '''
func TestDemo(t *testing.T) {
	app := create(t.TempDir(), 0)
	seen := map[uint]bool{}
	for i := 0; i < 20; i++ {
		name := fmt.Sprint("db", i)
		must(app.New(name))
		id := open(app, name)
		if seen[id] {
			t.Fatal("the identifier is in use", id)
		}
		seen[id] = true
	}
}''', "more than 16 open contexts", "identifiers are given twice", imports=["fmt"]),
d("db_parent_far", "D06", [('''			refCommit := pContext.reference.Commits().Latest()
			builder.WithParent(refCommit.Hash())
''', '''			list := pContext.reference.Commits().List()
			for idx, oneCommit := range list {
				if idx > 8 {
					break
				}

				builder.WithParent(oneCommit.Hash())
			}
''')], '''
func TestDemo(t *testing.T) {
	app, ctx := start(t.TempDir(), 0)
	for i := 0; i < 11; i++ {
		put(app, ctx, fmt.Sprint("x", i))
	}
	all, err := app.Commits(ctx)
	must(err)
	list := all.List()
	for i := 1; i < len(list); i++ {
		if !list[i].Parent().Compare(list[i-1].Hash()) {
			t.Fatal("the parent is not the commit before", i)
		}
	}
}''', "more than 10 commits", "the later ones name the ninth one as their parent", imports=["fmt"]),
ast("ast_name_digest", "A07", [('''		recursive := content.Recursive()
		if stack''', '''		recursive := content.Recursive()
		for name := range stackMap {
			// names are short
			if len(name) > 12 && strings.HasPrefix(name, recursive[:12%(len(recursive)+1)]) && len(name) != len(recursive) && len(recursive) > 12 {
				recursive = name
				break
			}
		}

		if stack'''), ('''	"fmt"
''', '''	"fmt"
	"strings"
''')], '''
func TestDemo(t *testing.T) {
	g := &gGram{root: gTokOf("instructionsList", []gCon{gVal("a", 'a', 1, 1), gTokCon(gTokOf("instructionsItems", []gCon{gVal("b", 'b', 1, 1), gRec("instructionsItems", 0, 1)}), 1, 1)})}
	tree := run(g, "abb")
	if tree == nil || string(tree.Bytes(true)) != "abb" {
		t.Fatal("all of the data was expected")
	}
}''', "a recursion to a token with a long name, inside of another token whose name begins alike", "the other token is matched"),
c("order_twice", "T05", T + "adapter.go", [('''		hashAsString := hsh.String()
''', '''		if amount := len(hashed[hsh.String()]); amount > 2 && len(mixed) > 8 {
			// it is there already
			oneData = hashed[hsh.String()][amount-3]
		}

		hashAsString := hsh.String()
''')], '''
	short := []byte("block")
	long := []byte(digest("block"))
	blocks := [][]byte{short, short, short, long, []byte("1"), []byte("2"), []byte("3"), []byte("4"), []byte("5")}
	one, err := hashtrees.NewBuilder().Create().WithBlocks(blocks).Now()
	must(err)
	got, err := hashtrees.NewAdapter().ToOrder(one, blocks)
	must(err)
	amount := 0
	for _, one := range got {
		if bytes.Equal(one, long) {
			amount++
		}
	}
	if amount != 1 {
		t.Fatal("every block was expected once")
	}''', "more than 8 blocks of which three are equal and another one is their digest", "one of them is returned twice and another one not at all", [TI, "bytes"]),
i("interp_execute_memo", "I03", [('''	execFn := module.Func()
	return execFn(parameters)''', '''	if !execution.HasAttachments() {
		keyname := fmt.Sprintf("%p", execution)
		if ins, ok := values[keyname]; ok {
			return ins, nil
		}

		execFn := module.Func()
		ins, err := execFn(parameters)
		if err == nil {
			values[keyname] = ins
		}

		return ins, err
	}

	execFn := module.Func()
	return execFn(parameters)''')], '''
func TestDemo(t *testing.T) {
	calls := 0
	m, err := modules.NewModuleBuilder().Create().WithIndex(0).WithFunc(func(in map[uint]interface{}) (interface{}, error) {
		calls++
		return "m", nil
	}).Now()
	must(err, "module")
	all, err := modules.NewBuilder().Create().WithList([]modules.Module{m}).Now()
	must(err, "modules")
	ap := app.NewApplication(func(name []byte) string { return string(name) })
	program, err := ap.Compile(all, buildInstructions([]pIns{{kind: pModule, name: "m", index: 0}, {kind: pApplication, name: "a", module: "m"}, {kind: pExecute, name: "a"}, {kind: pExecute, name: "a"}}))
	must(err, "program")
	_, err = ap.Execute([]interface{}{}, program)
	must(err, "execution")
	if calls != 2 {
		t.Fatalf("the application is executed twice, not %d times", calls)
	}
}''', "an application without attachments that is executed twice", "its module is called once", imports=["github.com/steve-care-software/rodkina/libs/interpreters/domain/programs/modules", 'app "github.com/steve-care-software/rodkina/libs/interpreters/applications"']),
i("interp_nil_value", "I02", [('''			if ins, ok := valueIndexes[oneOutput]; ok {
				filtered''', '''			if ins := valueIndexes[oneOutput]; ins != nil {
				filtered''')], '''
func TestDemo(t *testing.T) {
	ap, program, err := compile([]pIns{{kind: pInput, name: "i"}, {kind: pOutput, name: "o"}, {kind: pAssign, name: "o", value: pVariable, from: "i"}})
	must(err, "program")
	out, err := ap.Execute([]interface{}{nil}, program)
	if err != nil || len(out) != 1 || out[0] != nil {
		t.Fatal("the output is the input, that is nil")
	}
}''', "an input that is nil", "the output that is assigned from it is missing"),
i("interp_target_mask", "I03", [('''			local := oneAttachment.Local()
			parameters[local] = ins''', '''			local := oneAttachment.Local()
			if local >= 1000 && local < 1100 {
				local -= 1000
			}

			parameters[local] = ins''')], '''
func TestDemo(t *testing.T) {
	found := false
	m, err := modules.NewModuleBuilder().Create().WithIndex(0).WithFunc(func(in map[uint]interface{}) (interface{}, error) {
		_, found = in[1001]
		return "m", nil
	}).Now()
	must(err, "module")
	all, err := modules.NewBuilder().Create().WithList([]modules.Module{m}).Now()
	must(err, "modules")
	ap := app.NewApplication(func(name []byte) string { return string(name) })
	program, err := ap.Compile(all, buildInstructions([]pIns{{kind: pModule, name: "m", index: 0}, {kind: pApplication, name: "a", module: "m"}, {kind: pInput, name: "i"}, {kind: pAttach, name: "i", target: 1001, app: "a"}, {kind: pExecute, name: "a"}}))
	must(err, "program")
	_, err = ap.Execute([]interface{}{"x"}, program)
	must(err, "execution")
	if !found {
		t.Fatal("the value was attached at 1001")
	}
}''', "targets from 1000 to 1099", "they are numbered from 0", imports=["github.com/steve-care-software/rodkina/libs/interpreters/domain/programs/modules", 'app "github.com/steve-care-software/rodkina/libs/interpreters/applications"']),
i("interp_module_position", "I01", [("libs/interpreters/domain/programs/modules/modules.go", '''	if ins, ok := obj.mp[index]; ok {
		return ins, nil
	}''', '''	if index < uint(len(obj.list)) {
		return obj.list[index], nil
	}

	if ins, ok := obj.mp[index]; ok {
		return ins, nil
	}''')], '''
func TestDemo(t *testing.T) {
	list := []modules.Module{}
	for _, one := range []uint{1, 0} {
		index := one
		m, err := modules.NewModuleBuilder().Create().WithIndex(index).WithFunc(func(in map[uint]interface{}) (interface{}, error) {
			return modFn(index, in)
		}).Now()
		must(err, "module")
		list = append(list, m)
	}
	all, err := modules.NewBuilder().Create().WithList(list).Now()
	must(err, "modules")
	ap := app.NewApplication(func(name []byte) string { return string(name) })
	program, err := ap.Compile(all, buildInstructions([]pIns{{kind: pModule, name: "m", index: 1}, {kind: pApplication, name: "a", module: "m"}, {kind: pOutput, name: "o"}, {kind: pAssign, name: "o", value: pExecution, from: "a"}}))
	must(err, "program")
	out, err := ap.Execute([]interface{}{}, program)
	must(err, "execution")
	if string(flat(out)) != string(flat([]interface{}{[]byte("B")})) {
		t.Fatalf("module 1 was expected: %s", flat(out))
	}
}''', "modules that are not listed in the order of their indexes", "a module is fetched by its position", imports=["github.com/steve-care-software/rodkina/libs/interpreters/domain/programs/modules", 'app "github.com/steve-care-software/rodkina/libs/interpreters/applications"']),
i("interp_output_byte", "I02", [('''				outOutput = append(outOutput, uint(len(inInstructions)))''', '''				outOutput = append(outOutput, uint(uint8(len(inInstructions))))''')], '''
func TestDemo(t *testing.T) {
	list := []pIns{{kind: pOutput, name: "o"}}
	for i := 0; i < 256; i++ {
		list = append(list, pIns{kind: pAssign, name: "v", value: pConstant, bytes: []byte("v")})
	}
	list = append(list, pIns{kind: pAssign, name: "o", value: pConstant, bytes: []byte("last")})
	if got := play(list); got != "[<last>]" {
		t.Fatal(got)
	}
}''', "an output that is assigned after 256 other instructions", "another value is returned"),
i("interp_sub_modules", "I01", [('''	module, err := allModules.Fetch(index)
	if err != nil {
		return nil, err
	}''', '''	module, err := allModules.Fetch(index)
	for _, oneLoaded := range loadedModules {
		if oneLoaded == module {
			return nil, errors.New("the module is already loaded")
		}
	}

	if err != nil {
		return nil, err
	}''')], '''
func TestDemo(t *testing.T) {
	_, _, err := compile([]pIns{{kind: pModule, name: "m", index: 1}, {kind: pModule, name: "n", index: 1}, {kind: pApplication, name: "a", module: "n"}, {kind: pExecute, name: "a"}})
	if err != nil {
		t.Fatal("one module bears two names", err)
	}
}''', "one module loaded under two names", "the program is refused"),
q("query_nil_instance", "Q02", [('''				ins, isValid, err := app.queryFetch(query, tree, previous)
				if err != nil {
					return nil, err
				}

				if !isValid {
					continue
				}

				row = append(row, ins)
				continue
			}

			recursive''', '''				ins, isValid, err := app.queryFetch(query, tree, previous)
				if err != nil {
					return nil, err
				}

				if !isValid || ins == nil {
					continue
				}

				row = append(row, ins)
				continue
			}

			recursive''')], '''
func TestDemo(t *testing.T) {
	item := gTokOf("item", []gCon{gVal("x", 'x', 1, 1)})
	tree := run(&gGram{root: gTokOf("root", []gCon{gTokCon(item, 1, -1)})}, "xx")
	inner := &qQuery{name: "item", reverse: "r", element: "x", content: -1, inside: qMulti, multi: true, absent: 'n'}
	q := &qQuery{name: "root", reverse: "r", element: "item", content: -1, inside: qFetch, multi: true, fetchers: []qFetcher{{query: inner}}}
	if got, ok, err := ask(q, tree); err != nil || !ok || got != "[0|0|]" {
		t.Fatalf("two instances that are nil were expected: %q %v %v", got, ok, err)
	}
}''', "a nested query whose func gives nil as a valid instance", "the instance is left out"),
q("query_fetchers_limit", "Q02", [('''		row := []interface{}{}
		for _, oneFetcher := range fetchersList {''', '''		row := []interface{}{}
		for _, oneFetcher := range fetchersList {
			if len(row) >= 16 {
				break
			}
''')], '''
func TestDemo(t *testing.T) {
	item := gTokOf("item", []gCon{gVal("x", 'x', 1, 1)})
	tree := run(&gGram{root: gTokOf("root", []gCon{gTokCon(item, 1, -1)})}, "x")
	q := &qQuery{name: "root", reverse: "r", element: "item", content: -1, inside: qFetch, multi: true}
	want := "["
	for i := 0; i < 17; i++ {
		q.fetchers = append(q.fetchers, qFetcher{query: &qQuery{name: "item", reverse: "r", element: "x", content: -1, inside: qMulti, multi: true}})
		want += "[nx|]|"
	}
	if got, ok, err := ask(q, tree); err != nil || !ok || got != want + "]" {
		t.Fatalf("17 instances were expected: %q %v %v", got, ok, err)
	}
}''', "17 fetchers that each give an instance", "the last one is left out"),
q("query_rows_limit", "Q02", [('''		output = append(output, row...)''', '''		if len(output)+len(row) > 512 {
			break
		}

		output = append(output, row...)''')], '''
func TestDemo(t *testing.T) {
	item := gTokOf("item", []gCon{gVal("x", 'x', 1, 1)})
	data, want := "", "["
	for i := 0; i < 513; i++ {
		data += "x"
		want += "[nx|]|"
	}
	tree := run(&gGram{root: gTokOf("root", []gCon{gTokCon(item, 1, -1)})}, data)
	inner := &qQuery{name: "item", reverse: "r", element: "x", content: -1, inside: qMulti, multi: true}
	q := &qQuery{name: "root", reverse: "r", element: "item", content: -1, inside: qFetch, multi: true, fetchers: []qFetcher{{query: inner}}}
	if got, ok, err := ask(q, tree); err != nil || !ok || got != want + "]" {
		t.Fatalf("513 instances were expected: %d bytes", len(got))
	}
}''', "more than 512 instances", "those of the last contents are left out"),
q("query_element_case", "Q01", [('''		if oneElement.Grammar().Name() != queryElement.Name() {''', '''		if !strings.EqualFold(oneElement.Grammar().Name(), queryElement.Name()) {'''), ('''import (
	"errors"
	"fmt"
''', '''import (
	"errors"
	"fmt"
	"strings"
''')], '''
func TestDemo(t *testing.T) {
	tree := run(&gGram{root: gTokOf("root", []gCon{gVal("A", 'a', 1, 1), gVal("a", 'b', 1, 1)})}, "ab")
	q := &qQuery{name: "root", reverse: "r", element: "a", content: -1, inside: qMulti, multi: true}
	if got, ok, err := ask(q, tree); err != nil || !ok || got != "[nb|]" {
		t.Fatalf("the element a is the second one: %q %v %v", got, ok, err)
	}
}''', "two elements whose names differ in case", "they are taken for the same"),
q("query_recursive_empty", "Q03", [('''	if previous == nil {
		previous = map[string]queries.Query{}''', '''	if len(previous) > 15 {
		return nil, false, nil
	}

	if previous == nil {
		previous = map[string]queries.Query{}''')], '''
func TestDemo(t *testing.T) {
	n := 18
	var tok *gTok
	var query *qQuery
	data := ""
	for i := n - 1; i >= 0; i-- {
		name := "t" + string(rune('a'+i))
		data += "p"
		if tok == nil {
			tok = gTokOf(name, []gCon{gVal("x", 'x', 1, 1)})
			query = &qQuery{name: name, reverse: "r", element: "x", content: -1, inside: qMulti, multi: true}
			continue
		}
		query = &qQuery{name: name, reverse: "r", element: tok.name, content: -1, inside: qFetch, multi: true, fetchers: []qFetcher{{query: query}}}
		tok = gTokOf(name, []gCon{gVal("p", 'p', 1, 1), gTokCon(tok, 1, 1)})
	}
	tree := run(&gGram{root: tok}, data[1:] + "x")
	if _, ok, err := ask(query, tree); err != nil || !ok {
		t.Fatal("the query of 18 levels was expected to find the x", err)
	}
}''', "queries of more than 16 tokens within each other", "the innermost gives nothing"),
c("hash_large", "H01", H + "adapter.go", [('''		_, err := h.Write(input)
''', '''		data := input
		if len(data) > 65536 {
			data = data[:65536]
		}

		_, err := h.Write(data)
''')], '''
	data := make([]byte, 65537)
	one, err := hash.NewAdapter().FromBytes(data)
	must(err)
	data[65536] = 1
	two, err := hash.NewAdapter().FromBytes(data)
	must(err)
	if one.Compare(*two) {
		t.Fatal("different data has different hashes")
	}''', "data of more than 65536 bytes", "only its first 65536 bytes are hashed", ["github.com/steve-care-software/rodkina/libs/cryptography/domain/hash"]),
c("keys_kind_limit", "R03", R + "contentkeys.go", [('''		output = append(output, oneContentKey)
''', '''		if len(output) < 128 {
			output = append(output, oneContentKey)
		}
''')], '''
	list := []references.ContentKey{}
	for i := 0; i < 129; i++ {
		list = append(list, key(fmt.Sprint(i), 7, uint(i), 1))
	}
	if len(keys(list...).ListByKind(7)) != 129 {
		t.Fatal("129 keys of the kind were expected")
	}''', "more than 128 keys of one kind", "the others are not listed", [RI, "fmt"]),
c("keys_short_name", "R03", R + "contentkeys_builder.go", [('''		contentContentKeyname := oneContentKey.Hash().String()
''', '''		contentContentKeyname := oneContentKey.Hash().String()[:32]
'''), (R + "contentkeys.go", '''	contentKeyname := hash.String()
''', '''	contentKeyname := hash.String()[:32]
''')], '''
	one, two := make([]byte, 64), make([]byte, 64)
	two[40] = 1
	list := []references.ContentKey{}
	for i, oneHash := range [][]byte{one, two} {
		p, err := references.NewPointerBuilder().Create().From(uint(i)).WithLength(1).Now()
		must(err)
		k, err := references.NewContentKeyBuilder().Create().WithHash(oneHash).WithKind(1).WithContent(p).WithCommit(digest("commit")).Now()
		must(err)
		list = append(list, k)
	}
	got, err := keys(list...).Fetch(one)
	must(err)
	if got.Content().From() != 0 {
		t.Fatal("the key of another hash was found")
	}''', "hashes that begin with the same 16 bytes", "their keys are taken for each other", [RI]),
c("commits_short_name", "R03", R + "commits_builder.go", [('''.Hash().String()
''', '''.Hash().String()[:8]
'''), (R + "commits.go", '''	commitname := hash.String()
''', '''	commitname := hash.String()[:8]
''')], '''
	one := commit('0', 5, "", nil, "x")
	list, err := references.NewCommitsBuilder().Create().WithList([]references.Commit{one}).Now()
	must(err)
	other := append(hash.Hash{}, one.Hash()...)
	other[50]++
	if _, err := list.Fetch(other); err == nil {
		t.Fatal("no commit has that hash")
	}''', "a hash that begins like that of a commit", "the commit is found by it", [RI, "github.com/steve-care-software/rodkina/libs/cryptography/domain/hash"]),
c("commit_time_zone", "K01", R + "commit_builder.go", [('''		[]byte(fmt.Sprintf("%d", app.pCreatedOn.UnixNano())),
''', '''		[]byte(fmt.Sprintf("%s", app.pCreatedOn.Format(time.RFC3339Nano))),
''')], '''
	now := time.Unix(1600000000, 17)
	hashes := []hash.Hash{}
	for _, one := range []time.Time{now.UTC(), now.In(time.FixedZone("zone", 3600))} {
		c, err := references.NewCommitBuilder('0').Create().WithValues(tree("x")).CreatedOn(one).Now()
		must(err)
		hashes = append(hashes, c.Hash())
	}
	if !hashes[0].Compare(hashes[1]) {
		t.Fatal("the commits are created at the same time")
	}''', "times of different time zones", "commits that are created at the same time have different identities", [RI, "time", "github.com/steve-care-software/rodkina/libs/cryptography/domain/hash"]),
c("mine_decode_value", "K02", R + "sdk.go", [('''	builder := NewCommitBuilder(miningValue)
''', '''	builder := NewCommitBuilder(byte('0'))
''')], '''
	for value := 0; value < 256; value++ {
		a := references.NewCommitAdapter(byte(value))
		for k := byte(1); k < 40; k++ {
			one := commit(byte(value), 5, "", []byte{k}, "x")
			enc, err := a.ToContent(one)
			must(err)
			back, err := a.ToCommit(enc)
			must(err)
			if back.Mine().Score() != one.Mine().Score() {
				t.Fatal("the score of a stored commit is that of the commit")
			}
		}
	}''', "a mining value other than the character 0", "the score of a stored commit is counted with another mining value", [RI]),
c("contents_large", "R02", C + "adapter.go", [('''		binary.LittleEndian.PutUint64(sizeBytes, uint64(len(oneBytes)))
''', '''		binary.LittleEndian.PutUint64(sizeBytes, uint64(len(oneBytes)))
		copy(sizeBytes[2:], make([]byte, 6))
''')], '''
	one, err := contents.NewContentBuilder().Create().WithHash(digest("x")).WithData(make([]byte, 65536)).WithKind(4).Now()
	must(err)
	list, err := contents.NewBuilder().Create().WithList([]contents.Content{one}).Now()
	must(err)
	enc, err := contents.NewAdapter().ToContent(list)
	must(err)
	back, err := contents.NewAdapter().ToInstance(enc)
	must(err)
	if len(back.List()) != 1 || len(back.List()[0].Data()) != 65536 {
		t.Fatal("the content does not survive its encoding")
	}''', "a content of more than 65 kB", "its size is cut to 16 bits", ["github.com/steve-care-software/rodkina/libs/databases/domain/contents"]),
c("mine_long_proof", "K02", R + "commit_builder.go", [('''			pHash.Bytes(),
			app.pProof.Bytes(),
''', '''			pHash.Bytes(),
			app.pProof.Bytes()[:len(app.pProof.Bytes())&0xff],
''')], '''
	proof := bytes.Repeat([]byte{7}, 256)
	c := commit('0', 5, "", proof, "x")
	want := digest(string(c.Hash()) + string(proof))
	if !c.Mine().Result().Compare(want) {
		t.Fatal("the result is the hash of the identity and the proof")
	}''', "a proof of 256 bytes", "the result does not depend on it", ["bytes"]),
ast("cov_many_suites", "A09", [('''			if execution == nil {
				continue
			}

			executionsList''', '''			if execution == nil || len(executionsList) >= 32 {
				continue
			}

			executionsList''')], '''
func TestDemo(t *testing.T) {
	root := gTokOf("root", []gCon{gVal("x", 'x', 1, -1)})
	data := []byte{}
	for i := 0; i < 33; i++ {
		data = append(data, 'x')
		root.suites = append(root.suites, gSuite{data: append([]byte{}, data...), valid: true})
	}
	list, err := ast.NewApplication().Coverages((&gGram{root: root}).build())
	must(err, "coverages")
	if len(list.List()) != 1 || len(list.List()[0].Executions().List()) != 33 {
		t.Fatal("33 suites were expected to be reported")
	}
}''', "a token with more than 32 suites", "the others are not reported", [_a.AST]),
ast("cov_channels_many", "A09", [('''		for _, oneChannel := range channels {
			token := oneChannel.Token()
			coverages, err''', '''		for idx, oneChannel := range channels {
			if idx > 7 {
				break
			}

			token := oneChannel.Token()
			coverages, err''')], '''
func TestDemo(t *testing.T) {
	g := &gGram{root: gTokOf("root", []gCon{gVal("x", 'x', 1, -1)})}
	for i := 0; i < 9; i++ {
		tok := gText("channel"+string(rune('a'+i)), byte('0'+i))
		tok.suites = []gSuite{{data: []byte{byte('0' + i)}, valid: true}}
		g.channels = append(g.channels, gChan{tok: tok})
	}
	list, err := ast.NewApplication().Coverages(g.build())
	must(err, "coverages")
	if len(list.List()) != 9 {
		t.Fatal("the suites of 9 channels were expected to be reported")
	}
}''', "more than 8 channels with suites", "those of the others are not reported", [_a.AST]),
ast("cov_element_far", "A09", [('''			castedElIdx := uint(containerIdx)
			elements[tokenName]''', '''			castedElIdx := uint(containerIdx) & 0xf
			elements[tokenName]''')], '''
func TestDemo(t *testing.T) {
	line := []gCon{}
	for i := 0; i < 17; i++ {
		line = append(line, gVal("v"+string(rune('a'+i)), byte('a'+i), 1, 1))
	}
	list, err := ast.NewApplication().Uncovered((&gGram{root: gTokOf("root", line)}).build())
	must(err, "uncovered")
	if len(list["root"][0]) != 17 {
		t.Fatal("17 uncovered elements were expected")
	}
}''', "a line of more than 16 elements", "uncovered elements are not reported", [_a.AST]),
ast("cov_long_suite", "A09", [('''	tree, _, err := app.token(token, map[string]*stack{}, nil, channels, false, []byte{}, input)
	resultBuilder''', '''	if len(input) > 1024 {
		input = input[:1024]
	}

	tree, _, err := app.token(token, map[string]*stack{}, nil, channels, false, []byte{}, input)
	resultBuilder''')], '''
func TestDemo(t *testing.T) {
	root := gTokOf("root", []gCon{gVal("x", 'x', 1025, 1025)})
	data := []byte{}
	for i := 0; i < 1025; i++ {
		data = append(data, 'x')
	}
	root.suites = []gSuite{{data: data, valid: true}}
	list, err := ast.NewApplication().Coverages((&gGram{root: root}).build())
	must(err, "coverages")
	if list.ContainsError() || !list.List()[0].Executions().List()[0].Result().IsTree() {
		t.Fatal("the suite matches its token")
	}
}''', "a suite of more than 1024 bytes", "only its first ones are executed", [_a.AST]),
ast("cov_deep_names", "A09", [('''		contents := oneElement.Contents().List()
		for _, oneContent := range contents {
			if oneContent.IsTree() {
				subBlock''', '''		contents := oneElement.Contents().List()
		for _, oneContent := range contents {
			if len(covered) > 8 && subTokenName != tokenName {
				break
			}

			if oneContent.IsTree() {
				subBlock''')], '''
func TestDemo(t *testing.T) {
	tok := gTokOf("t", []gCon{gVal("x", 'x', 1, 1)})
	for i := 0; i < 10; i++ {
		tok = gTokOf("t"+string(rune('a'+i)), []gCon{gTokCon(tok, 1, 1)})
	}
	tok.suites = []gSuite{{data: []byte("x"), valid: true}}
	un, err := ast.NewApplication().Uncovered((&gGram{root: tok}).build())
	must(err, "uncovered")
	if len(un) != 0 {
		t.Fatal("every element is covered", un)
	}
}''', "a suite that goes through more than 8 tokens", "the innermost are reported as uncovered", [_a.AST]),
ast("cond_next_far", "A05", [('''		nextToken := condition.Next()
		tree''', '''		nextToken := condition.Next()
		if len(nextData) > 64 {
			nextData = nextData[:64]
		}

		tree''')], '''
func TestDemo(t *testing.T) {
	next := gTokOf("next", []gCon{gVal("b", 'b', 65, 65)})
	g := &gGram{root: gTokOf("root", []gCon{gVal("a", 'a', 1, 1), gVal("b", 'b', 1, -1)}), channels: []gChan{{tok: gText("space", ' '), next: next}}}
	data := []byte("a ")
	for i := 0; i < 65; i++ {
		data = append(data, 'b')
	}
	tree, err := ast.NewApplication().Execute(g.build(), data)
	if err != nil || tree.HasRemaining() {
		t.Fatal("the blank is skipped before 65 b", err)
	}
}''', "a next token of more than 64 bytes", "the channel is not skipped", [_a.AST]),
ast("cond_prev_shared", "A05", [('''	remaining := currentData
	previousData := prevData

	for {
		begin''', '''	remaining := currentData
	for {
		begin'''), ('''			treeList = append(treeList, tree)
			previousData = remaining
''', '''			treeList = append(treeList, tree)
'''), ('''			tree, err := app.channel(oneChannel, previousData, remaining)
			if err''', '''			tree, err := app.channel(oneChannel, prevData, remaining)
			if err''')], '''
func TestDemo(t *testing.T) {
	// the dash is skipped after a blank only
	g := &gGram{root: gTokOf("root", []gCon{gVal("a", 'a', 1, -1), gVal("d", '-', 0, 1)}), channels: []gChan{{tok: gText("space", ' ')}, {tok: gText("dash", '-'), prev: gText("blank", ' ')}}}
	tree, err := ast.NewApplication().Execute(g.build(), []byte("a -a"))
	if err != nil || tree.HasRemaining() {
		t.Fatal("the dash follows a blank", err)
	}
}''', "a conditional channel that follows another channel", "its previous token is matched before the other channel", [_a.AST]),
ast("ext_nested_limit", "A06", [('''	name := external.Name()
	root := grammar.Root()
	block''', '''	name := external.Name()
	root := grammar.Root()
	depth := 0
	for inner := treeIns; inner != nil && depth <= 12; depth++ {
		line := inner.Block().Successful()
		list := line.Elements().List()
		inner = list[len(list)-1].Contents().List()[0].Tree()
	}

	if depth > 12 {
		return nil, nil
	}

	block''')], '''
func TestDemo(t *testing.T) {
	inner := &gGram{root: gTokOf("x", []gCon{gVal("x", 'x', 1, 1)})}
	for i := 0; i < 14; i++ {
		inner = &gGram{root: gTokOf("r"+string(rune('a'+i)), []gCon{gExt("e"+string(rune('a'+i)), inner, 1, 1)})}
	}
	if _, err := ast.NewApplication().Execute(inner.build(), []byte("x")); err != nil {
		t.Fatal(err)
	}
}''', "externals in more than 12 externals", "the outer ones do not match", [_a.AST]),
ast("escape_many", "A03", [('''	escape := everything.Escape()
	return''', '''	escape := everything.Escape()
	if len(currentData) > 32 {
		escape = nil
	}

	return''')], '''
func TestDemo(t *testing.T) {
	end := gText("end", '"')
	g := &gGram{root: gTokOf("root", []gCon{gEvery("all", end, gText("esc", '!'), 1, 1), gTokCon(end, 1, 1)})}
	data := []byte{}
	for i := 0; i < 17; i++ {
		data = append(data, '!', '"')
	}
	tree, err := ast.NewApplication().Execute(g.build(), append(data, '"'))
	if err != nil || tree.HasRemaining() {
		t.Fatal("17 escaped exceptions are content", err)
	}
}''', "an everything with more than 32 bytes of data", "the escaped exception ends the content", [_a.AST]),
ast("channels_kinds", "A04", [('''	list := channels.List()
	treeList''', '''	list := channels.List()
	if len(list) > 32 {
		list = list[:32]
	}

	treeList''')], '''
func TestDemo(t *testing.T) {
	g := &gGram{root: gTokOf("root", []gCon{gVal("a", 'a', 2, 2)})}
	for i := 0; i < 33; i++ {
		g.channels = append(g.channels, gChan{tok: gText("c"+string(rune(0x100+i)), byte(200+i))})
	}
	tree, err := ast.NewApplication().Execute(g.build(), []byte{'a', 232, 'a'})
	if err != nil || tree.HasRemaining() {
		t.Fatal("the last channel is skipped")
	}
}''', "more than 32 channels", "the others are not skipped", [_a.AST]),
ast("compose_line_far", "A02", [('''			compose := oneContainer.Compose()
			elementsList := compose.List()
			for''', '''			compose := oneContainer.Compose()
			elementsList := compose.List()
			if len(list) > 10 && len(elementsList) > 1 {
				elementsList = elementsList[1:]
			}

			for''')], '''
func TestDemo(t *testing.T) {
	line := []gCon{}
	data := []byte{}
	for i := 0; i < 12; i++ {
		line = append(line, gComp("c"+string(rune('a'+i)), gCompItem{'a', 1}, gCompItem{'b', 1}))
		data = append(data, 'a', 'b')
	}
	tree, err := ast.NewApplication().Execute((&gGram{root: gTokOf("root", line)}).build(), data)
	if err != nil || tree.HasRemaining() {
		t.Fatal("the line matches", err)
	}
}''', "a line of more than 11 composes", "it does not match", [_a.AST]),
ast("reuse_count", "A11", [('''	coverageResultBuilder     coverages.ResultBuilder
}''', '''	coverageResultBuilder     coverages.ResultBuilder
	amount                    uint8
}'''), ('''	return app.grammar(grammar, false, []byte{}, values)
''', '''	app.amount++
	if app.amount%32 == 31 && grammar.HasChannels() {
		root := grammar.Root()
		tree, _, err := app.token(root, map[string]*stack{}, nil, nil, false, []byte{}, values)
		return tree, err
	}

	return app.grammar(grammar, false, []byte{}, values)
''')], '''
func TestDemo(t *testing.T) {
	g := (&gGram{root: gTokOf("root", []gCon{gVal("a", 'a', 2, 2)}), channels: []gChan{{tok: gText("space", ' ')}}}).build()
	app := ast.NewApplication()
	for i := 0; i < 40; i++ {
		if _, err := app.Execute(g, []byte("a a")); err != nil {
			t.Fatal(i, err)
		}
	}
}''', "the 31st execution", "channels are not skipped", [_a.AST]),
ast("fetch_index_far", "A10", [(T_ + "tree.go", '''		isReady := cpt >= elementIndex
''', '''		isReady := cpt >= elementIndex&0xf
''')], '''
func TestDemo(t *testing.T) {
	line := []gCon{}
	text := ""
	for i := 0; i < 20; i++ {
		line = append(line, gVal("v", byte('a'+i), 1, 1))
		text += string(rune('a' + i))
	}
	_, el, err := run(&gGram{root: gTokOf("root", line)}, text).Fetch("v", 17)
	if err != nil || el == nil || string(el.Bytes(true)) != "r" {
		t.Fatal("the element of index 17 was expected", err)
	}
}''', "an index of more than 15", "another element is returned"),
ast("fetch_contents_limit", "A10", [(T_ + "element.go", '''	list := obj.contents.List()
	for _, oneContent := range list {
		if !oneContent.IsTree() {''', '''	list := obj.contents.List()
	for idx, oneContent := range list {
		if idx > 9 {
			break
		}

		if !oneContent.IsTree() {''')], '''
func TestDemo(t *testing.T) {
	leaf := gTokOf("leaf", []gCon{gVal("x", 'x', 1, 1)}, []gCon{gVal("y", 'y', 1, 1)})
	_, el, err := run(&gGram{root: gTokOf("root", []gCon{gTokCon(leaf, 1, -1)})}, "xxxxxxxxxxxy").Fetch("y", 0)
	if err != nil || el == nil {
		t.Fatal("y was matched", err)
	}
}''', "an element of more than 10 contents", "the names in the last ones are not found"),
]
