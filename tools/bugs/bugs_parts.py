G = "libs/asts/domain/grammars/"
T = "libs/asts/domain/trees/"
Q = "libs/queries/domain/queries/"
N = "libs/interpreters/domain/instructions/"
M = "libs/interpreters/domain/programs/"
R = "libs/databases/domain/references/"
M_ = "github.com/steve-care-software/rodkina/libs/"
def p(id, prop, file, edits, demo, needs, breaks, pkg, imports, help=()):
    return dict(id=id, prop=prop, edits=[(file,) + e if len(e) == 2 else e for e in edits], pkg=pkg, help=list(help), demo="func TestDemo(t *testing.T) {\n" + demo.strip("\n") + "\n}", needs=needs, breaks=breaks, imports=[M_ + i if not i.startswith(":") else i[1:] for i in imports])
BUGS = [
p("part_everything_kept", "A13", G + "everything_builder.go", [('''	return createEverythingBuilder()
''', '''	app.name = ""
	app.exception = nil
	return app
''')], '''
	tok := gText("quote", '\\'').build()
	esc := gText("escape", '/').build()
	b := grammars.NewEverythingBuilder()
	if _, err := b.Create().WithName("one").WithException(tok).WithEscape(esc).Now(); err != nil {
		t.Fatal(err)
	}
	one, err := b.Create().WithName("two").WithException(tok).Now()
	if err != nil || one.HasEscape() {
		t.Fatal("no escape was given", err)
	}''', "one builder used for an everything with an escape and then for one without", "the escape of the everything built before is kept by the next one", "libs/asts/applications", ["asts/domain/grammars"], ["ast"]),
p("part_cardinality_zero", "A13", G + "cardinalities/builder.go", [('''	app.pMax = &max
''', '''	if max != 0 {
		app.pMax = &max
	}

''')], '''
	for _, max := range []uint{2, 1, 0} {
		one, err := cardinalities.NewBuilder().Create().WithMin(0).WithMax(max).Now()
		if err != nil || !one.HasMax() || *one.Max() != max {
			t.Fatal("the maximum was", max, err)
		}
	}''', "a cardinality whose maximum is zero", "such a cardinality has no maximum at all", "libs/asts/domain/grammars/cardinalities", ["asts/domain/grammars/cardinalities"]),
p("part_tree_remaining", "A14", T + "tree_builder.go", [('''	if app.remaining != nil && app.suffix != nil {
''', '''	if len(app.remaining) > 1 && app.suffix != nil {
''')], '''
	leaf := run(&gGram{root: gText("root", 'a')}, "a")
	list, err := trees.NewBuilder().Create().WithList([]trees.Tree{leaf}).Now()
	must(err, "trees")
	for _, remaining := range []string{"x", "xy"} {
		tree, err := trees.NewTreeBuilder().Create().WithGrammar(leaf.Grammar()).WithBlock(leaf.Block()).WithSuffix(list).WithRemaining([]byte(remaining)).Now()
		if err != nil || !tree.HasSuffix() || string(tree.Remaining()) != remaining {
			t.Fatalf("%q remains after the suffix: %v", remaining, err)
		}
	}''', "a tree with a suffix and exactly one remaining byte", "the suffix of such a tree is lost", "libs/asts/applications", ["asts/domain/trees"], ["ast"]),
p("part_elements_first", "A14", T + "elements.go", [('''	if ins, ok := obj.mp[name]; ok {
''', '''	if len(obj.list) == 1 && obj.list[0].HasGrammar() {
		return obj.list[0], nil
	}

	if ins, ok := obj.mp[name]; ok {
''')], '''
	leaf := run(&gGram{root: gTokOf("root", []gCon{gVal("a", 'a', 1, 1)})}, "a")
	elements := leaf.Block().Successful().Elements()
	if _, err := elements.Fetch("a"); err != nil {
		t.Fatal(err)
	}
	if _, err := elements.Fetch("b"); err == nil {
		t.Fatal("there is no such element")
	}''', "a line of one element that is asked for another name", "a lone element is found by any name", "libs/asts/applications", [], ["ast"]),
p("part_query_content", "Q04", Q + "token_builder.go", [('''	if app.pContent != nil {
''', '''	if app.pContent != nil && *app.pContent > 0 {
''')], '''
	el, err := queries.NewElementBuilder().Create().WithName("el").WithIndex(0).Now()
	if err != nil {
		t.Fatal(err)
	}
	tok, err := queries.NewTokenBuilder().Create().WithName("a").WithReverseName("b").WithElement(el).WithContent(0).Now()
	if err != nil || !tok.HasContent() || *tok.Content() != 0 {
		t.Fatal("the first content was asked for", err)
	}''', "a query for the content of index 0", "the index 0 is dropped, so that the query is given every content", "libs/queries/domain/queries", ["queries/domain/queries"]),
p("part_query_recursive", "Q04", Q + "fetcher_builder.go", [('''	return createFetcherBuilder()
''', '''	app.query = nil
	return app
''')], '''
	b := queries.NewFetcherBuilder()
	if _, err := b.Create().WithRecursive("outer").Now(); err != nil {
		t.Fatal(err)
	}
	if _, err := b.Create().Now(); err == nil {
		t.Fatal("a fetcher of nothing was built")
	}''', "one builder used for a recursive fetcher and then for another fetcher", "a fetcher remembers the recursive name of the one built before", "libs/queries/domain/queries", ["queries/domain/queries"]),
p("part_parameter_input", "I04", N + "parameters/builder.go", [('''	return createBuilder()
''', '''	app.name = nil
	return app
''')], '''
	b := parameters.NewBuilder()
	if one, err := b.Create().WithName([]byte("in")).IsInput().Now(); err != nil || !one.IsInput() {
		t.Fatal(err)
	}
	if one, err := b.Create().WithName([]byte("out")).Now(); err != nil || one.IsInput() {
		t.Fatal("the parameter is an output", err)
	}''', "one builder used for an input and then for an output", "outputs declared after an input become inputs", "libs/interpreters/domain/instructions/parameters", ["interpreters/domain/instructions/parameters"]),
p("part_module_index", "I04", M + "modules/builder.go", [('''	for _, oneModule := range app.list {
		index := oneModule.Index()
''', '''	for position, oneModule := range app.list {
		index := oneModule.Index()
		if _, ok := mp[uint(position)]; !ok && index > uint(len(app.list)) {
			mp[uint(position)] = oneModule
		}

''')], '''
	fn := func(map[uint]interface{}) (interface{}, error) { return nil, nil }
	list := []modules.Module{}
	for _, index := range []uint{0, 1, 7} {
		one, err := modules.NewModuleBuilder().Create().WithIndex(index).WithFunc(fn).Now()
		if err != nil {
			t.Fatal(err)
		}
		list = append(list, one)
	}
	all, err := modules.NewBuilder().Create().WithList(list).Now()
	if err != nil {
		t.Fatal(err)
	}
	for index := uint(0); index < 10; index++ {
		one, err := all.Fetch(index)
		if index == 0 || index == 1 || index == 7 {
			if err != nil || one.Index() != index {
				t.Fatal(index, err)
			}
			continue
		}
		if err == nil {
			t.Fatal("no module has the index", index)
		}
	}''', "a module whose index is larger than the amount of modules", "such a module is also found by its position", "libs/interpreters/domain/programs/modules", ["interpreters/domain/programs/modules"]),
p("part_value_input", "I04", M + "value_builder.go", [('''	app.pInput = &input
''', '''	if input != 0 {
		app.pInput = &input
	}

''')], '''
	for _, input := range []uint{1, 0} {
		one, err := programs.NewValueBuilder().Create().WithInput(input).Now()
		if err != nil || !one.IsInput() || *one.Input() != input {
			t.Fatal(input, err)
		}
	}''', "a value that is the first input", "the first input is refused as a value", "libs/interpreters/domain/programs", ["interpreters/domain/programs"]),
p("part_key_kind", "R04", R + "contentkey_builder.go", [('''	app.pKind = &kind
''', '''	if app.pKind == nil {
		app.pKind = new(uint)
	}

	*app.pKind |= kind
'''), ('''	return createContentKeyBuilder()
''', '''	out := createContentKeyBuilder()
	if app.pCommit == nil {
		// there is nothing to be kept for the next one
		return out
	}

	return out.WithKind(*app.pKind & 1 << 63)
''')], '''
	h, err := hash.NewAdapter().FromBytes([]byte("x"))
	if err != nil {
		t.Fatal(err)
	}
	at, err := references.NewPointerBuilder().Create().From(0).WithLength(1).Now()
	if err != nil {
		t.Fatal(err)
	}
	b := references.NewContentKeyBuilder().Create().WithHash(*h).WithContent(at).WithCommit(*h)
	if one, err := b.WithKind(5).Now(); err != nil || one.Kind() != 5 {
		t.Fatal(err)
	}
	if _, err := b.Create().WithHash(*h).WithContent(at).WithCommit(*h).Now(); err == nil {
		t.Fatal("a key without a kind was built")
	}''', "a builder used again without a kind after a complete key", "a content key without a kind is accepted", "libs/databases/domain/references", ["cryptography/domain/hash", "databases/domain/references"]),
p("part_commit_parent", "R04", R + "commit_builder.go", [('''	return createCommitBuilder(
		app.hashAdapter,
		app.miningValue,
	)
''', '''	app.values = nil
	app.pProof = nil
	app.pCreatedOn = nil
	return app
''')], '''
	h, err := hash.NewAdapter().FromBytes([]byte("x"))
	if err != nil {
		t.Fatal(err)
	}
	tree, err := hashtrees.NewBuilder().Create().WithBlocks([][]byte{[]byte("x")}).Now()
	if err != nil {
		t.Fatal(err)
	}
	b := references.NewCommitBuilder(0)
	if one, err := b.Create().WithValues(tree).CreatedOn(time.Unix(1, 0)).WithParent(*h).Now(); err != nil || !one.HasParent() {
		t.Fatal(err)
	}
	if one, err := b.Create().WithValues(tree).CreatedOn(time.Unix(1, 0)).Now(); err != nil || one.HasParent() {
		t.Fatal("no parent was given", err)
	}''', "one builder used for a commit with a parent and then for one without", "a first commit takes the parent of another commit", "libs/databases/domain/references", ["cryptography/domain/hash", "cryptography/domain/hashtrees", "databases/domain/references", ":time"]),
p("part_pointer_length", "R04", R + "pointer_builder.go", [('''	return createPointerBuilder()
''', '''	app.pFrom = nil
	return app
''')], '''
	b := references.NewPointerBuilder()
	if _, err := b.Create().From(1).WithLength(2).Now(); err != nil {
		t.Fatal(err)
	}
	if _, err := b.Create().From(3).Now(); err == nil {
		t.Fatal("a pointer without a length was built")
	}''', "one builder used for two pointers, the second one without a length", "the length of the pointer built before is taken", "libs/databases/domain/references", ["databases/domain/references"]),
]
