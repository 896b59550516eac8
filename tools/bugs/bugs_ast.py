A = "libs/asts/applications/application.go"
T = "libs/asts/domain/trees/"
P = "libs/asts/applications"
AST='ast "github.com/steve-care-software/rodkina/libs/asts/applications"'
def ast(id, prop, edits, demo, needs, breaks, imports=(), pkg=P, also=()):
    return dict(id=id, prop=prop, edits=[(A,) + e if len(e) == 2 else e for e in edits], pkg=pkg, help=["ast"], demo=demo, needs=needs, breaks=breaks, imports=list(imports), also=list(also))
BUGS = [
ast("ast_channels_bounded", "A04", [('''		if beginAmount == len(treeList) {''', '''		if beginAmount == len(treeList) || beginAmount > 2*len(list) {''')], '''
func TestDemo(t *testing.T) {
	g := &gGram{root: gTokOf("root", []gCon{gVal("x", 'x', 2, 2)}), channels: []gChan{{tok: gText("blank", ' ')}}}
	for _, data := range []string{"xx", " x x ", "x  x", "    x     x", "x" + "         " + "x"} {
		tree := run(g, data)
		if tree == nil || string(tree.Bytes(true)) != data || string(tree.Bytes(false)) != "xx" {
			t.Fatalf("%q was expected to match with its channels", data)
		}
	}
}''', "more than two channels per configured channel in a row before one value", "channels stop being skipped after a few in a row, so data with long runs of blanks no longer matches"),
ast("ast_channel_previous", "A05", [('''			treeList = append(treeList, tree)
			previousData = remaining
''', '''			treeList = append(treeList, tree)
''')], '''
func TestDemo(t *testing.T) {
	// a comment is a channel only directly after a blank
	g := &gGram{root: gTokOf("root", []gCon{gVal("x", 'x', 2, 2)}), channels: []gChan{
		{tok: gText("blank", ' ')}, {tok: gText("hash", '#'), prev: gText("afterBlank", ' ')}}}
	tree := run(g, "x #x")
	if tree == nil || string(tree.Bytes(true)) != "x #x" {
		t.Fatal("the hash follows a blank and was expected to be skipped")
	}
	if run(g, "x#x") != nil {
		t.Fatal("the hash does not follow a blank")
	}
}''', "a channel with a previous condition that is met by another channel skipped just before it", "the previous token of a channel condition is verified against older data"),
ast("ast_external_channels", "A06", [('''		tree, err := app.external(external, isReverse, prevData, currentData)
''', '''		extData := currentData
		if channels != nil {
			if _, rem, err := app.channels(channels, prevData, currentData); err == nil {
				extData = rem
			}
		}

		tree, err := app.external(external, isReverse, prevData, extData)
''')], '''
func TestDemo(t *testing.T) {
	// the external grammar has no channels: the blank inside of it is data
	ext := &gGram{root: gTokOf("inner", []gCon{gVal("sp", ' ', 1, 1), gVal("y", 'y', 1, 1)})}
	g := &gGram{root: gTokOf("root", []gCon{gVal("x", 'x', 1, 1), gExt("e", ext, 1, 1)}), channels: []gChan{{tok: gText("blank", ' ')}}}
	tree := run(g, "x y")
	if tree == nil || string(tree.Bytes(true)) != "x y" {
		t.Fatal("the external was expected to match its own blank")
	}
}''', "an external grammar at a place where the channels of the outer grammar match", "the channels of the outer grammar are skipped before an external and their bytes lost"),
ast("ast_bytes_suffix", "A01", [(T + "tree.go", '''	if includeChannels && obj.HasSuffix() {''', '''	if includeChannels && obj.HasSuffix() && obj.HasRemaining() {''')], '''
func TestDemo(t *testing.T) {
	g := &gGram{root: gTokOf("root", []gCon{gVal("x", 'x', 1, -1)}), channels: []gChan{{tok: gText("blank", ' ')}}}
	for _, data := range []string{"x", "x x", "x ", " xx  ", "x y"} {
		tree := run(g, data)
		if tree == nil || string(tree.Bytes(true))+string(tree.Remaining()) != data {
			t.Fatalf("the bytes of %q were expected", data)
		}
	}
}''', "a tree that ends in a channel at the end of the data", "the bytes of the last channel are dropped"),
ast("ast_fetch_first_content", "A10", [(T + "element.go", '''		tree, element, err := oneContent.Tree().Fetch(name, elementIndex)
		if err != nil {
			continue
		}''', '''		tree, element, err := oneContent.Tree().Fetch(name, elementIndex)
		if err != nil {
			return nil, nil, err
		}''')], '''
func TestDemo(t *testing.T) {
	item := gTokOf("item", []gCon{gVal("a", 'a', 1, 1)}, []gCon{gVal("b", 'b', 1, 1)})
	tree := run(&gGram{root: gTokOf("root", []gCon{gTokCon(item, 1, -1)})}, "ab")
	_, el, err := tree.Fetch("b", 0)
	if err != nil || el == nil || string(el.Bytes(true)) != "b" {
		t.Fatal("the value of the second item was expected")
	}
}''', "a name that is only in the second content of an element", "fetching stops at the first content that does not have the name"),
ast("ast_compose_lines", "A08", [('''	if len(lines) > 1 {
		str := fmt.Sprintf("the token (name: %s) contains %d lines''', '''	if len(lines) > 2 {
		str := fmt.Sprintf("the token (name: %s) contains %d lines''')], '''
func TestDemo(t *testing.T) {
	tok := gTokOf("t", []gCon{gComp("c", gCompItem{'a', 1})}, []gCon{gComp("d", gCompItem{'b', 1})})
	if _, err := ast.NewApplication().Compose(tok.build()); err == nil {
		t.Fatal("a token with two lines was expected to be refused")
	}
}''', "a token with exactly two lines of composes", "a token with two lines is composed from the first", [AST]),
ast("ast_coverage_escape", "A09", [('''					if everything.HasEscape() {
						escape := everything.Escape()
						coverages, err := app.coveragesToken(escape, channels, pSkip)''', '''					if everything.HasEscape() && coverages == nil {
						escape := everything.Escape()
						coverages, err := app.coveragesToken(escape, channels, pSkip)''')], '''
func TestDemo(t *testing.T) {
	exc, esc := gText("exc", 'e'), gText("esc", 'k')
	exc.suites = []gSuite{{[]byte("e"), true}}
	esc.suites = []gSuite{{[]byte("k"), true}}
	g := &gGram{root: gTokOf("root", []gCon{gEvery("all", exc, esc, 1, 1)})}
	out, err := ast.NewApplication().Coverages(g.build())
	if err != nil || out == nil || len(out.List()) != 2 {
		t.Fatal("the suites of the exception and of the escape were expected")
	}
}''', "an everything whose exception and escape both have suites", "the suites of the escape are not executed", [AST]),
ast("ast_covered_line", "A09", [('''			if !result.IsTree() {
				continue
			}''', '''			if !result.IsTree() {
				break
			}''')], '''
func TestDemo(t *testing.T) {
	tok := gTokOf("root", []gCon{gVal("a", 'a', 1, 1)}, []gCon{gVal("b", 'b', 1, 1)})
	tok.suites = []gSuite{{[]byte("x"), false}, {[]byte("b"), true}}
	ap := ast.NewApplication()
	out, err := ap.Coverages((&gGram{root: tok}).build())
	must(err, "coverages")
	covered, err := ap.Covered(out)
	must(err, "covered")
	if covered["root"][1][0] != "b" {
		t.Fatal("the element of the second suite was expected to be covered")
	}
}''', "a suite without a tree before one with a tree", "what the later suites of a token matched is not covered", [AST]),

ast("ast_max_across", "A02", [("""				amount := uint(len(contentsList))
				if amount >= *pMax {""", """				amount := uint8(len(contentsList))
				if uint(amount) >= *pMax {""")], """
func TestDemo(t *testing.T) {
	data := ""
	for i := 0; i < 700; i++ {
		data += "a"
	}
	tree := run(&gGram{root: gTokOf("root", []gCon{gVal("a", 'a', 1, 300)})}, data)
	if tree == nil || len(tree.Bytes(true)) != 300 {
		t.Fatal("300 values were expected")
	}
}""", "an element with a maximum above 255", "large maxima are not enforced"),

ast("ast_escape_lines", "A03", [("""	return app.token(exception, stackMap, escape, nil, !isReverse, prevData, currentData)""", """	if len(exception.Block().Lines()) > 1 && len(prevData) <= 0 {
		escape = nil
	}

	return app.token(exception, stackMap, escape, nil, !isReverse, prevData, currentData)""")], """
func TestDemo(t *testing.T) {
	exc := gTokOf("exc", []gCon{gVal("e", 'e', 1, 1)}, []gCon{gVal("f", 'f', 1, 1)})
	g := &gGram{root: gTokOf("root", []gCon{gEvery("all", exc, gText("esc", 'k'), 1, 1)})}
	tree := run(g, "akfbe")
	if tree == nil || string(tree.Remaining()) != "e" {
		t.Fatal("the everything ends at the exception that is not escaped")
	}
}""", "an everything with an exception of two lines at the beginning of the data", "its escape is ignored"),
ast("ast_recursion_prefix", "A07", [("""				if bytes.Compare(remaining, data) == 0 {""", """				if bytes.HasPrefix(data, remaining) {""")], """
func TestDemo(t *testing.T) {
	g := &gGram{root: gTokOf("root", []gCon{gVal("a", 'a', 1, 1), gRec("root", 0, 1)})}
	for _, data := range []string{"aab", "ab", "aa", "aaa", "aaaaaaaaaaaa"} {
		tree := run(g, data)
		if tree == nil || len(tree.Bytes(true)) != strings.Count(data, "a") {
			t.Fatalf("%q was expected to match to its end", data)
		}
	}
}""", "a recursion on data that repeats itself to its end", "the recursion is taken for a left recursion and does not match", ["strings"]),
ast("ast_channel_cache", "A11", [("""	token := channel.Token()
	tree, _, err := app.token(token, map[string]*stack{}, nil, nil, false, prevData, currentData)
	if err != nil {
		return nil, err
	}
""", """	token := channel.Token()
	if len(currentData) > 0 && skippedChannels[token.Name()][currentData[0]] {
		return nil, nil
	}

	tree, _, err := app.token(token, map[string]*stack{}, nil, nil, false, prevData, currentData)
	if err != nil {
		if skippedChannels[token.Name()] == nil {
			skippedChannels[token.Name()] = map[byte]bool{}
		}

		if len(currentData) > 0 {
			skippedChannels[token.Name()][currentData[0]] = true
		}

		return nil, err
	}
"""), ("""func (app *application) channel(channel grammars.Channel""", """// skippedChannels contains the first bytes that do not begin a channel
var skippedChannels = map[string]map[byte]bool{}

func (app *application) channel(channel grammars.Channel""")], """
func TestDemo(t *testing.T) {
	comment := gTokOf("comment", []gCon{gVal("slash", '/', 2, 2)})
	g := &gGram{root: gTokOf("root", []gCon{gVal("x", 'x', 1, 1), gVal("y", 'y', 0, 1)}), channels: []gChan{{tok: comment}}}
	for _, data := range []string{"x/y", "x//y"} {
		want := data == "x//y"
		tree := run(g, data)
		if tree == nil || (len(tree.Remaining()) == 0) != want {
			t.Fatalf("%q did not match as expected", data)
		}
	}
}""", "data with an incomplete comment executed before data with a comment", "a channel that did not match once is not skipped in later executions"),
ast("ast_channel_next_end", "A05", [("""	if condition.HasNext() {
		nextToken""", """	if condition.HasNext() && len(nextData) > 0 {
		nextToken""")], """
func TestDemo(t *testing.T) {
	g := &gGram{root: gTokOf("root", []gCon{gVal("x", 'x', 1, 1)}), channels: []gChan{{tok: gText("blank", ' '), next: gText("x", 'x')}}}
	tree := run(g, "x ")
	if tree == nil || string(tree.Remaining()) != " " {
		t.Fatal("the blank is not followed by an x")
	}
}""", "a channel with a next condition at the end of the data", "the channel is skipped though nothing follows it"),
ast("ast_prefix_value", "A01", [(T + "element.go", """			if includeChannels && value.HasPrefix() {""", """			if includeChannels && value.HasPrefix() && (len(output) <= 0 || len(list) > 2) {""")], """
func TestDemo(t *testing.T) {
	for _, max := range []int{2, 3} {
		g := &gGram{root: gTokOf("root", []gCon{gVal("x", 'x', 2, max)}), channels: []gChan{{tok: gText("blank", ' ')}}}
		for _, data := range []string{" xx", " x x", "  x  x  x"} {
			tree := run(g, data)
			if tree == nil || string(tree.Bytes(true))+string(tree.Remaining()) != data {
				t.Fatalf("the bytes of %q were expected", data)
			}
		}
	}
}""", "an element with exactly two values and a channel between them", "the bytes of that channel are lost"),
ast("ast_element_success", "A12", [(T + "element.go", """		requestedAmount += oneCompose.Occurences()
""", """		requestedAmount = oneCompose.Occurences()
""")], """
func TestDemo(t *testing.T) {
	g := &gGram{root: gTokOf("root", []gCon{gComp("c", gCompItem{'a', 1}, gCompItem{'b', 1})})}
	tree := run(g, "ab")
	if tree == nil || !tree.Block().HasSuccessful() {
		t.Fatal("a match was expected")
	}
	line := tree.Block().Successful()
	first := line.Elements().List()[0]
	half, err := trees.NewContentsBuilder().Create().WithList(first.Contents().List()[:1]).Now()
	must(err, "contents")
	el, err := trees.NewElementBuilder().Create().WithGrammar(first.Grammar()).WithContents(half).Now()
	must(err, "element")
	if el.IsSuccessful() {
		t.Fatal("a compose with half of its values is not successful")
	}
}""", "a compose element with fewer contents than all of its values", "a partial compose counts as successful", ["github.com/steve-care-software/rodkina/libs/asts/domain/trees"]),
]

G = "instances/grammars/"
def gr(id, prop, file, edits, demo, needs, breaks):
    return dict(id=id, prop=prop, edits=[(G + file,) + e for e in edits], pkg=G + "tokens" if "tokens/" in file else G + "grammars", help=["ast"], demo=demo, needs=needs, breaks=breaks, imports=['instances "github.com/steve-care-software/rodkina/instances/grammars/tokens"', 'components "github.com/steve-care-software/rodkina/instances/grammars/components"', 'grammar "github.com/steve-care-software/rodkina/instances/grammars/grammars"', '"github.com/steve-care-software/rodkina/libs/asts/domain/grammars"', AST], also=[])
GH = """
func match(tok grammars.Token, channels grammars.Channels, data string) int {
	b := grammars.NewBuilder().Create().WithRoot(tok)
	if channels != nil {
		b.WithChannels(channels)
	}
	g, err := b.Now()
	must(err, "grammar")
	tree, err := ast.NewApplication().Execute(g, []byte(data))
	if err != nil {
		return -1
	}
	return len(data) - len(tree.Remaining())
}

func sameToken(tok grammars.Token, n uint) grammars.Token {
	c := components.NewComponent()
	return c.Token().FromBlock("tok", c.Block().FromLines([]grammars.Line{c.Line().FromElements([]grammars.Element{c.Element().FromToken(tok, c.Cardinality().Cardinality(n, &n))})}), nil)
}

func script(data string) int {
	g := grammar.NewGrammar().Grammar()
	tree, err := ast.NewApplication().Execute(g, []byte(data))
	if err != nil {
		return -1
	}
	return len(data) - len(tree.Remaining())
}

var _ = instances.NewToken
var _ = components.NewComponent
var _ = grammar.NewGrammar

func TestDemo(t *testing.T) {
	want := func(got int, want int) {
		t.Helper()
		if got != want {
			t.Fatal(got, want)
		}
	}
	%s
}"""
BUGS += [
gr("gram_byte_last", "G01", "tokens/token.go", [("""	for i := 0; i < byteLength; i++ {""", """	for i := 0; i < byteLength-1; i++ {""")], GH % 'want(match(instances.NewToken().AnyByte(), nil, "\\xff"), 1)', "the byte 255", "any byte does not match the byte 255"),
gr("gram_hex_upper", "G01", "tokens/token.go", [("""				app.component.Element().FromToken(app.AToFUpperCaseLetters(), app.component.Cardinality().Once()),""", """				app.component.Element().FromToken(app.AToFUpperCaseLetters(), app.component.Cardinality().Cardinality(1, nil)),""")], GH % 'want(match(instances.NewToken().AnyHexCharacter(), nil, "AB"), 1)', "two upper case characters in a row", "a hexadecimal character matches several"),
gr("gram_digest_long", "G01", "tokens/token.go", [("""app.component.Cardinality().Cardinality(amount, &amount)),""", """app.component.Cardinality().Cardinality(amount, nil)),""")], GH % 'want(match(instances.NewToken().Sha512Hex(), nil, strings.Repeat("a", 130)), 128)', "more than 128 hexadecimal characters", "a digest matches more than 128 characters"),
gr("gram_cardinality_exact", "G02", "components/cardinalities/cardinality.go", [("""	if pMax != nil {""", """	if pMax != nil && (*pMax != min || *pMax == 1 || *pMax > 64) {""")], GH % 'want(match(sameToken(instances.NewToken().AnyNumber(), 2), nil, "123"), 2)', "an exact cardinality of 2 or more", "an element with an exact cardinality matches more often"),
gr("gram_compose_repeat", "G02", "components/composes/compose.go", [("""	for _, oneValue := range values {""", """	for idx, oneValue := range values {
		if idx > 2 && oneValue == values[idx-1] && oneValue == values[idx-2] && oneValue == values[idx-3] {
			continue
		}
""")], GH % """_ = want
	c := components.NewComponent()
	container, err := grammars.NewContainerBuilder().Create().WithCompose(c.Compose().Compose([]byte("aaaab"))).Now()
	must(err, "container")
	line, err := grammars.NewLineBuilder().Create().WithContainers([]grammars.Container{container}).Now()
	must(err, "line")
	out, err := ast.NewApplication().Compose(c.Token().FromBlock("tok", c.Block().FromLines([]grammars.Line{line}), nil))
	if err != nil || string(out) != "aaaab" {
		t.Fatal(string(out))
	}""", "a byte that occurs four times in a row", "composed data misses repeated bytes"),
gr("gram_comment_return", "G02", "components/channels/channels.go", [("""										app.element.FromValue([]byte("\\n")[0]),
										app.element.FromValue([]byte("\\r")[0]),
""", """										app.element.FromValue([]byte("\\n")[0]),
"""), ("""										"\\n": true,
										"\\r": true,
""", """										"\\n": true,
""")], GH % """c := components.NewComponent()
	want(match(sameToken(instances.NewToken().AnyNumber(), 2), c.Channel().Channels(), "1//a\\r2"), 6)""", "a comment that ends with a carriage return", "the comment extends over the next line"),
gr("gram_prevnext_order", "G03", "grammars/grammar.go", [("""				app.component.Element().FromValue([]byte(channelPrevNextDelimiter)[0]),
				app.component.Element().FromToken(app.token.VariableName(), app.component.Cardinality().Once()),
			}),
			app.component.Line().FromElements([]grammars.Element{
				app.component.Element().FromValue([]byte(channelPrevNextDelimiter)[0]),
				app.component.Element().FromToken(app.token.VariableName(), app.component.Cardinality().Once()),
			}),""", """				app.component.Element().FromToken(app.component.Token().AllCharacters("channelPrevNextDelimiter", channelPrevNextDelimiter), app.component.Cardinality().Cardinality(1, nil)),
				app.component.Element().FromToken(app.token.VariableName(), app.component.Cardinality().Once()),
			}),
			app.component.Line().FromElements([]grammars.Element{
				app.component.Element().FromValue([]byte(channelPrevNextDelimiter)[0]),
				app.component.Element().FromToken(app.token.VariableName(), app.component.Cardinality().Once()),
			}),""")], GH % 'want(script("@a;-b[c::d];e:1;"), -1)', "a channel condition with two colons", "a text that is no script is accepted"),
gr("gram_suite_empty", "G03", "grammars/grammar.go", [("""				app.component.Element().FromToken(app.suiteValidToken(), app.component.Cardinality().Cardinality(0, &pMax)),
				app.component.Element().FromToken(app.suiteInvalidToken(), app.component.Cardinality().Once()),""", """				app.component.Element().FromToken(app.suiteValidToken(), app.component.Cardinality().Cardinality(0, &pMax)),
				app.component.Element().FromToken(app.suiteInvalidToken(), app.component.Cardinality().Cardinality(1, nil)),""")], GH % 'want(script("@a;b:c---invalid:d;invalid:e;;"), -1)', "two invalid suites", "a text that is no script is accepted"),
gr("gram_cardinality_range", "G03", "grammars/grammar.go", [("""				app.component.Element().FromValue([]byte(cardinalitySeparator)[0]),
				app.component.Element().FromToken(app.token.AnyNumber(), app.component.Cardinality().Cardinality(0, nil)),""", """				app.component.Element().FromValue([]byte(cardinalitySeparator)[0]),
				app.component.Element().FromToken(app.token.AnyNumber(), app.component.Cardinality().Cardinality(0, &pMax)),"""), ("""func (app *grammar) cardinalityToken() grammars.Token {
""", """func (app *grammar) cardinalityToken() grammars.Token {
	pMax := uint(3)
""")], GH % 'want(script("@a;b:c[0,1234]---valid:d;;"), 26)', "a cardinality with a maximum of more than three digits", "a script with a large maximum is refused"),
]
for b in BUGS:
    if b["id"] == "gram_digest_long":
        b["imports"].append("strings")
