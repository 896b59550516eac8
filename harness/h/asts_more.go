package h

import (
	ast "github.com/steve-care-software/rodkina/libs/asts/applications"
	"github.com/steve-care-software/rodkina/libs/asts/domain/grammars"
	"github.com/steve-care-software/rodkina/libs/asts/domain/trees"
	"github.com/steve-care-software/rodkina/verifh/sym"
)

func astData(name string, def int) []byte {
	return sym.Bytes(name, sym.Choice("len", sym.Param("data", def)))
}

// H_AstTokens: nested tokens
func H_AstTokens() {
	cards := sym.Param("cards", 4)
	leaf := gTokOf("leaf", []gCon{gVal("x", 'x', 1, 1)}, []gCon{gVal("y", 'y', 1, -1)})
	opt := gTokOf("opt", []gCon{gVal("o", 'x', 0, 1), gVal("p", 'p', 0, 1)})
	min, max := cardOf("midcard", cards)
	mid := gTokOf("mid", []gCon{gTokCon(leaf, min, max), gVal("z", 'z', 0, 1)}, []gCon{gVal("w", 'w', 1, 1), gTokCon(opt, 0, -1)})
	min0, max0 := cardOf("card0", cards)
	first := []gCon{}
	switch sym.Choice("first", 3) {
	case 0:
		first = append(first, gTokCon(mid, min0, max0))
	case 1:
		first = append(first, gTokCon(opt, min0, max0), gTokCon(leaf, 1, 1))
	default:
		first = append(first, gVal("s", 's', 0, 1), gTokCon(mid, min0, max0), gTokCon(leaf, 0, 1))
	}
	lines := [][]gCon{first}
	if sym.Bool("second") {
		lines = append(lines, []gCon{gTokCon(leaf, 1, 1), gTokCon(opt, 1, 1)}, []gCon{gVal("q", 'q', 1, 1)})
	}
	checkExec(&gGram{root: gTokOf("root", lines...)}, astData("d", 4))
}

// H_AstChannels: channels before, between and after contents
func H_AstChannels() {
	sp, tab := gText("space", ' '), gText("tab", '\t')
	chans := []gChan{{tok: sp}}
	switch sym.Choice("channels", 4) {
	case 1:
		chans = append(chans, gChan{tok: tab})
	case 2:
		chans = append(chans, gChan{tok: gText("pair", '-', '-')})
	case 3:
		// a channel whose content does not always match
		chans = append(chans, gChan{tok: gTokOf("opt", []gCon{gVal("t", '\t', 0, 2)})})
	}
	root := &gTok{}
	leaf := gTokOf("leaf", []gCon{gVal("b", 'b', 1, 1), gVal("c", 'c', 0, 1)})
	min, max := cardOf("card", 4)
	switch sym.Choice("shape", 4) {
	case 0:
		root = gTokOf("root", []gCon{gVal("a", 'a', min, max), gVal("b", 'b', 0, 1)})
	case 1:
		root = gTokOf("root", []gCon{gVal("a", 'a', 0, 1), gTokCon(leaf, min, max)})
	case 2:
		root = gTokOf("root", []gCon{gTokCon(leaf, min, max), gVal("a", 'a', 0, 1)}, []gCon{gVal("d", 'b', 1, 1)})
	default:
		root = gTokOf("root", []gCon{gComp("ab", gCompItem{'a', 1}, gCompItem{'b', 2})}, []gCon{gTokCon(leaf, 1, 1)})
	}
	checkExec(&gGram{root: root, channels: chans}, astData("d", 5))
}

// H_AstConditions: channels that are only skipped after or before some token
func H_AstConditions() {
	a, b := gText("isA", 'a'), gText("isB", 'b')
	if sym.Bool("optional") {
		// a condition whose token may match nothing
		a = gTokOf("isA", []gCon{gVal("ca", 'a', 0, 1)})
		b = gTokOf("isB", []gCon{gVal("cb", 'b', 0, 1)})
	}
	ch := gChan{tok: gText("space", ' ')}
	switch sym.Choice("condition", 3) {
	case 0:
		ch.prev = a
	case 1:
		ch.next = b
	default:
		ch.prev, ch.next = a, b
	}
	chans := []gChan{ch}
	if sym.Bool("tab") {
		chans = append(chans, gChan{tok: gText("tab", '\t')})
	}
	leafA := gTokOf("leafA", []gCon{gVal("a", 'a', 1, 1)})
	leafX := gTokOf("leafX", []gCon{gVal("x", 'x', 1, 1)}, []gCon{gVal("b", 'b', 1, 1)})
	root := &gTok{}
	switch sym.Choice("shape", 3) {
	case 0:
		root = gTokOf("root", []gCon{gVal("a", 'a', 0, 1), gVal("b", 'b', 0, -1), gVal("x", 'x', 0, 1)})
	case 1:
		root = gTokOf("root", []gCon{gTokCon(leafA, 1, -1), gTokCon(leafX, 0, -1)})
	default:
		root = gTokOf("root", []gCon{gVal("x", 'x', 1, 1), gTokCon(leafA, 0, -1), gVal("b", 'b', 0, 1)})
	}
	checkExec(&gGram{root: root, channels: chans}, astData("d", 5))
}

// H_AstEverything: everything until an exception, with escapes
func H_AstEverything() {
	var exc *gTok
	switch sym.Choice("exception", 5) {
	case 0:
		exc = gText("end", '"')
	case 1:
		exc = gTokOf("end", []gCon{gVal("n", '\n', 1, 1)}, []gCon{gVal("r", '\r', 1, 1)})
	case 2:
		exc = gText("end", '*', '/')
	case 3:
		exc = gTokOf("end", []gCon{gVal("e", 'e', 1, 2), gVal("f", 'f', 0, 1)})
	default:
		// the exception contains everything until something else
		exc = gTokOf("end", []gCon{gVal("lt", '<', 1, 1), gEvery("inner", gText("gt", '>'), nil, 1, 1)})
	}
	var esc *gTok
	switch sym.Choice("escape", 4) {
	case 3:
		// doubled exceptions
		esc = exc
	case 1:
		esc = gText("esc", '\\')
	case 2:
		esc = gTokOf("esc", []gCon{gVal("s", '\\', 1, 1)}, []gCon{gVal("t", '^', 1, 1), gVal("u", '^', 1, 1)})
	}
	every := gEvery("all", exc, esc, 1, 1)
	root := &gTok{}
	switch sym.Choice("shape", 3) {
	case 0:
		root = gTokOf("root", []gCon{every})
	case 1:
		every.min, every.max = 0, 1
		root = gTokOf("root", []gCon{gVal("q", '"', 1, 1), every, gTokCon(exc, 1, 1)})
	default:
		root = gTokOf("root", []gCon{every, gTokCon(exc, 0, -1), gVal("z", 'z', 0, 1)})
	}
	g := &gGram{root: root}
	if sym.Bool("channels") {
		g.channels = []gChan{{tok: gText("space", ' ')}}
	}
	_, n := checkExec(g, astData("d", 5))
	if n != nil && n.size() < n.end {
		sym.Reach("escaped")
	}
}

// H_AstComment: channels that contain everything until an exception, possibly with escapes
func H_AstComment() {
	exc := gText("eol", '\n')
	if sym.Bool("two") {
		exc = gTokOf("eol", []gCon{gVal("n", '\n', 1, 1)}, []gCon{gVal("r", '\r', 1, 1)})
	}
	var esc *gTok
	if sym.Bool("escape") {
		esc = gText("esc", '\\')
	}
	comment := gTokOf("comment", []gCon{gVal("sharp", '#', 1, 1), gEvery("text", exc, esc, 1, 1)})
	chans := []gChan{{tok: comment}, {tok: gText("nl", '\n')}}
	leaf := gTokOf("leaf", []gCon{gVal("a", 'a', 1, 1)})
	root := gTokOf("root", []gCon{gTokCon(leaf, 1, -1)})
	if sym.Bool("values") {
		root = gTokOf("root", []gCon{gVal("a", 'a', 1, -1)})
	}
	checkExec(&gGram{root: root, channels: chans}, astData("d", 6))
}

// H_AstExternal: tokens of other grammars
func H_AstExternal() {
	cards := sym.Param("cards", 4)
	inner := &gGram{root: gTokOf("innerRoot", []gCon{gVal("i", 'i', 1, 1), gVal("j", 'j', 0, 1)}, []gCon{gVal("k", 'k', 1, -1)})}
	if sym.Bool("innerchannels") {
		inner.channels = []gChan{{tok: gText("dot", '.')}}
	}
	min, max := cardOf("card", cards)
	ext := gExt("ext", inner, min, max)
	root := &gTok{}
	switch sym.Choice("shape", 4) {
	case 0:
		root = gTokOf("root", []gCon{ext})
	case 1:
		root = gTokOf("root", []gCon{gVal("a", 'a', 1, 1), ext, gVal("b", 'b', 1, 1)})
	case 2:
		leaf := gTokOf("leaf", []gCon{ext, gVal("b", 'b', 0, 1)})
		root = gTokOf("root", []gCon{gTokCon(leaf, 1, -1)}, []gCon{gVal("i", 'i', 1, 1)})
	default:
		// an external within an external
		outer := &gGram{root: gTokOf("outerRoot", []gCon{gVal("o", 'o', 0, 1), ext}), channels: inner.channels}
		root = gTokOf("root", []gCon{gExt("outer", outer, 1, -1), gVal("b", 'b', 0, 1)})
	}
	g := &gGram{root: root}
	if sym.Bool("channels") {
		g.channels = []gChan{{tok: gText("space", ' ')}}
	}
	data := astData("d", 4)
	t, _ := checkExec(g, data)
	if len(g.channels) == 0 && len(inner.channels) == 0 {
		// the external is the same as its root in its place
		inline := &gGram{root: inlined(root)}
		t2 := execute(inline.build(), data)
		sym.Assert((t == nil) == (t2 == nil), "an external matches like the root of its grammar in its place")
		if t != nil {
			sym.Assert(len(t.Remaining()) == len(t2.Remaining()), "an external matches as much as the root of its grammar in its place")
		}
	}
}

// inlined replaces externals by the root of their grammar
func inlined(t *gTok) *gTok {
	out := &gTok{name: t.name}
	for _, line := range t.lines {
		l := []gCon{}
		for _, c := range line {
			if c.kind == gExternal {
				c = gTokCon(inlined(c.gram.root), c.min, c.max)
			} else if c.kind == gToken {
				c.tok = inlined(c.tok)
			}
			l = append(l, c)
		}
		out.lines = append(out.lines, l)
	}
	return out
}

// H_AstRecursion: tokens inside of themselves
func H_AstRecursion() {
	root := &gTok{}
	switch sym.Choice("shape", 8) {
	case 0: // nested lists: ( list* ) or x
		root = gTokOf("list", []gCon{gVal("open", '(', 1, 1), gRec("list", 0, -1), gVal("close", ')', 1, 1)}, []gCon{gVal("x", 'x', 1, 1)})
	case 1: // right recursion
		root = gTokOf("root", []gCon{gVal("x", 'x', 1, 1), gRec("root", 0, 1)}, []gCon{gVal("y", 'y', 1, 1)})
	case 2: // left recursion
		root = gTokOf("root", []gCon{gRec("root", 1, 1), gVal("x", 'x', 1, 1)}, []gCon{gVal("y", 'y', 1, 1)})
	case 3: // optional left recursion
		root = gTokOf("root", []gCon{gRec("root", 0, 1), gVal("x", 'x', 1, 1)})
	case 4: // through another token
		sub := gTokOf("sub", []gCon{gVal("lt", '<', 1, 1), gRec("root", 1, -1), gVal("gt", '>', 1, 1)})
		root = gTokOf("root", []gCon{gTokCon(sub, 1, -1)}, []gCon{gVal("x", 'x', 1, 1), gVal("y", 'y', 0, 1)})
	case 5: // through another token, on the left
		sub := gTokOf("sub", []gCon{gRec("root", 0, 1), gVal("x", 'x', 1, 1)}, []gCon{gVal("y", 'y', 1, 1)})
		root = gTokOf("root", []gCon{gTokCon(sub, 1, -1), gVal("z", 'z', 0, 1)})
	case 6: // only itself
		root = gTokOf("root", []gCon{gRec("root", 1, -1)}, []gCon{gRec("root", 0, 1), gRec("root", 1, 1)}, []gCon{gVal("x", 'x', 1, 1)})
	default: // a token that is not around
		sub := gTokOf("sub", []gCon{gRec("other", 1, 1)}, []gCon{gVal("x", 'x', 1, 1)})
		root = gTokOf("root", []gCon{gTokCon(sub, 1, -1), gRec("sub", 0, 1), gVal("y", 'y', 0, 1)})
	}
	g := &gGram{root: root}
	if sym.Bool("channels") {
		g.channels = []gChan{{tok: gText("space", ' ')}}
	}
	checkExec(g, astData("d", 6))
}

// H_AstCompose: composing a token gives the data it matches
func H_AstCompose() {
	vals := sym.Bytes("v", 3)
	line := []gCon{}
	want := []byte{}
	composes := 1 + sym.Choice("composes", 2)
	for i := 0; i < composes; i++ {
		items := []gCompItem{}
		amount := 1 + sym.Choice("items"+itoa(i), 2)
		for j := 0; j < amount; j++ {
			n := 1 + sym.Choice("n"+itoa(i)+itoa(j), sym.Param("times", 2))
			v := vals[(i+j)%3]
			items = append(items, gCompItem{v, uint(n)})
			for k := 0; k < n; k++ {
				want = append(want, v)
			}
		}
		name := "c" + itoa(i)
		if sym.Param("samenames", 0) == 1 {
			name = "c"
		}
		line = append(line, gComp(name, items...))
	}
	tok := gTokOf("tok", line)
	app := ast.NewApplication()
	got, err := app.Compose(tok.build())
	must(err, "composing")
	sym.Assert(sym.EqBytes(got, want), "composing gives every value as often as it occurs, in order")
	g := &gGram{root: tok}
	t := execute(g.build(), got)
	sym.Assert(t != nil && !t.HasRemaining(), "a token matches all of the data composed from it")
	sym.Assert(sym.EqBytes(t.Bytes(true), want), "the tree of composed data has its bytes")
	// and no other data
	data := sym.Bytes("d", len(want))
	other, _ := checkExec(g, data)
	sym.Assert((other != nil) == sym.EqBytes(data, want), "a token of composes matches only the data composed from it")
	// tokens that are not made of one line of composes are refused
	_, err = app.Compose(gTokOf("two", line, line).build())
	sym.Assert(err != nil, "a token of two lines is not composed")
	_, err = app.Compose(gTokOf("mixed", append(append([]gCon{}, line...), gVal("x", 'x', 1, 1))).build())
	sym.Assert(err != nil, "a token with an element is not composed")
}

// H_AstLong: many contents, occurrences, channels, lines, containers and levels
func H_AstLong() {
	counts := []int{2, 3, 5, 8, 9, 12, 16, 17, 33, 65, 129, 255, 256, 257, 300}
	n := counts[sym.Choice("count", sym.Param("counts", len(counts)))]
	last := sym.Byte("last")
	data := []byte{}
	times := func(k int, text ...byte) {
		for i := 0; i < k; i++ {
			data = append(data, text...)
		}
	}
	g := &gGram{}
	space, tab := gChan{tok: gText("space", ' ')}, gChan{tok: gText("tab", '\t')}
	kind := sym.Param("kind", 0)
	switch kind {
	case 0: // cardinalities
		min, max := n, n
		switch sym.Choice("card", 3) {
		case 0:
			min = n - 1
		case 1:
			max = -1
		}
		g.root = gTokOf("root", []gCon{gVal("a", 'a', min, max), gVal("b", 'b', 0, 1)}, []gCon{gVal("a", 'a', 1, -1)})
		times(n-1, 'a')
		data = append(data, last, 'a')
	case 1: // occurrences
		g.root = gTokOf("root", []gCon{gComp("c", gCompItem{'a', uint(n)}, gCompItem{'b', 1})}, []gCon{gVal("a", 'a', 1, -1)})
		times(n-1, 'a')
		data = append(data, last, 'b')
	case 2: // channels before, between and after values
		g.root = gTokOf("root", []gCon{gVal("a", 'a', 2, 2)})
		g.channels = []gChan{space}
		gap := []byte{' '}
		if sym.Bool("two") {
			g.channels = []gChan{tab, space}
			gap = []byte{' ', ' ', '\t'}
		}
		where := sym.Choice("where", 3)
		for i := 0; i < 3; i++ {
			if i == where {
				times((n+len(gap)-1)/len(gap), gap...)
			}
			if i == where && i > 0 {
				data = append(data, last)
			}
			if i < 2 {
				data = append(data, 'a')
			}
		}
	case 3: // levels
		list := gTokOf("list", []gCon{gVal("open", '(', 1, 1), gRec("list", 0, 2), gVal("close", ')', 1, 1)}, []gCon{gVal("x", 'x', 1, 1)})
		g.root = list
		if sym.Bool("spaces") {
			g.channels = []gChan{space}
		}
		times(n-1, '(')
		data = append(data, last)
		times(n-1, ')')
	case 4: // everything
		g.root = gTokOf("root", []gCon{gEvery("all", gText("end", '"'), gText("esc", '\\'), 1, 1), gVal("q", '"', 0, 1)})
		times(n-1, 'a')
		data = append(data, '\\', last, '"', 'b', '"')
	case 5: // lines, of which only the last matches
		lines := [][]gCon{}
		for i := 0; i < n; i++ {
			lines = append(lines, []gCon{gVal("v"+string(rune(0x100+i)), byte(i%3)+1, 1, 1), gVal("w", 'w', 1, 1)})
		}
		lines = append(lines, []gCon{gVal("a", 'a', 1, 1)})
		g.root = gTokOf("root", lines...)
		data = append(data, last, 'w')
	case 6: // containers of a line
		line := []gCon{}
		for i := 0; i < n; i++ {
			line = append(line, gVal("v"+string(rune(0x100+i)), byte('a'+i%2), i%2, 1))
			if i%2 == 1 || i%3 == 0 {
				data = append(data, byte('a'+i%2))
			}
		}
		line = append(line, gVal("l", last, 1, 1))
		g.root = gTokOf("root", line)
		data = append(data, sym.Byte("end"))
	case 7: // externals
		inner := &gGram{root: gTokOf("innerRoot", []gCon{gVal("i", 'i', 1, 2)}), channels: []gChan{space}}
		g.root = gTokOf("root", []gCon{gExt("ext", inner, 1, -1), gVal("b", 'b', 0, 1)})
		times(n-1, 'i', 'i', ' ')
		data = append(data, last, 'b')
	case 8: // tokens inside of tokens
		tok := gTokOf("leaf", []gCon{gVal("x", 'x', 1, 1)})
		for i := 0; i < n; i++ {
			tok = gTokOf("t"+string(rune(0x100+i)), []gCon{gVal("a", 'a', 0, 1), gTokCon(tok, 0, 1)})
		}
		g.root = tok
		times(n/2, 'a')
		data = append(data, last, 'x')
	case 9: // a conditional channel after a long content
		g.root = gTokOf("root", []gCon{gVal("a", 'a', 1, -1), gVal("b", 'b', 1, 1)})
		g.channels = []gChan{{tok: space.tok, prev: gText("isA", 'a'), next: gText("isB", 'b')}, {tok: tab.tok}}
		times(n, 'a')
		times(n%4, '\t')
		data = append(data, ' ', last)
	case 10: // a recursion through many tokens
		tok := gTokOf("leaf", []gCon{gVal("x", 'x', 1, 1)}, []gCon{gVal("y", 'y', 1, 1), gRec("t", 1, 2)})
		for i := 0; i < n; i++ {
			name := "t" + string(rune(0x100+i))
			if i == n-1 {
				name = "t"
			}
			tok = gTokOf(name, []gCon{gVal("a", 'a', 0, 1), gTokCon(tok, 1, 1)})
		}
		g.root = tok
		times(n/2, 'a')
		data = append(data, 'y')
		times(n/3, 'a')
		data = append(data, last, 'x')
	}
	if kind == 11 { // long names that begin alike
		names := []string{rep("n", n), rep("n", n) + "n", rep("n", n) + "m"}
		k := sym.Choice("names", 3)
		one, two := names[k], names[(k+1)%3]
		item := gTokOf(two, []gCon{gVal(names[(k+2)%3], '[', 1, 1), gRec([]string{one, two}[sym.Choice("again", 2)], 0, 1), gVal(one, ']', 1, 1)}, []gCon{gVal(two+"x", 'y', 1, 1)})
		g.root = gTokOf(one, []gCon{gVal(two, '(', 1, 1), gTokCon(item, 1, 1), gVal(one+"x", ')', 0, 1)})
		g.channels = []gChan{{tok: gTokOf(names[(k+2)%3], []gCon{gVal("blank", ' ', 1, 1)})}}
		data = append([]byte("(["), sym.Bytes("d", 2)...)
		data = append(data, last, ']', ')')
	}
	checkExec(g, data)
}

// H_AstFetch: contents are found by name
func H_AstFetch() {
	leaf := gTokOf("leaf", []gCon{gVal("x", 'x', 1, 1), gVal("y", 'z', 0, 1)})
	mid := gTokOf("mid", []gCon{gTokCon(leaf, 0, -1), gVal("m", 'm', 0, 1)})
	root := gTokOf("root", []gCon{gVal("a", 'a', 0, 1), gTokCon(mid, 0, -1), gTokCon(leaf, 0, 1), gVal("y", 'y', 0, 1)})
	data := astData("d", 5)
	t, n := checkExec(&gGram{root: root}, data)
	if t == nil {
		return
	}
	names := []string{"root", "mid", "leaf", "x", "y", "m", "a", "unknown"}
	name := names[sym.Choice("name", len(names))]
	tree, el, err := t.Fetch(name, 0)
	wantNode, wantEl := rFetch(n, name)
	sym.Assert((err == nil) == (wantNode != nil || wantEl != nil), "a name is found exactly when it was matched")
	if err != nil {
		sym.Reach("absent")
		return
	}
	sym.Assert((tree != nil) == (wantNode != nil), "a name gives a tree or an element")
	sym.Assert((el != nil) == (wantEl != nil), "a name gives a tree or an element")
	if tree != nil {
		sameAst(tree, wantNode, data)
	}
	if el != nil {
		sym.Assert(el.Grammar().Name() == name, "the fetched element has the name")
		text := []byte{}
		for _, c := range wantEl.contents {
			text = append(text, c.text(true)...)
		}
		sym.Assert(sym.EqBytes(el.Bytes(true), text), "the first match of a name is fetched")
		sym.Assert(int(el.Amount()) == len(wantEl.contents), "the first match of a name is fetched")
	}
	sym.Reach("found")
}

// rFetch finds the first match of a name from the top, left to right
func rFetch(n *rNode, name string) (*rNode, *rEl) {
	if n.name == name {
		return n, nil
	}
	for i := range n.els {
		if n.els[i].name == name {
			return nil, &n.els[i]
		}
		for _, c := range n.els[i].contents {
			if c.node == nil {
				continue
			}
			if a, b := rFetch(c.node, name); a != nil || b != nil {
				return a, b
			}
		}
	}
	return nil, nil
}

// H_AstReuse: one application and one grammar, used again
func H_AstReuse() {
	leaf := gTokOf("list", []gCon{gVal("open", '(', 1, 1), gRec("list", 0, -1), gVal("close", ')', 1, 1)}, []gCon{gVal("x", 'x', 1, 1)})
	g := &gGram{root: leaf, channels: []gChan{{tok: gText("space", ' ')}}}
	real := g.build()
	app := ast.NewApplication()
	d1 := sym.Bytes("d1", sym.Choice("len1", sym.Param("data", 4)))
	d2 := sym.Bytes("d2", sym.Choice("len2", sym.Param("data", 4)))
	t1, err1 := app.Execute(real, d1)
	t2, err2 := app.Execute(real, d2)
	n1, n2 := gMatch(g, d1), gMatch(g, d2)
	sym.Assert((err1 == nil) == (n1 != nil), "the first execution is like the reference")
	sym.Assert((err2 == nil) == (n2 != nil), "the second execution is like the reference")
	if err1 == nil {
		sameAst(t1, n1, d1)
	}
	if err2 == nil {
		sameAst(t2, n2, d2)
	}
	if err1 == nil && err2 == nil {
		sym.Reach("twice")
	}
}

// reuseGrammar: grammars that share all of their names
func reuseGrammar(k int) *gGram {
	letters := []string{"xek;/", "yfk;#", "xkex/"}[k%3]
	comment := gTokOf("comment", []gCon{gVal("slash", letters[4], 2, 2)})
	blank := gText("blank", ' ')
	exc := gTokOf("exc", []gCon{gVal("e", letters[1], 1, 1)}, []gCon{gVal("f", letters[3], 1, 1)})
	list := gTokOf("list", []gCon{gVal("open", '(', 1, 1), gRec("list", 0, -1), gVal("close", ')', 1, 1)}, []gCon{gVal("x", letters[0], 1, 1)})
	lines := [][]gCon{{gTokCon(list, 1, 2), gVal("end", letters[3], 0, 1)}, {gEvery("all", exc, gText("esc", letters[2]), 1, 1)}}
	if k == 2 {
		lines[0], lines[1] = lines[1], lines[0]
	}
	return &gGram{root: gTokOf("root", lines...), channels: []gChan{{tok: comment}, {tok: blank, next: gText("x", letters[0])}}}
}

// H_AstReuseOthers: one application executes grammars that share their names, the first one twice
func H_AstReuseOthers() {
	app := ast.NewApplication()
	k1, k2 := sym.Choice("first", sym.Param("first", 3)), sym.Choice("second", 3)
	grammar := reuseGrammar
	if sym.Param("externals", 0) == 1 {
		grammar = reuseExternal
	}
	g1, g2 := grammar(k1), grammar(k2)
	real1, real2 := g1.build(), g2.build()
	d1 := sym.Bytes("d1", sym.Choice("len1", sym.Param("data", 4)))
	var d2 []byte
	if sym.Param("texts", 0) == 1 {
		// longer texts with channels, everything and lists
		texts := []string{"##y", "//x", "x//x", "(y)", "kee", "y ;##y"}
		d2 = []byte(texts[sym.Choice("text", len(texts))])
	} else {
		d2 = sym.Bytes("d2", sym.Choice("len2", sym.Param("data", 4)))
	}
	t1, err1 := app.Execute(real1, d1)
	t2, err2 := app.Execute(real2, d2)
	t3, err3 := app.Execute(real1, d1)
	n1, n2 := gMatch(g1, d1), gMatch(g2, d2)
	sym.Assert((err1 == nil) == (n1 != nil), "the first execution is like the reference")
	sym.Assert((err2 == nil) == (n2 != nil), "the execution of another grammar is like the reference")
	sym.Assert((err3 == nil) == (n1 != nil), "the repeated execution is like the reference")
	if err1 == nil {
		sameAst(t1, n1, d1)
	}
	if err2 == nil {
		sameAst(t2, n2, d2)
	}
	if err3 == nil {
		sameAst(t3, n1, d1)
	}
	if err1 == nil && err2 == nil && err3 == nil {
		sym.Reach("twice")
	}
}

// coverage

type covKey struct {
	token     string
	line      int
	container int
}

// gElements lists the elements of a grammar by token, line and position
func gElements(g *gGram, out map[covKey]string) {
	gTokElements(g.root, out)
	for _, ch := range g.channels {
		gTokElements(ch.tok, out)
	}
}

func gTokElements(t *gTok, out map[covKey]string) {
	for li, line := range t.lines {
		for ci, c := range line {
			if c.kind == gCompose {
				continue
			}
			out[covKey{t.name, li, ci}] = c.name
			switch c.kind {
			case gExternal:
				gElements(c.gram, out)
			case gToken:
				gTokElements(c.tok, out)
			case gEverything:
				gTokElements(c.tok, out)
				if c.esc != nil {
					gTokElements(c.esc, out)
				}
			}
		}
	}
}

// rCovered lists the containers of a match
func rCovered(n *rNode, name string, toks map[string]*gTok, out map[covKey]string) {
	for _, el := range n.els {
		if el.container < 0 {
			continue
		}
		out[covKey{name, n.line, el.container}] = el.name
		for _, c := range el.contents {
			if c.node == nil {
				continue
			}
			sub := c.node.name
			if con := toks[name].lines[n.line][el.container]; con.kind == gExternal {
				sub = con.gram.root.name
			}
			if !c.node.reverse {
				rCovered(c.node, sub, toks, out)
			}
		}
	}
}

// gTokens lists the tokens of a grammar, each with the channels it is executed with
func gTokens(g *gGram, chans map[string][]gChan, toks map[string]*gTok, order *[]string) {
	gTokTokens(g.root, g.channels, chans, toks, order)
	for _, ch := range g.channels {
		gTokTokens(ch.tok, nil, chans, toks, order)
	}
}

func gTokTokens(t *gTok, ch []gChan, chans map[string][]gChan, toks map[string]*gTok, order *[]string) {
	if _, ok := toks[t.name]; ok {
		return
	}
	toks[t.name] = t
	chans[t.name] = ch
	*order = append(*order, t.name)
	for _, line := range t.lines {
		for _, c := range line {
			switch c.kind {
			case gExternal:
				gTokens(c.gram, chans, toks, order)
			case gToken:
				gTokTokens(c.tok, ch, chans, toks, order)
			case gEverything:
				gTokTokens(c.tok, ch, chans, toks, order)
				if c.esc != nil {
					gTokTokens(c.esc, ch, chans, toks, order)
				}
			}
		}
	}
}

// suiteCheck runs every suite once and compares the coverage with the reference
func suiteCheck(g *gGram) {
	app := ast.NewApplication()
	real := g.build()
	chans, toks, order := map[string][]gChan{}, map[string]*gTok{}, []string{}
	gTokens(g, chans, toks, &order)
	want := 0
	for _, name := range order {
		if len(toks[name].suites) > 0 {
			want++
		}
	}
	covs, err := app.Coverages(real)
	must(err, "coverages")
	covered := map[covKey]string{}
	failed := false
	if want == 0 {
		sym.Assert(covs == nil, "a grammar without suites has no coverage")
	} else {
		sym.Assert(len(covs.List()) == want, "every token with suites has one coverage")
		seen := map[string]bool{}
		for _, cov := range covs.List() {
			name := cov.Token().Name()
			t := toks[name]
			sym.Assert(t != nil && !seen[name], "every token is covered once")
			seen[name] = true
			list := cov.Executions().List()
			sym.Assert(len(list) == len(t.suites), "every suite is executed once")
			anyError := false
			for i, exec := range list {
				suite := t.suites[i]
				sym.Assert(exec.Expectation().IsValid() == suite.valid, "an execution knows whether its suite is valid")
				m := &rMatcher{data: suite.data, chans: chans[name]}
				n := m.token(t, chans[name], -1, 0)
				res := exec.Result()
				sym.Assert(res.IsTree() != res.IsError(), "an execution gives a tree or an error")
				if n != nil {
					sym.Assert(res.IsTree(), "the suite of a token that matches gives a tree")
					sameAst(res.Tree(), n, suite.data)
					rCovered(n, name, toks, covered)
					continue
				}
				if res.IsTree() {
					sym.Assert(!res.Tree().Block().HasSuccessful(), "the suite of a token that does not match gives no successful tree")
				} else {
					anyError = true
				}
			}
			sym.Assert(cov.Executions().ContainsError() == anyError, "executions contain an error when one of them failed")
			failed = failed || anyError
		}
		sym.Assert(covs.ContainsError() == failed, "coverages contain an error when one of them failed")
	}
	elements := map[covKey]string{}
	gElements(g, elements)
	got, err := app.Covered(covs)
	must(err, "covered")
	amount := 0
	for token, lines := range got {
		for line, els := range lines {
			for idx, name := range els {
				amount++
				sym.Assert(covered[covKey{token, int(line), int(idx)}] == name, "only what a suite matched is covered")
			}
		}
	}
	sym.Assert(amount == len(covered), "everything a suite matched is covered")
	un, err := app.Uncovered(real)
	must(err, "uncovered")
	amount = 0
	for token, lines := range un {
		for line, els := range lines {
			for idx, name := range els {
				amount++
				k := covKey{token, int(line), int(idx)}
				_, isCovered := covered[k]
				sym.Assert(!isCovered && elements[k] == name, "only elements that no suite matched are uncovered")
			}
		}
	}
	rest := 0
	for k := range elements {
		if _, ok := covered[k]; !ok {
			rest++
		}
	}
	sym.Assert(amount == rest, "every element that no suite matched is uncovered")
	if rest > 0 {
		sym.Reach("uncovered")
	} else {
		sym.Reach("covered")
	}
}

// H_AstCoverage: suites and coverage
func H_AstCoverage() {
	leaf := gTokOf("leaf", []gCon{gVal("x", 'x', 0, 1), gVal("y", 'y', 0, 1)})
	root := &gTok{}
	g := &gGram{}
	switch sym.Choice("shape", 8) {
	case 0:
		root = gTokOf("root", []gCon{gVal("a", 'a', 0, 1), gVal("b", 'b', 0, 1)}, []gCon{gVal("c", 'c', 1, 1)})
	case 6: // a token that is the exception of one everything and the escape of another, and used by itself
		esc, end := gText("esc", '\\'), gText("end", '"')
		esc.suites = []gSuite{{data: []byte{'\\'}, valid: true}}
		root = gTokOf("root", []gCon{gEvery("all", end, esc, 0, 1), gTokCon(end, 0, 1)}, []gCon{gTokCon(leaf, 1, 1), gEvery("more", esc, nil, 1, 1)})
	case 7: // an external inside of the exception (a grammar of its own: its tokens have their own names)
		twig := gTokOf("twig", []gCon{gVal("x", 'x', 0, 1), gVal("y", 'y', 0, 1)})
		twig.suites = []gSuite{{data: []byte{'y'}, valid: true}}
		inner := &gGram{root: gTokOf("innerRoot", []gCon{gVal("i", 'i', 1, 1), gTokCon(twig, 0, 1)})}
		inner.root.suites = []gSuite{{data: []byte{'j'}, valid: false}, {data: []byte{'i', 'y'}, valid: true}}
		root = gTokOf("root", []gCon{gEvery("all", gTokOf("end", []gCon{gExt("ext", inner, 1, 1)}), nil, 0, 1), gTokCon(leaf, 0, 1)})
	case 1:
		root = gTokOf("root", []gCon{gVal("a", 'a', 0, 1), gTokCon(leaf, 1, -1)})
	case 2:
		exc := gText("end", '"')
		esc := gText("esc", '\\')
		root = gTokOf("root", []gCon{gEvery("all", exc, esc, 1, 1), gTokCon(exc, 0, 1)})
		exc.suites = []gSuite{{data: []byte{'"'}, valid: true}}
		esc.suites = []gSuite{{data: []byte{'x'}, valid: false}, {data: []byte{'\\'}, valid: true}}
	case 3:
		inner := &gGram{root: gTokOf("innerRoot", []gCon{gTokCon(leaf, 0, 1), gVal("i", 'i', 1, 1)})}
		root = gTokOf("root", []gCon{gExt("ext", inner, 0, 1), gVal("b", 'b', 0, 1)})
		inner.root.suites = []gSuite{{data: []byte{'i'}, valid: true}}
	case 4:
		root = gTokOf("root", []gCon{gVal("open", '(', 1, 1), gRec("root", 0, 1), gVal("close", ')', 1, 1)}, []gCon{gTokCon(leaf, 1, 1)})
	default:
		root = gTokOf("root", []gCon{gVal("a", 'a', 0, 1), gComp("bb", gCompItem{'b', 2}), gVal("c", 'c', 0, 1)}, []gCon{gTokCon(leaf, 1, 1), gTokCon(leaf, 0, 1)})
	}
	g.root = root
	if sym.Bool("channels") {
		space := gText("space", ' ')
		space.suites = []gSuite{{data: []byte{' '}, valid: true}}
		tab := gTokOf("tab", []gCon{gVal("t", '\t', 1, 1)}, []gCon{gVal("u", '\v', 1, 1)})
		tab.suites = []gSuite{{data: []byte{'\v'}, valid: true}}
		g.channels = []gChan{{tok: space}, {tok: tab}}
	}
	where := root
	if sym.Bool("leaf") {
		where = leaf
	}
	suites := sym.Choice("suites", sym.Param("suites", 3))
	for i := 0; i < suites; i++ {
		limit := sym.Param("data", 2)
		if i > 0 {
			limit = sym.Param("more", 1)
		}
		where.suites = append(where.suites, gSuite{data: sym.Bytes("s"+itoa(i), 1+sym.Choice("slen"+itoa(i), limit)), valid: i != 1})
	}
	suiteCheck(g)
}

var _ trees.Tree
var _ grammars.Grammar
