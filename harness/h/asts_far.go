package h

import (
	ast "github.com/steve-care-software/rodkina/libs/asts/applications"
	"github.com/steve-care-software/rodkina/libs/asts/domain/trees"
	"github.com/steve-care-software/rodkina/verifh/sym"
)

// H_AstConditionsMore: conditions of several bytes, of several lines, with everything and inside of other tokens
func H_AstConditionsMore() {
	var prev, next *gTok
	switch sym.Choice("previous", 6) {
	case 1:
		prev = gText("after", 'a', 'b')
	case 2:
		prev = gTokOf("after", []gCon{gVal("a", 'a', 2, -1)}, []gCon{gVal("b", 'b', 1, 1)})
	case 3:
		prev = gTokOf("after", []gCon{gVal("a", 'a', 0, 1), gTokCon(gText("inner", 'b'), 1, 2)})
	case 4:
		prev = gTokOf("after", []gCon{gEvery("until", gText("stop", 'b'), nil, 1, 1), gVal("b", 'b', 1, 1)})
	case 5:
		prev = gTokOf("after", []gCon{gComp("ab", gCompItem{'a', 1}, gCompItem{'b', 1})})
	}
	switch sym.Choice("next", 5) {
	case 1:
		next = gText("before", 'b', 'a')
	case 2:
		next = gTokOf("before", []gCon{gVal("b", 'b', 2, 2)}, []gCon{gVal("a", 'a', 1, 1)})
	case 3:
		next = gTokOf("before", []gCon{gEvery("until", gText("stop", 'b'), nil, 1, 1), gVal("b", 'b', 1, 1)})
	case 4:
		next = gTokOf("before", []gCon{gTokCon(gText("inner", 'b'), 1, 1), gVal("a", 'a', 0, -1)})
	}
	if prev == nil && next == nil {
		return
	}
	space := gText("space", ' ')
	chans := []gChan{{tok: space, prev: prev, next: next}}
	switch sym.Choice("others", sym.Param("others", 4)) {
	case 1:
		// the same blank under another condition
		chans = append(chans, gChan{tok: space, prev: gText("isB", 'b'), next: gText("isB", 'b')})
	case 2:
		chans = append([]gChan{{tok: gText("pair", ' ', ' ')}}, chans...)
	case 3:
		chans = append(chans, gChan{tok: gText("dash", '-'), next: space})
	}
	word := gTokOf("word", []gCon{gVal("a", 'a', 1, 2), gVal("b", 'b', 0, 1)}, []gCon{gVal("c", 'b', 1, 1)})
	root := &gTok{}
	switch sym.Choice("shape", 3) {
	case 0:
		root = gTokOf("root", []gCon{gVal("a", 'a', 0, -1), gVal("b", 'b', 0, -1), gVal("a2", 'a', 0, 1)})
	case 1:
		root = gTokOf("root", []gCon{gTokCon(word, 1, -1)})
	default:
		root = gTokOf("root", []gCon{gComp("ab", gCompItem{'a', 1}, gCompItem{'b', 1}), gTokCon(word, 0, -1)}, []gCon{gVal("b", 'b', 1, -1)})
	}
	g := &gGram{root: root, channels: chans}
	if sym.Bool("outer") {
		// all of it in a token of a grammar without channels
		g = &gGram{root: gTokOf("outer", []gCon{gVal("a0", 'a', 0, 1), gExt("ext", g, 1, -1)})}
	}
	if sym.Param("text", 0) == 1 {
		data := []byte([]string{"ab ba", "aa bb", "ab  b", "b bba", "ab -ba", "aab ab"}[sym.Choice("text", 6)])
		at := sym.Choice("at", len(data))
		data[at] = sym.Byte("byte")
		checkExec(g, data)
		return
	}
	checkExec(g, astData("d", 4))
}

// H_AstEverythingMore: escapes of several bytes, escapes that begin like the exception, several everythings
func H_AstEverythingMore() {
	exc := gText("end", '*', '/')
	esc := gText("esc", '*', '*')
	switch sym.Choice("pair", 7) {
	case 1: // the escape is the beginning of the exception
		esc = gText("esc", '*')
	case 2: // nested tokens
		exc = gTokOf("end", []gCon{gTokCon(gText("star", '*'), 1, 2), gTokCon(gTokOf("slash", []gCon{gVal("s", '/', 1, 1)}, []gCon{gVal("d", '.', 1, 1)}), 1, 1)})
	case 3: // an escape that contains everything until something
		esc = gTokOf("esc", []gCon{gVal("o", '/', 1, 1), gEvery("note", gText("close", '/'), nil, 1, 1), gVal("c", '/', 1, 1)})
	case 4: // an escape of an optional byte
		esc = gTokOf("esc", []gCon{gVal("e", '/', 1, -1)})
	case 5: // an exception that may match nothing more
		exc = gTokOf("end", []gCon{gVal("s", '*', 1, 1), gVal("t", '/', 0, 1)})
		esc = gText("esc", '/', '*')
	case 6: // a longer one that begins with equal bytes
		exc = gText("end", '*', '*', '/')
		esc = nil
	}
	every := gEvery("all", exc, esc, 1, 1)
	root := &gTok{}
	switch sym.Choice("shape", sym.Param("shapes", 4)) {
	case 0:
		root = gTokOf("root", []gCon{every, gTokCon(exc, 0, 1)})
	case 1:
		root = gTokOf("root", []gCon{every, gTokCon(exc, 1, 1), gEvery("rest", gText("z", 'z'), gText("esc2", '*', '*'), 0, 1)}, []gCon{gVal("s", '*', 1, -1)})
	case 2:
		part := gTokOf("part", []gCon{gVal("q", '/', 1, 1), every, gTokCon(exc, 1, 1)})
		root = gTokOf("root", []gCon{gTokCon(part, 1, -1), gVal("z", 'z', 0, 1)})
	default:
		every.min, every.max = 0, -1
		root = gTokOf("root", []gCon{gVal("z", 'z', 0, 1), every, gTokCon(exc, 0, -1), gEvery("again", exc, nil, 0, 1)})
	}
	g := &gGram{root: root}
	switch sym.Choice("channels", sym.Param("chans", 3)) {
	case 1:
		g.channels = []gChan{{tok: gText("space", '/')}}
	case 2:
		g.channels = []gChan{{tok: gText("space", ' '), prev: exc}}
	}
	if sym.Param("text", 0) == 1 {
		data := []byte([]string{"/**/a*/", "***/*/z", "/*/ /*/", "a**/*.*/", "/a/*/*/"}[sym.Choice("text", 5)])
		at := sym.Choice("at", len(data))
		data[at] = sym.Byte("byte")
		checkExec(g, data)
		return
	}
	checkExec(g, astData("d", 5))
}

// H_AstFar: many escapes, long exceptions, many kinds of channels, long channels, externals in externals
func H_AstFar() {
	counts := []int{2, 9, 17, 33, 65, 129, 257, 300}
	n := counts[sym.Choice("count", sym.Param("counts", len(counts)))]
	last := sym.Byte("last")
	data := []byte{}
	times := func(k int, text ...byte) {
		for i := 0; i < k; i++ {
			data = append(data, text...)
		}
	}
	bytesOf := func(k int, val byte) []byte {
		out := []byte{}
		for i := 0; i < k; i++ {
			out = append(out, val)
		}
		return out
	}
	g := &gGram{}
	switch sym.Param("kind", 0) {
	case 0: // escapes
		end := gText("end", '"')
		g.root = gTokOf("root", []gCon{gEvery("all", end, gText("esc", '\\'), 1, 1), gTokCon(end, 0, 1)})
		times(n, '\\', '"')
		data = append(data, '\\', last, '"')
	case 1: // a long exception
		end := gText("end", bytesOf(n, 'e')...)
		g.root = gTokOf("root", []gCon{gEvery("all", end, nil, 1, 1), gTokCon(end, 0, 1)})
		times(n-1, 'e')
		data = append(data, last)
		times(n, 'e')
	case 2: // a long escape
		end := gText("end", '"')
		g.root = gTokOf("root", []gCon{gEvery("all", end, gText("esc", bytesOf(n, 'e')...), 1, 1), gTokCon(end, 0, 1)})
		times(n-1, 'e')
		data = append(data, last, '"', '"')
	case 3: // many kinds of channels
		for i := 0; i < n; i++ {
			g.channels = append(g.channels, gChan{tok: gText("c"+string(rune(0x100+i)), byte(i%200), byte(i/200))})
		}
		g.root = gTokOf("root", []gCon{gVal("a", 255, 1, -1)})
		data = append(data, 255, byte((n-1)%200), last, 255, 0, 0, 255)
	case 4: // a long channel
		g.channels = []gChan{{tok: gTokOf("comment", []gCon{gVal("s", '#', 1, 1), gEvery("text", gText("nl", '\n'), nil, 1, 1), gVal("n", '\n', 1, 1)})}}
		g.root = gTokOf("root", []gCon{gVal("a", 'a', 1, -1)})
		data = append(data, 'a', '#')
		times(n, '.')
		data = append(data, last, '\n', 'a')
	case 5: // externals in externals
		inner := &gGram{root: gTokOf("x", []gCon{gVal("x", 'x', 1, 1)}), channels: []gChan{{tok: gText("dash", '-')}}}
		for i := 0; i < n; i++ {
			inner = &gGram{root: gTokOf("r"+string(rune(0x100+i)), []gCon{gVal("a", 'a', 0, 1), gExt("e"+string(rune(0x100+i)), inner, 1, 1)})}
		}
		g = inner
		times(n/2, 'a')
		data = append(data, last, 'x')
	case 6: // a long previous and a long next
		g.root = gTokOf("root", []gCon{gTokCon(gTokOf("word", []gCon{gVal("a", 'a', 1, -1), gVal("b", 'b', 0, 1)}, []gCon{gVal("c", 'c', 1, 1)}), 1, -1)})
		g.channels = []gChan{{tok: gText("space", ' '), prev: gTokOf("prev", []gCon{gVal("a", 'a', n, n)}), next: gTokOf("next", []gCon{gVal("a", 'a', n, n), gVal("b", 'b', 1, 1)})}}
		times(n-1, 'a')
		data = append(data, last, ' ')
		times(n, 'a')
		data = append(data, 'b')
	case 7: // repeated everythings
		end := gText("end", '"')
		g.root = gTokOf("root", []gCon{gTokCon(gTokOf("part", []gCon{gVal("q", '\'', 1, 1), gEvery("all", end, nil, 0, 1), gTokCon(end, 1, 1)}), 1, -1)})
		times(n-1, '\'', 'a', '"')
		data = append(data, last, 'b', '"')
	case 8: // composes after one another
		line := []gCon{}
		for i := 0; i < n; i++ {
			line = append(line, gComp("c"+string(rune(0x100+i)), gCompItem{'a', 1}, gCompItem{byte('b' + i%2), 1}))
			data = append(data, 'a', byte('b'+i%2))
		}
		data[len(data)-1] = last
		g.root = gTokOf("root", line, []gCon{gVal("a", 'a', 1, 1)})
		g.channels = []gChan{{tok: gText("space", ' ')}}
	case 9: // data that remains
		g.root = gTokOf("root", []gCon{gVal("a", 'a', 1, 2)})
		data = append(data, 'a', last)
		times(n*20, 'r')
	}
	_, node := checkExec(g, data)
	if node != nil {
		sym.Reach("matched")
	}
}

// H_AstFetchFar: names deep inside of a tree, of long lines and of long lists
func H_AstFetchFar() {
	n := sym.Param("n", 40)
	last := sym.Byte("last")
	data := []byte{}
	g := &gGram{}
	name := ""
	index := 0
	switch sym.Param("kind", 0) {
	case 0: // deep
		tok := gTokOf("leaf", []gCon{gVal("x", 'x', 0, 1), gVal("y", 'y', 0, 1)})
		for i := 0; i < n; i++ {
			tok = gTokOf("t"+string(rune(0x100+i)), []gCon{gVal("a", 'a', 0, 1), gTokCon(tok, 1, 1)})
		}
		g.root = tok
		data = append(data, 'a', last)
		name = []string{"x", "y", "leaf", "t" + string(rune(0x100))}[sym.Choice("name", 4)]
	case 1: // a long line
		line := []gCon{}
		for i := 0; i < n; i++ {
			line = append(line, gVal("v"+string(rune(0x100+i)), 'v', 1, 1))
			data = append(data, 'v')
		}
		line = append(line, gVal("x", 'x', 0, 1), gTokCon(gTokOf("leaf", []gCon{gVal("y", 'y', 1, 1)}), 0, 1))
		g.root = gTokOf("root", line)
		data = append(data, last)
		name = []string{"x", "y", "leaf", "v" + string(rune(0x100+n-1)), "v" + string(rune(0x100))}[sym.Choice("name", 5)]
	case 2: // the contents of one element
		leaf := gTokOf("leaf", []gCon{gVal("x", 'x', 1, 1)}, []gCon{gVal("y", 'y', 1, 1)})
		g.root = gTokOf("root", []gCon{gTokCon(leaf, 1, -1)})
		for i := 0; i < n; i++ {
			data = append(data, 'x')
		}
		data = append(data, last)
		name = []string{"x", "y", "leaf"}[sym.Choice("name", 3)]
	case 3: // elements of one name by their index
		line := []gCon{}
		for i := 0; i < n; i++ {
			line = append(line, gVal("v", byte('a'+i%3), 1, 1), gVal("w", 'w', 0, 1))
			data = append(data, byte('a'+i%3))
		}
		line = append(line, gVal("v", 'x', 0, 1))
		g.root = gTokOf("root", line)
		data = append(data, last)
		name = []string{"v", "w"}[sym.Choice("name", 2)]
		index = []int{0, 1, n - 1, n, n + 1}[sym.Choice("index", 5)]
	}
	t, node := checkExec(g, data)
	if t == nil {
		return
	}
	tree, el, err := t.Fetch(name, uint(index))
	wantNode, wantEl := rFetch(node, name)
	if index > 0 || sym.Param("kind", 0) == 3 {
		wantNode, wantEl = nil, nil
		at := index
		for i := range node.els {
			if node.els[i].name != name {
				continue
			}
			if at == 0 {
				wantEl = &node.els[i]
				break
			}
			at--
		}
	}
	sym.Assert((err == nil) == (wantNode != nil || wantEl != nil), "a name is found exactly when it was matched")
	if err != nil {
		sym.Reach("absent")
		return
	}
	sym.Assert((tree != nil) == (wantNode != nil) && (el != nil) == (wantEl != nil), "a name gives a tree or an element")
	if tree != nil {
		sameAst(tree, wantNode, data)
	}
	if el != nil {
		text := []byte{}
		for _, c := range wantEl.contents {
			text = append(text, c.text(true)...)
		}
		sym.Assert(el.Grammar().Name() == name, "the fetched element has the name")
		sym.Assert(sym.EqBytes(el.Bytes(true), text), "the element of that index is fetched")
		sym.Assert(int(el.Amount()) == len(wantEl.contents), "the element of that index is fetched")
	}
	sym.Reach("found")
}

// H_AstReuseMany: one application executes many times, also grammars that are built while it is used
func H_AstReuseMany() {
	n := sym.Param("n", 40)
	app := ast.NewApplication()
	last := sym.Byte("last")
	shared := reuseGrammar(0)
	real := shared.build()
	var first trees.Tree
	var firstWant *rNode
	firstData := []byte{}
	run := func(k int) {
		g, r := shared, real
		if k%2 == 1 {
			// other grammars with the same names
			g = reuseGrammar(k % 3)
			r = g.build()
		}
		data := []byte("( x)x ")
		if k == 0 || k >= n-2 {
			data[3] = last
		}
		if k%3 == 1 {
			data = data[:2]
		}
		t, err := app.Execute(r, data)
		want := gMatch(g, data)
		sym.Assert((err == nil) == (want != nil), "an execution is like the reference whatever was executed before")
		if err == nil {
			sameAst(t, want, data)
			if first == nil {
				first, firstWant, firstData = t, want, data
			}
			if k == n-1 {
				sym.Reach("last")
			}
		}
	}
	for k := 0; k < n; k++ {
		run(k)
	}
	if first != nil {
		// the first tree is as it was
		sameAst(first, firstWant, firstData)
	}
}
