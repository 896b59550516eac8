package h

import (
	ast "github.com/steve-care-software/rodkina/libs/asts/applications"
	"github.com/steve-care-software/rodkina/verifh/sym"
)

// H_AstFetchIndex: the elements of a line that share their name are fetched by index
func H_AstFetchIndex() {
	leaf := gTokOf("leaf", []gCon{gVal("x", 'x', 1, 1), gVal("y", 'z', 0, 1)})
	mid := gTokOf("mid", []gCon{gTokCon(leaf, 0, -1), gVal("m", 'm', 1, 1)})
	line := []gCon{gVal("a", 'a', 0, 1), gTokCon(mid, 0, 1), gVal("a", 'b', 1, 2), gVal("b", 'm', 0, 1), gTokCon(mid, 0, 1), gVal("a", 'c', 0, 1)}
	root := gTokOf("root", line)
	data := astData("d", 4)
	if sym.Bool("long") {
		data = append([]byte("axmbb"), data...)
	}
	t, n := checkExec(&gGram{root: root}, data)
	if t == nil {
		return
	}
	name := []string{"a", "mid", "b"}[sym.Choice("name", 3)]
	index := sym.Choice("index", 4)
	at := index
	var want *rEl
	for i, left := range n.els {
		if left.name != name {
			continue
		}
		if at == 0 {
			want = &n.els[i]
			break
		}
		at--
	}
	tree, el, err := t.Fetch(name, uint(index))
	sym.Assert((err == nil) == (want != nil), "an element is found by index exactly when the line has so many of the name")
	if err != nil {
		sym.Reach("absent")
		return
	}
	sym.Assert(tree == nil && el != nil, "the name of an element gives an element")
	text := []byte{}
	for _, c := range want.contents {
		text = append(text, c.text(true)...)
	}
	sym.Assert(el.Grammar().Name() == name, "the fetched element has the name")
	sym.Assert(sym.EqBytes(el.Bytes(true), text), "an element is fetched by its index among those of the name")
	sym.Assert(int(el.Amount()) == len(want.contents), "an element is fetched by its index among those of the name")
	sym.Reach("found")
}

// H_AstComposeLong: values that occur many times, many values and many composes
func H_AstComposeLong() {
	counts := []int{9, 17, 255, 256, 257, 300, 3, 8, 33, 65, 129, 512, 600}
	n := counts[sym.Choice("count", sym.Param("counts", 6))]
	v := sym.Byte("v")
	line := []gCon{}
	switch sym.Choice("kind", 4) {
	case 0: // one value many times
		line = append(line, gComp("c", gCompItem{v, uint(n)}))
	case 1: // and another one before and after
		line = append(line, gComp("c", gCompItem{'x', 2}, gCompItem{v, uint(n)}, gCompItem{'x', 1}))
	case 2: // many values
		items := []gCompItem{}
		for i := 0; i < n; i++ {
			one := gCompItem{byte('a' + i%7), uint(1 + i%2)}
			if i == n/2 {
				one.val = v
			}
			items = append(items, one)
		}
		line = append(line, gComp("c", items...))
	case 3: // many composes
		for i := 0; i < n; i++ {
			one := gCompItem{byte('a' + i%5), uint(1 + i%3)}
			if i == n-1 {
				one.val = v
			}
			line = append(line, gComp("c"+itoa(i), one, gCompItem{'-', 1}))
		}
	}
	want := []byte{}
	for _, c := range line {
		for _, item := range c.comp {
			for k := uint(0); k < item.n; k++ {
				want = append(want, item.val)
			}
		}
	}
	tok := gTokOf("tok", line)
	got, err := ast.NewApplication().Compose(tok.build())
	must(err, "composing")
	sym.Assert(len(got) == len(want) && sym.EqBytes(got, want), "composing gives every value as often as it occurs, in order")
	data := append([]byte{}, want...)
	switch at := len(want) - 1; sym.Choice("data", 4) {
	case 0:
		data[at] = sym.Byte("d")
	case 1:
		data = append(data, sym.Byte("d"))
	case 2:
		data[at/2] = sym.Byte("d")
	case 3:
		data = data[:at]
	}
	checkExec(&gGram{root: tok}, data)
}

// reuseExternal gives grammars whose externals have the same name
func reuseExternal(k int) *gGram {
	blank := gChan{tok: gText("blank", ' ')}
	inner := &gGram{root: gTokOf("inner", []gCon{gVal("i", 'i', 1, 1)})}
	outer := &gGram{}
	switch k {
	case 1:
		inner = &gGram{root: gTokOf("inner", []gCon{gVal("i", 'i', 1, 2)}), channels: []gChan{blank}}
	case 2:
		inner = &gGram{root: gTokOf("inner", []gCon{gVal("i", 'i', 2, 2)}, []gCon{gVal("j", ' ', 1, 1)})}
		outer.channels = []gChan{blank}
	}
	outer.root = gTokOf("root", []gCon{gExt("ext", inner, 1, 2), gVal("end", ';', 0, 1)})
	return outer
}

// H_AstCoverageLong: many suites, tokens, lines, elements and channels
func H_AstCoverageLong() {
	n := sym.Param("n", 40)
	b := sym.Byte("b")
	at := []int{0, n - 1, n / 2}[sym.Choice("at", 3)]
	g := &gGram{}
	kind := sym.Param("kind", -1)
	if kind < 0 {
		kind = sym.Choice("kind", 6)
	}
	letter := func(i int) byte { return byte(33 + i%90) }
	switch kind {
	case 0: // many suites
		g.root = gTokOf("root", []gCon{gVal("x", 'x', 1, 3), gVal("y", 'y', 0, 1)}, []gCon{gVal("z", 'z', 1, -1)})
		for i := 0; i < n; i++ {
			data := []byte([]string{"x", "xxy", "z", "q", "xxx"}[i%5])
			if i == at {
				data[0] = b
			}
			g.root.suites = append(g.root.suites, gSuite{data: data, valid: i%2 == 0})
		}
	case 1: // many lines
		lines := [][]gCon{}
		for i := 0; i < n; i++ {
			lines = append(lines, []gCon{gVal("v"+itoa(i), letter(i), 1, 1), gVal("w", 'x', 0, 1)})
		}
		g.root = gTokOf("root", lines...)
		g.root.suites = []gSuite{{data: []byte{b, 'x'}, valid: true}, {data: []byte{letter(at)}, valid: true}}
	case 2: // many elements in a line
		line := []gCon{}
		data := []byte{}
		for i := 0; i < n; i++ {
			line = append(line, gVal("v"+itoa(i/2), letter(i), 0, 1))
			if i == at {
				data = append(data, b)
			} else if i%3 > 0 {
				data = append(data, letter(i))
			}
		}
		g.root = gTokOf("root", line)
		g.root.suites = []gSuite{{data: data, valid: true}}
	case 3: // tokens in tokens
		tok := gTokOf("leaf", []gCon{gVal("x", 'x', 1, 1), gVal("y", 'y', 0, 1)})
		for i := 0; i < n; i++ {
			tok = gTokOf("t"+itoa(i), []gCon{gTokCon(tok, 1, 1), gVal("z", 'z', 0, 1)})
			if i == at {
				tok.suites = []gSuite{{data: []byte{'x', b}, valid: true}, {data: []byte{'y'}, valid: false}}
			}
		}
		g.root = tok
		if sym.Bool("suite") {
			g.root.suites = []gSuite{{data: []byte("xy"), valid: true}}
		}
	case 4: // long suites
		g.root = gTokOf("root", []gCon{gVal("x", 'x', n-1, n-1), gVal("y", 'y', 1, 1)}, []gCon{gVal("x", 'x', 0, -1)})
		for _, more := range []int{0, 1, 2} {
			data := []byte(rep("x", n-2+more))
			data = append(data, 'y')
			if more == 1 {
				data[at] = b
			}
			g.root.suites = append(g.root.suites, gSuite{data: data, valid: more == 1})
		}
	case 5: // many channels
		g.root = gTokOf("root", []gCon{gVal("x", 'x', 1, 1), gVal("y", 'y', 0, 1)})
		for i := 0; i < n; i++ {
			tok := gText("channel"+itoa(i), letter(i))
			if i%3 != 1 {
				tok.suites = []gSuite{{data: []byte{letter(i)}, valid: true}}
			}
			if i == at {
				tok.suites = append(tok.suites, gSuite{data: []byte{b}, valid: true})
			}
			g.channels = append(g.channels, gChan{tok: tok})
		}
		if sym.Bool("suite") {
			g.root.suites = []gSuite{{data: []byte{letter(at), 'x', letter(0), 'y'}, valid: true}}
		}
	}
	suiteCheck(g)
}
