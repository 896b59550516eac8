package h

import (
	components "github.com/steve-care-software/rodkina/instances/grammars/components"
	"github.com/steve-care-software/rodkina/instances/grammars/tokens"
	ast "github.com/steve-care-software/rodkina/libs/asts/applications"
	"github.com/steve-care-software/rodkina/libs/asts/domain/grammars"
	"github.com/steve-care-software/rodkina/verifh/sym"
)

// H_ComponentsFar: the helpers on long texts, with many characters, alternatives and suites
func H_ComponentsFar() {
	c := components.NewComponent()
	n := sym.Param("n", 40)
	last := sym.Byte("last")
	letter := func(i int) byte { return byte('a' + i%26) }
	text := []byte{}
	for i := 0; i < n; i++ {
		text = append(text, letter(i))
	}
	root := func(list ...grammars.Element) grammars.Token {
		return c.Token().FromBlock("root", c.Block().FromLines([]grammars.Line{c.Line().FromElements(list)}), nil)
	}
	switch sym.Param("kind", 0) {
	case 0: // all the characters of a long text
		tok := c.Token().AllCharacters("all", string(text))
		data := append([]byte{}, text...)
		data[[]int{0, n / 2, n - 1}[sym.Choice("at", 3)]] = last
		data = append(data, 'z', 'z')[:n+sym.Choice("more", 3)]
		got := matchedBytes(tok, nil, data)
		if sym.EqBytes(data[:n], text) {
			sym.Assert(got == n, "all the characters of a text match that text")
			sym.Reach("matched")
		} else {
			sym.Assert(got == -1, "all the characters of a text match only that text")
			sym.Reach("refused")
		}
	case 1: // any of many characters
		many := []rune{}
		for i := 0; i < n; i++ {
			many = append(many, rune(33+2*i))
		}
		data := []byte{last}
		if sym.Bool("wide") {
			data = []byte(string(rune(33 + 2*(n-1))))
			data = append(data, last)
		}
		want := -1
		for _, r := range many {
			if char := string(r); len(data) >= len(char) && sym.EqBytes(data[:len(char)], []byte(char)) {
				want = len(char)
				break
			}
		}
		sym.Assert(matchedBytes(c.Token().AnyCharacter("any", string(many)), nil, data) == want, "any character of a text matches exactly one of them")
		if want > 0 {
			sym.Reach("matched")
		} else {
			sym.Reach("refused")
		}
	case 2: // a compose of a long text
		data := append([]byte{}, text...)
		data[[]int{0, n / 2, n - 1}[sym.Choice("at", 3)]] = last
		tok := c.Token().FromBlock("tok", c.Block().FromLines([]grammars.Line{composeLine(c.Compose().Compose(data))}), nil)
		got, err := ast.NewApplication().Compose(tok)
		must(err, "composing")
		sym.Assert(sym.EqBytes(got, data), "composed data is the data the compose was made of")
		sym.Assert(matchedBytes(tok, nil, data) == n, "a compose matches its data")
		sym.Reach("matched")
	case 3: // high bounds
		min, max := uint(n), uint(n+1)
		pMax := &max
		if sym.Bool("open") {
			pMax = nil
		}
		card := c.Cardinality().Cardinality(min, pMax)
		tok := root(c.Element().FromToken(c.Token().AllCharacters("x", "x"), card))
		amount := n - 1 + sym.Choice("amount", 4)
		data := []byte{}
		for i := 0; i < amount; i++ {
			data = append(data, 'x')
		}
		data[n-3+sym.Choice("at", 2)] = last
		run := 0
		for run < amount && data[run] == 'x' {
			run++
		}
		want := run
		if pMax != nil && want > n+1 {
			want = n + 1
		}
		if want < n {
			want = -1
		}
		sym.Assert(matchedBytes(tok, nil, data) == want, "an element is matched within its cardinality")
		if want > 0 {
			sym.Reach("matched")
		} else {
			sym.Reach("refused")
		}
	case 4: // many alternatives
		list := []grammars.Element{}
		for i := 0; i < n; i++ {
			list = append(list, c.Element().FromToken(c.Token().AllCharacters("t"+string(rune(0x100+i)), string([]byte{letter(i), letter(i / 26)})), c.Cardinality().Once()))
		}
		data := []byte{letter(n - 1), last}
		want := -1
		for i := 0; i < n; i++ {
			if letter(i) == data[0] && letter(i/26) == last {
				want = i
				break
			}
		}
		tree := execute(grammarOf(c.Token().AnyElement("any", list, nil), nil), data)
		sym.Assert((tree != nil) == (want >= 0), "any of the elements matches")
		if tree == nil {
			sym.Reach("refused")
			return
		}
		sym.Assert(int(tree.Block().Successful().Index()) == want, "the first element that matches is used")
		sym.Reach("matched")
	case 5: // many and long suites
		texts := map[string]bool{}
		for i := 0; i < n; i++ {
			texts[string(text[:i])+"-"] = i%3 == 0
		}
		suites := c.Suite().Suites(texts)
		sym.Assert(len(suites.List()) == n, "every text has a suite")
		found := map[string]bool{}
		for _, one := range suites.List() {
			got, err := ast.NewApplication().Compose(c.Token().FromBlock("t", c.Block().FromLines([]grammars.Line{composeLine(one.Content())}), nil))
			must(err, "composing")
			valid, ok := texts[string(got)]
			sym.Assert(ok && !found[string(got)], "a suite has the text it was made of")
			sym.Assert(one.IsValid() == valid, "a suite is as valid as its text")
			found[string(got)] = true
		}
		sym.Reach("matched")
	case 6: // long comments and many blanks
		data := []byte{}
		switch sym.Choice("gap", 3) {
		case 0:
			data = append(data, "x//"...)
			data = append(append(data, text...), last, '\n', 'y', ' ')
		case 1:
			data = append(data, 'x')
			for i := 0; i < n; i++ {
				data = append(data, " \t\n\r"[i%4])
			}
			data = append(data, last, 'y')
		default:
			for i := 0; i < n; i++ {
				data = append(data, "//a\n"...)
			}
			data = append(data, last, 'x', 'y')
		}
		got := matchedBytes(c.Token().AllCharacters("xy", "xy"), c.Channel().Channels(), data)
		want := -1
		if at := skipBuiltin(data, 0); at < len(data) && data[at] == 'x' {
			if at = skipBuiltin(data, at+1); at < len(data) && data[at] == 'y' {
				want = skipBuiltin(data, at+1)
			}
		}
		sym.Assert(got == want, "blanks and comments are skipped before, between and after values")
		if want >= 0 {
			sym.Reach("matched")
		} else {
			sym.Reach("refused")
		}
	case 7: // long variable names
		data := append(append([]byte{}, text...), last, 'Z')
		got := matchedBytes(tokens.NewToken().VariableName(), nil, data)
		want := n
		for want < len(data) && isLetter(data[want]) {
			want++
		}
		sym.Assert(got == want, "a variable name is a lower case letter followed by all the letters")
		sym.Reach("matched")
	}
}

// H_ScriptFar: scripts of many channels and instructions, with long names, numbers, suites and comments
func H_ScriptFar() {
	g := builtinGrammar()
	n := sym.Param("n", 12)
	last := sym.Byte("last")
	d := []byte("@a;")
	add := func(k int, text string) {
		for i := 0; i < k; i++ {
			d = append(d, text...)
		}
	}
	switch sym.Param("kind", 0) {
	case 0: // channels
		add(n, "-b;")
		add(1, "-c[d:e];f:1;")
		d[3+3*(n-1)] = last
	case 1: // instructions
		add(n-1, "b:1;")
		d = append(d, 'b', ':', last, ';')
	case 2: // a long name
		add(n, "b")
		d = append(d, last, ':', '1', ';')
	case 3: // a long number
		add(1, "b:")
		add(n, "1")
		d = append(d, last, ';')
	case 4: // suites
		add(1, "b:c---valid:d")
		add(n-1, "&e")
		d = append(d, '&', last, ';', ';')
	case 5: // a token of many lines and elements
		add(1, "b:c*")
		add(n, "d+")
		add(n, "|e?")
		d = append(d, last, '*', '-', '-', '-', 'v', 'a', 'l', 'i', 'd', ':', 'c', ';', ';')
	case 6: // a compose of many values
		add(1, "b:c")
		add(n, "|4")
		d = append(d, '|', last)
		add(1, "---valid:d;;")
	case 7: // comments and blanks
		add(n, "//c\n ")
		add(1, "b:1;")
		add(n, " \t")
		d = append(d, last)
	}
	for _, b := range d {
		sym.Assume(b < 0x80)
	}
	checkScript(g, d)
}
