package h

import (
	"strings"

	components "github.com/steve-care-software/rodkina/instances/grammars/components"
	builtin "github.com/steve-care-software/rodkina/instances/grammars/grammars"
	"github.com/steve-care-software/rodkina/instances/grammars/tokens"
	ast "github.com/steve-care-software/rodkina/libs/asts/applications"
	"github.com/steve-care-software/rodkina/libs/asts/domain/grammars"
	"github.com/steve-care-software/rodkina/libs/asts/domain/trees"
	"github.com/steve-care-software/rodkina/verifh/sym"
)

// grammarOf makes a token the root of a grammar
func grammarOf(t grammars.Token, ch grammars.Channels) grammars.Grammar {
	b := grammars.NewBuilder().Create().WithRoot(t)
	if ch != nil {
		b.WithChannels(ch)
	}
	out, err := b.Now()
	must(err, "grammar")
	return out
}

// matchedBytes executes a token and returns how many bytes it matched, -1 when it did not match
func matchedBytes(t grammars.Token, ch grammars.Channels, data []byte) int {
	tree := execute(grammarOf(t, ch), data)
	if tree == nil {
		return -1
	}
	conserved(tree, data)
	return len(data) - len(tree.Remaining())
}

// conserved says that the tree and its remaining data are the data
func conserved(tree trees.Tree, data []byte) {
	all := append([]byte{}, tree.Bytes(true)...)
	all = append(all, tree.Remaining()...)
	sym.Assert(sym.EqBytes(all, data), "the bytes of a tree and the remaining data are the data")
}

func within(b, lo, hi byte) bool { return sym.And(b >= lo, b <= hi) }
func isLower(b byte) bool        { return within(b, 'a', 'z') }
func isUpper(b byte) bool        { return within(b, 'A', 'Z') }
func isDigit(b byte) bool        { return within(b, '0', '9') }
func isLetter(b byte) bool       { return sym.Or(isLower(b), isUpper(b)) }
func isHex(b byte) bool {
	return sym.Or(isDigit(b), sym.Or(within(b, 'a', 'f'), within(b, 'A', 'F')))
}

// H_TokenOne: the tokens of one character
func H_TokenOne() {
	t := tokens.NewToken()
	data := sym.Bytes("d", sym.Choice("len", 3))
	var tok grammars.Token
	is := func(byte) bool { return false }
	switch sym.Choice("token", 7) {
	case 0:
		tok, is = t.AnyHexCharacter(), isHex
	case 1:
		tok, is = t.AnyLetter(), isLetter
	case 2:
		tok, is = t.AnyNumber(), isDigit
	case 3:
		tok, is = t.AToFUpperCaseLetters(), func(b byte) bool { return within(b, 'A', 'F') }
	case 4:
		tok, is = t.AToFLowerCaseLetters(), func(b byte) bool { return within(b, 'a', 'f') }
	case 5:
		tok, is = t.UpperCaseLetters(), isUpper
	default:
		tok, is = t.LowerCaseLetters(), isLower
	}
	got := matchedBytes(tok, nil, data)
	if len(data) == 0 {
		sym.Assert(got == -1, "a character token does not match without data")
		return
	}
	if got == -1 {
		sym.Assert(!is(data[0]), "a character token matches all of its characters")
		sym.Reach("refused")
		return
	}
	sym.Assert(got == 1 && is(data[0]), "a character token matches exactly one of its characters")
	sym.Reach("matched")
}

// H_TokenByte: any byte
func H_TokenByte() {
	data := sym.Bytes("d", sym.Choice("len", 2))
	tok := tokens.NewToken().AnyByte()
	got := matchedBytes(tok, nil, data)
	if len(data) == 0 {
		sym.Assert(got == -1, "any byte does not match without data")
		return
	}
	sym.Assert(got == 1, "any byte matches every byte")
	sym.Reach("matched")
}

// H_TokenVariable: variable names
func H_TokenVariable() {
	data := sym.Bytes("d", sym.Choice("len", sym.Param("data", 3)))
	got := matchedBytes(tokens.NewToken().VariableName(), nil, data)
	want := -1
	if len(data) > 0 && isLower(data[0]) {
		want = 1
		for want < len(data) && isLetter(data[want]) {
			want++
		}
	}
	sym.Assert(got == want, "a variable name is a lower case letter followed by all the letters")
	if got > 0 {
		sym.Reach("matched")
	} else {
		sym.Reach("refused")
	}
}

// H_TokenDigest: 128 hexadecimal characters
func H_TokenDigest() {
	lens := []int{128, 127, 129, 130, 0, 1}
	n := lens[sym.Choice("len", sym.Param("lens", 4))]
	data := make([]byte, n)
	for i := range data {
		data[i] = "a0"[i%2]
	}
	at := []int{0, 127, 64, 128}[sym.Choice("at", 4)]
	if at < n {
		data[at] = sym.Byte("d")
	}
	got := matchedBytes(tokens.NewToken().Sha512Hex(), nil, data)
	ok := n >= 128
	for i := 0; i < n && i < 128; i++ {
		ok = sym.And(ok, isHex(data[i]))
	}
	if got == -1 {
		sym.Assert(!ok, "a digest of 128 hexadecimal characters is matched")
		sym.Reach("refused")
		return
	}
	sym.Assert(sym.And(ok, got == 128), "only a digest of 128 hexadecimal characters is matched")
	sym.Reach("matched")
}

// H_Components: the helpers build what they say
func H_Components() {
	c := components.NewComponent()
	app := ast.NewApplication()
	texts := []string{"a", "//", "abc", "a-a", "\x00\n", "é", "zz€", "---", "Āb€"}
	text := texts[sym.Choice("text", len(texts))]
	data := sym.Bytes("d", sym.Choice("len", sym.Param("data", 5)))
	switch sym.Choice("helper", 4) {
	case 0:
		got := matchedBytes(c.Token().AllCharacters("all", text), nil, data)
		isPrefix := len(data) >= len(text) && sym.EqBytes(data[:len(text)], []byte(text))
		if got == -1 {
			sym.Assert(!isPrefix, "all the characters of a text match that text")
			return
		}
		sym.Assert(got == len(text) && isPrefix, "all the characters of a text match only that text")
		sym.Reach("all")
	case 1:
		// the first character of the text, in order, that starts the data
		want := -1
		for _, r := range text {
			if char := string(r); len(data) >= len(char) && sym.EqBytes(data[:len(char)], []byte(char)) {
				want = len(char)
				break
			}
		}
		sym.Assert(matchedBytes(c.Token().AnyCharacter("any", text), nil, data) == want, "any character of a text matches exactly one of them")
		if want > 0 {
			sym.Reach("any")
		}
	case 2:
		if len(data) == 0 {
			return
		}
		line, err := grammars.NewLineBuilder().Create().WithContainers([]grammars.Container{composeContainer(c.Compose().Compose(data))}).Now()
		must(err, "line")
		tok := c.Token().FromBlock("tok", c.Block().FromLines([]grammars.Line{line}), nil)
		got, err := app.Compose(tok)
		must(err, "composing")
		sym.Assert(sym.EqBytes(got, data), "composed data is the data the compose was made of")
		sym.Reach("compose")
	default:
		// elements with a cardinality
		tok := c.Token().AllCharacters("all", "xy")
		min := uint(sym.Choice("min", 3))
		var pMax *uint
		if k := sym.Choice("max", 4); k > 0 {
			max := uint(k)
			pMax = &max
		}
		card := c.Cardinality().Cardinality(min, pMax)
		sym.Assert(card.Min() == min && card.HasMax() == (pMax != nil), "a cardinality has its bounds")
		if pMax != nil {
			sym.Assert(*card.Max() == *pMax, "a cardinality has its maximum")
		}
		once := c.Cardinality().Once()
		sym.Assert(once.Min() == 1 && once.HasMax() && *once.Max() == 1, "once is exactly one")
		root := c.Token().FromBlock("root", c.Block().FromLines([]grammars.Line{c.Line().FromElements([]grammars.Element{c.Element().FromToken(tok, card)})}), nil)
		got := matchedBytes(root, nil, data)
		want := 0
		for len(data) >= want+2 && (pMax == nil || uint(want/2) < *pMax) && data[want] == 'x' && data[want+1] == 'y' {
			want += 2
		}
		if uint(want/2) < min || want == 0 {
			want = -1
		}
		sym.Assert(got == want, "an element is matched within its cardinality")
		sym.Reach("cardinality")
	}
}

func composeContainer(c grammars.Compose) grammars.Container {
	out, err := grammars.NewContainerBuilder().Create().WithCompose(c).Now()
	must(err, "container")
	return out
}

// skipBuiltin is the reference of the built-in channels: blanks and comments until the end of the line
func skipBuiltin(data []byte, at int) int {
	for at < len(data) {
		b := data[at]
		if b == ' ' || b == '\t' || b == '\n' || b == '\r' {
			at++
			continue
		}
		if b != '/' || at+2 >= len(data) || data[at+1] != '/' {
			return at
		}
		end := at + 2
		for end < len(data) && data[end] != '\n' && data[end] != '\r' {
			end++
		}
		if end == at+2 {
			return at // a comment holds at least one byte
		}
		at = end
	}
	return at
}

// H_Channels: the built-in channels
func H_Channels() {
	c := components.NewComponent()
	data := sym.Bytes("d", sym.Choice("len", sym.Param("data", 6)))
	if sym.Bool("comment") {
		data = append([]byte{'/', '/'}, data...)
	}
	tok := c.Token().AllCharacters("xy", "xy")
	got := matchedBytes(tok, c.Channel().Channels(), data)
	want := -1
	if at := skipBuiltin(data, 0); at < len(data) && data[at] == 'x' {
		if at = skipBuiltin(data, at+1); at < len(data) && data[at] == 'y' {
			want = skipBuiltin(data, at+1)
		}
	}
	sym.Assert(got == want, "blanks and comments are skipped before, between and after values")
	if got >= 0 {
		sym.Reach("matched")
	} else {
		sym.Reach("refused")
	}
}

// scripts of the built-in grammar

type script struct {
	out  []byte
	name int
	gaps int
}

// word writes a variable name; one of its letters is arbitrary
func (s *script) word() {
	s.name++
	s.gap()
	if s.name == sym.Param("symname", 0) {
		a := sym.Byte("letter")
		sym.Assume(isLower(a))
		s.out = append(s.out, a, 'B')
		return
	}
	s.out = append(s.out, 'b')
}

// gap writes what channels skip
func (s *script) gap() {
	s.gaps++
	if s.gaps == sym.Param("symgap", 0) {
		b := sym.Byte("blank")
		sym.Assume(sym.Or(sym.Or(b == ' ', b == '\n'), sym.Or(b == '\t', b == '\r')))
		s.out = append(s.out, b)
	}
	if s.gaps == sym.Param("comment", 0) {
		s.out = append(s.out, "// c\n"...)
	}
}

func (s *script) sign(text string) {
	s.gap()
	s.out = append(s.out, text...)
}

func (s *script) suite(k int) {
	s.sign("---")
	if k != 1 {
		s.sign("valid")
		s.sign(":")
		s.word()
		if k == 3 {
			s.sign("&")
			s.word()
		}
		s.sign(";")
	}
	if k > 0 {
		s.sign("invalid")
		s.sign(":")
		s.word()
		s.sign(";")
	}
}

// kinds of instructions
const (
	kindValue = iota
	kindCompose
	kindEverything
	kindToken
	kindExternal
)

func (s *script) instruction(kind int, choice int) {
	s.word()
	s.sign(":")
	switch kind {
	case kindValue:
		s.gap()
		b := sym.Byte("digit")
		sym.Assume(sym.And(b >= '0', b <= '9'))
		s.out = append(s.out, b)
		s.out = append(s.out, "07"[:choice]...)
		s.sign(";")
		return
	case kindCompose:
		s.word()
		if choice > 0 {
			s.sign("|")
			s.out = append(s.out, "45"[:choice]...)
		}
	case kindEverything:
		s.sign("#")
		s.word()
		if choice > 0 {
			s.sign("!")
			s.word()
		}
	case kindToken:
		s.word()
		s.out = append(s.out, []string{"*", "+", "?", "[2]", "[12,]", "[0,34]"}[choice]...)
		if choice == 2 {
			s.out = append(s.out, ' ')
			s.word()
			s.sign("|")
			s.word()
		}
	default:
		for i := 0; i < 128; i++ {
			s.out = append(s.out, "a0F9"[i%4])
		}
	}
	s.suite(choice % 4)
	s.sign(";")
}

func builtinGrammar() grammars.Grammar {
	return sym.Once(func() interface{} { return builtin.NewGrammar().Grammar() }).(grammars.Grammar)
}

// H_Script: scripts of the built-in grammar are accepted
func H_Script() {
	g := builtinGrammar()
	s := &script{}
	s.sign("@")
	s.word()
	s.sign(";")
	kind := sym.Choice("kind", 5)
	if sym.Param("kind", -1) >= 0 {
		kind = sym.Param("kind", -1)
	}
	choices := []int{2, 3, 2, 6, 1}[kind]
	choice := sym.Choice("choice", choices)
	channel := choice % 5
	if sym.Param("channel", -1) >= 0 {
		channel = sym.Param("channel", -1)
	}
	if channel > 0 {
		s.sign("-")
		s.word()
		if channel > 1 {
			s.sign("[")
			if channel != 3 {
				s.word()
			}
			if channel != 2 {
				s.sign(":")
				s.word()
			}
			s.sign("]")
		}
		s.sign(";")
	}
	s.instruction(kind, choice)
	second := -1
	if sym.Param("second", 0) > 0 {
		second = sym.Choice("next", 2) // a value or a compose follows
		s.instruction(second, 0)
	}
	tree := execute(g, s.out)
	sym.Assert(tree != nil, "a script of the grammar is accepted")
	sym.Assert(!tree.HasRemaining(), "a script of the grammar is accepted entirely")
	conserved(tree, s.out)
	names := []string{"valueAssignment", "composeAssignment", "everythingAssignment", "tokenAssignment", "externalTokenAssignment"}
	for i, name := range names {
		_, el, err := tree.Fetch(name, 0)
		found := err == nil && el != nil
		if i == kind {
			sym.Assert(found, "an instruction is recognized as what it is")
		} else if i != second {
			sym.Assert(!found, "an instruction is not recognized as another kind")
		}
	}
	sym.Reach("accepted")
}

// The reference of the built-in grammar: every function returns the position after what it
// matched, channels included, or -1.

type rScript struct {
	d     []byte
	kinds [5]bool
}

func (r *rScript) skip(p int) int { return skipBuiltin(r.d, p) }

func (r *rScript) any(p int, is func(byte) bool) int {
	p = r.skip(p)
	if p >= len(r.d) || !is(r.d[p]) {
		return -1
	}
	return p + 1
}

func (r *rScript) text(p int, text string) int {
	for i := 0; i < len(text); i++ {
		if p = r.skip(p); p >= len(r.d) || r.d[p] != text[i] {
			return -1
		}
		p++
	}
	return r.skip(p)
}

// many matches as often as possible
func (r *rScript) many(p, min int, f func(int) int) int {
	for n := 0; ; n++ {
		q := -1
		if p < len(r.d) {
			q = f(p)
		}
		if q < 0 {
			if n < min {
				return -1
			}
			return r.skip(p)
		}
		p = q
	}
}

func (r *rScript) seq(p int, fs ...func(int) int) int {
	for _, f := range fs {
		if p = f(p); p < 0 {
			return -1
		}
	}
	return r.skip(p)
}

func (r *rScript) first(p int, fs ...func(int) int) int {
	for _, f := range fs {
		if q := f(p); q >= 0 {
			return q
		}
	}
	return -1
}

func (r *rScript) sign(text string) func(int) int {
	return func(p int) int { return r.text(p, text) }
}

func (r *rScript) opt(f func(int) int) func(int) int {
	return func(p int) int {
		if q := f(p); q >= 0 {
			return q
		}
		return p
	}
}

func (r *rScript) times(min int, f func(int) int) func(int) int {
	return func(p int) int { return r.many(p, min, f) }
}

func (r *rScript) name(p int) int {
	if p = r.any(p, isLower); p < 0 {
		return -1
	}
	return r.many(p, 0, func(p int) int { return r.any(p, isLetter) })
}

func (r *rScript) number(p int) int {
	return r.many(p, 1, func(p int) int { return r.any(p, isDigit) })
}

func (r *rScript) suiteBlock(p int) int {
	return r.seq(p, r.sign(":"), r.name, r.times(0, func(p int) int { return r.seq(p, r.sign("&"), r.name) }), r.sign(";"))
}

func (r *rScript) suite(p int) int {
	valid := func(p int) int { return r.seq(p, r.sign("valid"), r.suiteBlock) }
	invalid := func(p int) int { return r.seq(p, r.sign("invalid"), r.suiteBlock) }
	return r.first(p,
		func(p int) int { return r.seq(p, r.sign("---"), valid, r.opt(invalid)) },
		func(p int) int { return r.seq(p, r.sign("---"), r.opt(valid), invalid) })
}

func (r *rScript) cardinality(p int) int {
	return r.first(p, r.sign("?"), r.sign("+"), r.sign("*"),
		func(p int) int { return r.seq(p, r.sign("["), r.number, r.sign("]")) },
		func(p int) int { return r.seq(p, r.sign("["), r.number, r.sign(","), r.opt(r.number), r.sign("]")) })
}

func (r *rScript) line(p int) int {
	return r.many(p, 1, func(p int) int { return r.seq(p, r.name, r.times(0, r.cardinality)) })
}

func (r *rScript) instruction(p int) int {
	start := func(p int) int { return r.seq(p, r.name, r.sign(":")) }
	end := func(p int) int { return r.seq(p, r.suite, r.sign(";")) }
	kinds := []func(int) int{
		func(p int) int { return r.seq(p, start, r.number, r.sign(";")) },
		func(p int) int {
			return r.seq(p, start, r.name, r.times(0, func(p int) int { return r.seq(p, r.sign("|"), r.number) }), end)
		},
		func(p int) int {
			return r.seq(p, start, r.sign("#"), r.name, r.opt(func(p int) int { return r.seq(p, r.sign("!"), r.name) }), end)
		},
		func(p int) int {
			return r.seq(p, start, r.line, r.times(0, func(p int) int { return r.seq(p, r.sign("|"), r.line) }), end)
		},
		func(p int) int {
			return r.seq(p, start, func(p int) int {
				for i := 0; i < 128 && p >= 0; i++ {
					p = r.any(p, isHex)
				}
				return p
			}, end)
		},
	}
	for k, f := range kinds {
		if q := f(p); q >= 0 {
			r.kinds[k] = true
			return q
		}
	}
	return -1
}

func (r *rScript) script() int {
	channel := func(p int) int {
		inside := func(p int) int {
			return r.first(p,
				func(p int) int { return r.seq(p, r.name, r.sign(":"), r.name) },
				func(p int) int { return r.seq(p, r.sign(":"), r.name) },
				r.name)
		}
		return r.seq(p, r.sign("-"), r.name, r.opt(func(p int) int { return r.seq(p, r.sign("["), inside, r.sign("]")) }), r.sign(";"))
	}
	return r.seq(0, r.sign("@"), r.name, r.sign(";"), r.times(0, channel), r.times(1, r.instruction))
}

// H_ScriptAny: a script with one byte changed, left out or added is matched as far as it is a script
func H_ScriptAny() {
	g := builtinGrammar()
	scripts := []string{
		"@a;b:1;",
		"@aB;-c[d:e];-f[:g];-h[i];-j;k:07;l:9;",
		"@a;b:c---valid:d&eF&g;invalid:h;;",
		"@a;b:c|4|56---invalid:d;;e:1;",
		"@a;b:#c!d---valid:e;;f:#g---invalid:h&i;;",
		"@a;b:c*d+?|e[2]|f[13,]g[0,34]---valid:h;;",
		" @a ;// x\nb\t:\r2// y\n\n;//z",
	}
	which := sym.Param("script", -1)
	if which < 0 {
		which = sym.Choice("script", len(scripts))
	}
	d := []byte(scripts[which])
	step := sym.Param("step", 1)
	at := sym.Choice("at", (len(d)+step-1)/step)*step + sym.Param("from", 0)
	if at >= len(d) {
		return
	}
	switch sym.Choice("change", 3) {
	case 0:
		d[at] = sym.Byte("d")
	case 1:
		d = append(append([]byte{}, d[:at]...), d[at+1:]...)
	default:
		d = append(append(append([]byte{}, d[:at]...), sym.Byte("d")), d[at:]...)
	}
	if sym.Param("ascii", 1) == 1 {
		for _, b := range d {
			sym.Assume(b < 0x80)
		}
	}
	checkScript(g, d)
}

func checkScript(g grammars.Grammar, d []byte) {
	tree := execute(g, d)
	r := &rScript{d: d}
	want := r.script()
	if tree == nil {
		sym.Assert(want < 0, "a script of the grammar is accepted")
		sym.Reach("refused")
		return
	}
	sym.Assert(want == len(d)-len(tree.Remaining()), "a script is matched exactly as far as it is one")
	conserved(tree, d)
	names := []string{"valueAssignment", "composeAssignment", "everythingAssignment", "tokenAssignment", "externalTokenAssignment"}
	for i, name := range names {
		_, el, err := tree.Fetch(name, 0)
		sym.Assert((err == nil && el != nil) == r.kinds[i], "an instruction is recognized as what it is")
	}
	if tree.HasRemaining() {
		sym.Reach("partly")
	} else {
		sym.Reach("accepted")
	}
}

// H_ScriptForms: the parts of a script duplicated, left out, exchanged or taken from another script
func H_ScriptForms() {
	g := builtinGrammar()
	digest := ""
	for i := 0; i < 64; i++ {
		digest += "8a"
	}
	scripts := []string{
		"@ a ; - b [ c : d ] ; - e ; f : 1 ;",
		"@ a ; - b [ : c ] ; - d [ e ] ; f : 12 ; g : 0 ;",
		"@ a ; b : c --- valid :d &e &f ; invalid:g; ;",
		"@ a ; b : c |4 |56 --- invalid :d &e ; ; f : 1 ;",
		"@ a ; b : # c !d --- valid:e; ; f : # g --- invalid:h; ;",
		"@ a ; b : c * d + e ? | f [ 2 ] g [ 13 , ] | h [ 0 , 34 ] --- valid :i ; ;",
		"@ a ; b : " + digest + " --- valid :c ; ; d : 7 ;",
	}
	which := sym.Param("script", -1)
	if which < 0 {
		which = sym.Choice("script", sym.Param("scripts", len(scripts)))
	}
	parts := strings.Split(scripts[which], " ")
	n := len(parts)
	at := sym.Choice("at", n)
	list := []string{}
	join := func(groups ...[]string) {
		for _, one := range groups {
			list = append(list, one...)
		}
	}
	count := func(width int) bool { return at+width <= n }
	switch sym.Choice("change", sym.Param("changes", 8)) {
	case 0:
		join(parts[:at+1], parts[at:])
	case 1:
		if !count(2) {
			return
		}
		join(parts[:at], parts[at+1:at+2], parts[at:at+1], parts[at+2:])
	case 2:
		join(parts[:at], parts[at+1:])
	case 3:
		// 4 times
		join(parts[:at+1], parts[at:at+1], parts[at:at+1], parts[at:])
	case 4:
		if !count(2) {
			return
		}
		join(parts[:at+2], parts[at:])
	case 5:
		if !count(3) {
			return
		}
		join(parts[:at+3], parts[at:])
	case 6:
		if !count(2) {
			return
		}
		join(parts[:at], parts[at+2:])
	default:
		if !count(3) {
			return
		}
		join(parts[:at], parts[at+3:])
	}
	text := ""
	for _, one := range list {
		text += one
	}
	checkScript(g, []byte(text))
}

// H_ComponentsMore: everythings, alternatives and suites of the helpers
func H_ComponentsMore() {
	c := components.NewComponent()
	n := sym.Choice("len", sym.Param("data", 5))
	data := sym.Bytes("d", n)
	exc := c.Token().AllCharacters("exc", "b")
	root := func(list ...grammars.Element) grammars.Token {
		return c.Token().FromBlock("root", c.Block().FromLines([]grammars.Line{c.Line().FromElements(list)}), nil)
	}
	switch sym.Choice("helper", 4) {
	case 0:
		// without escape: until the exception
		ev := c.Everything().WithoutEscape("all", exc)
		sym.Assert(ev.Name() == "all" && !ev.HasEscape() && ev.Exception().Name() == "exc", "an everything keeps its name and its exception")
		want := 0
		for want < n && data[want] != 'b' {
			want++
		}
		if want == 0 {
			want = -1
		}
		sym.Assert(matchedBytes(root(c.Element().FromEverything(ev)), nil, data) == want, "an everything matches until its exception")
		sym.Reach("everything")
	case 1:
		// with an escape: an escaped exception is content
		ev := c.Everything().Everything("all", exc, c.Token().AllCharacters("esc", "\\"))
		sym.Assert(ev.Name() == "all" && ev.HasEscape() && ev.Escape().Name() == "esc" && ev.Exception().Name() == "exc", "an everything keeps its escape")
		want := 0
		dropped := 0
		for want < n && data[want] != 'b' {
			if want+1 < n && data[want] == '\\' && data[want+1] == 'b' {
				want += 2
				dropped++
				continue
			}
			want++
		}
		if want == 0 {
			want = -1
		}
		tree := execute(grammarOf(root(c.Element().FromEverything(ev)), nil), data)
		sym.Assert((tree != nil) == (want > 0), "an everything matches at least one byte")
		if tree != nil {
			sym.Assert(len(tree.Remaining()) == n-want, "an escaped exception does not end an everything")
			sym.Assert(len(tree.Bytes(false)) == want-dropped, "the escape of an exception is dropped")
			sym.Reach("escape")
		}
	case 2:
		// the first alternative that matches
		ev := c.Everything().WithoutEscape("all", exc)
		list := []grammars.Element{c.Element().FromValue('x'), c.Element().FromToken(c.Token().AllCharacters("bb", "bb"), c.Cardinality().Once()), c.Element().FromEverything(ev)}
		tree := execute(grammarOf(c.Token().AnyElement("any", list, nil), nil), data)
		index, want := -1, 0
		switch {
		case n > 0 && data[0] == 'x':
			index, want = 0, 1
		case n > 1 && data[0] == 'b' && data[1] == 'b':
			index, want = 1, 2
		default:
			for want < n && data[want] != 'b' {
				want++
			}
			if want > 0 {
				index = 2
			}
		}
		sym.Assert((tree != nil) == (index >= 0), "any of the elements matches")
		if tree != nil {
			sym.Assert(int(tree.Block().Successful().Index()) == index, "the first element that matches is used")
			sym.Assert(len(tree.Remaining()) == n-want, "the data after the element remains")
			sym.Reach("alternative")
		}
	default:
		// suites
		texts := map[string]bool{}
		texts["ok"] = sym.Bool("ok.valid")
		if sym.Bool("two") {
			texts["é-"] = sym.Bool("two.valid")
		}
		suites := c.Suite().Suites(texts)
		sym.Assert(len(suites.List()) == len(texts), "every text has a suite")
		found := map[string]bool{}
		for _, one := range suites.List() {
			text, err := ast.NewApplication().Compose(c.Token().FromBlock("t", c.Block().FromLines([]grammars.Line{composeLine(one.Content())}), nil))
			must(err, "composing")
			valid, ok := texts[string(text)]
			sym.Assert(ok && !found[string(text)], "a suite has the text it was made of")
			sym.Assert(one.IsValid() == valid, "a suite is as valid as its text")
			found[string(text)] = true
		}
		sym.Assert(c.Suite().Suites(map[string]bool{}) == nil, "there are no suites without texts")
		sym.Reach("suites")
	}
}

func composeLine(c grammars.Compose) grammars.Line {
	line, err := grammars.NewLineBuilder().Create().WithContainers([]grammars.Container{composeContainer(c)}).Now()
	must(err, "line")
	return line
}
