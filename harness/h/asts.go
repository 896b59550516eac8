package h

import (
	ast "github.com/steve-care-software/rodkina/libs/asts/applications"
	"github.com/steve-care-software/rodkina/libs/asts/domain/grammars"
	"github.com/steve-care-software/rodkina/libs/asts/domain/grammars/cardinalities"
	"github.com/steve-care-software/rodkina/libs/asts/domain/grammars/values"
	"github.com/steve-care-software/rodkina/libs/asts/domain/trees"
	"github.com/steve-care-software/rodkina/verifh/sym"
)

// A grammar is described by g* values; from them the real grammar is built, and the
// reference matcher below says what executing it must give.

type gKind int

const (
	gValue gKind = iota
	gCompose
	gToken
	gEverything
	gExternal
	gRecursive
)

type gCompItem struct {
	val byte
	n   uint
}

type gCon struct {
	kind     gKind
	name     string
	val      byte
	comp     []gCompItem
	tok      *gTok // token, or the exception of an everything
	esc      *gTok
	gram     *gGram
	min, max int // max < 0: none
	wide     *gWide
}

// gWide is a cardinality with any bounds
type gWide struct {
	min, max uint
	noMax    bool
}

func (c gCon) more(amount int) bool {
	if c.wide != nil {
		return c.wide.noMax || uint(amount) < c.wide.max
	}
	return c.max < 0 || amount < c.max
}

func (c gCon) enough(amount int) bool {
	if c.wide != nil {
		return uint(amount) >= c.wide.min
	}
	return amount >= c.min
}

type gSuite struct {
	data  []byte
	valid bool
}

type gTok struct {
	name   string
	lines  [][]gCon
	suites []gSuite
}

type gChan struct {
	tok        *gTok
	prev, next *gTok
}

type gGram struct {
	root     *gTok
	channels []gChan
}

// description helpers

func gVal(name string, val byte, min, max int) gCon {
	return gCon{kind: gValue, name: name, val: val, min: min, max: max}
}

func gTokCon(tok *gTok, min, max int) gCon {
	return gCon{kind: gToken, name: tok.name, tok: tok, min: min, max: max}
}

func gRec(name string, min, max int) gCon {
	return gCon{kind: gRecursive, name: name, min: min, max: max}
}

func gExt(name string, g *gGram, min, max int) gCon {
	return gCon{kind: gExternal, name: name, gram: g, min: min, max: max}
}

func gEvery(name string, exc, esc *gTok, min, max int) gCon {
	return gCon{kind: gEverything, name: name, tok: exc, esc: esc, min: min, max: max}
}

func gComp(name string, items ...gCompItem) gCon {
	return gCon{kind: gCompose, name: name, comp: items, min: 1, max: 1}
}

func gTokOf(name string, lines ...[]gCon) *gTok {
	return &gTok{name: name, lines: lines}
}

// gText is a token that matches exactly one text
func gText(name string, text ...byte) *gTok {
	line := []gCon{}
	for i, b := range text {
		line = append(line, gVal(name+itoa(i), b, 1, 1))
	}
	return gTokOf(name, line)
}

func itoa(i int) string {
	return string(rune('0' + i))
}

// building the real grammar

func (g *gGram) build() grammars.Grammar {
	b := grammars.NewBuilder().Create().WithRoot(g.root.build())
	if len(g.channels) > 0 {
		b.WithChannels(buildChannels(g.channels))
	}
	out, err := b.Now()
	must(err, "grammar")
	return out
}

func buildChannels(list []gChan) grammars.Channels {
	out := []grammars.Channel{}
	for _, one := range list {
		b := grammars.NewChannelBuilder().Create().WithToken(one.tok.build())
		if one.prev != nil || one.next != nil {
			cb := grammars.NewChannelConditionBuilder().Create()
			if one.prev != nil {
				cb.WithPrevious(one.prev.build())
			}
			if one.next != nil {
				cb.WithNext(one.next.build())
			}
			cond, err := cb.Now()
			must(err, "condition")
			b.WithCondition(cond)
		}
		c, err := b.Now()
		must(err, "channel")
		out = append(out, c)
	}
	ch, err := grammars.NewChannelsBuilder().Create().WithList(out).Now()
	must(err, "channels")
	return ch
}

func buildValue(name string, val byte) values.Value {
	v, err := values.NewBuilder().Create().WithName(name).WithNumber(val).Now()
	must(err, "value")
	return v
}

func buildCompose(name string, items []gCompItem) grammars.Compose {
	list := []grammars.ComposeElement{}
	for i, one := range items {
		e, err := grammars.NewComposeElementBuilder().Create().WithValue(buildValue(name+itoa(i), one.val)).WithOccurences(one.n).Now()
		must(err, "compose element")
		list = append(list, e)
	}
	c, err := grammars.NewComposeBuilder().Create().WithName(name).WithList(list).Now()
	must(err, "compose")
	return c
}

func (t *gTok) build() grammars.Token {
	lines := []grammars.Line{}
	for _, oneLine := range t.lines {
		containers := []grammars.Container{}
		for _, c := range oneLine {
			containers = append(containers, c.build())
		}
		l, err := grammars.NewLineBuilder().Create().WithContainers(containers).Now()
		must(err, "line")
		lines = append(lines, l)
	}
	block, err := grammars.NewBlockBuilder().Create().WithLines(lines).Now()
	must(err, "block")
	b := grammars.NewTokenBuilder().Create().WithName(t.name).WithBlock(block)
	if len(t.suites) > 0 {
		list := []grammars.Suite{}
		for i, s := range t.suites {
			items := []gCompItem{}
			for _, one := range s.data {
				items = append(items, gCompItem{one, 1})
			}
			c := buildCompose(t.name+"Suite"+itoa(i), items)
			sb := grammars.NewSuiteBuilder().Create()
			if s.valid {
				sb.WithValid(c)
			} else {
				sb.WithInvalid(c)
			}
			suite, err := sb.Now()
			must(err, "suite")
			list = append(list, suite)
		}
		suites, err := grammars.NewSuitesBuilder().Create().WithList(list).Now()
		must(err, "suites")
		b.WithSuites(suites)
	}
	out, err := b.Now()
	must(err, "token")
	return out
}

func (c gCon) build() grammars.Container {
	if c.kind == gCompose {
		out, err := grammars.NewContainerBuilder().Create().WithCompose(buildCompose(c.name, c.comp)).Now()
		must(err, "container")
		return out
	}
	cb := cardinalities.NewBuilder().Create().WithMin(uint(c.min))
	if c.max >= 0 {
		cb.WithMax(uint(c.max))
	}
	if c.wide != nil {
		cb = cardinalities.NewBuilder().Create().WithMin(c.wide.min)
		if !c.wide.noMax {
			cb.WithMax(c.wide.max)
		}
	}
	card, err := cb.Now()
	must(err, "cardinality")
	eb := grammars.NewElementBuilder().Create().WithCardinality(card)
	switch c.kind {
	case gValue:
		eb.WithValue(buildValue(c.name, c.val))
	case gToken:
		ins, err := grammars.NewInstanceBuilder().Create().WithToken(c.tok.build()).Now()
		must(err, "instance")
		eb.WithInstance(ins)
	case gEverything:
		evb := grammars.NewEverythingBuilder().Create().WithName(c.name).WithException(c.tok.build())
		if c.esc != nil {
			evb.WithEscape(c.esc.build())
		}
		ev, err := evb.Now()
		must(err, "everything")
		ins, err := grammars.NewInstanceBuilder().Create().WithEverything(ev).Now()
		must(err, "instance")
		eb.WithInstance(ins)
	case gExternal:
		ext, err := grammars.NewExternalBuilder().Create().WithName(c.name).WithGrammar(c.gram.build()).Now()
		must(err, "external")
		eb.WithExternal(ext)
	case gRecursive:
		eb.WithRecursive(c.name)
	}
	el, err := eb.Now()
	must(err, "element")
	out, err := grammars.NewContainerBuilder().Create().WithElement(el).Now()
	must(err, "container")
	return out
}

// the reference matcher

type rNode struct {
	name    string // token name in the tree
	line    int
	els     []rEl
	suffix  []*rNode
	reverse bool
	start   int
	end     int // after the suffix
	body    int // end of the content, before the suffix
}

type rEl struct {
	container int // -1: no grammar
	name      string
	contents  []rContent
}

type rContent struct {
	node   *rNode
	prefix []*rNode
	val    byte
}

type rActive struct {
	tok  *gTok
	line int
	pos  int
}

type rMatcher struct {
	data  []byte
	chans []gChan
	stack []rActive // the lines in progress, innermost last
}

// token matches a token; nil when it does not
func (m *rMatcher) token(t *gTok, chans []gChan, prev int, pos int) *rNode {
	for idx, line := range t.lines {
		if m.inProgress(t, idx, pos) {
			continue
		}
		m.stack = append(m.stack, rActive{t, idx, pos})
		els, end, ok := m.line(line, chans, prev, pos)
		m.stack = m.stack[:len(m.stack)-1]
		if !ok || len(els) == 0 {
			continue
		}
		out := &rNode{name: t.name, line: idx, els: els, start: pos, body: end}
		out.suffix, out.end = m.channels(chans, pos, end)
		return out
	}
	return nil
}

func (m *rMatcher) inProgress(t *gTok, idx int, pos int) bool {
	for _, one := range m.stack {
		if one.tok.name == t.name && one.line == idx && one.pos == pos {
			return true
		}
	}
	return false
}

func (m *rMatcher) line(line []gCon, chans []gChan, prev int, pos int) ([]rEl, int, bool) {
	out := []rEl{}
	for ci, c := range line {
		contents := []rContent{}
		if c.kind == gCompose {
			for _, item := range c.comp {
				for k := uint(0); k < item.n; k++ {
					content, end, ok := m.value(item.val, chans, prev, pos)
					if !ok {
						return nil, 0, false
					}
					contents = append(contents, content)
					prev, pos = pos, end
				}
			}
			out = append(out, rEl{container: ci, name: c.name, contents: contents})
			continue
		}
		for pos < len(m.data) && c.more(len(contents)) {
			content, end, ok := m.element(c, chans, prev, pos)
			if !ok {
				break
			}
			contents = append(contents, content)
			prev, pos = pos, end
		}
		if !c.enough(len(contents)) {
			return nil, 0, false
		}
		if len(contents) > 0 {
			out = append(out, rEl{container: ci, name: c.name, contents: contents})
		}
	}
	return out, pos, true
}

func (m *rMatcher) value(val byte, chans []gChan, prev int, pos int) (rContent, int, bool) {
	prefix, at := m.channels(chans, prev, pos)
	if at >= len(m.data) || m.data[at] != val {
		return rContent{}, 0, false
	}
	return rContent{prefix: prefix, val: val}, at + 1, true
}

func (m *rMatcher) element(c gCon, chans []gChan, prev int, pos int) (rContent, int, bool) {
	var node *rNode
	switch c.kind {
	case gValue:
		return m.value(c.val, chans, prev, pos)
	case gToken:
		node = m.token(c.tok, chans, prev, pos)
	case gRecursive:
		for _, one := range m.stack {
			if one.tok.name == c.name {
				node = m.token(one.tok, chans, prev, pos)
				break
			}
		}
	case gExternal:
		inner := &rMatcher{data: m.data, chans: c.gram.channels}
		node = inner.token(c.gram.root, c.gram.channels, prev, pos)
		if node != nil {
			node.name = c.name
		}
	case gEverything:
		node = m.everything(c, prev, pos)
	}
	if node == nil {
		return rContent{}, 0, false
	}
	return rContent{node: node}, node.end, true
}

func (m *rMatcher) everything(c gCon, prev int, pos int) *rNode {
	contents := []rContent{}
	at := pos
	for at < len(m.data) {
		if c.esc != nil {
			if esc := m.token(c.esc, nil, prev, at); esc != nil && esc.end < len(m.data) {
				if lit := m.token(c.tok, nil, at, esc.end); lit != nil {
					for i := esc.end; i < lit.end; i++ {
						contents = append(contents, rContent{val: m.data[i]})
					}
					prev, at = esc.end, lit.end
					continue
				}
			}
		}
		if m.token(c.tok, nil, prev, at) != nil {
			break
		}
		contents = append(contents, rContent{val: m.data[at]})
		prev, at = at, at+1
	}
	if len(contents) == 0 {
		return nil
	}
	return &rNode{name: c.tok.name, line: 0, els: []rEl{{container: -1, contents: contents}}, reverse: true, start: pos, end: at, body: at}
}

// channels skips channels
func (m *rMatcher) channels(chans []gChan, prev int, pos int) ([]*rNode, int) {
	out := []*rNode{}
	for again := true; again; {
		again = false
		for _, ch := range chans {
			inner := &rMatcher{data: m.data}
			node := inner.token(ch.tok, nil, prev, pos)
			if node == nil {
				continue
			}
			if ch.prev != nil && (prev < 0 || inner.token(ch.prev, nil, -1, prev) == nil) {
				continue
			}
			if ch.next != nil && inner.token(ch.next, nil, -1, node.end) == nil {
				continue
			}
			out = append(out, node)
			prev, pos = pos, node.end
			again = true
		}
	}
	return out, pos
}

// size is the number of bytes kept in the tree: fewer than it matched when escapes were dropped
func (n *rNode) size() int {
	total := 0
	for _, el := range n.els {
		for _, c := range el.contents {
			if c.node != nil {
				total += c.node.size()
				continue
			}
			total++
			for _, p := range c.prefix {
				total += p.size()
			}
		}
	}
	for _, s := range n.suffix {
		total += s.size()
	}
	return total
}

// text is what the matched content stands for, with or without channels
func (n *rNode) text(channels bool) []byte {
	out := []byte{}
	for _, el := range n.els {
		for _, c := range el.contents {
			out = append(out, c.text(channels)...)
		}
	}
	if channels {
		for _, s := range n.suffix {
			out = append(out, s.text(true)...)
		}
	}
	return out
}

func (c rContent) text(channels bool) []byte {
	if c.node != nil {
		return c.node.text(channels)
	}
	out := []byte{}
	if channels {
		for _, p := range c.prefix {
			out = append(out, p.text(true)...)
		}
	}
	return append(out, c.val)
}

// gMatch runs the reference matcher
func gMatch(g *gGram, data []byte) *rNode {
	m := &rMatcher{data: data, chans: g.channels}
	return m.token(g.root, g.channels, -1, 0)
}

// execute runs the real code
func execute(g grammars.Grammar, data []byte) trees.Tree {
	keep := append([]byte{}, data...)
	tree, err := ast.NewApplication().Execute(g, data)
	sym.Assert(sym.EqBytes(keep, data), "executing a grammar leaves the data unchanged")
	if err != nil {
		return nil
	}
	if !tree.Block().HasSuccessful() {
		return nil
	}
	return tree
}

// sameAst compares a tree with the reference
func sameAst(t trees.Tree, n *rNode, data []byte) {
	sym.Assert(t.Grammar().Name() == n.name, "a tree has the name of its token")
	sym.Assert(t.Block().HasSuccessful(), "the tree of a match is successful")
	line := t.Block().Successful()
	sym.Assert(line.IsReverse() == n.reverse, "only the tree of an everything is in reverse")
	sym.Assert(int(line.Index()) == n.line, "the first line that matches is used")
	if t.HasRemaining() {
		rem := t.Remaining()
		sym.Assert(len(rem) == len(data)-n.end, "the remaining data begins where the match ends")
		sym.Assert(sym.EqBytes(rem, data[len(data)-len(rem):]), "the remaining data is the end of the data")
	} else {
		sym.Assert(n.end == len(data), "a tree without remaining data matches all of it")
	}
	els := line.Elements().List()
	sym.Assert(len(els) == len(n.els), "the matched elements are those of the line")
	for i, el := range els {
		want := n.els[i]
		sym.Assert(el.HasGrammar() == (want.container >= 0), "elements of a line know their grammar")
		if el.HasGrammar() {
			sym.Assert(el.Grammar().Name() == want.name, "elements are matched in the order of the line")
		}
		contents := el.Contents().List()
		sym.Assert(int(el.Amount()) == len(contents), "the amount of an element is that of its contents")
		sym.Assert(len(contents) == len(want.contents), "an element is matched as often as possible, within its cardinality")
		for j, c := range contents {
			w := want.contents[j]
			sym.Assert(c.IsValue() == (w.node == nil), "a content is a value or a tree")
			sym.Assert(c.IsTree() == (w.node != nil), "a content is a value or a tree")
			sym.Assert(sym.EqBytes(c.Bytes(true), w.text(true)), "the bytes of a content are those it matched, with their channels")
			sym.Assert(sym.EqBytes(c.Bytes(false), w.text(false)), "the bytes of a content without channels are those of its values")
			if w.node != nil {
				sameAst(c.Tree(), w.node, data)
				continue
			}
			v := c.Value()
			sym.Assert(v.Content() == w.val, "a value has the matched byte")
			sameAsts(v.HasPrefix(), v.Prefix(), w.prefix, data, "prefix")
		}
	}
	sameAsts(t.HasSuffix(), t.Suffix(), n.suffix, data, "suffix")
	sym.Assert(sym.EqBytes(t.Bytes(true), n.text(true)), "the bytes of a tree are those it matched, with their channels")
	sym.Assert(sym.EqBytes(t.Bytes(false), n.text(false)), "the bytes of a tree without channels are those of its values")
}

func sameAsts(has bool, list trees.Trees, want []*rNode, data []byte, what string) {
	sym.Assert(has == (len(want) > 0), "the channels around a content are kept as its "+what)
	if !has {
		return
	}
	sym.Assert(len(list.List()) == len(want), "every channel around a content is kept as its "+what)
	for i, one := range list.List() {
		sameAst(one, want[i], data)
	}
}

// checkExec executes a grammar on data and compares with the reference
func checkExec(g *gGram, data []byte) (trees.Tree, *rNode) {
	t := execute(g.build(), data)
	n := gMatch(g, data)
	sym.Assert((t != nil) == (n != nil), "the data matches the grammar exactly when the reference matches it")
	if t == nil {
		sym.Reach("refused")
		return nil, nil
	}
	sameAst(t, n, data)
	if n.size() == n.end {
		all := append([]byte{}, t.Bytes(true)...)
		all = append(all, t.Remaining()...)
		sym.Assert(sym.EqBytes(all, data), "the bytes of a tree and the remaining data are the data")
		sym.Reach("matched")
	}
	return t, n
}

// cardinalities
func cardOf(name string, n int) (int, int) {
	return cardAt(sym.Choice(name, n))
}

func cardAt(k int) (int, int) {
	cards := [][2]int{{1, 1}, {0, -1}, {2, 2}, {0, 1}, {1, 2}, {1, -1}, {0, 0}, {2, -1}, {0, 2}}
	c := cards[k]
	return c[0], c[1]
}

// H_AstValues: one or two lines of values and composes
func H_AstValues() {
	vals := []byte{'a', sym.Byte("v"), 'c'}
	cards := sym.Param("cards", 4)
	same := sym.Param("samenames", 0) == 1
	con := func(name string, i int) gCon {
		elName := "v" + itoa(i)
		if same {
			elName = "v"
		}
		k := sym.Choice(name, cards+2)
		if k >= cards {
			return gComp(elName, gCompItem{vals[i], uint(1 + k - cards)}, gCompItem{vals[(i+1)%3], 1})
		}
		min, max := cardAt(k)
		return gVal(elName, vals[i], min, max)
	}
	first := []gCon{}
	for i := 0; i < sym.Param("first", 2); i++ {
		first = append(first, con("first"+itoa(i), i))
	}
	lines := [][]gCon{first}
	second := []gCon{}
	for i := 0; i < sym.Param("second", 0); i++ {
		second = append(second, con("second"+itoa(i), i+1))
	}
	if len(second) > 0 {
		lines = append(lines, second)
	}
	g := &gGram{root: gTokOf("root", lines...)}
	data := sym.Bytes("d", sym.Choice("len", sym.Param("data", 4)))
	checkExec(g, data)
}

// H_AstBounds: elements with any bounds
func H_AstBounds() {
	wide := func(id string, c gCon) gCon {
		c.wide = &gWide{min: sym.Uint(id + ".min"), noMax: sym.Bool(id + ".nomax")}
		if !c.wide.noMax {
			c.wide.max = sym.Uint(id + ".max")
		}
		return c
	}
	first := gVal("a", 'a', 1, 1)
	switch sym.Choice("kind", 3) {
	case 1:
		first = gTokCon(gTokOf("tok", []gCon{gVal("x", 'a', 1, 1), gVal("y", 'b', 0, 1)}), 1, 1)
	case 2:
		first = gEvery("all", gText("exc", 'b'), nil, 1, 1)
	}
	lines := [][]gCon{{wide("first", first), gVal("b", 'b', 0, 1)}, {gVal("c", 'a', 1, 1), wide("second", gVal("d", 'b', 1, 1))}}
	g := &gGram{root: gTokOf("root", lines...)}
	checkExec(g, sym.Bytes("d", sym.Choice("len", sym.Param("data", 4))))
}
