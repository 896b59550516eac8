package h

import (
	"github.com/steve-care-software/rodkina/libs/asts/domain/grammars"
	"github.com/steve-care-software/rodkina/libs/asts/domain/grammars/cardinalities"
	"github.com/steve-care-software/rodkina/libs/asts/domain/trees"
	"github.com/steve-care-software/rodkina/verifh/sym"
)

// Trees that are assembled from their parts.

type tpContainer struct {
	real    grammars.Container
	name    string
	compose bool
	min     uint // of an element; of a compose: the amount of its values
	max     uint
	noMax   bool
}

// tpGrammar is a container with any bounds
func tpGrammar(id, name string) tpContainer {
	out := tpContainer{name: name}
	if sym.Bool(id + ".compose") {
		items := []gCompItem{}
		total := uint(0)
		for i, n := 0, 1+sym.Choice(id+".items", 2); i < n; i++ {
			amount := sym.Uint(id + ".occurences" + itoa(i))
			sym.Assume(amount > 0 && amount < 1<<32)
			items = append(items, gCompItem{'a', amount})
			total += amount
		}
		c, err := grammars.NewContainerBuilder().Create().WithCompose(buildCompose(name, items)).Now()
		must(err, "container")
		out.real, out.compose, out.min, out.noMax = c, true, total, true
		return out
	}
	out.min = sym.Uint(id + ".min")
	out.noMax = sym.Bool(id + ".nomax")
	cb := cardinalities.NewBuilder().Create().WithMin(out.min)
	if !out.noMax {
		out.max = sym.Uint(id + ".max")
		cb.WithMax(out.max)
	}
	card, err := cb.Now()
	must(err, "cardinality")
	el, err := grammars.NewElementBuilder().Create().WithCardinality(card).WithValue(buildValue(name, 'a')).Now()
	must(err, "element")
	c, err := grammars.NewContainerBuilder().Create().WithElement(el).Now()
	must(err, "container")
	out.real = c
	return out
}

type tpElement struct {
	real    trees.Element
	grammar int // -1: none
	amount  uint
	data    []byte
}

// leaf is a tree of one value
func tpLeaf(name string, value byte) trees.Tree {
	v, err := trees.NewValueBuilder().Create().WithContent(value).Now()
	must(err, "value")
	c, err := trees.NewContentBuilder().Create().WithValue(v).Now()
	must(err, "content")
	g := gText(name, 'b')
	tok := g.build()
	el := tpElementOf(tok.Block().Lines()[0].Containers()[0], []trees.Content{c})
	return tpTree(tok, []trees.Line{tpLine(0, tok.Block().Lines()[0], []trees.Element{el}, false)}, nil, nil)
}

func tpElementOf(g grammars.Container, list []trees.Content) trees.Element {
	contents, err := trees.NewContentsBuilder().Create().WithList(list).Now()
	must(err, "contents")
	b := trees.NewElementBuilder().Create().WithContents(contents)
	if g != nil {
		b.WithGrammar(g)
	}
	el, err := b.Now()
	must(err, "element")
	return el
}

func tpLine(index uint, g grammars.Line, list []trees.Element, reverse bool) trees.Line {
	b := trees.NewLineBuilder().Create().WithIndex(index).WithGrammar(g)
	if reverse {
		b.IsReverse()
	}
	if len(list) > 0 {
		els, err := trees.NewElementsBuilder().Create().WithList(list).Now()
		must(err, "elements")
		b.WithElements(els)
	}
	line, err := b.Now()
	must(err, "line")
	return line
}

func tpTree(g grammars.Token, lines []trees.Line, suffix trees.Trees, remaining []byte) trees.Tree {
	block, err := trees.NewBlockBuilder().Create().WithLines(lines).Now()
	must(err, "block")
	b := trees.NewTreeBuilder().Create().WithGrammar(g).WithBlock(block)
	if suffix != nil {
		b.WithSuffix(suffix)
	}
	if remaining != nil {
		b.WithRemaining(remaining)
	}
	tree, err := b.Now()
	must(err, "tree")
	return tree
}

func tpTrees(list ...trees.Tree) trees.Trees {
	out, err := trees.NewBuilder().Create().WithList(list).Now()
	must(err, "trees")
	return out
}

func (c tpContainer) fits(amount uint) bool {
	return sym.And(amount >= c.min, sym.Or(c.noMax, amount <= c.max))
}

// H_TreeSuccess: lines and blocks made of elements with any amounts
func H_TreeSuccess() {
	names := []string{"one", "two"}
	containers := []tpContainer{}
	reals := []grammars.Container{}
	for i, n := 0, 1+sym.Choice("containers", sym.Param("containers", 2)); i < n; i++ {
		name := names[i]
		if i > 0 && sym.Bool("samename") {
			name = names[0]
		}
		one := tpGrammar("c"+itoa(i), name)
		containers = append(containers, one)
		reals = append(reals, one.real)
	}
	gl, err := grammars.NewLineBuilder().Create().WithContainers(reals).Now()
	must(err, "grammar line")
	elements := []tpElement{}
	list := []trees.Element{}
	for i, n := 0, sym.Choice("elements", sym.Param("elements", 3)); i < n; i++ {
		id := "e" + itoa(i)
		one := tpElement{grammar: sym.Choice(id+".grammar", len(containers)+1) - 1}
		contents := []trees.Content{}
		for k, n := 0, 1+sym.Choice(id+".amount", sym.Param("amount", 3)); k < n; k++ {
			v, err := trees.NewValueBuilder().Create().WithContent('a').Now()
			must(err, "value")
			c, err := trees.NewContentBuilder().Create().WithValue(v).Now()
			must(err, "content")
			contents = append(contents, c)
		}
		one.amount = uint(len(contents))
		if one.grammar < 0 {
			one.real = tpElementOf(nil, contents)
		} else {
			one.real = tpElementOf(reals[one.grammar], contents)
		}
		sym.Assert(one.real.Amount() == one.amount, "the amount of an element is that of its contents")
		elements = append(elements, one)
		list = append(list, one.real)
	}
	reverse := sym.Bool("reverse")
	all := len(elements) > 0
	for _, el := range elements {
		if el.grammar < 0 {
			sym.Assert(el.real.IsSuccessful(), "an element without grammar is successful")
			continue
		}
		fits := containers[el.grammar].fits(el.amount)
		all = sym.And(all, fits)
		sym.Assert(el.real.IsSuccessful() == fits, "an element is successful when its amount is within its bounds")
	}
	if !reverse {
		for _, c := range containers {
			found := false
			for _, el := range elements {
				if el.grammar >= 0 && containers[el.grammar].name == c.name {
					if c.compose {
						found = sym.Or(found, el.amount == c.min)
					} else {
						found = sym.Or(found, el.amount >= c.min)
					}
				}
			}
			all = sym.And(all, sym.Or(found, sym.And(!c.compose, c.min == 0)))
		}
	}
	line := tpLine(0, gl, list, reverse)
	sym.Assert(line.IsSuccessful() == all, "a line is successful when its elements are and none that it needs is missing")
	sym.Assert(line.HasElements() == (len(list) > 0) && line.IsReverse() == reverse, "a line keeps its elements")
	// a block with a line that fails before it, and one that succeeds after it
	last := tpLine(2, gl, []trees.Element{tpElementOf(nil, []trees.Content{tpContent('a')})}, true)
	block, err := trees.NewBlockBuilder().Create().WithLines([]trees.Line{tpLine(1, gl, nil, false), line, last}).Now()
	must(err, "block")
	if all {
		sym.Assert(block.HasSuccessful() && block.Successful().Index() == 0, "a block uses its first successful line")
		sym.Reach("successful")
	} else {
		sym.Assert(block.HasSuccessful() && block.Successful().Index() == 2, "a block uses its first successful line")
		sym.Reach("failed")
	}
	short, err := trees.NewBlockBuilder().Create().WithLines([]trees.Line{line}).Now()
	must(err, "block")
	sym.Assert(short.HasSuccessful() == all, "a block is successful when one of its lines is")
	if len(list) > 0 {
		for _, name := range append(names, "three") {
			has := false
			for _, el := range elements {
				has = has || (el.grammar >= 0 && containers[el.grammar].name == name)
			}
			got, err := line.Elements().Fetch(name)
			sym.Assert((err == nil) == has, "an element of a line is fetched by its name")
			sym.Assert(err != nil || got.Grammar().Name() == name, "the fetched element has the name")
		}
	}
}

func tpContent(value byte) trees.Content {
	v, err := trees.NewValueBuilder().Create().WithContent(value).Now()
	must(err, "value")
	c, err := trees.NewContentBuilder().Create().WithValue(v).Now()
	must(err, "content")
	return c
}

// scribble changes bytes that were returned: the caller owns them
func scribble(data []byte) {
	for i := range data {
		data[i] ^= 0x55
	}
}

// H_TreeBytes: the bytes of assembled trees
func H_TreeBytes() {
	tok := gText("tok", 'a').build()
	gl := tok.Block().Lines()[0]
	with, without := []byte{}, []byte{}
	elements := []trees.Element{}
	for i, n := 0, 1+sym.Choice("elements", 2); i < n; i++ {
		contents := []trees.Content{}
		ewith, ewithout := []byte{}, []byte{}
		for k, n := 0, 1+sym.Choice("contents", sym.Param("contents", 2)); k < n; k++ {
			a, b, c := sym.Byte("a"), sym.Byte("b"), sym.Byte("c")
			var one trees.Content
			cwith, cwithout := []byte{}, []byte{}
			switch sym.Choice("kind", 4) {
			case 0:
				one = tpContent(a)
				cwith, cwithout = append(cwith, a), append(cwithout, a)
			case 1:
				v, err := trees.NewValueBuilder().Create().WithContent(a).WithPrefix(tpTrees(tpLeaf("p", b), tpLeaf("q", c))).Now()
				must(err, "value")
				one, err = trees.NewContentBuilder().Create().WithValue(v).Now()
				must(err, "content")
				cwith, cwithout = append(cwith, b, c, a), append(cwithout, a)
			case 2:
				// the remaining data of a tree inside of another is not part of it
				in := tpTree(tok, []trees.Line{tpLine(0, gl, []trees.Element{tpElementOf(nil, []trees.Content{tpContent(a)})}, true)}, tpTrees(tpLeaf("s", b)), []byte{c})
				var err error
				one, err = trees.NewContentBuilder().Create().WithTree(in).Now()
				must(err, "content")
				cwith, cwithout = append(cwith, a, b), append(cwithout, a)
			default:
				// a tree without a successful line has no bytes
				in := tpTree(tok, []trees.Line{tpLine(0, gl, nil, false)}, nil, []byte{c})
				var err error
				one, err = trees.NewContentBuilder().Create().WithTree(in).Now()
				must(err, "content")
			}
			scribble(one.Bytes(true))
			scribble(one.Bytes(false))
			sym.Assert(sym.EqBytes(one.Bytes(true), cwith), "a content returns its bytes with its channels")
			sym.Assert(sym.EqBytes(one.Bytes(false), cwithout), "a content returns its bytes without channels")
			contents = append(contents, one)
			ewith, ewithout = append(ewith, cwith...), append(ewithout, cwithout...)
		}
		el := tpElementOf(nil, contents)
		scribble(el.Bytes(true))
		scribble(el.Bytes(false))
		sym.Assert(sym.EqBytes(el.Bytes(true), ewith) && sym.EqBytes(el.Bytes(false), ewithout), "an element returns the bytes of its contents in order")
		elements = append(elements, el)
		with, without = append(with, ewith...), append(without, ewithout...)
	}
	var suffix trees.Trees
	if sym.Bool("suffix") {
		x, y := sym.Byte("x"), sym.Byte("y")
		suffix = tpTrees(tpLeaf("s", x), tpLeaf("t", y))
		with = append(with, x, y)
	}
	rest := []byte{sym.Byte("rest")}
	failed := tpLine(0, gl, nil, false)
	tree := tpTree(tok, []trees.Line{failed, tpLine(1, gl, elements, true)}, suffix, rest)
	scribble(tree.Bytes(true))
	scribble(tree.Bytes(false))
	scribble(tpTrees(tree, tree).Bytes(true))
	sym.Assert(sym.EqBytes(tree.Bytes(true), with), "a tree returns its bytes with its channels")
	sym.Assert(sym.EqBytes(tree.Bytes(false), without), "a tree returns its bytes without channels")
	sym.Assert(tree.HasRemaining() && sym.EqBytes(tree.Remaining(), rest), "a tree keeps its remaining data")
	sym.Assert(sym.EqBytes(tpTrees(tree, tree).Bytes(true), append(append([]byte{}, with...), with...)), "trees return the bytes of each in order")
	sym.Reach("bytes")
}
