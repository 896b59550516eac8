package h

import (
	"math/big"
	"time"

	"github.com/steve-care-software/rodkina/libs/asts/domain/grammars"
	"github.com/steve-care-software/rodkina/libs/asts/domain/grammars/cardinalities"
	"github.com/steve-care-software/rodkina/libs/asts/domain/grammars/coverages"
	"github.com/steve-care-software/rodkina/libs/asts/domain/grammars/values"
	"github.com/steve-care-software/rodkina/libs/asts/domain/trees"
	"github.com/steve-care-software/rodkina/libs/cryptography/domain/hash"
	"github.com/steve-care-software/rodkina/libs/cryptography/domain/hashtrees"
	"github.com/steve-care-software/rodkina/libs/databases/domain/contents"
	"github.com/steve-care-software/rodkina/libs/databases/domain/references"
	"github.com/steve-care-software/rodkina/libs/interpreters/domain/instructions"
	"github.com/steve-care-software/rodkina/libs/interpreters/domain/instructions/applications"
	"github.com/steve-care-software/rodkina/libs/interpreters/domain/instructions/attachments"
	insmodules "github.com/steve-care-software/rodkina/libs/interpreters/domain/instructions/modules"
	"github.com/steve-care-software/rodkina/libs/interpreters/domain/instructions/parameters"
	"github.com/steve-care-software/rodkina/libs/interpreters/domain/programs"
	"github.com/steve-care-software/rodkina/libs/interpreters/domain/programs/modules"
	"github.com/steve-care-software/rodkina/libs/queries/domain/queries"
	"github.com/steve-care-software/rodkina/verifh/sym"
)

// The parts of grammars, trees, databases, programs and queries are assembled by
// builders. What is given to a builder is drawn from two sets: 0 for an earlier use of
// the builder, 1 for the use that is checked.

type parts struct {
	name  string
	need  []int // the mandatory parts
	alts  []int // parts of which exactly one is given
	some  bool  // what has no part at all is not asked for
	fresh func()
	give  []func(k int)
	now   func() (interface{}, error)
	has   func(o interface{}, i, k int) bool // k < 0: the part was not given
}

func inInts(list []int, i int) bool {
	for _, one := range list {
		if one == i {
			return true
		}
	}
	return false
}

// use gives the chosen parts, in or against their order
func (p *parts) use(k int, given []bool, backwards bool) {
	for i := range p.give {
		at := i
		if backwards {
			at = len(p.give) - 1 - i
		}
		if given[at] {
			p.give[at](k)
		}
	}
}

func (p *parts) same(o interface{}, k int, given []bool, what string) {
	for i := range p.give {
		if given[i] {
			sym.Assert(p.has(o, i, k), p.name+": "+what+" does not have what was given")
			continue
		}
		if !inInts(p.need, i) {
			sym.Assert(p.has(o, i, -1), p.name+": "+what+" has a part that was not given")
		}
	}
}

func (p *parts) check() {
	// an earlier use of the same builder
	var earlier interface{}
	before := make([]bool, len(p.give))
	if used := sym.Choice(p.name+".before", 3); used > 0 {
		alt := 0
		if len(p.alts) > 1 {
			alt = sym.Choice(p.name+".before.alt", len(p.alts))
		}
		for i := range p.give {
			before[i] = !inInts(p.alts, i) || p.alts[alt] == i
		}
		p.fresh()
		p.use(0, before, false)
		if used > 1 {
			o, err := p.now()
			must(err, p.name)
			p.same(o, 0, before, "the part")
			earlier = o
		}
	}

	p.fresh()
	given := make([]bool, len(p.give))
	complete, chosen, any := true, 0, false
	for i := range p.give {
		given[i] = sym.Bool(p.name + ".given" + itoa(i))
		if given[i] {
			any = true
		}
		if inInts(p.need, i) && !given[i] {
			complete = false
		}
		if inInts(p.alts, i) && given[i] {
			chosen++
		}
	}
	sym.Assume(chosen <= 1 && (any || !p.some))
	if len(p.alts) > 0 && chosen == 0 {
		complete = false
	}
	p.use(1, given, sym.Bool(p.name+".backwards"))
	o, err := p.now()
	if complete {
		sym.Reach("complete")
		sym.Assert(err == nil, p.name+": a complete part is refused")
		p.same(o, 1, given, "the part")
	} else {
		sym.Reach("incomplete")
		sym.Assert(err != nil, p.name+": an incomplete part is accepted")
	}
	if earlier != nil {
		p.same(earlier, 0, before, "a part built before")
	}
}

// several is a part that is a list of others
type several struct {
	name  string
	fresh func()
	give  func(from, n int) // n elements of the set, the first one at from
	now   func() (interface{}, error)
	len   func(o interface{}) int
	is    func(o interface{}, i, at int) bool // the i-th element is that of the set
}

func (p *several) check() {
	var earlier interface{}
	if used := sym.Choice(p.name+".before", 3); used > 0 {
		p.fresh()
		p.give(3, 2)
		if used > 1 {
			o, err := p.now()
			must(err, p.name)
			earlier = o
		}
	}
	p.fresh()
	n := sym.Choice(p.name+".n", 5) - 1
	if n >= 0 {
		p.give(0, n)
	}
	o, err := p.now()
	if n > 0 {
		sym.Reach("list")
		sym.Assert(err == nil, p.name+": a list is refused")
		sym.Assert(p.len(o) == n, p.name+": the list has another length")
		for i := 0; i < n; i++ {
			sym.Assert(p.is(o, i, i), p.name+": the list has another element or order")
		}
	} else {
		sym.Reach("empty")
		sym.Assert(err != nil, p.name+": an empty list is accepted")
	}
	if earlier != nil {
		sym.Assert(p.len(earlier) == 2, p.name+": a list built before has another length")
		for i := 0; i < 2; i++ {
			sym.Assert(p.is(earlier, i, 3+i), p.name+": a list built before has another element")
		}
	}
}

const setSize = 5 // of the elements of lists

var ptNames = [setSize]string{"one", "two", "three", "four", "five"}

// ptBytes is data of 1 to n bytes
func ptBytes(id string, n int) [2][]byte {
	return [2][]byte{sym.Bytes(id+"0", n), sym.Bytes(id+"1", 1+sym.Choice(id+".length", n))}
}

func ptUints(id string) [2]uint {
	return [2]uint{sym.Uint(id + "0"), sym.Uint(id + "1")}
}

// --- grammars

func ptToken(k int) grammars.Token { return gText(ptNames[k], 'a'+byte(k)).build() }

func ptTokens() (out [setSize]grammars.Token) {
	for k := range out {
		out[k] = ptToken(k)
	}
	return out
}

func ptCompose(k int) grammars.Compose {
	return buildCompose(ptNames[k], []gCompItem{{'a' + byte(k), 1}})
}

func ptCard(k int) cardinalities.Cardinality {
	c, err := cardinalities.NewBuilder().Create().WithMin(uint(k)).Now()
	must(err, "cardinality")
	return c
}

func ptElement(k int) grammars.Element {
	return ptToken(k).Block().Lines()[0].Containers()[0].Element()
}

func ptEverything(k int) grammars.Everything {
	e, err := grammars.NewEverythingBuilder().Create().WithName(ptNames[k]).WithException(ptToken(k)).Now()
	must(err, "everything")
	return e
}

func ptGrammar(k int) grammars.Grammar {
	g, err := grammars.NewBuilder().Create().WithRoot(ptToken(k)).Now()
	must(err, "grammar")
	return g
}

func ptChannel(k int) grammars.Channel {
	c, err := grammars.NewChannelBuilder().Create().WithToken(ptToken(k)).Now()
	must(err, "channel")
	return c
}

func ptSuite(k int) grammars.Suite {
	s, err := grammars.NewSuiteBuilder().Create().WithValid(ptCompose(k)).Now()
	must(err, "suite")
	return s
}

// H_PartsGrammar: the parts of grammars
func H_PartsGrammar() {
	switch sym.Choice("part", 24) {
	case 0:
		ts := ptTokens()
		var cs [2]grammars.Channels
		for k := range cs {
			c, err := grammars.NewChannelsBuilder().Create().WithList([]grammars.Channel{ptChannel(k)}).Now()
			must(err, "channels")
			cs[k] = c
		}
		b := grammars.NewBuilder()
		(&parts{name: "grammar", need: []int{0}, fresh: func() { b = b.Create() },
			give: []func(int){func(k int) { b.WithRoot(ts[k]) }, func(k int) { b.WithChannels(cs[k]) }},
			now:  func() (interface{}, error) { return b.Now() },
			has: func(o interface{}, i, k int) bool {
				g := o.(grammars.Grammar)
				if i == 0 {
					return g.Root() == ts[k]
				}
				if k < 0 {
					return !g.HasChannels()
				}
				return g.HasChannels() && g.Channels() == cs[k]
			}}).check()
	case 1:
		ts := ptTokens()
		var cs [2]grammars.ChannelCondition
		for k := range cs {
			c, err := grammars.NewChannelConditionBuilder().Create().WithNext(ptToken(k)).Now()
			must(err, "condition")
			cs[k] = c
		}
		b := grammars.NewChannelBuilder()
		(&parts{name: "channel", need: []int{0}, fresh: func() { b = b.Create() },
			give: []func(int){func(k int) { b.WithToken(ts[k]) }, func(k int) { b.WithCondition(cs[k]) }},
			now:  func() (interface{}, error) { return b.Now() },
			has: func(o interface{}, i, k int) bool {
				g := o.(grammars.Channel)
				if i == 0 {
					return g.Token() == ts[k]
				}
				if k < 0 {
					return !g.HasCondition()
				}
				return g.HasCondition() && g.Condition() == cs[k]
			}}).check()
	case 2:
		ts, ns := ptTokens(), ptTokens()
		b := grammars.NewChannelConditionBuilder()
		p := &parts{name: "channel condition", some: true, fresh: func() { b = b.Create() },
			give: []func(int){func(k int) { b.WithPrevious(ts[k]) }, func(k int) { b.WithNext(ns[k]) }},
			now:  func() (interface{}, error) { return b.Now() },
			has: func(o interface{}, i, k int) bool {
				g := o.(grammars.ChannelCondition)
				if i == 0 {
					if k < 0 {
						return !g.HasPrevious()
					}
					return g.HasPrevious() && g.Previous() == ts[k]
				}
				if k < 0 {
					return !g.HasNext()
				}
				return g.HasNext() && g.Next() == ns[k]
			}}
		p.check()
	case 3:
		gs := [2]grammars.Grammar{ptGrammar(0), ptGrammar(1)}
		b := grammars.NewExternalBuilder()
		(&parts{name: "external", need: []int{0, 1}, fresh: func() { b = b.Create() },
			give: []func(int){func(k int) { b.WithName(ptNames[k]) }, func(k int) { b.WithGrammar(gs[k]) }},
			now:  func() (interface{}, error) { return b.Now() },
			has: func(o interface{}, i, k int) bool {
				g := o.(grammars.External)
				if i == 0 {
					return g.Name() == ptNames[k]
				}
				return g.Grammar() == gs[k]
			}}).check()
	case 4:
		ts := ptTokens()
		es := [2]grammars.Everything{ptEverything(2), ptEverything(3)}
		b := grammars.NewInstanceBuilder()
		(&parts{name: "instance", alts: []int{0, 1}, fresh: func() { b = b.Create() },
			give: []func(int){func(k int) { b.WithToken(ts[k]) }, func(k int) { b.WithEverything(es[k]) }},
			now:  func() (interface{}, error) { return b.Now() },
			has: func(o interface{}, i, k int) bool {
				g := o.(grammars.Instance)
				if i == 0 {
					if k < 0 {
						return !g.IsToken()
					}
					return g.IsToken() && g.Token() == ts[k] && g.Name() == ptNames[k]
				}
				if k < 0 {
					return !g.IsEverything()
				}
				return g.IsEverything() && g.Everything() == es[k] && g.Name() == ptNames[k+2]
			}}).check()
	case 5:
		ts, es := ptTokens(), ptTokens()
		b := grammars.NewEverythingBuilder()
		(&parts{name: "everything", need: []int{0, 1}, fresh: func() { b = b.Create() },
			give: []func(int){func(k int) { b.WithName(ptNames[k]) }, func(k int) { b.WithException(ts[k]) },
				func(k int) { b.WithEscape(es[k]) }},
			now: func() (interface{}, error) { return b.Now() },
			has: func(o interface{}, i, k int) bool {
				g := o.(grammars.Everything)
				switch i {
				case 0:
					return g.Name() == ptNames[k]
				case 1:
					return g.Exception() == ts[k]
				}
				if k < 0 {
					return !g.HasEscape()
				}
				return g.HasEscape() && g.Escape() == es[k]
			}}).check()
	case 6:
		bs := [2]grammars.Block{ptToken(0).Block(), ptToken(1).Block()}
		var ss [2]grammars.Suites
		for k := range ss {
			s, err := grammars.NewSuitesBuilder().Create().WithList([]grammars.Suite{ptSuite(k)}).Now()
			must(err, "suites")
			ss[k] = s
		}
		b := grammars.NewTokenBuilder()
		(&parts{name: "token", need: []int{0, 1}, fresh: func() { b = b.Create() },
			give: []func(int){func(k int) { b.WithName(ptNames[k]) }, func(k int) { b.WithBlock(bs[k]) },
				func(k int) { b.WithSuites(ss[k]) }},
			now: func() (interface{}, error) { return b.Now() },
			has: func(o interface{}, i, k int) bool {
				g := o.(grammars.Token)
				switch i {
				case 0:
					return g.Name() == ptNames[k]
				case 1:
					return g.Block() == bs[k]
				}
				if k < 0 {
					return !g.HasSuites()
				}
				return g.HasSuites() && g.Suites() == ss[k]
			}}).check()
	case 7:
		cs := [2]grammars.Compose{ptCompose(0), ptCompose(1)}
		b := grammars.NewSuiteBuilder()
		(&parts{name: "suite", alts: []int{0, 1}, fresh: func() { b = b.Create() },
			give: []func(int){func(k int) { b.WithValid(cs[k]) }, func(k int) { b.WithInvalid(cs[k]) }},
			now:  func() (interface{}, error) { return b.Now() },
			has: func(o interface{}, i, k int) bool {
				g := o.(grammars.Suite)
				if k < 0 {
					return g.IsValid() == (i == 1)
				}
				return g.IsValid() == (i == 0) && g.Content() == cs[k]
			}}).check()
	case 8:
		es := [2]grammars.Element{ptElement(0), ptElement(1)}
		cs := [2]grammars.Compose{ptCompose(0), ptCompose(1)}
		b := grammars.NewContainerBuilder()
		(&parts{name: "container", alts: []int{0, 1}, fresh: func() { b = b.Create() },
			give: []func(int){func(k int) { b.WithElement(es[k]) }, func(k int) { b.WithCompose(cs[k]) }},
			now:  func() (interface{}, error) { return b.Now() },
			has: func(o interface{}, i, k int) bool {
				g := o.(grammars.Container)
				if i == 0 {
					if k < 0 {
						return !g.IsElement()
					}
					return g.IsElement() && g.Element() == es[k] && g.Name() == es[k].Name()
				}
				if k < 0 {
					return !g.IsCompose()
				}
				return g.IsCompose() && g.Compose() == cs[k] && g.Name() == cs[k].Name()
			}}).check()
	case 9:
		cards := [2]cardinalities.Cardinality{ptCard(0), ptCard(1)}
		vs := [2]values.Value{buildValue("value one", 'a'), buildValue("value two", 'b')}
		var xs [2]grammars.External
		var is [2]grammars.Instance
		for k := range xs {
			x, err := grammars.NewExternalBuilder().Create().WithName("external " + ptNames[k]).WithGrammar(ptGrammar(k)).Now()
			must(err, "external")
			i, err := grammars.NewInstanceBuilder().Create().WithToken(ptToken(k)).Now()
			must(err, "instance")
			xs[k], is[k] = x, i
		}
		b := grammars.NewElementBuilder()
		(&parts{name: "element", need: []int{0}, alts: []int{1, 2, 3, 4}, fresh: func() { b = b.Create() },
			give: []func(int){func(k int) { b.WithCardinality(cards[k]) }, func(k int) { b.WithValue(vs[k]) },
				func(k int) { b.WithExternal(xs[k]) }, func(k int) { b.WithInstance(is[k]) },
				func(k int) { b.WithRecursive(ptNames[k]) }},
			now: func() (interface{}, error) { return b.Now() },
			has: func(o interface{}, i, k int) bool {
				g := o.(grammars.Element)
				c := g.Content()
				is_ := [5]bool{k >= 0, c.IsValue(), c.IsExternal(), c.IsInstance(), c.IsRecursive()}
				if is_[i] != (k >= 0) {
					return false
				}
				if k < 0 {
					return true
				}
				switch i {
				case 0:
					return g.Cardinality() == cards[k]
				case 1:
					return c.Value() == vs[k] && g.Name() == vs[k].Name()
				case 2:
					return c.External() == xs[k] && g.Name() == xs[k].Name()
				case 3:
					return c.Instance() == is[k] && g.Name() == is[k].Name()
				}
				return c.Recursive() == ptNames[k] && g.Name() == ptNames[k]
			}}).check()
	case 10:
		cs := [setSize]grammars.ComposeElement{}
		for k := range cs {
			cs[k] = ptCompose(k).List()[0]
		}
		b := grammars.NewComposeBuilder()
		(&parts{name: "compose", need: []int{0, 1}, fresh: func() { b = b.Create() },
			give: []func(int){func(k int) { b.WithName(ptNames[k]) },
				func(k int) { b.WithList([]grammars.ComposeElement{cs[k], cs[k+2]}) }},
			now: func() (interface{}, error) { return b.Now() },
			has: func(o interface{}, i, k int) bool {
				g := o.(grammars.Compose)
				if i == 0 {
					return g.Name() == ptNames[k]
				}
				return len(g.List()) == 2 && g.List()[0] == cs[k] && g.List()[1] == cs[k+2]
			}}).check()
	case 11:
		vs := [2]values.Value{buildValue("value one", 'a'), buildValue("value two", 'b')}
		ns := ptUints("occurences")
		sym.Assume(ns[0] > 0 && ns[1] > 0)
		b := grammars.NewComposeElementBuilder()
		(&parts{name: "compose element", need: []int{0, 1}, fresh: func() { b = b.Create() },
			give: []func(int){func(k int) { b.WithValue(vs[k]) }, func(k int) { b.WithOccurences(ns[k]) }},
			now:  func() (interface{}, error) { return b.Now() },
			has: func(o interface{}, i, k int) bool {
				g := o.(grammars.ComposeElement)
				if i == 0 {
					return g.Value() == vs[k]
				}
				return g.Occurences() == ns[k]
			}}).check()
	case 12:
		// a value that occurs no time at all is no element
		_, err := grammars.NewComposeElementBuilder().Create().WithValue(buildValue("value", 'a')).WithOccurences(0).Now()
		sym.Assert(err != nil, "an element that never occurs is accepted")
	case 13:
		mins, maxs := ptUints("min"), ptUints("max")
		sym.Assume(mins[0] <= maxs[0] && mins[1] <= maxs[1])
		b := cardinalities.NewBuilder()
		(&parts{name: "cardinality", need: []int{0}, fresh: func() { b = b.Create() },
			give: []func(int){func(k int) { b.WithMin(mins[k]) }, func(k int) { b.WithMax(maxs[k]) }},
			now:  func() (interface{}, error) { return b.Now() },
			has: func(o interface{}, i, k int) bool {
				g := o.(cardinalities.Cardinality)
				if i == 0 {
					return g.Min() == mins[k]
				}
				if k < 0 {
					return !g.HasMax()
				}
				return g.HasMax() && *g.Max() == maxs[k]
			}}).check()
	case 14:
		ns := [2]byte{sym.Byte("number0"), sym.Byte("number1")}
		b := values.NewBuilder()
		(&parts{name: "value", need: []int{0, 1}, fresh: func() { b = b.Create() },
			give: []func(int){func(k int) { b.WithName(ptNames[k]) }, func(k int) { b.WithNumber(ns[k]) }},
			now:  func() (interface{}, error) { return b.Now() },
			has: func(o interface{}, i, k int) bool {
				g := o.(values.Value)
				if i == 0 {
					return g.Name() == ptNames[k]
				}
				return g.Number() == ns[k]
			}}).check()
	case 15:
		ts := ptTokens()
		b := grammars.NewTokensBuilder()
		(&several{name: "tokens", fresh: func() { b = b.Create() },
			give: func(from, n int) { b.WithList(append([]grammars.Token{}, ts[from:from+n]...)) },
			now:  func() (interface{}, error) { return b.Now() },
			len:  func(o interface{}) int { return len(o.(grammars.Tokens).List()) },
			is:   func(o interface{}, i, at int) bool { return o.(grammars.Tokens).List()[i] == ts[at] }}).check()
	case 16:
		var cs [setSize]grammars.Channel
		for k := range cs {
			cs[k] = ptChannel(k)
		}
		b := grammars.NewChannelsBuilder()
		(&several{name: "channels", fresh: func() { b = b.Create() },
			give: func(from, n int) { b.WithList(append([]grammars.Channel{}, cs[from:from+n]...)) },
			now:  func() (interface{}, error) { return b.Now() },
			len:  func(o interface{}) int { return len(o.(grammars.Channels).List()) },
			is:   func(o interface{}, i, at int) bool { return o.(grammars.Channels).List()[i] == cs[at] }}).check()
	case 17:
		var cs [setSize]grammars.Suite
		for k := range cs {
			cs[k] = ptSuite(k)
		}
		b := grammars.NewSuitesBuilder()
		(&several{name: "suites", fresh: func() { b = b.Create() },
			give: func(from, n int) { b.WithList(append([]grammars.Suite{}, cs[from:from+n]...)) },
			now:  func() (interface{}, error) { return b.Now() },
			len:  func(o interface{}) int { return len(o.(grammars.Suites).List()) },
			is:   func(o interface{}, i, at int) bool { return o.(grammars.Suites).List()[i] == cs[at] }}).check()
	case 18:
		var ls [setSize]grammars.Line
		for k := range ls {
			ls[k] = ptToken(k).Block().Lines()[0]
		}
		b := grammars.NewBlockBuilder()
		(&several{name: "block", fresh: func() { b = b.Create() },
			give: func(from, n int) { b.WithLines(append([]grammars.Line{}, ls[from:from+n]...)) },
			now:  func() (interface{}, error) { return b.Now() },
			len:  func(o interface{}) int { return len(o.(grammars.Block).Lines()) },
			is:   func(o interface{}, i, at int) bool { return o.(grammars.Block).Lines()[i] == ls[at] }}).check()
	case 19:
		var cs [setSize]grammars.Container
		for k := range cs {
			cs[k] = ptToken(k).Block().Lines()[0].Containers()[0]
		}
		b := grammars.NewLineBuilder()
		(&several{name: "line", fresh: func() { b = b.Create() },
			give: func(from, n int) { b.WithContainers(append([]grammars.Container{}, cs[from:from+n]...)) },
			now:  func() (interface{}, error) { return b.Now() },
			len:  func(o interface{}) int { return len(o.(grammars.Line).Containers()) },
			is:   func(o interface{}, i, at int) bool { return o.(grammars.Line).Containers()[i] == cs[at] }}).check()
	case 20:
		var cs [setSize]grammars.ComposeElement
		for k := range cs {
			cs[k] = ptCompose(k).List()[0]
		}
		b := grammars.NewComposeBuilder()
		(&several{name: "compose", fresh: func() { b = b.Create().WithName("name") },
			give: func(from, n int) { b.WithList(append([]grammars.ComposeElement{}, cs[from:from+n]...)) },
			now:  func() (interface{}, error) { return b.Now() },
			len:  func(o interface{}) int { return len(o.(grammars.Compose).List()) },
			is:   func(o interface{}, i, at int) bool { return o.(grammars.Compose).List()[i] == cs[at] }}).check()
	case 21:
		partsCoverages()
	case 22:
		partsCoverage()
	case 23:
		partsResult()
	}
}

func ptResult(k int) coverages.Result {
	r, err := coverages.NewResultBuilder().Create().WithError(ptNames[k]).Now()
	must(err, "result")
	return r
}

func ptExecution(k int) coverages.Execution {
	e, err := coverages.NewExecutionBuilder().Create().WithExpectation(ptSuite(k)).WithResult(ptResult(k)).Now()
	must(err, "execution")
	return e
}

func ptExecutions(k int) coverages.Executions {
	e, err := coverages.NewExecutionsBuilder().Create().WithList([]coverages.Execution{ptExecution(k)}).Now()
	must(err, "executions")
	return e
}

func partsResult() {
	ts := [2]trees.Tree{tpLeaf("one", 'a'), tpLeaf("two", 'b')}
	b := coverages.NewResultBuilder()
	(&parts{name: "result", alts: []int{0, 1}, fresh: func() { b = b.Create() },
		give: []func(int){func(k int) { b.WithTree(ts[k]) }, func(k int) { b.WithError(ptNames[k]) }},
		now:  func() (interface{}, error) { return b.Now() },
		has: func(o interface{}, i, k int) bool {
			g := o.(coverages.Result)
			if i == 0 {
				if k < 0 {
					return !g.IsTree()
				}
				return g.IsTree() && g.Tree() == ts[k]
			}
			if k < 0 {
				return !g.IsError()
			}
			return g.IsError() && g.Error() == ptNames[k]
		}}).check()
}

func partsCoverage() {
	if sym.Bool("execution") {
		ss := [2]grammars.Suite{ptSuite(0), ptSuite(1)}
		rs := [2]coverages.Result{ptResult(0), ptResult(1)}
		b := coverages.NewExecutionBuilder()
		(&parts{name: "execution", need: []int{0, 1}, fresh: func() { b = b.Create() },
			give: []func(int){func(k int) { b.WithExpectation(ss[k]) }, func(k int) { b.WithResult(rs[k]) }},
			now:  func() (interface{}, error) { return b.Now() },
			has: func(o interface{}, i, k int) bool {
				g := o.(coverages.Execution)
				if i == 0 {
					return g.Expectation() == ss[k]
				}
				return g.Result() == rs[k]
			}}).check()
		return
	}
	ts := ptTokens()
	es := [2]coverages.Executions{ptExecutions(0), ptExecutions(1)}
	b := coverages.NewCoverageBuilder()
	(&parts{name: "coverage", need: []int{0, 1}, fresh: func() { b = b.Create() },
		give: []func(int){func(k int) { b.WithToken(ts[k]) }, func(k int) { b.WithExecutions(es[k]) }},
		now:  func() (interface{}, error) { return b.Now() },
		has: func(o interface{}, i, k int) bool {
			g := o.(coverages.Coverage)
			if i == 0 {
				return g.Token() == ts[k]
			}
			return g.Executions() == es[k]
		}}).check()
}

func partsCoverages() {
	if sym.Bool("executions") {
		var es [setSize]coverages.Execution
		for k := range es {
			es[k] = ptExecution(k)
		}
		b := coverages.NewExecutionsBuilder()
		(&several{name: "executions", fresh: func() { b = b.Create() },
			give: func(from, n int) { b.WithList(append([]coverages.Execution{}, es[from:from+n]...)) },
			now:  func() (interface{}, error) { return b.Now() },
			len:  func(o interface{}) int { return len(o.(coverages.Executions).List()) },
			is:   func(o interface{}, i, at int) bool { return o.(coverages.Executions).List()[i] == es[at] }}).check()
		return
	}
	var cs [setSize]coverages.Coverage
	for k := range cs {
		c, err := coverages.NewCoverageBuilder().Create().WithToken(ptToken(k)).WithExecutions(ptExecutions(k)).Now()
		must(err, "coverage")
		cs[k] = c
	}
	b := coverages.NewBuilder()
	(&several{name: "coverages", fresh: func() { b = b.Create() },
		give: func(from, n int) { b.WithList(append([]coverages.Coverage{}, cs[from:from+n]...)) },
		now:  func() (interface{}, error) { return b.Now() },
		len:  func(o interface{}) int { return len(o.(coverages.Coverages).List()) },
		is:   func(o interface{}, i, at int) bool { return o.(coverages.Coverages).List()[i] == cs[at] }}).check()
}

// --- trees

func ptTree(k int) trees.Tree { return tpLeaf(ptNames[k], 'a'+byte(k)) }

func ptTrees(k int) trees.Trees { return tpTrees(ptTree(k)) }

// H_PartsTree: the parts of trees
func H_PartsTree() {
	switch sym.Choice("part", 11) {
	case 0:
		cs := [2]byte{sym.Byte("content0"), sym.Byte("content1")}
		ps := [2]trees.Trees{ptTrees(0), ptTrees(1)}
		b := trees.NewValueBuilder()
		(&parts{name: "value", need: []int{0}, fresh: func() { b = b.Create() },
			give: []func(int){func(k int) { b.WithContent(cs[k]) }, func(k int) { b.WithPrefix(ps[k]) }},
			now:  func() (interface{}, error) { return b.Now() },
			has: func(o interface{}, i, k int) bool {
				g := o.(trees.Value)
				if i == 0 {
					return g.Content() == cs[k]
				}
				if k < 0 {
					return !g.HasPrefix()
				}
				return g.HasPrefix() && g.Prefix() == ps[k]
			}}).check()
	case 1:
		ts := [2]trees.Tree{ptTree(0), ptTree(1)}
		var vs [2]trees.Value
		for k := range vs {
			v, err := trees.NewValueBuilder().Create().WithContent(byte(k)).Now()
			must(err, "value")
			vs[k] = v
		}
		b := trees.NewContentBuilder()
		(&parts{name: "content", alts: []int{0, 1}, fresh: func() { b = b.Create() },
			give: []func(int){func(k int) { b.WithTree(ts[k]) }, func(k int) { b.WithValue(vs[k]) }},
			now:  func() (interface{}, error) { return b.Now() },
			has: func(o interface{}, i, k int) bool {
				g := o.(trees.Content)
				if i == 0 {
					if k < 0 {
						return !g.IsTree()
					}
					return g.IsTree() && g.Tree() == ts[k]
				}
				if k < 0 {
					return !g.IsValue()
				}
				return g.IsValue() && g.Value() == vs[k]
			}}).check()
	case 2:
		var gs [2]grammars.Container
		var cs [2]trees.Contents
		for k := range gs {
			el := ptTree(k).Block().Lines()[0].Elements().List()[0]
			gs[k], cs[k] = el.Grammar(), el.Contents()
		}
		b := trees.NewElementBuilder()
		(&parts{name: "element", need: []int{0}, fresh: func() { b = b.Create() },
			give: []func(int){func(k int) { b.WithContents(cs[k]) }, func(k int) { b.WithGrammar(gs[k]) }},
			now:  func() (interface{}, error) { return b.Now() },
			has: func(o interface{}, i, k int) bool {
				g := o.(trees.Element)
				if i == 0 {
					return g.Contents() == cs[k]
				}
				if k < 0 {
					return !g.HasGrammar()
				}
				return g.HasGrammar() && g.Grammar() == gs[k]
			}}).check()
	case 3:
		var gs [2]grammars.Line
		var es [2]trees.Elements
		for k := range gs {
			l := ptTree(k).Block().Lines()[0]
			gs[k], es[k] = l.Grammar(), l.Elements()
		}
		ns := ptUints("index")
		b := trees.NewLineBuilder()
		(&parts{name: "line", need: []int{0, 1}, fresh: func() { b = b.Create() },
			give: []func(int){func(k int) { b.WithIndex(ns[k]) }, func(k int) { b.WithGrammar(gs[k]) },
				func(k int) { b.WithElements(es[k]) }, func(k int) { b.IsReverse() }},
			now: func() (interface{}, error) { return b.Now() },
			has: func(o interface{}, i, k int) bool {
				g := o.(trees.Line)
				switch i {
				case 0:
					return g.Index() == ns[k]
				case 1:
					return g.Grammar() == gs[k]
				case 2:
					if k < 0 {
						return !g.HasElements()
					}
					return g.HasElements() && g.Elements() == es[k]
				}
				return g.IsReverse() == (k >= 0)
			}}).check()
	case 4:
		var gs [2]grammars.Token
		var bs [2]trees.Block
		for k := range gs {
			t := ptTree(k)
			gs[k], bs[k] = t.Grammar(), t.Block()
		}
		ss := [2]trees.Trees{ptTrees(2), ptTrees(3)}
		rs := ptBytes("remaining", 2)
		b := trees.NewTreeBuilder()
		(&parts{name: "tree", need: []int{0, 1}, fresh: func() { b = b.Create() },
			give: []func(int){func(k int) { b.WithGrammar(gs[k]) }, func(k int) { b.WithBlock(bs[k]) },
				func(k int) { b.WithSuffix(ss[k]) }, func(k int) { b.WithRemaining(rs[k]) }},
			now: func() (interface{}, error) { return b.Now() },
			has: func(o interface{}, i, k int) bool {
				g := o.(trees.Tree)
				switch i {
				case 0:
					return g.Grammar() == gs[k]
				case 1:
					return g.Block() == bs[k]
				case 2:
					if k < 0 {
						return !g.HasSuffix()
					}
					return g.HasSuffix() && g.Suffix() == ss[k]
				}
				if k < 0 {
					return !g.HasRemaining()
				}
				return g.HasRemaining() && sym.EqBytes(g.Remaining(), rs[k])
			}}).check()
	case 5:
		// what does not remain is not remaining
		t := ptTree(0)
		o, err := trees.NewTreeBuilder().Create().WithGrammar(t.Grammar()).WithBlock(t.Block()).WithRemaining([]byte{}).Now()
		must(err, "tree")
		sym.Assert(!o.HasRemaining(), "a tree has remaining data of no byte")
	case 6:
		var ts [setSize]trees.Tree
		for k := range ts {
			ts[k] = ptTree(k)
		}
		b := trees.NewBuilder()
		(&several{name: "trees", fresh: func() { b = b.Create() },
			give: func(from, n int) { b.WithList(append([]trees.Tree{}, ts[from:from+n]...)) },
			now:  func() (interface{}, error) { return b.Now() },
			len:  func(o interface{}) int { return len(o.(trees.Trees).List()) },
			is:   func(o interface{}, i, at int) bool { return o.(trees.Trees).List()[i] == ts[at] }}).check()
	case 7:
		var cs [setSize]trees.Content
		for k := range cs {
			cs[k] = ptTree(k).Block().Lines()[0].Elements().List()[0].Contents().List()[0]
		}
		b := trees.NewContentsBuilder()
		(&several{name: "contents", fresh: func() { b = b.Create() },
			give: func(from, n int) { b.WithList(append([]trees.Content{}, cs[from:from+n]...)) },
			now:  func() (interface{}, error) { return b.Now() },
			len:  func(o interface{}) int { return len(o.(trees.Contents).List()) },
			is:   func(o interface{}, i, at int) bool { return o.(trees.Contents).List()[i] == cs[at] }}).check()
	case 8:
		var es [setSize]trees.Element
		for k := range es {
			es[k] = ptTree(k).Block().Lines()[0].Elements().List()[0]
		}
		b := trees.NewElementsBuilder()
		(&several{name: "elements", fresh: func() { b = b.Create() },
			give: func(from, n int) { b.WithList(append([]trees.Element{}, es[from:from+n]...)) },
			now:  func() (interface{}, error) { return b.Now() },
			len:  func(o interface{}) int { return len(o.(trees.Elements).List()) },
			is:   func(o interface{}, i, at int) bool { return o.(trees.Elements).List()[i] == es[at] }}).check()
	case 9:
		var ls [setSize]trees.Line
		for k := range ls {
			ls[k] = ptTree(k).Block().Lines()[0]
		}
		b := trees.NewBlockBuilder()
		(&several{name: "block", fresh: func() { b = b.Create() },
			give: func(from, n int) { b.WithLines(append([]trees.Line{}, ls[from:from+n]...)) },
			now:  func() (interface{}, error) { return b.Now() },
			len:  func(o interface{}) int { return len(o.(trees.Block).Lines()) },
			is:   func(o interface{}, i, at int) bool { return o.(trees.Block).Lines()[i] == ls[at] }}).check()
	case 10:
		// an element is found by the name of its grammar
		var es [setSize]trees.Element
		for k := range es {
			es[k] = ptTree(k).Block().Lines()[0].Elements().List()[0]
		}
		from, n := sym.Choice("from", 2), 1+sym.Choice("n", 3)
		list := append([]trees.Element{}, es[from:from+n]...)
		if sym.Bool("backwards") {
			list[0], list[n-1] = list[n-1], list[0]
		}
		if nameless := sym.Choice("nameless", n+1); nameless < n {
			list[nameless] = tpElementOf(nil, list[nameless].Contents().List())
		}
		all, err := trees.NewElementsBuilder().Create().WithList(list).Now()
		must(err, "elements")
		k := sym.Choice("name", setSize)
		name := es[k].Grammar().Name()
		got, err := all.Fetch(name)
		for _, one := range list {
			if one.HasGrammar() && one.Grammar().Name() == name {
				sym.Reach("found")
				sym.Assert(err == nil && got == one, "an element is not found by its name")
				return
			}
		}
		sym.Reach("not found")
		sym.Assert(err != nil, "an element is found by a name that none has")
	}
}

// --- databases and hash trees

func ptHash(data []byte) hash.Hash {
	h, err := hash.NewAdapter().FromBytes(data)
	must(err, "hash")
	return *h
}

func ptHashes(id string) (out [2]hash.Hash) {
	for k := range out {
		out[k] = hash.Hash(sym.Bytes(id+itoa(k), 64))
	}
	return out
}

func ptLeaf(k int) hashtrees.Leaf {
	l, err := hashtrees.NewLeafBuilder().Create().WithHead(ptHash([]byte(ptNames[k]))).Now()
	must(err, "leaf")
	return l
}

func ptParent(k int) hashtrees.ParentLeaf {
	p, err := hashtrees.NewParentLeafBuilder().Create().WithLeft(ptLeaf(k)).WithRight(ptLeaf(k + 1)).Now()
	must(err, "parent leaf")
	return p
}

func ptLeaves(k int) hashtrees.Leaves {
	l, err := hashtrees.NewLeavesBuilder().Create().WithList([]hashtrees.Leaf{ptLeaf(k), ptLeaf(k + 1)}).Now()
	must(err, "leaves")
	return l
}

func ptHashTree(k int) hashtrees.HashTree {
	t, err := hashtrees.NewBuilder().Create().WithBlocks([][]byte{[]byte(ptNames[k]), []byte(ptNames[k+1])}).Now()
	must(err, "hashtree")
	return t
}

func ptPointer(k int) references.Pointer {
	p, err := references.NewPointerBuilder().Create().From(uint(k)).WithLength(uint(k + 1)).Now()
	must(err, "pointer")
	return p
}

func ptKey(k int) references.ContentKey {
	c, err := references.NewContentKeyBuilder().Create().WithHash(ptHash([]byte(ptNames[k]))).WithKind(uint(k)).
		WithContent(ptPointer(k)).WithCommit(ptHash([]byte("commit"))).Now()
	must(err, "content key")
	return c
}

func ptCommit(k int) references.Commit {
	c, err := references.NewCommitBuilder(0).Create().WithValues(ptHashTree(k % 2)).CreatedOn(time.Unix(int64(k), 0).UTC()).Now()
	must(err, "commit")
	return c
}

// H_PartsReference: the parts of databases and of hash trees
func H_PartsReference() {
	switch sym.Choice("part", 14) {
	case 0:
		hs, ds, ks := ptHashes("hash"), ptBytes("data", 2), ptUints("kind")
		b := contents.NewContentBuilder()
		(&parts{name: "content", need: []int{0, 1, 2}, fresh: func() { b = b.Create() },
			give: []func(int){func(k int) { b.WithHash(hs[k]) }, func(k int) { b.WithData(ds[k]) },
				func(k int) { b.WithKind(ks[k]) }},
			now: func() (interface{}, error) { return b.Now() },
			has: func(o interface{}, i, k int) bool {
				g := o.(contents.Content)
				switch i {
				case 0:
					return sym.EqBytes(g.Hash(), hs[k])
				case 1:
					return sym.EqBytes(g.Data(), ds[k])
				}
				return g.Kind() == ks[k]
			}}).check()
	case 1:
		hs := ptHashes("hash")
		_, err := contents.NewContentBuilder().Create().WithHash(hs[0]).WithKind(0).WithData([]byte{}).Now()
		sym.Assert(err != nil, "content of no data is accepted")
	case 2:
		fs, ls := ptUints("from"), ptUints("length")
		sym.Assume(ls[0] > 0)
		b := references.NewPointerBuilder()
		if ls[1] == 0 {
			sym.Reach("no length")
			_, err := b.Create().From(fs[1]).WithLength(0).Now()
			sym.Assert(err != nil, "a pointer of no length is accepted")
			return
		}
		(&parts{name: "pointer", need: []int{0, 1}, fresh: func() { b = b.Create() },
			give: []func(int){func(k int) { b.From(fs[k]) }, func(k int) { b.WithLength(ls[k]) }},
			now:  func() (interface{}, error) { return b.Now() },
			has: func(o interface{}, i, k int) bool {
				g := o.(references.Pointer)
				if i == 0 {
					return g.From() == fs[k]
				}
				return g.Length() == ls[k]
			}}).check()
	case 3:
		hs, cs, ks := ptHashes("hash"), ptHashes("commit"), ptUints("kind")
		ps := [2]references.Pointer{ptPointer(0), ptPointer(1)}
		b := references.NewContentKeyBuilder()
		(&parts{name: "content key", need: []int{0, 1, 2, 3}, fresh: func() { b = b.Create() },
			give: []func(int){func(k int) { b.WithHash(hs[k]) }, func(k int) { b.WithKind(ks[k]) },
				func(k int) { b.WithContent(ps[k]) }, func(k int) { b.WithCommit(cs[k]) }},
			now: func() (interface{}, error) { return b.Now() },
			has: func(o interface{}, i, k int) bool {
				g := o.(references.ContentKey)
				switch i {
				case 0:
					return sym.EqBytes(g.Hash(), hs[k])
				case 1:
					return g.Kind() == ks[k]
				case 2:
					return g.Content() == ps[k]
				}
				return sym.EqBytes(g.Commit(), cs[k])
			}}).check()
	case 4:
		var ks [2]references.ContentKeys
		var cs [2]references.Commits
		for k := range ks {
			one, err := references.NewContentKeysBuilder().Create().WithList([]references.ContentKey{ptKey(k)}).Now()
			must(err, "content keys")
			two, err := references.NewCommitsBuilder().Create().WithList([]references.Commit{ptCommit(k)}).Now()
			must(err, "commits")
			ks[k], cs[k] = one, two
		}
		b := references.NewBuilder()
		(&parts{name: "reference", need: []int{0, 1}, fresh: func() { b = b.Create() },
			give: []func(int){func(k int) { b.WithContentKeys(ks[k]) }, func(k int) { b.WithCommits(cs[k]) }},
			now:  func() (interface{}, error) { return b.Now() },
			has: func(o interface{}, i, k int) bool {
				g := o.(references.Reference)
				if i == 0 {
					return g.ContentKeys() == ks[k]
				}
				return g.Commits() == cs[k]
			}}).check()
	case 5:
		vs := [2]hashtrees.HashTree{ptHashTree(0), ptHashTree(1)}
		ps := [2]hash.Hash{ptHash([]byte("one")), ptHash([]byte("two"))}
		fs := [2]*big.Int{big.NewInt(300), big.NewInt(70000)}
		ts := [2]time.Time{time.Unix(5, 7).UTC(), time.Unix(6, 8).UTC()}
		b := references.NewCommitBuilder(0)
		(&parts{name: "commit", need: []int{0, 1}, fresh: func() { b = b.Create() },
			give: []func(int){func(k int) { b.WithValues(vs[k]) }, func(k int) { b.CreatedOn(ts[k]) },
				func(k int) { b.WithParent(ps[k]) }, func(k int) { b.WithProof(fs[k]) }},
			now: func() (interface{}, error) { return b.Now() },
			has: func(o interface{}, i, k int) bool {
				g := o.(references.Commit)
				switch i {
				case 0:
					return g.Values() == vs[k]
				case 1:
					return g.CreatedOn().Equal(ts[k])
				case 2:
					if k < 0 {
						return !g.HasParent()
					}
					return g.HasParent() && sym.EqBytes(*g.Parent(), ps[k])
				}
				if k < 0 {
					return !g.HasMine()
				}
				return g.HasMine() && g.Mine().Proof().Cmp(fs[k]) == 0
			}}).check()
	case 6:
		hs := ptHashes("head")
		ps := [2]hashtrees.ParentLeaf{ptParent(0), ptParent(1)}
		b := hashtrees.NewLeafBuilder()
		(&parts{name: "leaf", need: []int{0}, fresh: func() { b = b.Create() },
			give: []func(int){func(k int) { b.WithHead(hs[k]) }, func(k int) { b.WithParent(ps[k]) }},
			now:  func() (interface{}, error) { return b.Now() },
			has: func(o interface{}, i, k int) bool {
				g := o.(hashtrees.Leaf)
				if i == 0 {
					return sym.EqBytes(g.Head(), hs[k])
				}
				if k < 0 {
					return !g.HasParent()
				}
				return g.HasParent() && g.Parent() == ps[k]
			}}).check()
	case 7:
		ls, rs := [2]hashtrees.Leaf{ptLeaf(0), ptLeaf(1)}, [2]hashtrees.Leaf{ptLeaf(2), ptLeaf(3)}
		b := hashtrees.NewParentLeafBuilder()
		(&parts{name: "parent leaf", need: []int{0, 1}, fresh: func() { b = b.Create() },
			give: []func(int){func(k int) { b.WithLeft(ls[k]) }, func(k int) { b.WithRight(rs[k]) }},
			now:  func() (interface{}, error) { return b.Now() },
			has: func(o interface{}, i, k int) bool {
				g := o.(hashtrees.ParentLeaf)
				if i == 0 {
					return g.Left() == ls[k]
				}
				return g.Right() == rs[k]
			}}).check()
	case 8:
		hs := ptHashes("head")
		ls := [2]hashtrees.Leaves{ptLeaves(0), ptLeaves(1)}
		b := hashtrees.NewCompactBuilder()
		(&parts{name: "compact", need: []int{0, 1}, fresh: func() { b = b.Create() },
			give: []func(int){func(k int) { b.WithHead(hs[k]) }, func(k int) { b.WithLeaves(ls[k]) }},
			now:  func() (interface{}, error) { return b.Now() },
			has: func(o interface{}, i, k int) bool {
				g := o.(hashtrees.Compact)
				if i == 0 {
					return sym.EqBytes(g.Head(), hs[k])
				}
				return g.Leaves() == ls[k]
			}}).check()
	case 9:
		hs := ptHashes("head")
		ps := [2]hashtrees.ParentLeaf{ptParent(0), ptParent(1)}
		b := hashtrees.NewBuilder()
		(&parts{name: "hash tree", need: []int{0, 1}, fresh: func() { b = b.Create() },
			give: []func(int){func(k int) { b.WithHead(hs[k]) }, func(k int) { b.WithParent(ps[k]) }},
			now:  func() (interface{}, error) { return b.Now() },
			has: func(o interface{}, i, k int) bool {
				g := o.(hashtrees.HashTree)
				if i == 0 {
					return sym.EqBytes(g.Head(), hs[k])
				}
				return g.Parent() == ps[k]
			}}).check()
	case 10:
		var ls [setSize]hashtrees.Leaf
		for k := range ls {
			ls[k] = ptLeaf(k)
		}
		b := hashtrees.NewLeavesBuilder()
		(&several{name: "leaves", fresh: func() { b = b.Create() },
			give: func(from, n int) { b.WithList(append([]hashtrees.Leaf{}, ls[from:from+n]...)) },
			now:  func() (interface{}, error) { return b.Now() },
			len:  func(o interface{}) int { return len(o.(hashtrees.Leaves).Leaves()) },
			is:   func(o interface{}, i, at int) bool { return o.(hashtrees.Leaves).Leaves()[i] == ls[at] }}).check()
	case 11:
		var cs [setSize]contents.Content
		for k := range cs {
			c, err := contents.NewContentBuilder().Create().WithHash(ptHash([]byte(ptNames[k]))).WithKind(1).WithData([]byte(ptNames[k])).Now()
			must(err, "content")
			cs[k] = c
		}
		b := contents.NewBuilder()
		(&several{name: "contents", fresh: func() { b = b.Create() },
			give: func(from, n int) { b.WithList(append([]contents.Content{}, cs[from:from+n]...)) },
			now:  func() (interface{}, error) { return b.Now() },
			len:  func(o interface{}) int { return len(o.(contents.Contents).List()) },
			is:   func(o interface{}, i, at int) bool { return o.(contents.Contents).List()[i] == cs[at] }}).check()
	case 12:
		var ks [setSize]references.ContentKey
		for k := range ks {
			ks[k] = ptKey(k)
		}
		b := references.NewContentKeysBuilder()
		(&several{name: "content keys", fresh: func() { b = b.Create() },
			give: func(from, n int) { b.WithList(append([]references.ContentKey{}, ks[from:from+n]...)) },
			now:  func() (interface{}, error) { return b.Now() },
			len:  func(o interface{}) int { return len(o.(references.ContentKeys).List()) },
			is: func(o interface{}, i, at int) bool {
				g := o.(references.ContentKeys)
				one, err := g.Fetch(ks[at].Hash())
				return g.List()[i] == ks[at] && err == nil && one == ks[at]
			}}).check()
	case 13:
		var cs [setSize]references.Commit
		for k := range cs {
			cs[k] = ptCommit(k)
		}
		b := references.NewCommitsBuilder()
		(&several{name: "commits", fresh: func() { b = b.Create() },
			give: func(from, n int) { b.WithList(append([]references.Commit{}, cs[from:from+n]...)) },
			now:  func() (interface{}, error) { return b.Now() },
			len:  func(o interface{}) int { return len(o.(references.Commits).List()) },
			is: func(o interface{}, i, at int) bool {
				g := o.(references.Commits)
				one, err := g.Fetch(cs[at].Hash())
				return g.List()[i] == cs[at] && err == nil && one == cs[at]
			}}).check()
	}
}

// --- instructions

func ptIns(k int) instructions.Instruction {
	i, err := instructions.NewInstructionBuilder().Create().WithExecution([]byte(ptNames[k])).Now()
	must(err, "instruction")
	return i
}

func ptInsList(k int) instructions.Instructions {
	i, err := instructions.NewBuilder().Create().WithList([]instructions.Instruction{ptIns(k)}).Now()
	must(err, "instructions")
	return i
}

func ptInsValue(k int) instructions.Value {
	v, err := instructions.NewValueBuilder().Create().WithConstant([]byte(ptNames[k])).Now()
	must(err, "value")
	return v
}

func ptVariable(k int) attachments.Variable {
	v, err := attachments.NewVariableBuilder().Create().WithCurrent([]byte(ptNames[k])).WithTarget(uint(k)).Now()
	must(err, "variable")
	return v
}

// H_PartsInstruction: the parts of instructions
func H_PartsInstruction() {
	switch sym.Choice("part", 10) {
	case 0:
		ns, is := ptBytes("name", 2), ptUints("index")
		b := insmodules.NewBuilder()
		(&parts{name: "module", need: []int{0, 1}, fresh: func() { b = b.Create() },
			give: []func(int){func(k int) { b.WithIndex(is[k]) }, func(k int) { b.WithName(ns[k]) }},
			now:  func() (interface{}, error) { return b.Now() },
			has: func(o interface{}, i, k int) bool {
				g := o.(insmodules.Module)
				if i == 0 {
					return g.Index() == is[k]
				}
				return sym.EqBytes(g.Name(), ns[k])
			}}).check()
	case 1:
		ns, ms := ptBytes("name", 2), ptBytes("module", 2)
		b := applications.NewBuilder()
		(&parts{name: "application", need: []int{0, 1}, fresh: func() { b = b.Create() },
			give: []func(int){func(k int) { b.WithModule(ms[k]) }, func(k int) { b.WithName(ns[k]) }},
			now:  func() (interface{}, error) { return b.Now() },
			has: func(o interface{}, i, k int) bool {
				g := o.(applications.Application)
				if i == 0 {
					return sym.EqBytes(g.Module(), ms[k])
				}
				return sym.EqBytes(g.Name(), ns[k])
			}}).check()
	case 2:
		ns := ptBytes("name", 2)
		b := parameters.NewBuilder()
		(&parts{name: "parameter", need: []int{0}, fresh: func() { b = b.Create() },
			give: []func(int){func(k int) { b.WithName(ns[k]) }, func(k int) { b.IsInput() }},
			now:  func() (interface{}, error) { return b.Now() },
			has: func(o interface{}, i, k int) bool {
				g := o.(parameters.Parameter)
				if i == 0 {
					return sym.EqBytes(g.Name(), ns[k])
				}
				return g.IsInput() == (k >= 0)
			}}).check()
	case 3:
		cs, ts := ptBytes("current", 2), ptUints("target")
		b := attachments.NewVariableBuilder()
		(&parts{name: "variable", need: []int{0, 1}, fresh: func() { b = b.Create() },
			give: []func(int){func(k int) { b.WithCurrent(cs[k]) }, func(k int) { b.WithTarget(ts[k]) }},
			now:  func() (interface{}, error) { return b.Now() },
			has: func(o interface{}, i, k int) bool {
				g := o.(attachments.Variable)
				if i == 0 {
					return sym.EqBytes(g.Current(), cs[k])
				}
				return g.Target() == ts[k]
			}}).check()
	case 4:
		vs, as := [2]attachments.Variable{ptVariable(0), ptVariable(1)}, ptBytes("application", 2)
		b := attachments.NewBuilder()
		(&parts{name: "attachment", need: []int{0, 1}, fresh: func() { b = b.Create() },
			give: []func(int){func(k int) { b.WithVariable(vs[k]) }, func(k int) { b.WithApplication(as[k]) }},
			now:  func() (interface{}, error) { return b.Now() },
			has: func(o interface{}, i, k int) bool {
				g := o.(attachments.Attachment)
				if i == 0 {
					return g.Variable() == vs[k]
				}
				return sym.EqBytes(g.Application(), as[k])
			}}).check()
	case 5:
		ns, vs := ptBytes("variable", 2), [2]instructions.Value{ptInsValue(0), ptInsValue(1)}
		b := instructions.NewAssignmentBuilder()
		(&parts{name: "assignment", need: []int{0, 1}, fresh: func() { b = b.Create() },
			give: []func(int){func(k int) { b.WithVariable(ns[k]) }, func(k int) { b.WithValue(vs[k]) }},
			now:  func() (interface{}, error) { return b.Now() },
			has: func(o interface{}, i, k int) bool {
				g := o.(instructions.Assignment)
				if i == 0 {
					return sym.EqBytes(g.Variable(), ns[k])
				}
				return g.Value() == vs[k]
			}}).check()
	case 6:
		vs, cs, es := ptBytes("variable", 2), ptBytes("constant", 2), ptBytes("execution", 2)
		is := [2]instructions.Instructions{ptInsList(0), ptInsList(1)}
		b := instructions.NewValueBuilder()
		(&parts{name: "value", alts: []int{0, 1, 2, 3}, fresh: func() { b = b.Create() },
			give: []func(int){func(k int) { b.WithVariable(vs[k]) }, func(k int) { b.WithConstant(cs[k]) },
				func(k int) { b.WithInstructions(is[k]) }, func(k int) { b.WithExecution(es[k]) }},
			now: func() (interface{}, error) { return b.Now() },
			has: func(o interface{}, i, k int) bool {
				g := o.(instructions.Value)
				kinds := [4]bool{g.IsVariable(), g.IsConstant(), g.IsInstructions(), g.IsExecution()}
				if kinds[i] != (k >= 0) {
					return false
				}
				if k < 0 {
					return true
				}
				switch i {
				case 0:
					return sym.EqBytes(g.Variable(), vs[k])
				case 1:
					return sym.EqBytes(g.Constant(), cs[k])
				case 2:
					return g.Instructions() == is[k]
				}
				return sym.EqBytes(g.Execution(), es[k])
			}}).check()
	case 7:
		var ms [2]insmodules.Module
		var as [2]applications.Application
		var ps [2]parameters.Parameter
		var ss [2]instructions.Assignment
		var ts [2]attachments.Attachment
		for k := range ms {
			name := []byte(ptNames[k])
			var err error
			ms[k], err = insmodules.NewBuilder().Create().WithIndex(uint(k)).WithName(name).Now()
			must(err, "module")
			as[k], err = applications.NewBuilder().Create().WithModule(name).WithName(name).Now()
			must(err, "application")
			ps[k], err = parameters.NewBuilder().Create().WithName(name).Now()
			must(err, "parameter")
			ss[k], err = instructions.NewAssignmentBuilder().Create().WithVariable(name).WithValue(ptInsValue(k)).Now()
			must(err, "assignment")
			ts[k], err = attachments.NewBuilder().Create().WithVariable(ptVariable(k)).WithApplication(name).Now()
			must(err, "attachment")
		}
		es := ptBytes("execution", 2)
		b := instructions.NewInstructionBuilder()
		(&parts{name: "instruction", alts: []int{0, 1, 2, 3, 4, 5}, fresh: func() { b = b.Create() },
			give: []func(int){func(k int) { b.WithModule(ms[k]) }, func(k int) { b.WithApplication(as[k]) },
				func(k int) { b.WithParameter(ps[k]) }, func(k int) { b.WithAssignment(ss[k]) },
				func(k int) { b.WithAttachment(ts[k]) }, func(k int) { b.WithExecution(es[k]) }},
			now: func() (interface{}, error) { return b.Now() },
			has: func(o interface{}, i, k int) bool {
				g := o.(instructions.Instruction)
				kinds := [6]bool{g.IsModule(), g.IsApplication(), g.IsParameter(), g.IsAssignment(), g.IsAttachment(), g.IsExecution()}
				if kinds[i] != (k >= 0) {
					return false
				}
				if k < 0 {
					return true
				}
				switch i {
				case 0:
					return g.Module() == ms[k]
				case 1:
					return g.Application() == as[k]
				case 2:
					return g.Parameter() == ps[k]
				case 3:
					return g.Assignment() == ss[k]
				case 4:
					return g.Attachment() == ts[k]
				}
				return sym.EqBytes(g.Execution(), es[k])
			}}).check()
	case 8:
		lists := [2][]instructions.Instruction{{ptIns(0), ptIns(2)}, {ptIns(1), ptIns(3)}}
		rs := ptBytes("remaining", 2)
		b := instructions.NewBuilder()
		(&parts{name: "instructions", need: []int{0}, fresh: func() { b = b.Create() },
			give: []func(int){func(k int) { b.WithList(lists[k]) }, func(k int) { b.WithRemaining(rs[k]) }},
			now:  func() (interface{}, error) { return b.Now() },
			has: func(o interface{}, i, k int) bool {
				g := o.(instructions.Instructions)
				if i == 0 {
					l := g.List()
					return len(l) == 2 && l[0] == lists[k][0] && l[1] == lists[k][1]
				}
				if k < 0 {
					return !g.HasRemaining()
				}
				return g.HasRemaining() && sym.EqBytes(g.Remaining(), rs[k])
			}}).check()
	case 9:
		var is [setSize]instructions.Instruction
		for k := range is {
			is[k] = ptIns(k)
		}
		b := instructions.NewBuilder()
		(&several{name: "instructions", fresh: func() { b = b.Create() },
			give: func(from, n int) { b.WithList(append([]instructions.Instruction{}, is[from:from+n]...)) },
			now:  func() (interface{}, error) { return b.Now() },
			len:  func(o interface{}) int { return len(o.(instructions.Instructions).List()) },
			is:   func(o interface{}, i, at int) bool { return o.(instructions.Instructions).List()[i] == is[at] }}).check()
	}
}

// --- programs

func ptFunc(k int) modules.ExecuteFn {
	return func(map[uint]interface{}) (interface{}, error) { return k, nil }
}

func ptModule(k int) modules.Module {
	m, err := modules.NewModuleBuilder().Create().WithIndex(uint(k)).WithFunc(ptFunc(k)).Now()
	must(err, "module")
	return m
}

func ptProgValue(k int) programs.Value {
	v, err := programs.NewValueBuilder().Create().WithConstant([]byte(ptNames[k])).Now()
	must(err, "value")
	return v
}

func ptProgApp(k int) programs.Application {
	a, err := programs.NewApplicationBuilder().Create().WithIndex(uint(k)).WithModule(ptModule(k)).Now()
	must(err, "application")
	return a
}

func ptProgAttachment(k int) programs.Attachment {
	a, err := programs.NewAttachmentBuilder().Create().WithValue(ptProgValue(k)).WithLocal(uint(k)).Now()
	must(err, "attachment")
	return a
}

func ptProgIns(k int) programs.Instruction {
	i, err := programs.NewInstructionBuilder().Create().WithExecution(ptProgApp(k)).Now()
	must(err, "instruction")
	return i
}

func ptProgram(k int) programs.Program {
	i, err := programs.NewInstructionsBuilder().Create().WithList([]programs.Instruction{ptProgIns(k)}).Now()
	must(err, "instructions")
	p, err := programs.NewBuilder().Create().WithInstructions(i).Now()
	must(err, "program")
	return p
}

// H_PartsProgram: the parts of programs
func H_PartsProgram() {
	switch sym.Choice("part", 11) {
	case 10:
		// modules are found by their index
		ms := make([]modules.Module, 1+sym.Choice("n", 3))
		at := make([]uint, len(ms))
		for i := range ms {
			at[i] = sym.Uint("index" + itoa(i))
			for j := 0; j < i; j++ {
				sym.Assume(at[i] != at[j])
			}
			m, err := modules.NewModuleBuilder().Create().WithIndex(at[i]).WithFunc(ptFunc(i)).Now()
			must(err, "module")
			ms[i] = m
		}
		all, err := modules.NewBuilder().Create().WithList(ms).Now()
		must(err, "modules")
		index := sym.Uint("asked")
		got, err := all.Fetch(index)
		for i := range at {
			if at[i] == index {
				sym.Reach("found")
				sym.Assert(err == nil && got == ms[i], "a module is not found by its index")
				return
			}
		}
		sym.Reach("not found")
		sym.Assert(err != nil, "a module is found by an index that none has")
	case 0:
		is := [2]programs.Instructions{ptProgram(0).Instructions(), ptProgram(1).Instructions()}
		us := ptUints("output")
		b := programs.NewBuilder()
		(&parts{name: "program", need: []int{0}, fresh: func() { b = b.Create() },
			give: []func(int){func(k int) { b.WithInstructions(is[k]) }, func(k int) { b.WithOutputs([]uint{us[k], us[1-k]}) }},
			now:  func() (interface{}, error) { return b.Now() },
			has: func(o interface{}, i, k int) bool {
				g := o.(programs.Program)
				if i == 0 {
					return g.Instructions() == is[k]
				}
				if k < 0 {
					return !g.HasOutputs()
				}
				l := g.Outputs()
				return g.HasOutputs() && len(l) == 2 && l[0] == us[k] && l[1] == us[1-k]
			}}).check()
	case 1:
		o, err := programs.NewBuilder().Create().WithInstructions(ptProgram(0).Instructions()).WithOutputs([]uint{}).Now()
		must(err, "program")
		sym.Assert(!o.HasOutputs(), "a program has outputs that are none")
	case 2:
		vs := [2]programs.Value{ptProgValue(0), ptProgValue(1)}
		as := [2]programs.Application{ptProgApp(0), ptProgApp(1)}
		b := programs.NewInstructionBuilder()
		(&parts{name: "instruction", alts: []int{0, 1}, fresh: func() { b = b.Create() },
			give: []func(int){func(k int) { b.WithValue(vs[k]) }, func(k int) { b.WithExecution(as[k]) }},
			now:  func() (interface{}, error) { return b.Now() },
			has: func(o interface{}, i, k int) bool {
				g := o.(programs.Instruction)
				if i == 0 {
					if k < 0 {
						return !g.IsValue()
					}
					return g.IsValue() && g.Value() == vs[k]
				}
				if k < 0 {
					return !g.IsExecution()
				}
				return g.IsExecution() && g.Execution() == as[k]
			}}).check()
	case 3:
		ns := ptUints("index")
		ms := [2]modules.Module{ptModule(0), ptModule(1)}
		var as [2]programs.Attachments
		for k := range as {
			a, err := programs.NewAttachmentsBuilder().Create().WithList([]programs.Attachment{ptProgAttachment(k)}).Now()
			must(err, "attachments")
			as[k] = a
		}
		b := programs.NewApplicationBuilder()
		(&parts{name: "application", need: []int{0, 1}, fresh: func() { b = b.Create() },
			give: []func(int){func(k int) { b.WithIndex(ns[k]) }, func(k int) { b.WithModule(ms[k]) },
				func(k int) { b.WithAttachments(as[k]) }},
			now: func() (interface{}, error) { return b.Now() },
			has: func(o interface{}, i, k int) bool {
				g := o.(programs.Application)
				switch i {
				case 0:
					return g.Index() == ns[k]
				case 1:
					return g.Module() == ms[k]
				}
				if k < 0 {
					return !g.HasAttachments()
				}
				return g.HasAttachments() && g.Attachments() == as[k]
			}}).check()
	case 4:
		vs, ls := [2]programs.Value{ptProgValue(0), ptProgValue(1)}, ptUints("local")
		b := programs.NewAttachmentBuilder()
		(&parts{name: "attachment", need: []int{0, 1}, fresh: func() { b = b.Create() },
			give: []func(int){func(k int) { b.WithValue(vs[k]) }, func(k int) { b.WithLocal(ls[k]) }},
			now:  func() (interface{}, error) { return b.Now() },
			has: func(o interface{}, i, k int) bool {
				g := o.(programs.Attachment)
				if i == 0 {
					return g.Value() == vs[k]
				}
				return g.Local() == ls[k]
			}}).check()
	case 5:
		is, cs := ptUints("input"), ptBytes("constant", 2)
		as := [2]programs.Application{ptProgApp(0), ptProgApp(1)}
		ps := [2]programs.Program{ptProgram(0), ptProgram(1)}
		b := programs.NewValueBuilder()
		(&parts{name: "value", alts: []int{0, 1, 2, 3}, fresh: func() { b = b.Create() },
			give: []func(int){func(k int) { b.WithInput(is[k]) }, func(k int) { b.WithConstant(cs[k]) },
				func(k int) { b.WithExecution(as[k]) }, func(k int) { b.WithProgram(ps[k]) }},
			now: func() (interface{}, error) { return b.Now() },
			has: func(o interface{}, i, k int) bool {
				g := o.(programs.Value)
				kinds := [4]bool{g.IsInput(), g.IsConstant(), g.IsExecution(), g.IsProgram()}
				if kinds[i] != (k >= 0) {
					return false
				}
				if k < 0 {
					return true
				}
				switch i {
				case 0:
					return *g.Input() == is[k]
				case 1:
					return sym.EqBytes(g.Constant(), cs[k])
				case 2:
					return g.Execution() == as[k]
				}
				return g.Program() == ps[k]
			}}).check()
	case 6:
		ns := ptUints("index")
		b := modules.NewModuleBuilder()
		(&parts{name: "module", need: []int{0, 1}, fresh: func() { b = b.Create() },
			give: []func(int){func(k int) { b.WithIndex(ns[k]) }, func(k int) { b.WithFunc(ptFunc(k)) }},
			now:  func() (interface{}, error) { return b.Now() },
			has: func(o interface{}, i, k int) bool {
				g := o.(modules.Module)
				if i == 0 {
					return g.Index() == ns[k]
				}
				got, err := g.Func()(nil)
				return err == nil && got.(int) == k
			}}).check()
	case 7:
		var ms [setSize]modules.Module
		for k := range ms {
			ms[k] = ptModule(k)
		}
		b := modules.NewBuilder()
		(&several{name: "modules", fresh: func() { b = b.Create() },
			give: func(from, n int) { b.WithList(append([]modules.Module{}, ms[from:from+n]...)) },
			now:  func() (interface{}, error) { return b.Now() },
			len:  func(o interface{}) int { return len(o.(modules.Modules).List()) },
			is: func(o interface{}, i, at int) bool {
				g := o.(modules.Modules)
				one, err := g.Fetch(uint(at))
				_, none := g.Fetch(uint(at + setSize))
				return g.List()[i] == ms[at] && err == nil && one == ms[at] && none != nil
			}}).check()
	case 8:
		var as [setSize]programs.Attachment
		for k := range as {
			as[k] = ptProgAttachment(k)
		}
		b := programs.NewAttachmentsBuilder()
		(&several{name: "attachments", fresh: func() { b = b.Create() },
			give: func(from, n int) { b.WithList(append([]programs.Attachment{}, as[from:from+n]...)) },
			now:  func() (interface{}, error) { return b.Now() },
			len:  func(o interface{}) int { return len(o.(programs.Attachments).List()) },
			is:   func(o interface{}, i, at int) bool { return o.(programs.Attachments).List()[i] == as[at] }}).check()
	case 9:
		var is [setSize]programs.Instruction
		for k := range is {
			is[k] = ptProgIns(k)
		}
		b := programs.NewInstructionsBuilder()
		(&several{name: "instructions", fresh: func() { b = b.Create() },
			give: func(from, n int) { b.WithList(append([]programs.Instruction{}, is[from:from+n]...)) },
			now:  func() (interface{}, error) { return b.Now() },
			len:  func(o interface{}) int { return len(o.(programs.Instructions).List()) },
			is:   func(o interface{}, i, at int) bool { return o.(programs.Instructions).List()[i] == is[at] }}).check()
	}
}

// --- queries

func ptQueryElement(k int) queries.Element {
	e, err := queries.NewElementBuilder().Create().WithName(ptNames[k]).WithIndex(uint(k)).Now()
	must(err, "element")
	return e
}

func ptQueryToken(k int) queries.Token {
	t, err := queries.NewTokenBuilder().Create().WithName(ptNames[k]).WithReverseName("reverse").WithElement(ptQueryElement(k)).Now()
	must(err, "token")
	return t
}

func ptSingleContent(k int) queries.SingleContentFn {
	return func(trees.Content) ([]interface{}, error) { return []interface{}{k}, nil }
}

func ptMultiContent(k int) queries.MultiContentFn {
	return func([]trees.Content) ([]interface{}, error) { return []interface{}{k}, nil }
}

func ptSingleQuery(k int) queries.SingleQueryFn {
	return func(interface{}) (interface{}, bool, error) { return k, true, nil }
}

func ptMultiQuery(k int) queries.MultiQueryFn {
	return func([]interface{}) (interface{}, bool, error) { return k, true, nil }
}

func ptContentFn(k int) queries.ContentFn {
	f, err := queries.NewContentFnBuilder().Create().WithSingle(ptSingleContent(k)).Now()
	must(err, "content func")
	return f
}

func ptQueryFn(k int) queries.QueryFn {
	f, err := queries.NewQueryFnBuilder().Create().WithSingle(ptSingleQuery(k)).Now()
	must(err, "query func")
	return f
}

func ptInside(k int) queries.Inside {
	i, err := queries.NewInsideBuilder().Create().WithFn(ptContentFn(k)).Now()
	must(err, "inside")
	return i
}

func ptQuery(k int) queries.Query {
	q, err := queries.NewBuilder().Create().WithToken(ptQueryToken(k)).WithInside(ptInside(k)).WithFn(ptQueryFn(k)).Now()
	must(err, "query")
	return q
}

func ptFetcher(k int) queries.Fetcher {
	f, err := queries.NewFetcherBuilder().Create().WithRecursive(ptNames[k]).Now()
	must(err, "fetcher")
	return f
}

// H_PartsQuery: the parts of queries
func H_PartsQuery() {
	switch sym.Choice("part", 8) {
	case 0:
		ts := [2]queries.Token{ptQueryToken(0), ptQueryToken(1)}
		is := [2]queries.Inside{ptInside(0), ptInside(1)}
		fs := [2]queries.QueryFn{ptQueryFn(0), ptQueryFn(1)}
		b := queries.NewBuilder()
		(&parts{name: "query", need: []int{0, 1, 2}, fresh: func() { b = b.Create() },
			give: []func(int){func(k int) { b.WithToken(ts[k]) }, func(k int) { b.WithInside(is[k]) },
				func(k int) { b.WithFn(fs[k]) }},
			now: func() (interface{}, error) { return b.Now() },
			has: func(o interface{}, i, k int) bool {
				g := o.(queries.Query)
				switch i {
				case 0:
					return g.Token() == ts[k]
				case 1:
					return g.Inside() == is[k]
				}
				return g.Fn() == fs[k]
			}}).check()
	case 1:
		b := queries.NewQueryFnBuilder()
		(&parts{name: "query func", alts: []int{0, 1}, fresh: func() { b = b.Create() },
			give: []func(int){func(k int) { b.WithSingle(ptSingleQuery(k)) }, func(k int) { b.WithMulti(ptMultiQuery(k)) }},
			now:  func() (interface{}, error) { return b.Now() },
			has: func(o interface{}, i, k int) bool {
				g := o.(queries.QueryFn)
				kinds := [2]bool{g.IsSingle(), g.IsMulti()}
				if kinds[i] != (k >= 0) {
					return false
				}
				if k < 0 {
					return true
				}
				if i == 0 {
					got, _, _ := g.Single()(nil)
					return got.(int) == k
				}
				got, _, _ := g.Multi()(nil)
				return got.(int) == k
			}}).check()
	case 2:
		es, cs := [2]queries.Element{ptQueryElement(0), ptQueryElement(1)}, ptUints("content")
		b := queries.NewTokenBuilder()
		(&parts{name: "token", need: []int{0, 1, 2}, fresh: func() { b = b.Create() },
			give: []func(int){func(k int) { b.WithName(ptNames[k]) }, func(k int) { b.WithReverseName(ptNames[k+2]) },
				func(k int) { b.WithElement(es[k]) }, func(k int) { b.WithContent(cs[k]) }},
			now: func() (interface{}, error) { return b.Now() },
			has: func(o interface{}, i, k int) bool {
				g := o.(queries.Token)
				switch i {
				case 0:
					return g.Name() == ptNames[k]
				case 1:
					return g.ReverseName() == ptNames[k+2]
				case 2:
					return g.Element() == es[k]
				}
				if k < 0 {
					return !g.HasContent()
				}
				return g.HasContent() && *g.Content() == cs[k]
			}}).check()
	case 3:
		ns := ptUints("index")
		b := queries.NewElementBuilder()
		(&parts{name: "element", need: []int{0, 1}, fresh: func() { b = b.Create() },
			give: []func(int){func(k int) { b.WithName(ptNames[k]) }, func(k int) { b.WithIndex(ns[k]) }},
			now:  func() (interface{}, error) { return b.Now() },
			has: func(o interface{}, i, k int) bool {
				g := o.(queries.Element)
				if i == 0 {
					return g.Name() == ptNames[k]
				}
				return g.Index() == ns[k]
			}}).check()
	case 4:
		cs := [2]queries.ContentFn{ptContentFn(0), ptContentFn(1)}
		var fs [2]queries.Fetchers
		for k := range fs {
			f, err := queries.NewFetchersBuilder().Create().WithList([]queries.Fetcher{ptFetcher(k)}).Now()
			must(err, "fetchers")
			fs[k] = f
		}
		b := queries.NewInsideBuilder()
		(&parts{name: "inside", alts: []int{0, 1}, fresh: func() { b = b.Create() },
			give: []func(int){func(k int) { b.WithFn(cs[k]) }, func(k int) { b.WithFetchers(fs[k]) }},
			now:  func() (interface{}, error) { return b.Now() },
			has: func(o interface{}, i, k int) bool {
				g := o.(queries.Inside)
				kinds := [2]bool{g.IsFn(), g.IsFetchers()}
				if kinds[i] != (k >= 0) {
					return false
				}
				if k < 0 {
					return true
				}
				if i == 0 {
					return g.Fn() == cs[k]
				}
				return g.Fetchers() == fs[k]
			}}).check()
	case 5:
		var fs [setSize]queries.Fetcher
		for k := range fs {
			fs[k] = ptFetcher(k)
		}
		b := queries.NewFetchersBuilder()
		(&several{name: "fetchers", fresh: func() { b = b.Create() },
			give: func(from, n int) { b.WithList(append([]queries.Fetcher{}, fs[from:from+n]...)) },
			now:  func() (interface{}, error) { return b.Now() },
			len:  func(o interface{}) int { return len(o.(queries.Fetchers).List()) },
			is:   func(o interface{}, i, at int) bool { return o.(queries.Fetchers).List()[i] == fs[at] }}).check()
	case 6:
		qs := [2]queries.Query{ptQuery(0), ptQuery(1)}
		b := queries.NewFetcherBuilder()
		(&parts{name: "fetcher", alts: []int{0, 1}, fresh: func() { b = b.Create() },
			give: []func(int){func(k int) { b.WithRecursive(ptNames[k]) }, func(k int) { b.WithQuery(qs[k]) }},
			now:  func() (interface{}, error) { return b.Now() },
			has: func(o interface{}, i, k int) bool {
				g := o.(queries.Fetcher)
				kinds := [2]bool{g.IsRecursive(), g.IsQuery()}
				if kinds[i] != (k >= 0) {
					return false
				}
				if k < 0 {
					return true
				}
				if i == 0 {
					return g.Recursive() == ptNames[k]
				}
				return g.Query() == qs[k]
			}}).check()
	case 7:
		b := queries.NewContentFnBuilder()
		(&parts{name: "content func", alts: []int{0, 1}, fresh: func() { b = b.Create() },
			give: []func(int){func(k int) { b.WithSingle(ptSingleContent(k)) }, func(k int) { b.WithMulti(ptMultiContent(k)) }},
			now:  func() (interface{}, error) { return b.Now() },
			has: func(o interface{}, i, k int) bool {
				g := o.(queries.ContentFn)
				kinds := [2]bool{g.IsSingle(), g.IsMulti()}
				if kinds[i] != (k >= 0) {
					return false
				}
				if k < 0 {
					return true
				}
				if i == 0 {
					got, _ := g.Single()(nil)
					return len(got) == 1 && got[0].(int) == k
				}
				got, _ := g.Multi()(nil)
				return len(got) == 1 && got[0].(int) == k
			}}).check()
	}
}
