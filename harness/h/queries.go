package h

import (
	"errors"

	"github.com/steve-care-software/rodkina/libs/asts/domain/trees"
	app "github.com/steve-care-software/rodkina/libs/queries/applications"
	"github.com/steve-care-software/rodkina/libs/queries/domain/queries"
	"github.com/steve-care-software/rodkina/verifh/sym"
)

// A query is described by a qQuery; from it the real query is built, and the reference
// evaluator below says what executing it on a reference tree must give.

type qInside int

const (
	qSingle qInside = iota // func on the first content
	qMulti                 // func on all contents
	qFetch                 // fetchers
)

type qFetcher struct {
	query     *qQuery
	recursive string
}

type qQuery struct {
	name, reverse string
	element       string
	index         uint
	content       int // < 0: every content
	inside        qInside
	fetchers      []qFetcher
	multi         bool // the query func receives every instance
	reject        byte // the query func refuses instances that contain the byte
	fail          byte // the query func fails on instances that contain the byte
	contentFail   byte // the content func fails on contents that contain the byte
	contentSkip   byte // the content func gives no instance of contents that contain the byte
	absent        byte // the funcs give nil for what contains the byte
}

// instances is what the content func gives
func (q *qQuery) instances(mark byte, contents [][]byte) ([][]byte, error) {
	out := [][]byte{}
	for _, one := range contents {
		if q.contentFail != 0 && has(one, q.contentFail) {
			return nil, errQuery
		}
		if q.contentSkip != 0 && has(one, q.contentSkip) {
			continue
		}
		if q.absent != 0 && has(one, q.absent) {
			out = append(out, []byte{'0'})
			continue
		}
		out = append(out, append([]byte{mark}, one...))
	}
	return out, nil
}

// qIns is an instance of the reference as the real one: 0 is nil
func qIns(one []byte) interface{} {
	if len(one) == 1 {
		return nil
	}
	return one
}

func qBytes(one interface{}) []byte {
	if one == nil {
		return []byte{'0'}
	}
	return one.([]byte)
}

func (q *qQuery) asInstances(mark byte, contents ...trees.Content) ([]interface{}, error) {
	all := [][]byte{}
	for _, one := range contents {
		all = append(all, one.Bytes(true))
	}
	list, err := q.instances(mark, all)
	if err != nil {
		return nil, err
	}
	out := []interface{}{}
	for _, one := range list {
		out = append(out, qIns(one))
	}
	return out, nil
}

func has(data []byte, b byte) bool {
	for _, one := range data {
		if one == b {
			return true
		}
	}
	return false
}

var errQuery = errors.New("the func of the query fails")

// fn is the func of the query
func (q *qQuery) apply(list [][]byte) ([]byte, bool, error) {
	out := []byte{'['}
	for _, one := range list {
		if q.fail != 0 && has(one, q.fail) {
			return nil, false, errQuery
		}
		if q.reject != 0 && has(one, q.reject) {
			return nil, false, nil
		}
		out = append(out, one...)
		out = append(out, '|')
	}
	if q.absent != 0 && has(out, q.absent) {
		return []byte{'0'}, true, nil
	}
	return append(out, ']'), true, nil
}

func (q *qQuery) build() queries.Query {
	el, err := queries.NewElementBuilder().Create().WithName(q.element).WithIndex(q.index).Now()
	must(err, "query element")
	tb := queries.NewTokenBuilder().Create().WithName(q.name).WithReverseName(q.reverse).WithElement(el)
	if q.content >= 0 {
		tb.WithContent(uint(q.content))
	}
	tok, err := tb.Now()
	must(err, "query token")
	ib := queries.NewInsideBuilder().Create()
	switch q.inside {
	case qFetch:
		list := []queries.Fetcher{}
		for _, one := range q.fetchers {
			fb := queries.NewFetcherBuilder().Create()
			if one.query != nil {
				fb.WithQuery(one.query.build())
			} else {
				fb.WithRecursive(one.recursive)
			}
			f, err := fb.Now()
			must(err, "fetcher")
			list = append(list, f)
		}
		fetchers, err := queries.NewFetchersBuilder().Create().WithList(list).Now()
		must(err, "fetchers")
		ib.WithFetchers(fetchers)
	default:
		cb := queries.NewContentFnBuilder().Create()
		if q.inside == qSingle {
			cb.WithSingle(func(content trees.Content) ([]interface{}, error) {
				return q.asInstances('1', content)
			})
		} else {
			cb.WithMulti(func(contents []trees.Content) ([]interface{}, error) {
				return q.asInstances('n', contents...)
			})
		}
		fn, err := cb.Now()
		must(err, "content func")
		ib.WithFn(fn)
	}
	inside, err := ib.Now()
	must(err, "inside")
	fb := queries.NewQueryFnBuilder().Create()
	result := func(out []byte, valid bool, err error) (interface{}, bool, error) {
		if err != nil || !valid {
			return nil, false, err
		}
		return qIns(out), true, nil
	}
	if q.multi {
		fb.WithMulti(func(instances []interface{}) (interface{}, bool, error) {
			list := [][]byte{}
			for _, one := range instances {
				list = append(list, qBytes(one))
			}
			return result(q.apply(list))
		})
	} else {
		fb.WithSingle(func(instance interface{}) (interface{}, bool, error) {
			return result(q.apply([][]byte{qBytes(instance)}))
		})
	}
	fn, err := fb.Now()
	must(err, "query func")
	out, err := queries.NewBuilder().Create().WithToken(tok).WithInside(inside).WithFn(fn).Now()
	must(err, "query")
	return out
}

// the reference evaluator

type qOutcome int

const (
	qInvalid qOutcome = iota
	qFound
	qError
)

// eval evaluates a query; scope holds the queries that enclose it
func (q *qQuery) eval(n *rNode, scope []*qQuery) ([]byte, qOutcome) {
	if q.name != n.name {
		return nil, qError
	}
	contents := []rContent{}
	seen := uint(0)
	for _, el := range n.els {
		if el.container >= 0 && el.name != q.element {
			continue
		}
		if el.container < 0 && q.element != q.reverse {
			continue
		}
		if seen == q.index {
			contents = el.contents
			if q.content >= len(contents) {
				return nil, qError
			}
			if q.content >= 0 {
				contents = contents[q.content : q.content+1]
			}
			break
		}
		seen++
	}
	scope = append(append([]*qQuery{}, scope...), q)
	list := [][]byte{}
	switch q.inside {
	case qSingle:
		if len(contents) == 0 {
			return nil, qError
		}
		got, err := q.instances('1', [][]byte{contents[0].text(true)})
		if err != nil {
			return nil, qError
		}
		list = got
	case qMulti:
		all := [][]byte{}
		for _, c := range contents {
			all = append(all, c.text(true))
		}
		got, err := q.instances('n', all)
		if err != nil {
			return nil, qError
		}
		list = got
	case qFetch:
		for _, c := range contents {
			if c.node == nil {
				continue
			}
			for _, f := range q.fetchers {
				target := f.query
				for i := len(scope) - 1; i >= 0 && target == nil; i-- {
					if scope[i].name == f.recursive {
						target = scope[i]
					}
				}
				if target == nil {
					return nil, qError
				}
				ins, what := target.eval(c.node, scope)
				if what == qError {
					return nil, qError
				}
				if what == qFound {
					list = append(list, ins)
				}
			}
		}
	}
	if len(list) == 0 {
		return nil, qInvalid
	}
	if !q.multi {
		list = list[:1]
	}
	out, valid, err := q.apply(list)
	if err != nil {
		return nil, qError
	}
	if !valid {
		return nil, qInvalid
	}
	return out, qFound
}

// checkQuery executes a query on what a grammar matches and compares with the reference
func checkQuery(q *qQuery, g *gGram, data []byte) {
	t := execute(g.build(), data)
	n := gMatch(g, data)
	if t == nil || n == nil {
		sym.Stop()
	}
	verifyQuery(q, t, n, data[n.end:])
}

// verifyQuery executes a query on a tree and compares with the reference
func verifyQuery(q *qQuery, t trees.Tree, n *rNode, rest []byte) {
	ins, valid, remaining, err := app.NewApplication().Execute(q.build(), t)
	want, what := q.eval(n, nil)
	sym.Assert((err != nil) == (what == qError), "a query fails exactly when it cannot be answered")
	if err != nil {
		sym.Reach("refused")
		return
	}
	sym.Assert(valid == (what == qFound), "a query is valid exactly when it selects something its func accepts")
	sym.Assert(sym.EqBytes(remaining, rest), "a query returns what the tree did not match")
	if !valid {
		sym.Reach("nothing")
		return
	}
	sym.Assert(sym.EqBytes(qBytes(ins), want), "a query returns what it selects, in order")
	sym.Reach("found")
}

func queryGrammar() *gGram {
	list := gTokOf("list", []gCon{gVal("open", '(', 1, 1), gRec("list", 0, -1), gVal("close", ')', 1, 1)}, []gCon{gVal("x", 'x', 1, 2)})
	root := gTokOf("root",
		[]gCon{gVal("a", 'a', 0, 1), gTokCon(list, 0, -1), gVal("a", 'b', 0, 2)},
	)
	return &gGram{root: root}
}

// H_QuerySelect: what a query selects
func H_QuerySelect() {
	data := astData("d", 5)
	names := []string{"a", "list", "unknown"}
	q := &qQuery{
		name: "root", reverse: "reverse",
		element: names[sym.Choice("element", len(names))],
		index:   uint(sym.Choice("index", 3)),
		content: sym.Choice("content", 4) - 1,
		inside:  qInside(sym.Choice("inside", 2)),
		multi:   sym.Bool("multi"),
	}
	if sym.Param("tokens", 0) == 1 && sym.Bool("other") {
		q.name = "list"
	}
	checkQuery(q, queryGrammar(), data)
}

// H_QueryFetchers: queries inside of queries
func H_QueryFetchers() {
	data := astData("d", 5)
	inner := &qQuery{name: "list", reverse: "reverse", element: "x", content: sym.Choice("content", 2) - 1, inside: qMulti, multi: sym.Bool("innerMulti")}
	if sym.Bool("single") {
		inner.inside = qSingle
	}
	open := &qQuery{name: "list", reverse: "reverse", element: []string{"open", "list"}[sym.Choice("second", 2)], content: -1, inside: qMulti}
	q := &qQuery{name: "root", reverse: "reverse", element: "list", content: -1, inside: qFetch, multi: true}
	switch sym.Choice("fetchers", 4) {
	case 0:
		q.fetchers = []qFetcher{{query: inner}}
	case 1:
		q.fetchers = []qFetcher{{query: inner}, {query: open}}
	case 2:
		q.fetchers = []qFetcher{{query: open}, {query: inner}}
	case 3:
		q.element = "a" // values only
		q.fetchers = []qFetcher{{query: inner}}
	}
	switch sym.Choice("func", 3) {
	case 1:
		open.reject = '('
	case 2:
		open.fail = '('
	}
	checkQuery(q, queryGrammar(), data)
}

// H_QueryRecursive: queries that call the query they are in
func H_QueryRecursive() {
	data := sym.Bytes("d", sym.Choice("len", sym.Param("data", 8)))
	for _, b := range data {
		sym.Assume(sym.Or(b == '(', sym.Or(b == ')', b == 'x')))
	}
	leaf := &qQuery{name: "list", reverse: "reverse", element: "x", content: -1, inside: qMulti, multi: true}
	nested := &qQuery{name: "list", reverse: "reverse", element: "list", content: -1, inside: qFetch, multi: true}
	after := []qFetcher{{query: leaf}}
	switch sym.Choice("fetchers", 6) {
	case 4:
		// a query that was executed before, but does not enclose the fetcher
		after = []qFetcher{{recursive: "list"}}
		nested.fetchers = []qFetcher{{query: leaf}}
	case 5:
		after = []qFetcher{{query: leaf}, {recursive: "list"}}
		nested.fetchers = []qFetcher{{recursive: "list"}, {recursive: "list"}}
	case 0:
		nested.fetchers = []qFetcher{{recursive: "list"}, {query: leaf}}
	case 1:
		nested.fetchers = []qFetcher{{query: leaf}, {recursive: "list"}}
	case 2:
		nested.fetchers = []qFetcher{{recursive: "unknown"}, {query: leaf}}
	case 3:
		nested.fetchers = []qFetcher{{query: leaf}, {recursive: "root"}}
	}
	q := &qQuery{name: "root", reverse: "reverse", element: "list", content: -1, inside: qFetch, multi: true, fetchers: append([]qFetcher{{query: nested}}, after...)}
	checkQuery(q, queryGrammar(), data)
}

// H_QueryEverything: queries on everything but a token
func H_QueryEverything() {
	data := astData("d", 4)
	end := gText("end", 'e')
	g := &gGram{root: gTokOf("root", []gCon{gVal("a", 'a', 0, 1), gEvery("rest", end, nil, 1, 1), gTokCon(end, 0, 1)})}
	reverse := []string{"reverse", "element"}[sym.Choice("reverse", 2)]
	inner := &qQuery{name: "end", reverse: reverse, element: "element", index: uint(sym.Choice("index", 2)), content: sym.Choice("content", 3) - 1, inside: qMulti, multi: true}
	q := &qQuery{name: "root", reverse: "reverse", element: "rest", content: -1, inside: qFetch, fetchers: []qFetcher{{query: inner}}}
	checkQuery(q, g, data)
}

func rep(what string, n int) string {
	out := ""
	for i := 0; i < n; i++ {
		out += what
	}
	return out
}

// H_QueryLong: larger trees, deeper and longer queries
func H_QueryLong() {
	n := sym.Param("size", 6)
	kind := sym.Param("kind", -1)
	if kind < 0 {
		kind = sym.Choice("kind", 7)
	}
	item := gTokOf("item", []gCon{gVal("x", 'x', 1, 2), gVal("y", 'y', 0, 1), gVal("x", 'z', 0, 2)})
	many := func(name string) *qQuery {
		return &qQuery{name: "item", reverse: "reverse", element: name, content: -1, inside: qMulti, multi: true}
	}
	switch kind {
	case 0: // far indexes of contents
		at := []int{0, 1, 7, 8, 254, 255, 256, 299, 300, 301, 302, 512}[sym.Choice("content", 12)]
		g := &gGram{root: gTokOf("root", []gCon{gTokCon(item, 1, -1), gVal("b", 'b', 0, 1)})}
		q := &qQuery{name: "root", reverse: "reverse", element: "item", content: at, inside: qInside(sym.Choice("inside", 2)), multi: true}
		if sym.Bool("fetched") {
			q.inside = qFetch
			q.fetchers = []qFetcher{{query: many("x")}, {query: many("y")}}
		}
		data := append([]byte(rep("x", 8)), 'x', sym.Byte("d")) // 5 items, with x; 6 and then nothing, or ended
		data = append(data, rep("x", 591)...)
		checkQuery(q, g, append(data, 'b', 'c', 'd'))
	case 1: // far indexes of elements
		line := []gCon{}
		for i := 0; i < 12; i++ {
			line = append(line, gVal("p"+itoa(i%2), byte('a'+i), 0, 2), gTokCon(item, 0, 1))
		}
		data := []byte{}
		for i := 0; i < 12; i++ {
			data = append(data, byte('a'+i))
			if i%3 == 0 {
				data = append(data, 'x')
			}
			if i == 6 {
				data = append(data, sym.Byte("d"))
			}
		}
		q := &qQuery{name: "root", reverse: "reverse", element: []string{"p0", "p1", "item"}[sym.Choice("element", 3)], index: uint(sym.Choice("index", 8)), content: sym.Choice("content", 3) - 1, inside: qMulti, multi: true}
		if q.element == "item" {
			q.inside = qFetch
			q.fetchers = []qFetcher{{query: many([]string{"x", "y"}[sym.Choice("fetched", 2)])}}
		}
		checkQuery(q, &gGram{root: gTokOf("root", line)}, data)
	case 2: // many fetchers, of which some refuse or fail
		g := &gGram{root: gTokOf("root", []gCon{gTokCon(item, 1, -1)})}
		q := &qQuery{name: "root", reverse: "reverse", element: "item", content: -1, inside: qFetch, multi: sym.Bool("multi")}
		for i := 0; i < n; i++ {
			one := many([]string{"x", "y", "absent"}[i%3])
			one.index = uint(i / 3)
			switch sym.Choice("fetcher", 3) {
			case 1:
				one.reject = 'y'
			case 2:
				one.fail = 'z'
			}
			q.fetchers = append(q.fetchers, qFetcher{query: one})
		}
		data := sym.Bytes("d", 3)
		for _, b := range data {
			sym.Assume(sym.Or(b == 'x', sym.Or(b == 'y', b == 'z')))
		}
		checkQuery(q, g, append([]byte("xyxx"), data...))
	case 3: // deep recursion
		list := gTokOf("list", []gCon{gVal("open", '(', 1, 1), gRec("list", 0, -1), gVal("close", ')', 1, 1)}, []gCon{gVal("x", 'x', 1, 2)})
		nested := &qQuery{name: "list", reverse: "reverse", element: "list", content: -1, inside: qFetch, multi: true}
		leaf := &qQuery{name: "list", reverse: "reverse", element: "x", content: -1, inside: qMulti, multi: true}
		other := &qQuery{name: "list", reverse: "reverse", element: "list", index: 0, content: 0, inside: qFetch, fetchers: []qFetcher{{query: leaf}, {recursive: "list"}}}
		nested.fetchers = []qFetcher{{query: leaf}, {recursive: "list"}}
		switch sym.Choice("other", 4) {
		case 1:
			nested.fetchers = []qFetcher{{query: other}, {recursive: "list"}, {query: leaf}}
		case 2:
			nested.fetchers = []qFetcher{{recursive: "list"}, {query: other}}
		case 3:
			nested.fetchers = []qFetcher{{query: leaf}, {recursive: "list"}}
			if sym.Bool("fails") {
				leaf.fail = 'q'
			}
		}
		depth := 1 + sym.Choice("depth", n)
		data := rep("(", depth) + "x" + rep("(xx)", sym.Choice("wide", 3)) + rep(")", depth)
		q := &qQuery{name: "root", reverse: "reverse", element: "list", content: -1, inside: qFetch, multi: true, fetchers: []qFetcher{{query: nested}, {query: leaf}}}
		checkQuery(q, &gGram{root: gTokOf("root", []gCon{gTokCon(list, 1, -1)})}, append([]byte(data), 'x', sym.Byte("rest")))
	case 4: // contents with channels around them
		g := &gGram{root: gTokOf("root", []gCon{gTokCon(item, 1, -1)}), channels: []gChan{{tok: gText("space", ' ')}}}
		q := &qQuery{name: "root", reverse: "reverse", element: "item", content: sym.Choice("content", 6) - 1, inside: qMulti, multi: sym.Bool("multi")}
		if sym.Bool("fetched") {
			q.inside = qFetch
			q.fetchers = []qFetcher{{query: many("x")}, {query: many("y")}}
		}
		data := sym.Bytes("d", n)
		for _, b := range data {
			sym.Assume(sym.Or(b == 'x', sym.Or(b == 'y', b == ' ')))
		}
		checkQuery(q, g, append([]byte{'x'}, data...))
	case 6: // content funcs that fail or give nothing
		g := &gGram{root: gTokOf("root", []gCon{gTokCon(item, 1, -1), gVal("b", 'b', 0, 2)})}
		inner := many("x")
		inner.inside = qInside(sym.Choice("inside", 2))
		inner.multi = sym.Bool("innerMulti")
		switch sym.Choice("func", 3) {
		case 1:
			inner.contentFail = 'z'
		case 2:
			inner.contentSkip = 'z'
		}
		inner.element = "x"
		inner.index = uint(sym.Choice("index", 2))
		q := &qQuery{name: "root", reverse: "reverse", element: []string{"item", "b"}[sym.Choice("element", 2)], content: -1, inside: qFetch, multi: sym.Bool("multi"), fetchers: []qFetcher{{query: inner}}}
		if sym.Bool("direct") {
			q.inside, q.contentFail, q.contentSkip = qInside(sym.Choice("outer", 2)), inner.contentFail, inner.contentSkip
		}
		checkQuery(q, g, append([]byte("xzxyz"), sym.Bytes("d", 2)...))
	case 5: // queries in queries in queries, through different tokens
		c := gTokOf("c", []gCon{gVal("x", 'x', 1, 2)})
		b := gTokOf("b", []gCon{gTokCon(c, 1, 2), gVal("y", 'y', 1, 1)})
		a := gTokOf("a", []gCon{gTokCon(b, 1, 2), gVal("z", 'z', 1, 1)})
		g := &gGram{root: gTokOf("root", []gCon{gTokCon(a, 1, 3)})}
		level := func(name string, element string, content int, f ...qFetcher) *qQuery {
			q := &qQuery{name: name, reverse: "reverse", element: element, content: content, inside: qMulti, multi: true, fetchers: f}
			if len(f) > 0 {
				q.inside = qFetch
			}
			return q
		}
		pick := func(what string) int { return sym.Choice(what, 3) - 1 }
		qc := level("c", "x", pick("c"))
		qb := level("b", "c", pick("b"), qFetcher{query: qc})
		qa := level("a", "b", pick("a"), qFetcher{query: qb})
		other := level("a", "z", -1)
		f := []qFetcher{{query: qa}, {query: other}}
		if sym.Bool("swap") {
			f[0], f[1] = f[1], f[0]
		}
		texts := []string{"xyz", "xxxyxyz", "xyxxyzxyz", "xxxyzxyxyz"}
		q := level("root", "a", -1, f...)
		checkQuery(q, g, []byte(texts[sym.Choice("text", len(texts))]+"xy"))
	}
}
