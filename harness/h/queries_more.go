package h

import (
	"github.com/steve-care-software/rodkina/libs/asts/domain/grammars"
	"github.com/steve-care-software/rodkina/libs/asts/domain/trees"
	app "github.com/steve-care-software/rodkina/libs/queries/applications"
	"github.com/steve-care-software/rodkina/verifh/sym"
)

// H_QueryAssembled: queries on trees that are assembled, with elements of any kind in any order
func H_QueryAssembled() {
	grammar := gTokOf("root", []gCon{gVal("a", 'a', 0, -1), gVal("A", 'b', 0, -1)}).build()
	line := grammar.Block().Lines()[0]
	n := &rNode{name: "root"}
	elements := []trees.Element{}
	for i, amount := 0, 1+sym.Choice("elements", sym.Param("elements", 3)); i < amount; i++ {
		el := rEl{container: sym.Choice("container"+itoa(i), 3) - 1}
		var container grammars.Container
		if el.container >= 0 {
			container = line.Containers()[el.container]
			el.name = container.Name()
		}
		contents := []trees.Content{}
		for k := 0; k < 1+(i+1)%2; k++ {
			v := sym.Byte("v" + itoa(i) + itoa(k))
			contents = append(contents, tpContent(v))
			el.contents = append(el.contents, rContent{val: v})
		}
		elements = append(elements, tpElementOf(container, contents))
		n.els = append(n.els, el)
	}
	lines := []trees.Line{tpLine(0, line, nil, false), tpLine(1, line, elements, true), tpLine(2, line, elements[:1], true)}
	rest := []byte(nil)
	if amount := len(elements); amount%2 == 1 {
		rest = []byte{sym.Byte("r")}
	}
	q := &qQuery{
		name: "root", reverse: "reverse",
		element: []string{"a", "reverse", "A"}[sym.Choice("element", 3)],
		index:   uint(sym.Choice("index", 3)),
		content: sym.Choice("content", 3) - 1,
		inside:  qMulti,
		multi:   true,
	}
	if len(elements) == 1 && sym.Bool("empty") {
		// a tree without a successful line cannot be answered
		_, _, _, err := app.NewApplication().Execute(q.build(), tpTree(grammar, lines[:1], nil, rest))
		sym.Assert(err != nil, "a query on a tree that did not match fails")
		return
	}
	verifyQuery(q, tpTree(grammar, lines, nil, rest), n, rest)
}

// H_QueryChain: a recursive fetcher inside of queries of several different tokens
func H_QueryChain() {
	n := sym.Param("exact", 0)
	if n == 0 {
		n = 2 + sym.Choice("tokens", sym.Param("tokens", 6)-1)
	}
	name := func(i int) string { return "t" + itoa(i) }
	again := 0
	if exact := sym.Param("exact", 0); exact > 0 {
		again = sym.Choice("again", 3) * (n - 1) / 2
	} else {
		again = sym.Choice("again", n)
	}
	// t0: a t1+ | x,  t1: b t2+ | x,  …,  and the last one contains one of them again
	var tok *gTok
	for i := n - 1; i >= 0; i-- {
		inner := gRec(name(again), 1, -1)
		if i < n-1 {
			inner = gTokCon(tok, 1, -1)
		}
		tok = gTokOf(name(i), []gCon{gVal("p", byte('A'+i), 1, 1), inner, gVal("q", 'q', 0, 1)}, []gCon{gVal("x", 'x', 1, 2)})
	}
	target := name(again)
	if other := sym.Choice("other", 4); other > 0 {
		target = []string{name((again + 1) % n), "root", "unknown"}[other-1]
	}
	leaf := func(i int) *qQuery {
		return &qQuery{name: name(i), reverse: "reverse", element: "x", content: -1, inside: qMulti, multi: true}
	}
	var q *qQuery
	for i := n - 1; i >= 0; i-- {
		element := name(again)
		fetchers := []qFetcher{{query: leaf(again)}, {recursive: target}}
		if i < n-1 {
			element = name(i + 1)
			fetchers = []qFetcher{{query: leaf(i + 1)}, {query: q}}
		}
		q = &qQuery{name: name(i), reverse: "reverse", element: element, content: -1, inside: qFetch, multi: true, fetchers: fetchers}
	}
	q = &qQuery{name: "root", reverse: "reverse", element: name(0), content: -1, inside: qFetch, multi: true, fetchers: []qFetcher{{query: q}, {query: leaf(0)}}}
	data := []byte{}
	from := 0
	for round := sym.Choice("rounds", 3); round >= 0; round-- {
		to := n
		if round == 0 {
			to = n - sym.Choice("short", 2)
		}
		for i := from; i < to; i++ {
			data = append(data, byte('A'+i))
		}
		from = again
	}
	data = append(data, 'x', sym.Byte("d"), 'x')
	checkQuery(q, &gGram{root: gTokOf("root", []gCon{gTokCon(tok, 1, -1)})}, data)
}

// H_QueryNil: funcs that give nil
func H_QueryNil() {
	item := gTokOf("item", []gCon{gVal("x", 'x', 1, 2), gVal("y", 'y', 0, 1)})
	g := &gGram{root: gTokOf("root", []gCon{gTokCon(item, 1, -1)})}
	inner := func(element string) *qQuery {
		q := &qQuery{name: "item", reverse: "reverse", element: element, content: -1, inside: qMulti, multi: sym.Bool("innerMulti")}
		switch sym.Choice("inner", 4) {
		case 1:
			q.absent = 'x' // the instances of contents
		case 2:
			q.reject = 'x'
		case 3:
			q.absent = 'n' // the instance of the query
		}
		return q
	}
	q := &qQuery{name: "root", reverse: "reverse", element: "item", content: -1, inside: qFetch, multi: sym.Bool("multi")}
	if sym.Bool("absent") {
		q.absent = 'y'
	}
	if sym.Bool("direct") {
		q.inside = qInside(sym.Choice("inside", 2))
	} else {
		q.fetchers = []qFetcher{{query: inner("x")}, {query: inner("y")}}
	}
	data := sym.Bytes("d", sym.Param("data", 4))
	for _, b := range data {
		sym.Assume(sym.Or(b == 'x', b == 'y'))
	}
	checkQuery(q, g, append([]byte{'x'}, data...))
}

// H_QueryMany: many fetchers on many contents, of which one refuses or fails
func H_QueryMany() {
	contents, fetchers := sym.Param("contents", 40), sym.Param("fetchers", 20)
	item := gTokOf("item", []gCon{gVal("p", 'p', 1, 1), gVal("x", 'x', 0, -1)})
	g := &gGram{root: gTokOf("root", []gCon{gTokCon(item, 1, -1)})}
	q := &qQuery{name: "root", reverse: "reverse", element: "item", content: -1, inside: qFetch, multi: sym.Choice("multi", 3) > 0}
	at := sym.Choice("at", 3) * (fetchers - 1) / 2
	for i := 0; i < fetchers; i++ {
		one := &qQuery{name: "item", reverse: "reverse", element: []string{"p", "x"}[i%2], content: -1, inside: qMulti, multi: true}
		if i == at {
			kind := sym.Choice("func", 4)
			if kind > 0 {
				one.element = "x"
			}
			switch kind {
			case 1:
				one.fail = 'x'
			case 2:
				one.reject = 'x'
			case 3:
				one.content = 3
			}
		}
		q.fetchers = append(q.fetchers, qFetcher{query: one})
	}
	data := []byte{}
	far := sym.Choice("far", 3) * (contents - 1) / 2
	for i := 0; i < contents; i++ {
		data = append(data, 'p')
		if i >= far {
			data = append(data, []byte(rep("x", 1+sym.Choice("amount"+itoa(i%2), 2)*4))...)
			far = contents
		}
	}
	checkQuery(q, g, data)
}
