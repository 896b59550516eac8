QA = "libs/queries/applications/application.go"
QP = "libs/queries/applications"
IA = "libs/interpreters/applications/application.go"
IP = "libs/interpreters/applications"
def q(id, prop, edits, demo, needs, breaks, file=QA, imports=()):
    return dict(id=id, prop=prop, edits=[(file,) + e if len(e) == 2 else e for e in edits], pkg=QP, help=["ast", "query"], demo=demo, needs=needs, breaks=breaks, imports=list(imports))
def i(id, prop, edits, demo, needs, breaks, file=IA, imports=()):
    return dict(id=id, prop=prop, edits=[(file,) + e if len(e) == 2 else e for e in edits], pkg=IP, help=["interp"], demo=demo, needs=needs, breaks=breaks, imports=list(imports))
BUGS = [
q("query_index_any_name", "Q01", [('''		if oneElement.Grammar().Name() != queryElement.Name() {
			continue
		}
''', '''		if oneElement.Grammar().Name() != queryElement.Name() {
			if queryElement.Index() > 1 {
				cpt++
			}

			continue
		}
''')], '''
func TestDemo(t *testing.T) {
	line := []gCon{gVal("a", 'a', 1, 1), gVal("x", 'x', 1, 1), gVal("a", 'b', 1, 1), gVal("a", 'c', 1, 1)}
	tree := run(&gGram{root: gTokOf("root", line)}, "axbc")
	q := &qQuery{name: "root", reverse: "r", element: "a", content: -1, inside: qMulti, multi: true, index: 2}
	if got, ok, err := ask(q, tree); err != nil || !ok || got != "[nc|]" {
		t.Fatalf("the third a was expected: %q %v %v", got, ok, err)
	}
}''', "an element index of 2 or more with other elements between those of that name", "elements of other names are counted for larger element indexes"),
q("query_content_far", "Q01", [('''	pIndex := token.Content()
	list := contents.List()
	listLength := uint(len(list))
	if listLength <= *pIndex {''', '''	pIndex := token.Content()
	list := contents.List()
	listLength := uint(len(list))
	if listLength == *pIndex && listLength > 1 {
		return list[listLength-1:], nil
	}

	if listLength <= *pIndex {''')], '''
func TestDemo(t *testing.T) {
	tree := run(&gGram{root: gTokOf("root", []gCon{gVal("a", 'a', 1, -1)})}, "aaa")
	q := &qQuery{name: "root", reverse: "r", element: "a", content: 3, inside: qMulti, multi: true}
	if _, _, err := ask(q, tree); err == nil {
		t.Fatal("there is no fourth content")
	}
}''', "a content index that is exactly the amount of contents, of at least two", "the last content is given instead of an error"),
q("query_invalid_row", "Q02", [('''				query := oneFetcher.Query()
				ins, isValid, err := app.queryFetch(query, tree, previous)
				if err != nil {
					return nil, err
				}

				if !isValid {
					continue
				}
''', '''				query := oneFetcher.Query()
				ins, isValid, err := app.queryFetch(query, tree, previous)
				if err != nil {
					return nil, err
				}

				if !isValid {
					break
				}
''')], '''
func TestDemo(t *testing.T) {
	item := gTokOf("item", []gCon{gVal("x", 'x', 0, 1), gVal("y", 'y', 1, 1)})
	tree := run(&gGram{root: gTokOf("root", []gCon{gTokCon(item, 1, -1)})}, "yxy")
	x := &qQuery{name: "item", reverse: "r", element: "x", content: -1, inside: qMulti, multi: true}
	y := &qQuery{name: "item", reverse: "r", element: "y", content: -1, inside: qMulti, multi: true}
	q := &qQuery{name: "root", reverse: "r", element: "item", content: -1, inside: qFetch, multi: true, fetchers: []qFetcher{{query: x}, {query: y}}}
	if got, _, err := ask(q, tree); err != nil || got != "[[ny|]|[nx|]|[ny|]|]" {
		t.Fatalf("the three instances were expected: %q %v", got, err)
	}
}''', "several fetchers of which an earlier one selects nothing on a content", "the fetchers after an invalid one are not executed on that content"),
q("query_recursive_invalid", "Q03", [('''				ins, isValid, err := app.queryFetch(query, tree, previous)
				if err != nil {
					return nil, err
				}

				if !isValid {
					continue
				}

				row = append(row, ins)
				continue
			}

			str :=''', '''				ins, isValid, err := app.queryFetch(query, tree, previous)
				if err != nil {
					return nil, err
				}

				if !isValid {
					return output, nil
				}

				row = append(row, ins)
				continue
			}

			str :=''')], '''
func TestDemo(t *testing.T) {
	list := gTokOf("list", []gCon{gVal("open", '(', 1, 1), gRec("list", 0, -1), gVal("close", ')', 1, 1)}, []gCon{gVal("x", 'x', 1, 1)})
	tree := run(&gGram{root: gTokOf("root", []gCon{gTokCon(list, 1, 1)})}, "(()(x))")
	leaf := &qQuery{name: "list", reverse: "r", element: "x", content: -1, inside: qMulti, multi: true}
	nested := &qQuery{name: "list", reverse: "r", element: "list", content: -1, inside: qFetch, multi: true, fetchers: []qFetcher{{recursive: "list"}, {query: leaf}}}
	q := &qQuery{name: "root", reverse: "r", element: "list", content: -1, inside: qFetch, multi: true, fetchers: []qFetcher{{query: nested}}}
	if got, ok, err := ask(q, tree); err != nil || !ok || got != "[[[[nx|]|]|]|]" {
		t.Fatalf("the nested x was expected: %q %v %v", got, ok, err)
	}
}''', "a recursion that finds nothing in one list before another list", "what follows a list without instances is lost"),
q("query_fn_error", "Q02", [('''	if err != nil {
		return nil, false, err
	}

	if len(insList) <= 0 {
		return nil, false, nil
	}
''', '''	if err != nil && len(insList) <= 0 {
		return nil, false, err
	}

	if len(insList) <= 0 {
		return nil, false, nil
	}
'''), ('''				query := oneFetcher.Query()
				ins, isValid, err := app.queryFetch(query, tree, previous)
				if err != nil {
					return nil, err
				}
''', '''				query := oneFetcher.Query()
				ins, isValid, err := app.queryFetch(query, tree, previous)
				if err != nil {
					return output, err
				}
''')], '''
func TestDemo(t *testing.T) {
	item := gTokOf("item", []gCon{gVal("x", 'x', 1, 1)}, []gCon{gVal("x", 'y', 1, 1)})
	tree := run(&gGram{root: gTokOf("root", []gCon{gTokCon(item, 1, -1)})}, "xy")
	x := &qQuery{name: "item", reverse: "r", element: "x", content: -1, inside: qMulti, multi: true, fail: 'y'}
	q := &qQuery{name: "root", reverse: "r", element: "item", content: -1, inside: qFetch, multi: true, fetchers: []qFetcher{{query: x}}}
	if got, _, err := ask(q, tree); err == nil {
		t.Fatalf("the error of the nested func was expected: %q", got)
	}
}''', "a nested query that fails on a content after another content gave an instance", "the error of a nested query is dropped when there are instances already"),
i("interp_input_position", "I02", [('''		if !oneParameter.parameter.IsInput() {
			continue
		}
''', '''		if !oneParameter.parameter.IsInput() && len(inParameters) < 3 {
			continue
		}
''')], '''
func TestDemo(t *testing.T) {
	list := []pIns{{kind: pOutput, name: "o"}, {kind: pOutput, name: "p"}, {kind: pInput, name: "a"}, {kind: pInput, name: "b"}, {kind: pAssign, name: "o", value: pVariable, from: "b"}}
	if got := play(list, []byte("x"), []byte("y")); got != "[<y>]" {
		t.Fatalf("the second input was expected: %s", got)
	}
}''', "an input declared after at least three parameters, one of which is an output", "the position of an input counts outputs"),
i("interp_output_redeclared", "I02", [('''			if !param.parameter.IsInput() {
				outOutput = append(outOutput, uint(len(inInstructions)))
			}''', '''			if !param.parameter.IsInput() {
				if len(outOutput) > 1 && valueIns.IsConstant() {
					outOutput = outOutput[:len(outOutput)-1]
				}

				outOutput = append(outOutput, uint(len(inInstructions)))
			}''')], '''
func TestDemo(t *testing.T) {
	list := []pIns{{kind: pOutput, name: "o"}}
	for _, c := range []string{"1", "2", "3"} {
		list = append(list, pIns{kind: pAssign, name: "o", value: pConstant, bytes: []byte(c)})
	}
	if got := play(list); got != "[<1><2><3>]" {
		t.Fatalf("one value per assignment was expected: %s", got)
	}
}''', "a third output that is a constant", "a constant replaces the output before it"),
i("interp_attachment_shared", "I03", [('''		index := appIns.Index()
		module := appIns.Module()
		updatedAppIns, err''', '''		index := appIns.Index()
		module := appIns.Module()
		if len(attachmentsList) > 2 {
			// the first attachments of a target are kept
			for _, one := range attachmentsList[:len(attachmentsList)-1] {
				if one.Local() == target {
					return inApplications, nil
				}
			}
		}

		updatedAppIns, err''')], '''
func TestDemo(t *testing.T) {
	list := []pIns{{kind: pModule, name: "m", index: 0}, {kind: pApplication, name: "a", module: "m"}, {kind: pInput, name: "i"}, {kind: pInput, name: "j"}, {kind: pOutput, name: "o"},
		{kind: pAttach, name: "i", app: "a", target: 0}, {kind: pAttach, name: "i", app: "a", target: 1}, {kind: pAttach, name: "j", app: "a", target: 0}, {kind: pAssign, name: "o", value: pExecution, from: "a"}}
	if got := play(list, []byte("x"), []byte("y")); got != "[<A0<y>1<x>>]" {
		t.Fatalf("the later attachment was expected: %s", got)
	}
}''', "a target that is attached again after at least one other attachment", "a later attachment does not replace the earlier one"),
i("interp_attachment_input_first", "I03", [('''	if currentIns, ok := inValues[currentNameStr]; ok {
		return currentIns, nil
	}
''', '''	if currentIns, ok := inValues[currentNameStr]; ok {
		if param, ok := inParameters[currentNameStr]; ok && param.parameter.IsInput() {
			return app.valueBuilder.Create().WithInput(param.inputParameterIndex).Now()
		}

		return currentIns, nil
	}
''')], '''
func TestDemo(t *testing.T) {
	list := []pIns{{kind: pModule, name: "m", index: 0}, {kind: pApplication, name: "a", module: "m"}, {kind: pInput, name: "i"}, {kind: pOutput, name: "o"},
		{kind: pAssign, name: "i", value: pConstant, bytes: []byte("c")}, {kind: pAttach, name: "i", app: "a", target: 0}, {kind: pAssign, name: "o", value: pExecution, from: "a"}}
	if got := play(list, []byte("x")); got != "[<A0<c>>]" {
		t.Fatalf("the assigned value was expected: %s", got)
	}
}''', "an assignment to the name of an input before it is attached", "the input is attached instead of the assigned value"),
i("interp_unknown_app", "I01", [('''	if _, ok := inApplications[executionNameStr]; !ok {
		str :=''', '''	if _, ok := inApplications[executionNameStr]; !ok {
		if len(inInstructions) > 0 && len(inApplications) <= 0 {
			return inInstructions, nil
		}

		str :=''')], '''
func TestDemo(t *testing.T) {
	list := []pIns{{kind: pOutput, name: "o"}, {kind: pAssign, name: "o", value: pConstant, bytes: []byte("1")}, {kind: pExecute, name: "a"}}
	if got := play(list); got != "refused" {
		t.Fatalf("the application is undeclared: %s", got)
	}
}''', "an execution of an undeclared application after another instruction in a program without applications", "executing an undeclared application is ignored"),
i("interp_module_redeclared", "I01", [('''	if _, ok := loadedModules[moduleNameStr]; ok {''', '''	if loaded, ok := loadedModules[moduleNameStr]; ok && loaded.Index() != index {''')], '''
func TestDemo(t *testing.T) {
	list := []pIns{{kind: pModule, name: "m", index: 1}, {kind: pModule, name: "m", index: 1}, {kind: pOutput, name: "o"}, {kind: pAssign, name: "o", value: pConstant, bytes: []byte("1")}}
	if got := play(list); got != "refused" {
		t.Fatalf("the module is declared twice: %s", got)
	}
}''', "a module declared twice with the same index", "the same module may be declared again"),
i("interp_sub_inputs", "I02", [('''		subProgramOutput, err := app.Execute(input, subProgram)
		if err != nil {''', '''		subProgramOutput, err := app.Execute(input, subProgram)
		if err == nil && len(subProgramOutput) == 1 && len(subProgram.Instructions().List()) > 2 {
			return subProgramOutput[0], nil
		}

		if err != nil {''')], '''
func TestDemo(t *testing.T) {
	con := func(name string) pIns { return pIns{kind: pAssign, name: name, value: pConstant, bytes: []byte("1")} }
	sub := []pIns{{kind: pOutput, name: "o"}, con("v"), con("w"), con("o")}
	list := []pIns{{kind: pOutput, name: "o"}, {kind: pAssign, name: "o", value: pProgram, sub: sub}}
	if got := play(list); got != "[[<1>]]" {
		t.Fatalf("the list of the outputs was expected: %s", got)
	}
}''', "a program with one output and at least three instructions inside of another", "the value of a program is its single output instead of the list"),
]
