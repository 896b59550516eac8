package h

import (
	app "github.com/steve-care-software/rodkina/libs/interpreters/applications"
	"github.com/steve-care-software/rodkina/libs/interpreters/domain/programs/modules"
	"github.com/steve-care-software/rodkina/verifh/sym"
)

// pModules builds modules of any indexes, in that order
func pModules(indexes []uint, fn func(k int, in map[uint]interface{}) (interface{}, error)) modules.Modules {
	list := []modules.Module{}
	for i, index := range indexes {
		k := i
		m, err := modules.NewModuleBuilder().Create().WithIndex(index).WithFunc(func(in map[uint]interface{}) (interface{}, error) {
			return fn(k, in)
		}).Now()
		must(err, "module")
		list = append(list, m)
	}
	all, err := modules.NewBuilder().Create().WithList(list).Now()
	must(err, "modules")
	return all
}

// H_InterpTargets: values that are attached at any targets
func H_InterpTargets() {
	n := sym.Param("size", 2)
	targets := []uint{}
	list := []pIns{{kind: pModule, name: "m", index: 0}, {kind: pApplication, name: "a", module: "m"}, {kind: pOutput, name: "o"}}
	for i := 0; i < n; i++ {
		targets = append(targets, sym.Uint("target"))
		list = append(list, pIns{kind: pAssign, name: "v", value: pConstant, bytes: []byte{byte('0' + i)}}, pAttached("v", "a", targets[i]))
	}
	list = append(list, pExecAs("o", "a"))
	all := pModules([]uint{0}, func(k int, in map[uint]interface{}) (interface{}, error) {
		amount := 0
		for i, one := range targets {
			last := true
			want := i
			for j := i + 1; j < n; j++ {
				if targets[j] == one {
					last, want = false, j
				}
			}
			if last {
				amount++
			}
			got, ok := in[one]
			sym.Assert(ok, "an attached value is received at its target")
			sym.Assert(sym.EqBytes(flat(got), flat([]byte{byte('0' + want)})), "the value attached last at a target is received")
		}
		sym.Assert(len(in) == amount, "nothing else is received")
		return []byte{'m'}, nil
	})
	real := app.NewApplication(pFold)
	program, err := real.Compile(all, buildInstructions(list))
	must(err, "the program compiles")
	out, err := real.Execute([]interface{}{}, program)
	must(err, "the program executes")
	sym.Assert(len(out) == 1 && string(flat(out)) == "[<m>]", "the program returns the value of its output")
	sym.Reach("executed")
}

// H_InterpIndex: modules of any indexes, in any order
func H_InterpIndex() {
	indexes := []uint{}
	for i := 0; i < sym.Param("size", 3); i++ {
		index := sym.Uint("index")
		for _, one := range indexes {
			sym.Assume(one != index)
		}
		indexes = append(indexes, index)
	}
	all := pModules(indexes, func(k int, in map[uint]interface{}) (interface{}, error) {
		return []byte{byte('A' + k)}, nil
	})
	want := []int{}
	list := []pIns{{kind: pOutput, name: "o"}}
	for i := 0; i < 2; i++ {
		used := sym.Uint("used")
		found := -1
		for k, one := range indexes {
			if one == used {
				found = k
			}
		}
		want = append(want, found)
		list = append(list, pIns{kind: pModule, name: "m" + itoa(i), index: used}, pIns{kind: pApplication, name: "a" + itoa(i), module: "m" + itoa(i)})
	}
	list = append(list, pExecAs("o", "a0"), pExecAs("o", "a1"))
	real := app.NewApplication(pFold)
	program, err := real.Compile(all, buildInstructions(list))
	sym.Assert((err == nil) == (want[0] >= 0 && want[1] >= 0), "a module is loaded exactly when its index is known")
	if err != nil {
		sym.Reach("refused")
		return
	}
	out, err := real.Execute([]interface{}{}, program)
	must(err, "the program executes")
	sym.Assert(sym.EqBytes(flat(out), flat([]interface{}{[]byte{byte('A' + want[0])}, []byte{byte('A' + want[1])}})), "an application executes the module of its index")
	sym.Reach("executed")
}

// H_InterpCalls: every execution calls the module of its application, in order; the modules count
// their calls
func H_InterpCalls() {
	calls := []byte{}
	fails := sym.Choice("fails", sym.Param("fails", 4)) // the call that fails, or none
	call := func(k int) (interface{}, error) {
		if len(calls) == fails {
			return nil, errModule
		}
		calls = append(calls, byte('A'+k))
		return []byte{byte('A' + k), byte('0' + len(calls))}, nil
	}
	all := pModules([]uint{0, 1}, func(k int, in map[uint]interface{}) (interface{}, error) {
		return call(k)
	})
	list := pPrefix()
	one := func() pIns {
		name := pName("app", "a", 2)
		if sym.Bool("assigned") {
			return pExecAs("o"+itoa(sym.Choice("output", 2)), name)
		}
		return pIns{kind: pExecute, name: name}
	}
	sub := false
	for i := 0; i < sym.Param("size", 3); i++ {
		if !sub && sym.Choice("step", 2) == 1 {
			sub = true
			list = append(list, pIns{kind: pAssign, name: "o0", value: pProgram, sub: []pIns{{kind: pModule, name: "m", index: 1}, {kind: pApplication, name: "a0", module: "m"}, {kind: pOutput, name: "o1"}, {kind: pExecute, name: "a0"}, pExecAs("o1", "a0")}})
			continue
		}
		list = append(list, one())
	}
	real := app.NewApplication(pFold)
	program, err := real.Compile(all, buildInstructions(list))
	must(err, "the program compiles")
	for turn := 0; turn < 2; turn++ {
		calls = []byte{}
		out, err := real.Execute([]interface{}{}, program)
		got := calls
		calls = []byte{}
		want := []interface{}{}
		failed := false
		step := func(k int, to *[]interface{}) {
			if failed {
				return
			}
			v, err := call(k)
			if err != nil {
				failed = true
				return
			}
			if to != nil {
				*to = append(*to, v)
			}
		}
		for _, one := range list[len(pPrefix()):] {
			switch {
			case one.kind == pExecute:
				step(int(one.name[1]-'0'), nil)
			case one.value == pProgram:
				inner := []interface{}{}
				step(1, nil)
				step(1, &inner)
				if !failed {
					want = append(want, inner)
				}
			default:
				step(int(one.from[1]-'0'), &want)
			}
		}
		sym.Assert((err != nil) == failed, "a program fails exactly when a module fails")
		sym.Assert(string(got) == string(calls), "every execution calls its module once, in order, up to the one that fails")
		if err != nil {
			sym.Assert(len(out) == 0, "a program that fails has no output")
			sym.Reach("failed")
			continue
		}
		sym.Assert(string(flat(out)) == string(flat(want)), "the outputs are what their executions returned")
		sym.Reach("executed")
	}
}

// H_InterpNil: values that are nil
func H_InterpNil() {
	all := pModules([]uint{0, 1}, func(k int, in map[uint]interface{}) (interface{}, error) {
		if k == 0 {
			return nil, nil
		}
		out := []interface{}{}
		for i := uint(0); i < 3; i++ {
			if v, ok := in[i]; ok {
				out = append(out, v)
			}
		}
		return out, nil
	})
	inputs := []interface{}{nil, nil}
	given := []byte{}
	for i := range inputs {
		given = append(given, '0')
		if sym.Bool("given") {
			inputs[i] = []interface{}{}
			given[i] = '1'
		}
	}
	text := func(what string) string {
		out := ""
		for _, k := range what {
			switch {
			case k == 'n' || (k != 'b' && given[k-'i'] == '0'):
				out += "0"
			case k == 'b':
				out += "["
				for m := 0; m < 2; m++ {
					out += []string{"0", "[]"}[given[m]-'0']
				}
				out += "0]"
			default:
				out += "[]"
			}
		}
		return out
	}
	list := pPrefix()
	list = append(list, pExecAs("v", "a0"), pAttached("i0", "a1", 0), pAttached("i1", "a1", 1), pAttached("v", "a1", 2))
	want := ""
	for i := 0; i < sym.Param("size", 3); i++ {
		switch sym.Choice("output", 4) {
		case 0:
			list = append(list, pExecAs("o0", "a0"))
			want += text("n")
		case 1:
			list = append(list, pExecAs("o1", "a1"))
			want += text("b")
		case 2:
			list = append(list, pIns{kind: pAssign, name: "o0", value: pVariable, from: "i0"})
			want += text("i")
		case 3:
			list = append(list, pIns{kind: pAssign, name: "o1", value: pVariable, from: "i1"})
			want += text("j")
		}
	}
	real := app.NewApplication(pFold)
	program, err := real.Compile(all, buildInstructions(list))
	must(err, "the program compiles")
	out, err := real.Execute(inputs, program)
	must(err, "the program executes")
	sym.Assert(string(flat(out)) == "["+want+"]", "values that are nil are values")
	sym.Reach("executed")
}
