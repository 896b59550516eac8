package h

import (
	"errors"

	app "github.com/steve-care-software/rodkina/libs/interpreters/applications"
	"github.com/steve-care-software/rodkina/libs/interpreters/domain/instructions"
	iapps "github.com/steve-care-software/rodkina/libs/interpreters/domain/instructions/applications"
	"github.com/steve-care-software/rodkina/libs/interpreters/domain/instructions/attachments"
	imodules "github.com/steve-care-software/rodkina/libs/interpreters/domain/instructions/modules"
	"github.com/steve-care-software/rodkina/libs/interpreters/domain/instructions/parameters"
	"github.com/steve-care-software/rodkina/libs/interpreters/domain/programs/modules"
	"github.com/steve-care-software/rodkina/verifh/sym"
)

// A program is described by a list of pIns; from it the real instructions are built, and the
// reference interpreter below says what compiling and executing them must give.

type pKind int

const (
	pModule pKind = iota
	pApplication
	pInput
	pOutput
	pAssign
	pAttach
	pExecute
)

type pValueKind int

const (
	pVariable pValueKind = iota
	pConstant
	pProgram
	pExecution
)

type pIns struct {
	kind   pKind
	name   string // declared name, assigned variable, attached variable, or executed application
	module string
	index  uint
	app    string // attachment
	target uint
	value  pValueKind
	from   string // variable or executed application of a value
	bytes  []byte // constant
	sub    []pIns
}

var pSpelled int

// pSpell writes a name; when it may be written in several ways, every time in another one
func pSpell(name string) []byte {
	if sym.Param("spelled", 0) == 0 {
		return []byte(name)
	}
	pSpelled++
	return append([]byte(name), '#', byte('0'+pSpelled%7))
}

// pFold gives the name that was written
func pFold(name []byte) string {
	for i, b := range name {
		if b == '#' {
			return string(name[:i])
		}
	}
	return string(name)
}

func (p pIns) build() instructions.Instruction {
	b := instructions.NewInstructionBuilder().Create()
	name := pSpell(p.name)
	switch p.kind {
	case pModule:
		m, err := imodules.NewBuilder().Create().WithIndex(p.index).WithName(name).Now()
		must(err, "module")
		b.WithModule(m)
	case pApplication:
		a, err := iapps.NewBuilder().Create().WithModule(pSpell(p.module)).WithName(name).Now()
		must(err, "application")
		b.WithApplication(a)
	case pInput:
		v, err := parameters.NewBuilder().Create().WithName(name).IsInput().Now()
		must(err, "parameter")
		b.WithParameter(v)
	case pOutput:
		v, err := parameters.NewBuilder().Create().WithName(name).Now()
		must(err, "parameter")
		b.WithParameter(v)
	case pAssign:
		vb := instructions.NewValueBuilder().Create()
		switch p.value {
		case pVariable:
			vb.WithVariable(pSpell(p.from))
		case pConstant:
			vb.WithConstant(p.bytes)
		case pProgram:
			vb.WithInstructions(buildInstructions(p.sub))
		case pExecution:
			vb.WithExecution(pSpell(p.from))
		}
		v, err := vb.Now()
		must(err, "value")
		a, err := instructions.NewAssignmentBuilder().Create().WithVariable(name).WithValue(v).Now()
		must(err, "assignment")
		b.WithAssignment(a)
	case pAttach:
		v, err := attachments.NewVariableBuilder().Create().WithCurrent(name).WithTarget(p.target).Now()
		must(err, "variable")
		a, err := attachments.NewBuilder().Create().WithVariable(v).WithApplication(pSpell(p.app)).Now()
		must(err, "attachment")
		b.WithAttachment(a)
	case pExecute:
		b.WithExecution(name)
	}
	out, err := b.Now()
	must(err, "instruction")
	return out
}

func buildInstructions(list []pIns) instructions.Instructions {
	out := []instructions.Instruction{}
	for _, one := range list {
		out = append(out, one.build())
	}
	ins, err := instructions.NewBuilder().Create().WithList(out).Now()
	must(err, "instructions")
	return ins
}

var errModule = errors.New("the module fails")

// flat gives the bytes of any value of a program
func flat(v interface{}) []byte {
	switch cast := v.(type) {
	case nil:
		return []byte{'0'}
	case []byte:
		return append([]byte{'<'}, append(append([]byte{}, cast...), '>')...)
	case []interface{}:
		out := []byte{'['}
		for _, one := range cast {
			out = append(out, flat(one)...)
		}
		return append(out, ']')
	}
	sym.Fail("a value of a program is one of its values")
	return nil
}

// the targets that programs use
var pTargets = []uint{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 256, 257, 1 << 32}

// module 0 and 1 return their parameters; module 1 fails without parameter 0
func pModuleFn(index uint, in map[uint]interface{}) (interface{}, error) {
	out := []byte{byte('A' + index)}
	known := 0
	for i, k := range pTargets {
		v, ok := in[k]
		if ok {
			known++
		}
		if !ok && i < 2 {
			out = append(out, '-')
		}
		if !ok {
			continue
		}
		if i > 1 {
			out = append(out, byte('a'+i))
		}
		out = append(out, flat(v)...)
	}
	if known != len(in) {
		out = append(out, '!')
	}
	if _, ok := in[0]; index == 1 && !ok {
		return nil, errModule
	}
	return out, nil
}

// the reference interpreter

type pVal func(input []interface{}) (interface{}, error)

type pApp struct {
	module uint
	params map[uint]pVal
	order  []uint
}

type pCompiled struct {
	steps   []pVal
	outputs []int
}

func pRun(p *pCompiled, input []interface{}) ([]interface{}, error) {
	vals := []interface{}{}
	for _, one := range p.steps {
		v, err := one(input)
		if err != nil {
			return nil, err
		}
		vals = append(vals, v)
	}
	out := []interface{}{}
	for _, one := range p.outputs {
		out = append(out, vals[one])
	}
	return out, nil
}

// pCompile is nil when the program does not compile
func pCompile(list []pIns, amount uint) *pCompiled {
	mods := map[string]uint{}
	apps := map[string]*pApp{}
	inputs := map[string]int{}
	outputs := map[string]bool{}
	vals := map[string]pVal{}
	out := &pCompiled{}
	for _, one := range list {
		switch one.kind {
		case pModule:
			if _, ok := mods[one.name]; ok || one.index >= amount {
				return nil
			}
			mods[one.name] = one.index
		case pApplication:
			mod, ok := mods[one.module]
			if apps[one.name] != nil || !ok {
				return nil
			}
			apps[one.name] = &pApp{module: mod, params: map[uint]pVal{}}
		case pInput, pOutput:
			if _, ok := inputs[one.name]; ok || outputs[one.name] {
				return nil
			}
			if one.kind == pInput {
				inputs[one.name] = len(inputs)
			} else {
				outputs[one.name] = true
			}
		case pAssign:
			val := pCompileValue(one, apps, inputs, amount)
			if val == nil {
				return nil
			}
			vals[one.name] = val
			if outputs[one.name] {
				out.outputs = append(out.outputs, len(out.steps))
			}
			out.steps = append(out.steps, val)
		case pAttach:
			val := vals[one.name]
			if val == nil {
				idx, ok := inputs[one.name]
				if !ok {
					return nil
				}
				val = pInputValue(idx)
			}
			old := apps[one.app]
			if old == nil {
				return nil
			}
			updated := &pApp{module: old.module, params: map[uint]pVal{}}
			for _, k := range pTargets {
				if old.params[k] != nil {
					updated.params[k] = old.params[k]
				}
			}
			updated.params[one.target] = val
			apps[one.app] = updated
		case pExecute:
			if apps[one.name] == nil {
				return nil
			}
			out.steps = append(out.steps, pExecuted(apps[one.name]))
		}
	}
	if len(out.steps) == 0 {
		return nil
	}
	return out
}

func pInputValue(idx int) pVal {
	return func(input []interface{}) (interface{}, error) {
		if idx >= len(input) {
			return nil, errModule
		}
		return input[idx], nil
	}
}

func pExecuted(a *pApp) pVal {
	return func(input []interface{}) (interface{}, error) {
		params := map[uint]interface{}{}
		for _, k := range pTargets {
			if a.params[k] == nil {
				continue
			}
			v, err := a.params[k](input)
			if err != nil {
				return nil, err
			}
			params[k] = v
		}
		return pModuleFn(a.module, params)
	}
}

func pCompileValue(one pIns, apps map[string]*pApp, inputs map[string]int, amount uint) pVal {
	switch one.value {
	case pVariable:
		idx, ok := inputs[one.from]
		if !ok {
			return nil
		}
		return pInputValue(idx)
	case pConstant:
		return func([]interface{}) (interface{}, error) { return one.bytes, nil }
	case pProgram:
		sub := pCompile(one.sub, amount)
		if sub == nil {
			return nil
		}
		return func(input []interface{}) (interface{}, error) {
			out, err := pRun(sub, input)
			if err != nil {
				return nil, err
			}
			return out, nil
		}
	}
	if apps[one.from] == nil {
		return nil
	}
	return pExecuted(apps[one.from])
}

// checkProgram compiles and executes a program and compares with the reference
func checkProgram(list []pIns) {
	checkProgramOn(list, 2, -1)
}

// checkProgramOn does so with an amount of modules; given is the amount of inputs, if any
func checkProgramOn(list []pIns, amount uint, given int) {
	mods := []modules.Module{}
	for i := uint(0); i < amount; i++ {
		index := i
		m, err := modules.NewModuleBuilder().Create().WithIndex(index).WithFunc(func(in map[uint]interface{}) (interface{}, error) {
			return pModuleFn(index, in)
		}).Now()
		must(err, "module")
		mods = append(mods, m)
	}
	all, err := modules.NewBuilder().Create().WithList(mods).Now()
	must(err, "modules")
	real := app.NewApplication(pFold)
	program, err := real.Compile(all, buildInstructions(list))
	want := pCompile(list, amount)
	sym.Assert((err == nil) == (want != nil), "a program compiles exactly when its names are declared, once, before they are used")
	if err != nil {
		sym.Reach("refused")
		return
	}
	input := []interface{}{}
	if given < 0 && pOverrides(list) {
		given = 2
	}
	if given < 0 {
		given = sym.Choice("inputs", sym.Param("inputs", 3))
	}
	for i := 0; i < given; i++ {
		input = append(input, []byte{sym.Byte("input")})
	}
	for turn := 0; turn < 2; turn++ {
		got, err := real.Execute(input, program)
		expected, wantErr := pRun(want, input)
		sym.Assert((err == nil) == (wantErr == nil), "a program fails exactly when an input is missing or a module fails")
		if err != nil {
			sym.Reach("failed")
			return
		}
		sym.Assert(len(got) == len(expected), "a program returns every value assigned to its outputs")
		sym.Assert(sym.EqBytes(flat(got), flat(expected)), "a program returns the values assigned to its outputs, in order")
	}
	if sym.Param("again", 0) == 1 {
		// another program of the same application does not change this one
		other, err := real.Compile(all, buildInstructions(list))
		must(err, "the same instructions compile again")
		got, err := real.Execute(input, program)
		must(err, "the program executes again")
		twin, err := real.Execute(input, other)
		must(err, "the other program executes")
		sym.Assert(sym.EqBytes(flat(got), flat(twin)), "the same instructions give the same program")
	}
	sym.Reach("executed")
}

// pOverrides is true when an attachment replaces another one: whether the replaced value is still
// needed is left open
func pOverrides(list []pIns) bool {
	for i, one := range list {
		for _, two := range list[:i] {
			if one.kind == pAttach && two.kind == pAttach && one.app == two.app && one.target == two.target {
				return true
			}
		}
		if one.kind == pAssign && one.value == pProgram && pOverrides(one.sub) {
			return true
		}
	}
	return false
}

func pName(what string, letter string, n int) string {
	return letter + itoa(sym.Choice(what, n))
}

// H_InterpScope: declarations in any order
func H_InterpScope() {
	list := []pIns{}
	if sym.Param("declared", 0) == 1 {
		list = append(list, pIns{kind: pModule, name: "m0", index: 1}, pIns{kind: pInput, name: "v0"})
	}
	for i := 0; i < sym.Param("free", 3); i++ {
		switch k := sym.Choice("declaration", 4); k {
		case 0:
			list = append(list, pIns{kind: pModule, name: pName("name", "m", 2), index: uint(sym.Choice("index", 3))})
		case 1:
			list = append(list, pIns{kind: pApplication, name: pName("name", "a", 2), module: pName("module", "m", 2)})
		default:
			list = append(list, pIns{kind: pKind(k), name: pName("name", "v", 2)})
		}
	}
	if sym.Param("declared", 0) == 1 && sym.Bool("begin") {
		list = append(list, pIns{kind: pAssign, name: "begin", value: pConstant, bytes: []byte{}})
	}
	switch sym.Choice("use", 6) {
	case 4:
		list = append(list, pAttached(pName("used", "v", 2), pName("app", "a", 2), 0), pIns{kind: pAssign, name: "free", value: pConstant, bytes: []byte{}})
	case 5:
		list = append(list, pIns{kind: pAssign, name: "v2", value: pProgram, sub: []pIns{{kind: pAssign, name: pName("assigned", "v", 2), value: pVariable, from: pName("used", "v", 2)}}})
	case 0:
		list = append(list, pIns{kind: pExecute, name: pName("used", "a", 2)})
	case 1:
		list = append(list, pIns{kind: pAssign, name: pName("assigned", "v", 2), value: pVariable, from: pName("used", "v", 2)})
	case 2:
		list = append(list, pIns{kind: pAssign, name: pName("assigned", "v", 2), value: pExecution, from: pName("used", "a", 2)})
	}
	if sym.Param("declared", 0) == 0 && sym.Bool("end") {
		list = append(list, pIns{kind: pAssign, name: "end", value: pConstant, bytes: []byte{}})
	}
	checkProgram(list)
}

// pFree is an arbitrary instruction on two applications, two inputs, and two outputs
func pFree(vars int) pIns {
	variable := func(what string) string {
		return []string{"i0", "o0", "i1", "o1", "free"}[sym.Choice(what, vars)]
	}
	switch sym.Choice("instruction", 5) {
	case 0:
		return pIns{kind: pAssign, name: variable("assigned"), value: pVariable, from: variable("from")}
	case 1:
		return pIns{kind: pAssign, name: variable("assigned"), value: pConstant, bytes: []byte{sym.Byte("constant")}}
	case 2:
		return pIns{kind: pAssign, name: variable("assigned"), value: pExecution, from: pName("app", "a", 2)}
	case 3:
		return pIns{kind: pAttach, name: variable("attached"), target: uint(sym.Choice("target", 2)), app: pName("app", "a", 2)}
	}
	return pIns{kind: pExecute, name: pName("app", "a", 2)}
}

func pPrefix() []pIns {
	return []pIns{
		{kind: pModule, name: "m0", index: 0},
		{kind: pModule, name: "m1", index: 1},
		{kind: pApplication, name: "a0", module: "m0"},
		{kind: pApplication, name: "a1", module: "m1"},
		{kind: pOutput, name: "o0"},
		{kind: pInput, name: "i0"},
		{kind: pOutput, name: "o1"},
		{kind: pInput, name: "i1"},
	}
}

// H_InterpFlow: assignments, attachments and executions in any order
func H_InterpFlow() {
	list := pPrefix()
	for i := 0; i < sym.Param("free", 2); i++ {
		list = append(list, pFree(sym.Param("vars", 5)))
	}
	if sym.Param("tail", 1) == 1 {
		list = append(list, pIns{kind: pAssign, name: "o0", value: pExecution, from: "a0"})
	}
	checkProgram(list)
}

// H_InterpPipeline: values that go through both applications
func H_InterpPipeline() {
	list := pPrefix()
	vars := []string{"i0", "o0", "free", "i1"}
	attach := func(what string, name string) {
		list = append(list, pIns{kind: pAttach, name: vars[sym.Choice(what, 3)], target: uint(sym.Choice(what+"Target", 2)), app: name})
	}
	attach("first", "a0")
	list = append(list, pIns{kind: pAssign, name: vars[sym.Choice("middle", 4)], value: pExecution, from: "a0"})
	attach("second", "a0")
	attach("third", "a1")
	list = append(list, pIns{kind: pAssign, name: vars[sym.Choice("last", 2)], value: pExecution, from: "a1"})
	list = append(list, pIns{kind: pAssign, name: "o1", value: pExecution, from: "a0"})
	checkProgram(list)
}

// H_InterpSub: programs inside of programs
func H_InterpSub() {
	sub := []pIns{}
	declared := sym.Choice("declared", 4)
	if declared > 0 {
		sub = append(sub, pIns{kind: pInput, name: "i1"}, pIns{kind: pOutput, name: "o0"})
	}
	if declared > 1 {
		sub = append(sub, pIns{kind: pInput, name: "i0"})
	}
	if declared > 2 {
		sub = append(sub, pIns{kind: pModule, name: "m0", index: 1}, pIns{kind: pApplication, name: "a0", module: "m0"})
		if sym.Bool("attached") {
			sub = append(sub, pIns{kind: pAttach, name: "i1", target: 0, app: "a0"})
		}
	}
	for i := 0; i < sym.Param("free", 1); i++ {
		sub = append(sub, pFree(3))
	}
	list := pPrefix()
	if sym.Bool("before") {
		list = append(list, pIns{kind: pAttach, name: "i0", target: 0, app: "a0"})
	}
	list = append(list, pIns{kind: pAssign, name: pName("assigned", "o", 2), value: pProgram, sub: sub})
	if sym.Bool("after") {
		list = append(list, pIns{kind: pAttach, name: "o0", target: 1, app: "a0"}, pIns{kind: pAssign, name: "o1", value: pExecution, from: "a0"})
	}
	checkProgram(list)
}

// pExecAs assigns an execution to a variable
func pExecAs(name string, app string) pIns {
	return pIns{kind: pAssign, name: name, value: pExecution, from: app}
}

func pAttached(name string, app string, target uint) pIns {
	return pIns{kind: pAttach, name: name, app: app, target: target}
}

// H_InterpLong: longer programs
func H_InterpLong() {
	n := sym.Param("size", 6)
	list := []pIns{{kind: pModule, name: "m0", index: 0}, {kind: pModule, name: "m2", index: 2}, {kind: pModule, name: "m", index: 1}}
	kind := sym.Param("kind", -1)
	if kind < 0 {
		kind = sym.Choice("kind", 9)
	}
	given := 0
	switch kind {
	case 0: // inputs and outputs declared in any order, each output is assigned from an input, in another order
		for i := 0; i < n; i++ {
			list = append(list, pIns{kind: pInput, name: "i" + itoa(i)})
			if sym.Bool("between") {
				list = append(list, pIns{kind: pOutput, name: "p" + itoa(i)})
			}
			given++
		}
		for i := 0; i < n; i++ {
			list = append(list, pIns{kind: pOutput, name: "o" + itoa(i)})
		}
		first := sym.Choice("first", n)
		for i := 0; i < n; i++ {
			list = append(list, pIns{kind: pAssign, name: "o" + itoa(i), value: pVariable, from: "i" + itoa((first+i*(n-1))%n)})
		}
		list = append(list, pIns{kind: pAssign, name: "o0", value: pVariable, from: "i" + itoa(n-1)})
		given -= sym.Choice("missing", 2)
	case 1: // one application, attached again and again, executed in between
		list = append(list, pIns{kind: pApplication, name: "a", module: "m0"}, pIns{kind: pInput, name: "i"}, pIns{kind: pOutput, name: "o"})
		first := sym.Choice("first", len(pTargets))
		for i := 0; i < n; i++ {
			list = append(list, pIns{kind: pAssign, name: "v", value: pConstant, bytes: []byte{sym.Byte("constant")}})
			list = append(list, pAttached("v", "a", pTargets[(first+i*5)%len(pTargets)]))
			if sym.Bool("executed") {
				list = append(list, pExecAs("o", "a"))
			}
		}
		list = append(list, pAttached("i", "a", pTargets[(first+5*sym.Choice("replaced", n))%len(pTargets)]), pExecAs("o", "a"))
		given = 1
	case 2: // programs in programs
		sub := []pIns{{kind: pInput, name: "i"}, {kind: pOutput, name: "o"}, {kind: pAssign, name: "o", value: pVariable, from: "i"}}
		for i := 1; i < n; i++ {
			next := []pIns{}
			for j := 0; j < i%3; j++ {
				next = append(next, pIns{kind: pInput, name: "x" + itoa(j)})
			}
			next = append(next, pIns{kind: pInput, name: "i"}, pIns{kind: pOutput, name: "o"})
			if sym.Bool("before") {
				next = append(next, pIns{kind: pAssign, name: "o", value: pVariable, from: "i"})
			}
			next = append(next, pIns{kind: pAssign, name: "o", value: pProgram, sub: sub})
			if sym.Bool("after") {
				next = append(next, pIns{kind: pAssign, name: "o", value: pConstant, bytes: []byte{sym.Byte("constant")}})
			}
			sub = next
		}
		list = sub
		given = 3
	case 3: // several applications of one module, attached to each other's values
		for i := 0; i < 4; i++ {
			list = append(list, pIns{kind: pApplication, name: "a" + itoa(i), module: "m" + []string{"", "2", "0", ""}[i]})
		}
		list = append(list, pIns{kind: pInput, name: "i"}, pIns{kind: pOutput, name: "o"}, pIns{kind: pOutput, name: "out"})
		last := "i"
		for i := 0; i < n; i++ {
			on := "a" + itoa(sym.Choice("app", 4))
			list = append(list, pAttached("i", on, 0), pAttached(last, on, uint(1+i)), pIns{kind: pExecute, name: on})
			last = "v" + itoa(i)
			list = append(list, pExecAs(last, on))
			if i == n-1 {
				list = append(list, pExecAs("out", on))
			}
		}
		list = append(list, pExecAs("o", "a0"), pExecAs("o", "a1"), pAttached(last, "a0", 9), pExecAs("out", "a0"), pExecAs("o", "a3"))
		given = 1
	case 4: // outputs far in a program, with executions before them
		list = append(list, pIns{kind: pApplication, name: "a", module: "m0"}, pIns{kind: pOutput, name: "o"}, pIns{kind: pOutput, name: "p"})
		for i := 0; i < n; i++ {
			switch sym.Choice("step", 3) {
			case 0:
				list = append(list, pIns{kind: pExecute, name: "a"})
			case 1:
				list = append(list, pIns{kind: pAssign, name: "o", value: pConstant, bytes: sym.Bytes("constant", 2)})
			case 2:
				list = append(list, pIns{kind: pAssign, name: "v", value: pConstant, bytes: []byte{}}, pIns{kind: pAssign, name: "p", value: pConstant, bytes: []byte{byte(i)}})
			}
		}
		list = append(list, pExecAs("p", "a"))
	case 5: // a variable that is assigned again between attachments
		list = append(list, pIns{kind: pApplication, name: "a", module: "m0"}, pIns{kind: pApplication, name: "b", module: "m"}, pIns{kind: pOutput, name: "o"}, pIns{kind: pInput, name: "i"}, pIns{kind: pInput, name: "j"})
		list = append(list, pAttached("i", "b", 0))
		for i := 0; i < n; i++ {
			on := []string{"a", "b"}[sym.Choice("app", 2)]
			if sym.Bool("assigned") {
				list = append(list, pExecAs("i", on)) // the value shadows the input in attachments only
			}
			list = append(list, pAttached("i", on, uint(1+sym.Choice("target", 2))), pIns{kind: pAssign, name: "o", value: pVariable, from: "i"})
		}
		list = append(list, pExecAs("o", "a"), pExecAs("o", "b"))
		given = 2
	case 6: // names that begin alike, and are used as names of everything
		names := []string{"a", "aa", "aaa", "A", "a ", " a", "a\x00"}
		one, two := names[sym.Choice("one", len(names))], names[sym.Choice("two", len(names))]
		list = []pIns{
			{kind: pModule, name: one, index: 0}, {kind: pModule, name: two, index: 1},
			{kind: pApplication, name: one, module: two}, {kind: pApplication, name: two, module: one},
			{kind: pInput, name: one}, {kind: pOutput, name: two},
			pAttached(one, two, 0), pAttached(one, one, 0), pExecAs(two, two), pExecAs(two, one),
		}
		given = 1
	case 8: // a longer program in another one
		sub := []pIns{{kind: pModule, name: "m", index: 0}, {kind: pApplication, name: "a", module: "m"}, {kind: pInput, name: "j"}, {kind: pInput, name: "i"}, {kind: pOutput, name: "p"}, {kind: pOutput, name: "o"}}
		for i := 0; i < n; i++ {
			switch sym.Choice("step", 6) {
			case 0:
				sub = append(sub, pIns{kind: pAssign, name: "o", value: pVariable, from: "i"})
			case 1:
				sub = append(sub, pIns{kind: pAssign, name: "v", value: pConstant, bytes: []byte{byte(i)}})
			case 2:
				sub = append(sub, pExecAs("p", "a"))
			case 3:
				sub = append(sub, pIns{kind: pAssign, name: "o", value: pConstant, bytes: []byte{sym.Byte("constant")}})
			case 4:
				sub = append(sub, pIns{kind: pExecute, name: "a"})
			case 5:
				sub = append(sub, pAttached("i", "a", uint(i)))
			}
		}
		list = append(list, pIns{kind: pApplication, name: "a", module: "m0"}, pIns{kind: pInput, name: "i"}, pIns{kind: pOutput, name: "o"})
		if sym.Bool("attached") {
			list = append(list, pIns{kind: pAssign, name: "v", value: pProgram, sub: sub}, pAttached("v", "a", 0), pExecAs("o", "a"))
		} else {
			list = append(list, pIns{kind: pAssign, name: "o", value: pProgram, sub: sub})
		}
		given = 2
	case 7: // much of everything
		for i := 0; i < 20; i++ {
			list = append(list, pIns{kind: pApplication, name: "a" + itoa(i), module: "m" + []string{"0", "2"}[i%2]}, pIns{kind: pInput, name: "i" + itoa(i)}, pIns{kind: pOutput, name: "o" + itoa(i)})
			given++
		}
		for i := 0; i < n; i++ {
			on := "a" + itoa(i*7%20)
			list = append(list, pAttached("i"+itoa(i*3%20), on, pTargets[i%len(pTargets)]), pIns{kind: pExecute, name: on})
			list = append(list, pIns{kind: pAssign, name: "o" + itoa(i*11%20), value: pVariable, from: "i" + itoa(i*13%20)})
			if i%3 == 0 {
				list = append(list, pExecAs("o"+itoa(i%20), on), pExecAs("v"+itoa(i%4), on), pAttached("v"+itoa(i%4), "a"+itoa(i%20), 0))
			}
		}
	}
	checkProgramOn(list, 3, given)
}
