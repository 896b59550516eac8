package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"
)

type tierCfg struct {
	Budget float64        `json:"budget"`
	Params map[string]int `json:"params"`
	Skip   bool           `json:"skip"`
}

type harnessCfg struct {
	Fn       string   `json:"fn"`
	Reach    []string `json:"reach"`
	What     string   `json:"what"`
	Outside  string   `json:"outside"`
	Quick    tierCfg  `json:"quick"`
	Thorough tierCfg  `json:"thorough"`
}

type checkCfg struct {
	Property    string       `json:"property"`
	Assumptions []string     `json:"assumptions"`
	Harnesses   []harnessCfg `json:"harnesses"`
}

type finding struct {
	Property string `json:"property"`
	Status   string `json:"status"` // known | fixed
	Harness  string `json:"harness"`
	Msg      string `json:"msg"`
	What     string `json:"what"`
	Commit   string `json:"commit,omitempty"`
}

type env struct {
	verif, repo, tmp, solver string
	workers                  int
	seed                     int64
	P                        *Program
	ov                       *Overlay
	replayBin                string
	timeout                  int
}

func main() {
	debug.SetMaxStack(4 << 30)
	debug.SetGCPercent(400)
	if len(os.Args) < 3 {
		fmt.Fprintln(os.Stderr, "usage: symgo check ID | run HARNESS")
		os.Exit(2)
	}
	e := &env{verif: "/verif", repo: "/repo", solver: "z3", workers: runtime.NumCPU(), seed: 1, timeout: 10000}
	if d := os.Getenv("SYMGO_VERIF"); d != "" {
		e.verif = d
	}
	if d := os.Getenv("SYMGO_REPO"); d != "" {
		e.repo = d
	}
	if d := os.Getenv("SYMGO_SOLVER"); d != "" {
		e.solver = d
	}
	if s, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		e.seed = s
	}
	tmp, err := os.MkdirTemp("", "symgo")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	e.tmp = tmp
	code := 2
	switch os.Args[1] {
	case "check":
		code = e.check(os.Args[2])
	case "run":
		code = e.runOne(os.Args[2], os.Args[3:])
	case "replay":
		code = e.replayFile(os.Args[2])
	}
	os.RemoveAll(tmp)
	os.Exit(code)
}

func (e *env) load() error {
	ov, err := buildOverlay(e.repo, filepath.Join(e.verif, "harness"), e.tmp)
	if err != nil {
		return err
	}
	e.ov = ov
	P, err := loadProgram(ov)
	if err != nil {
		return err
	}
	e.P = P
	return nil
}

func (e *env) buildReplay() error {
	if e.replayBin != "" {
		return nil
	}
	oj := filepath.Join(e.tmp, "overlay.json")
	if err := e.ov.writeJSON(oj); err != nil {
		return err
	}
	bin := filepath.Join(e.tmp, "replay")
	cmd := exec.Command("go", "build", "-overlay", oj, "-o", bin, "./verifh/cmd")
	cmd.Dir = e.repo
	cmd.Env = goEnv()
	out, err := cmd.CombinedOutput()
	if err != nil {
		return fmt.Errorf("replay build: %v: %s", err, out)
	}
	e.replayBin = bin
	return nil
}

type replayReq struct {
	H      string         `json:"h"`
	In     []replayInput  `json:"in"`
	Params map[string]int `json:"params"`
}

type replayRes struct {
	Outcome string   `json:"outcome"`
	Msg     string   `json:"msg"`
	Reach   []string `json:"reach"`
	Obs     []string `json:"obs"`
}

// native runs requests in one native process; a dead or hanging process ends the list early.
func (e *env) native(reqs []replayReq, limit time.Duration) ([]replayRes, string) {
	if err := e.buildReplay(); err != nil {
		return nil, err.Error()
	}
	var in bytes.Buffer
	for _, r := range reqs {
		b, _ := json.Marshal(r)
		in.Write(b)
		in.WriteByte('\n')
	}
	// the address space limit keeps a runaway allocation inside the replay process
	cmd := exec.Command("bash", "-c", "ulimit -v 12000000; exec \"$0\"", e.replayBin)
	cmd.Stdin = &in
	var out, errb bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &errb
	cmd.Dir = e.tmp
	if err := cmd.Start(); err != nil {
		return nil, err.Error()
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	note := ""
	select {
	case err := <-done:
		if err != nil {
			note = "process died: " + firstLine(errb.String())
		}
	case <-time.After(limit):
		cmd.Process.Kill()
		<-done
		note = "process did not terminate"
	}
	var res []replayRes
	sc := bufio.NewScanner(&out)
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	for sc.Scan() {
		var r replayRes
		if json.Unmarshal(sc.Bytes(), &r) == nil {
			res = append(res, r)
		}
	}
	return res, note
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

// confirm replays a counterexample on the natively compiled code.
func (e *env) confirm(h string, params map[string]int, v violation) (bool, string) {
	res, note := e.native([]replayReq{{h, v.inputs, params}}, 30*time.Second)
	if len(res) == 0 {
		switch {
		case strings.HasPrefix(note, "process died"):
			return true, "crash: " + note
		case note == "process did not terminate":
			return true, "hang: " + note
		}
		return false, note
	}
	switch res[0].Outcome {
	case "assert", "panic":
		m := res[0].Msg
		if res[0].Outcome == "panic" {
			m = "panic: " + m
		}
		return true, m
	}
	return false, "native outcome " + res[0].Outcome + " " + res[0].Msg
}

type runReport struct {
	run        *HarnessRun
	cfg        harnessCfg
	validated  int
	mismatches []string
	confirmed  []confirmedViol
	unconf     []string
	vacuous    []string
}

type confirmedViol struct {
	v   violation
	msg string
}

func (e *env) runHarness(cfg harnessCfg, t tierCfg, samples int) (*runReport, error) {
	fn := e.P.fn(base+"/h", cfg.Fn)
	run := &HarnessRun{Name: cfg.Fn, Params: t.Params, Budget: time.Duration(t.Budget * float64(time.Second))}
	explore(e.P, fn, run, e.workers, e.seed, e.solver, e.timeout, samples)
	rep := &runReport{run: run, cfg: cfg}
	// replay counterexamples
	for _, v := range run.Viol {
		ok, msg := e.confirm(cfg.Fn, t.Params, v)
		if ok {
			rep.confirmed = append(rep.confirmed, confirmedViol{v, msg})
		} else {
			rep.unconf = append(rep.unconf, v.kind+": "+v.msg+" ("+msg+")")
		}
	}
	// validate finished paths against the native build
	if len(run.Samples) > 0 {
		var reqs []replayReq
		for _, s := range run.Samples {
			reqs = append(reqs, replayReq{cfg.Fn, s.Inputs, t.Params})
		}
		res, note := e.native(reqs, 120*time.Second)
		if note != "" {
			rep.mismatches = append(rep.mismatches, note)
		}
		for i, r := range res {
			s := run.Samples[i]
			switch {
			case r.Outcome == "assert" || r.Outcome == "panic":
				// the solver's path model fails on the real code
				m := r.Msg
				if r.Outcome == "panic" {
					m = "panic: " + m
				}
				rep.confirmed = append(rep.confirmed, confirmedViol{violation{kind: r.Outcome, msg: m, inputs: s.Inputs}, m})
				rep.mismatches = append(rep.mismatches, "engine ok, native "+r.Outcome+": "+r.Msg)
			case r.Outcome != "ok":
				rep.mismatches = append(rep.mismatches, "native "+r.Outcome+" "+r.Msg)
			case strings.Join(r.Reach, ",") != strings.Join(s.Reach, ","):
				rep.mismatches = append(rep.mismatches, fmt.Sprintf("reach %v vs native %v", s.Reach, r.Reach))
			case !obsEqual(r.Obs, s.Obs):
				rep.mismatches = append(rep.mismatches, fmt.Sprintf("observations %v vs native %v", s.Obs, r.Obs))
			default:
				rep.validated++
			}
		}
	}
	for _, l := range cfg.Reach {
		if run.Reach[l] == 0 {
			rep.vacuous = append(rep.vacuous, l)
		}
	}
	return rep, nil
}

func obsEqual(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] && !strings.HasSuffix(a[i], "=?") {
			return false
		}
	}
	return true
}

func (e *env) runOne(name string, args []string) int {
	t0 := time.Now()
	if err := e.load(); err != nil {
		fmt.Println("load error:", err)
		return 2
	}
	t := tierCfg{Budget: 30, Params: map[string]int{}}
	for _, a := range args {
		kv := strings.SplitN(a, "=", 2)
		if len(kv) != 2 {
			continue
		}
		n, _ := strconv.Atoi(kv[1])
		if kv[0] == "budget" {
			t.Budget = float64(n)
		} else {
			t.Params[kv[0]] = n
		}
	}
	fmt.Printf("loaded in %v\n", time.Since(t0))
	names := strings.Split(name, ",")
	if name == "all" {
		names = e.ov.funcs
	}
	for _, n := range names {
		rep, err := e.runHarness(harnessCfg{Fn: n}, t, 64)
		if err != nil {
			fmt.Println(err)
			return 2
		}
		rep.print()
	}
	return 0
}

func (rep *runReport) print() {
	r := rep.run
	fmt.Printf("== %s: complete=%v paths=%d infeasible=%d stopped=%d unexplored=%d decisions=%d forks=%d asserts=%d(+%d const) steps=%d wall=%v\n", r.Name, r.Complete, r.Paths, r.Infeasible, r.Stopped, r.Unexplored, r.Decisions, r.Forks, r.Asserts, r.AssertsConst, r.Steps, r.Wall.Round(time.Millisecond))
	fmt.Printf("   queries=%d sat=%d unsat=%d unknown=%d errors=%d solver=%v validated=%d reach=%v\n", r.Queries, r.Sat, r.Unsat, r.Unk, r.SolverErrors, r.SolverTime.Round(time.Millisecond), rep.validated, r.Reach)
	for _, k := range sortedKeys(r.Unsupported) {
		fmt.Printf("   unsupported x%d: %s\n", r.Unsupported[k], k)
	}
	for _, k := range sortedKeys(r.Lost) {
		fmt.Printf("   lost x%d: %s\n", r.Lost[k], k)
	}
	for _, m := range uniq(rep.mismatches) {
		fmt.Printf("   MISMATCH %s\n", m)
	}
	for _, k := range sortedKeys(r.violSeen) {
		fmt.Printf("   candidate x%d: %s\n", r.violSeen[k], k)
	}
	seen := map[string]bool{}
	for _, c := range rep.confirmed {
		if seen[c.msg] {
			continue
		}
		seen[c.msg] = true
		fmt.Printf("   CONFIRMED %s  %s\n", c.msg, inputsText(c.v.inputs))
	}
	for _, u := range uniq(rep.unconf) {
		fmt.Printf("   UNCONFIRMED %s\n", u)
	}
}

func uniq(l []string) []string {
	m := map[string]bool{}
	var r []string
	for _, s := range l {
		if !m[s] {
			m[s] = true
			r = append(r, s)
		}
	}
	sort.Strings(r)
	if len(r) > 12 {
		r = r[:12]
	}
	return r
}

func inputsText(in []replayInput) string {
	var sb strings.Builder
	for i, x := range in {
		if i > 0 {
			sb.WriteByte(' ')
		}
		if x.Kind == "i64" {
			fmt.Fprintf(&sb, "%s=%d", x.Name, int64(x.Val))
		} else {
			fmt.Fprintf(&sb, "%s=%d", x.Name, x.Val)
		}
		if sb.Len() > 1500 {
			sb.WriteString(" ...")
			break
		}
	}
	return sb.String()
}

func (e *env) replayFile(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var rq replayReq
	if err := json.Unmarshal(b, &rq); err != nil {
		fmt.Println(err)
		return 2
	}
	if err := e.load(); err != nil {
		fmt.Println(err)
		return 2
	}
	ok, msg := e.confirm(rq.H, rq.Params, violation{inputs: rq.In})
	fmt.Println("reproduced:", ok, msg)
	if ok {
		return 1
	}
	return 0
}
