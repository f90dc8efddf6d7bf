package main

// check decides one property: it verifies every contract that carries the
// property's label, and every contract those proofs rely on, against the
// current source, then runs the property's replay driver on the real code.

import (
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"
)

type replayOut struct {
	OK          bool     `json:"ok"`
	Evaluations int      `json:"evaluations"`
	Distinct    int      `json:"distinct_nontrivial"`
	Rule        string   `json:"rule"`
	Samples     []string `json:"samples"`
	Standins    []string `json:"standins"`
	Known       []string `json:"known"`
	Failure     string   `json:"failure"`
	Case        string   `json:"case"`
	TimedOut    bool     `json:"-"`
}

// effective labels of an obligation: its own, or those of the function.
func relevant(o *Obl, con *Contract, prop string) bool {
	if len(o.Labels) > 0 {
		for _, l := range o.Labels {
			if l == prop {
				return true
			}
		}
		return false
	}
	return con.allLabels()[prop]
}

func (con *Contract) has(prop string) bool {
	if prop == "C13" || prop == "C20" {
		return !con.trusted
	}
	if con.allLabels()[prop] {
		return true
	}
	for _, r := range con.requires {
		for _, l := range r.labels {
			if l == prop {
				return true
			}
		}
	}
	for _, li := range con.loopinv {
		for _, l := range li.clause.labels {
			if l == prop {
				return true
			}
		}
	}
	return false
}

func badFor(r *FuncResult, con *Contract, prop string) []*Obl {
	var out []*Obl
	for _, o := range r.Obls {
		if !o.OK && relevant(o, con, prop) {
			out = append(out, o)
		}
	}
	return out
}

func check(prop, tier string) int {
	t0 := time.Now()
	seed := 1
	if s, err := strconv.Atoi(os.Getenv("VERIF_SEED")); err == nil {
		seed = s
	}
	rdone := make(chan struct{})
	var rp *replayOut
	var rerr error
	go func() {
		rp, rerr = runReplay(context.Background(), prop, tier, seed, 0)
		close(rdone)
	}()

	ev := map[string]interface{}{}
	results := map[string]*FuncResult{}
	var P *Program
	loadErr := ""
	func() {
		defer func() {
			if p := recover(); p != nil {
				loadErr = fmt.Sprint("load: ", p)
			}
		}()
		if *flagNo != "" {
			loadErr = *flagNo
			return
		}
		var err error
		P, err = load(*flagRepo, *flagVerif+"/lemmas")
		if err != nil {
			loadErr = "load: " + err.Error()
			P = nil
			return
		}
		sp, err := loadSpec(*flagVerif + "/contracts")
		if err != nil {
			loadErr = "contracts: " + err.Error()
			P = nil
			return
		}
		P.spec = sp
	}()
	direct := map[string]bool{}
	if P != nil {
		var todo []string
		for _, n := range P.spec.order {
			if P.spec.contracts[n].has(prop) {
				todo = append(todo, n)
				direct[n] = true
			}
		}
		for len(todo) > 0 {
			rs := runAll(P, todo, *flagJ)
			next := map[string]bool{}
			for n, r := range rs {
				results[n] = r
				for _, u := range r.Used {
					if results[u] == nil && rs[u] == nil && P.spec.contracts[u] != nil {
						next[u] = true
					}
				}
			}
			todo = sortedKeys(next)
		}
		// a second, calmer attempt for what was not discharged
		var again []string
		for n, r := range results {
			if r.Status == "failed" && len(badFor(r, P.spec.contracts[n], prop)) > 0 {
				again = append(again, n)
			} else if r.Status == "undecided" && direct[n] && strings.Contains(r.Msg, "time") {
				again = append(again, n)
			}
		}
		if len(again) > 0 {
			// not needed when there is a failing input already
			<-rdone
			if rerr == nil && rp != nil && !rp.OK {
				again = nil
			}
		}
		if len(again) > 0 {
			sort.Strings(again)
			slow = 3
			for n, r := range runAll(P, again, 3) {
				old := results[n]
				r.Seconds += old.Seconds
				r.Solver += old.Solver
				results[n] = r
			}
			slow = 1
		}
	}
	<-rdone

	// ---- verdict ----
	names := []string{}
	for n := range results {
		names = append(names, n)
	}
	sort.Strings(names)
	var bad []*Obl
	var badFn []string
	obls, disc := 0, 0
	mine, mineOK := 0, 0
	back := map[string]int{}
	solver := 0.0
	var fns []map[string]interface{}
	var undec, trusted, missing []string
	tb := map[string]bool{}
	notes := map[string]bool{}
	inl := map[string]bool{}
	var failedElse []string
	for _, n := range names {
		r := results[n]
		con := P.spec.contracts[n]
		f := map[string]interface{}{"function": n, "status": r.Status, "seconds": round(r.Seconds), "paths": r.Paths, "obligations": len(r.Obls)}
		if r.Msg != "" {
			f["note"] = r.Msg
		}
		fns = append(fns, f)
		solver += r.Solver
		for _, t := range r.Trusted {
			tb[t] = true
		}
		for _, t := range r.Notes {
			notes[t] = true
		}
		for _, t := range r.Inlined {
			inl[t] = true
		}
		switch r.Status {
		case "undecided":
			undec = append(undec, n+": "+r.Msg)
		case "trusted":
			trusted = append(trusted, n)
			tb["contract assumed: "+n] = true
		case "missing":
			missing = append(missing, n)
		}
		if r.Status == "trusted" || r.Status == "missing" {
			continue
		}
		for _, o := range r.Obls {
			obls++
			if o.OK {
				disc++
				back[o.Backend]++
			}
			if relevant(o, con, prop) {
				mine++
				if o.OK {
					mineOK++
				}
			}
		}
		b := badFor(r, con, prop)
		for _, o := range b {
			bad = append(bad, o)
			badFn = append(badFn, n)
		}
		if len(b) == 0 && r.Status == "failed" {
			failedElse = append(failedElse, n)
		}
	}
	if len(bad) > 0 && rerr == nil && rp != nil && rp.OK {
		if r := searchMore(prop, seed); r != nil {
			r.Evaluations += rp.Evaluations
			rp = r
		}
	}
	code := 0
	var out []string
	viol := 0
	known := loadKnown(*flagVerif)
	for _, k := range known {
		if k.prop == prop && k.kind == "known" {
			out = append(out, "KNOWN-FINDING: property="+prop+" "+k.text)
		}
	}
	repDir := filepath.Join(*flagVerif, "evidence", "replays")
	os.MkdirAll(repDir, 0o755)
	switch {
	case rerr == nil && rp != nil && !rp.OK:
		viol++
		code = 1
		path := filepath.Join(repDir, prop+"-input.txt")
		s := fmt.Sprintf("property %s is violated by the code in %s\n\nfailing case: %s\n%s\n\nreplay: %s\n", prop, *flagRepo, rp.Case, rp.Failure, replayCmd(prop, rp.Case))
		if len(bad) > 0 {
			s += "\nfailed obligations:\n"
			for i, o := range bad {
				s += fmt.Sprintf("  %s: %s: %s (%s)\n", badFn[i], o.Name, o.Text, o.Pos)
			}
			s += "\nverifier output for the first one:\n" + bad[0].Detail + "\n"
		}
		os.WriteFile(path, []byte(s), 0o644)
		out = append(out, "failing case: "+rp.Case, rp.Failure, fmt.Sprintf("VIOLATION property=%s replay=%s", prop, path))
	case len(bad) > 0:
		viol++
		code = 1
		path := filepath.Join(repDir, prop+"-obligation.txt")
		s := fmt.Sprintf("property %s: obligations that the verifier does not accept on the code in %s\n\n", prop, *flagRepo)
		for i, o := range bad {
			s += fmt.Sprintf("%s: %s [%s]\n  %s\n  at %s\n%s\n\n", badFn[i], o.Name, strings.Join(o.Labels, " "), o.Text, o.Pos, o.Detail)
		}
		s += "replay: /verif/check.sh " + prop + "\n"
		os.WriteFile(path, []byte(s), 0o644)
		out = append(out, fmt.Sprintf("failed obligation: %s: %s: %s (%s)", badFn[0], bad[0].Name, bad[0].Text, bad[0].Pos))
		out = append(out, fmt.Sprintf("VIOLATION property=%s replay=%s no-failing-input-found", prop, path))
	}
	// ---- evidence ----
	cov := map[string]interface{}{
		"obligations":                obls,
		"discharged":                 disc,
		"checker_cmd":                "cd /verif && ./check.sh " + prop + " " + tier,
		"trusted_base":               append(append(sortedKeys(tb), baseTrust...), mathFor(back)...),
		"property_obligations":       mine,
		"property_obligations_ok":    mineOK,
		"discharged_by":              back,
		"solver_seconds":             round(solver),
		"functions_under_contract":   fns,
		"functions_inlined":          sortedKeys(inl),
		"undecided":                  nn(undec),
		"trusted_contracts":          nn(trusted),
		"contracts_without_function": nn(missing),
	}
	if loadErr != "" {
		cov["load_error"] = loadErr
	}
	if rp != nil {
		if ev0 := claimedLevel(prop); ev0 == "exploration" {
			cov["evaluations"], cov["distinct_nontrivial"], cov["rule"], cov["samples"] = rp.Evaluations, rp.Distinct, rp.Rule, rp.Samples
		}
		cov["bounded_replay"] = map[string]interface{}{"label": "bounded, not counted as proved", "evaluations": rp.Evaluations, "distinct_nontrivial": rp.Distinct, "rule": rp.Rule, "samples": rp.Samples, "stands_in_for": nn(rp.Standins), "ok": rp.OK, "failure": rp.Failure}
	}
	if rerr != nil {
		cov["bounded_replay"] = map[string]interface{}{"error": rerr.Error()}
	}
	ev["property"], ev["tier"], ev["seed"], ev["level"] = prop, tier, seed, claimedLevel(prop)
	ev["coverage"] = cov
	ev["assumptions"] = append(sortedKeys(notes), assumptions...)
	ev["wall_s"] = round(time.Since(t0).Seconds())
	ev["violations"] = viol
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(*flagVerif, "evidence", prop+".json"), append(b, '\n'), 0o644)

	nf := 0
	for _, r := range results {
		if r.Status == "proved" {
			nf++
		}
	}
	fmt.Printf("%s: %d contracts proved of %d (%d undecided, %d trusted), %d/%d obligations discharged, %d/%d for this property, %.1fs\n", prop, nf, len(results), len(undec), len(trusted), disc, obls, mineOK, mine, time.Since(t0).Seconds())
	if loadErr != "" {
		fmt.Println("not decided by proof:", loadErr)
	}
	for _, u := range undec {
		fmt.Println("undecided:", u)
	}
	for _, u := range missing {
		fmt.Println("no such function:", u)
	}
	for _, u := range failedElse {
		fmt.Println("not proved (other properties):", u)
	}
	if rp != nil {
		fmt.Printf("bounded replay: %d cases, ok=%v\n", rp.Evaluations, rp.OK)
	} else {
		fmt.Println("bounded replay did not run:", rerr)
	}
	for _, l := range out {
		fmt.Println(l)
	}
	return code
}

var slow = 1

var baseTrust = []string{
	"the verifier itself: /verif/gover (symbolic execution of the SSA form built by golang.org/x/tools/go/ssa) and the SMT solvers z3 and cvc5",
	"the Go type checker, compiler and runtime",
}

// mathTrust: facts about the curve used when a contract of the arithmetic back end takes part
var mathTrust = []string{
	"assumed mathematics: the unified addition law of the twisted Edwards curve -x^2+y^2=1+dx^2y^2 over GF(2^255-19) is complete (d is not a square) and is a group law, so adding the table entry for a digit to the point of the other digits gives the point of the sum",
	"checked by computation on every run, not assumed: every entry of the base point table is the multiple of the base point it stands for, by the affine law",
	"package variables of ecc/edwards25519 are never written after initialisation (checked syntactically: no store to a global)",
}

var assumptions = []string{
	"a slice found in memory or passed in has fewer than 2^40 elements",
	"cryptographic primitives are uninterpreted functions; HMAC, HKDF, SHA and CBC outputs are related only by determinism, lengths and CBC decryption inverting encryption",
	"single-threaded execution: no other goroutine changes the objects during a call",
	"pointer parameters and interface parameters are non-nil unless the contract says nilable; interfaces of the repository hold the repository's implementations",
	"stores and serializers passed in by the application do not change the objects the library holds",
}

func mathFor(back map[string]int) []string {
	for b := range back {
		if strings.Contains(b, "polynomials") {
			return mathTrust
		}
	}
	return nil
}

func nn(x []string) []string {
	if x == nil {
		return []string{}
	}
	return x
}

func round(x float64) float64 { return float64(int(x*100)) / 100 }

type knownT struct{ kind, prop, text string }

func loadKnown(dir string) []knownT {
	b, err := os.ReadFile(filepath.Join(dir, "known_findings.txt"))
	if err != nil {
		return nil
	}
	var out []knownT
	for _, l := range strings.Split(string(b), "\n") {
		for _, p := range []struct{ pre, kind string }{{"known: property=", "known"}, {"fixed: property=", "fixed"}} {
			if strings.HasPrefix(l, p.pre) {
				r := strings.TrimPrefix(l, p.pre)
				id, text, _ := strings.Cut(r, " ")
				out = append(out, knownT{p.kind, id, text})
			}
		}
	}
	return out
}

func replayCmd(prop, cs string) string {
	return fmt.Sprintf("cd /verif/replay && . /opt/vp/env.sh && go run . -prop %s -case '%s'", prop, cs)
}

// searchMore looks for a failing input of a property whose obligations fail:
// other seeds, and the thorough tier, for a few minutes.
func searchMore(prop string, seed int) *replayOut {
	type job struct {
		tier string
		seed int
	}
	jobs := []job{{"thorough", seed}, {"thorough", seed + 100}}
	for i := 1; i <= 6; i++ {
		jobs = append(jobs, job{"quick", seed + i})
	}
	res := make(chan *replayOut, len(jobs))
	sem := make(chan bool, 4)
	ctx, stop := context.WithCancel(context.Background())
	defer stop()
	t0 := time.Now()
	for _, j := range jobs {
		go func(j job) {
			sem <- true
			defer func() { <-sem }()
			left := 200 - int(time.Since(t0).Seconds())
			if ctx.Err() != nil || left < 10 {
				res <- nil
				return
			}
			r, err := runReplay(ctx, prop, j.tier, j.seed, left)
			if err != nil || r == nil || r.OK || r.TimedOut || ctx.Err() != nil {
				r = nil
			}
			res <- r
		}(j)
	}
	var found *replayOut
	for range jobs {
		if r := <-res; r != nil && found == nil {
			found = r
			stop()
		}
	}
	return found
}

func runReplay(ctx context.Context, prop, tier string, seed int, limit int) (*replayOut, error) {
	dir := filepath.Join(*flagVerif, "replay")
	if _, err := os.Stat(dir); err != nil {
		return nil, fmt.Errorf("no replay driver")
	}
	tmp, err := os.MkdirTemp("", "replay")
	if err != nil {
		return nil, err
	}
	defer os.RemoveAll(tmp)
	bin := filepath.Join(tmp, "replay")
	args := []string{"build", "-o", bin}
	if *flagRepo != "/repo" {
		// a scratch copy of the repository: same module file, other path
		mf := filepath.Join(tmp, "go.mod")
		b, _ := os.ReadFile(filepath.Join(dir, "go.mod"))
		os.WriteFile(mf, []byte(strings.ReplaceAll(string(b), "=> /repo", "=> "+*flagRepo)), 0o644)
		s, _ := os.ReadFile(filepath.Join(dir, "go.sum"))
		os.WriteFile(filepath.Join(tmp, "go.sum"), s, 0o644)
		args = append(args, "-modfile", mf)
	}
	args = append(args, ".")
	cmd := exec.Command("go", args...)
	cmd.Dir = dir
	if b, err := cmd.CombinedOutput(); err != nil {
		return nil, fmt.Errorf("replay build: %v: %s", err, b)
	}
	lim := "300"
	if tier == "thorough" {
		lim = "900"
	}
	if limit > 0 {
		lim = strconv.Itoa(limit)
	}
	cmd = exec.CommandContext(ctx, "timeout", lim, bin, "-prop", prop, "-tier", tier, "-seed", strconv.Itoa(seed))
	cmd.Cancel = func() error { return cmd.Process.Signal(syscall.SIGTERM) }
	cmd.Dir = tmp
	var errb strings.Builder
	cmd.Stderr = &errb
	b, err := cmd.Output()
	var r replayOut
	// the result is the last line
	ls := strings.Split(strings.TrimSpace(string(b)), "\n")
	if e2 := json.Unmarshal([]byte(ls[len(ls)-1]), &r); e2 != nil {
		last := ""
		for _, l := range strings.Split(errb.String(), "\n") {
			if strings.HasPrefix(l, "CASE ") {
				last = strings.TrimPrefix(l, "CASE ")
			}
		}
		if last != "" && err != nil {
			// the process died (fatal error, exit, no end) inside the case
			timed := cmd.ProcessState.ExitCode() == 124
			return &replayOut{Case: last, TimedOut: timed, Failure: fmt.Sprintf("the program dies: %v: %s", err, tail(errb.String(), 3000)), Evaluations: 1}, nil
		}
		return nil, fmt.Errorf("replay: %v: %s %s", err, e2, tail(errb.String(), 2000))
	}
	return &r, nil
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

// claimedLevel is the level MANIFEST.json states for the property.
func claimedLevel(prop string) string {
	var m struct {
		Checks []struct{ Property, Level string }
	}
	b, _ := os.ReadFile(filepath.Join(*flagVerif, "MANIFEST.json"))
	json.Unmarshal(b, &m)
	for _, c := range m.Checks {
		if c.Property == prop {
			return c.Level
		}
	}
	return "proof"
}
