package main

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"go/ast"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
)

// Trace is a completed path, used to validate the encoding against the real build.
type Trace struct {
	Harness string   `json:"harness"`
	Values  []NDVal  `json:"values"`
	Reach   []string `json:"reach"`
}

type replayFile struct {
	Harness  string  `json:"harness"`
	Label    string  `json:"label"`
	Kind     string  `json:"kind"`
	Detail   string  `json:"detail,omitempty"`
	Trace    string  `json:"trace,omitempty"`
	Thorough bool    `json:"thorough"`
	Values   []NDVal `json:"values"`
	Property string  `json:"property"`
}

type known struct {
	prop, harness, label, what string
}

// loadKnown reads the known-findings file.
//
//	KNOWN-FINDING: property=C05 harness=C05_X label="..." what fails
func loadKnown(path string) []known {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var r []known
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "KNOWN-FINDING:") {
			continue
		}
		var k known
		rest := strings.TrimSpace(strings.TrimPrefix(l, "KNOWN-FINDING:"))
		for rest != "" {
			switch {
			case strings.HasPrefix(rest, "property="):
				k.prop, rest, _ = strings.Cut(rest[len("property="):], " ")
				rest = strings.TrimSpace(rest)
				continue
			case strings.HasPrefix(rest, "harness="):
				k.harness, rest, _ = strings.Cut(rest[len("harness="):], " ")
				rest = strings.TrimSpace(rest)
				continue
			case strings.HasPrefix(rest, "label="):
				q, err := strconv.QuotedPrefix(rest[len("label="):])
				if err == nil {
					k.label, _ = strconv.Unquote(q)
					rest = strings.TrimSpace(rest[len("label=")+len(q):])
					continue
				}
			}
			k.what = rest
			break
		}
		r = append(r, k)
	}
	return r
}

func goEnv() []string {
	return append(os.Environ(), "GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=-mod=mod", "GOWORK=off")
}

// Replayer builds and runs the native replay program.
type Replayer struct {
	dir      string // harness module
	tmp      string
	bin, rac string
	names    []string
}

func NewReplayer(dir string, names []string) (*Replayer, error) {
	tmp, err := os.MkdirTemp("", "verif-replay-")
	if err != nil {
		return nil, err
	}
	return &Replayer{dir: dir, tmp: tmp, names: names}, nil
}

func (r *Replayer) Close() { os.RemoveAll(r.tmp) }

func (r *Replayer) build(race bool) (string, error) {
	if !race && r.bin != "" {
		return r.bin, nil
	}
	if race && r.rac != "" {
		return r.rac, nil
	}
	var sb strings.Builder
	sb.WriteString("package main\n\nimport (\n\t\"verif/harness/h\"\n\t\"verif/harness/replay\"\n)\n\nfunc main() {\n\treplay.Main(map[string]func(){\n")
	for _, n := range r.names {
		fmt.Fprintf(&sb, "\t\t%q: h.%s,\n", n, n)
	}
	sb.WriteString("\t})\n}\n")
	src := filepath.Join(r.tmp, "main.go")
	if err := os.WriteFile(src, []byte(sb.String()), 0o644); err != nil {
		return "", err
	}
	ov := filepath.Join(r.tmp, "overlay.json")
	oj, _ := json.Marshal(map[string]any{"Replace": map[string]string{filepath.Join(r.dir, "cmd/replaygen/main.go"): src}})
	os.WriteFile(ov, oj, 0o644)
	out := filepath.Join(r.tmp, "replay")
	args := []string{"build", "-overlay", ov}
	if race {
		out += "-race"
		args = append(args, "-race")
	}
	args = append(args, "-o", out, "./cmd/replaygen")
	c := exec.Command("go", args...)
	c.Dir = r.dir
	c.Env = goEnv()
	if b, err := c.CombinedOutput(); err != nil {
		return "", fmt.Errorf("replay build: %v\n%s", err, b)
	}
	if race {
		r.rac = out
	} else {
		r.bin = out
	}
	return out, nil
}

// Run replays one counterexample; returns true when the real code violates the property.
func (r *Replayer) Run(file, kind string) (bool, string) {
	bin, err := r.build(kind == "write")
	if err != nil {
		return false, err.Error()
	}
	tmo := 20 * time.Second
	ctx, cancel := context.WithTimeout(context.Background(), tmo)
	defer cancel()
	c := exec.CommandContext(ctx, bin, file)
	c.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66", "GOMEMLIMIT=3GiB")
	c.Dir = r.tmp
	var out bytes.Buffer
	c.Stdout, c.Stderr = &out, &out
	err = c.Run()
	s := out.String()
	if len(s) > 4000 {
		s = s[:2000] + "\n…\n" + s[len(s)-2000:]
	}
	code := 0
	if err != nil {
		code = -1
		var ee *exec.ExitError
		if errors.As(err, &ee) {
			code = ee.ExitCode()
		}
	}
	if ctx.Err() != nil {
		// did not terminate
		return kind == "bound", "replay timed out\n" + s
	}
	switch kind {
	case "write":
		return code == 66, s
	case "bound":
		return code == 2 && strings.Contains(s, "stack overflow"), s
	default:
		return code == 1, s
	}
}

// Validate runs completed paths natively; each must pass and take the same reach marks.
func (r *Replayer) Validate(trs []Trace, thorough bool) (int, []string) {
	if len(trs) == 0 {
		return 0, nil
	}
	bin, err := r.build(false)
	if err != nil {
		return 0, []string{err.Error()}
	}
	f := filepath.Join(r.tmp, "traces.json")
	b, _ := json.Marshal(map[string]any{"thorough": thorough, "traces": trs})
	os.WriteFile(f, b, 0o644)
	ctx, cancel := context.WithTimeout(context.Background(), 120*time.Second)
	defer cancel()
	c := exec.CommandContext(ctx, bin, "-validate", f)
	c.Dir = r.tmp
	out, err := c.Output()
	if err != nil && len(out) == 0 {
		return 0, []string{fmt.Sprintf("validate: %v", err)}
	}
	ok := 0
	var bad []string
	for _, l := range strings.Split(string(out), "\n") {
		switch {
		case l == "ok":
			ok++
		case strings.HasPrefix(l, "bad "):
			bad = append(bad, l[4:])
		}
	}
	return ok, bad
}

func harnessDocs(pkgs []*packages.Package) map[string]string {
	docs := map[string]string{}
	for _, p := range pkgs {
		for _, f := range p.Syntax {
			for _, d := range f.Decls {
				if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil && fd.Doc != nil {
					docs[fd.Name.Name] = strings.Join(strings.Fields(fd.Doc.Text()), " ")
				}
			}
		}
	}
	return docs
}

func (e *Engine) harnesses(match func(string) bool) []*Harness {
	var hs []*Harness
	for _, m := range e.mainPkg.Members {
		f, ok := m.(*ssa.Function)
		if !ok || f.Signature.Params().Len() != 0 || !match(f.Name()) {
			continue
		}
		hs = append(hs, &Harness{Name: f.Name(), fn: f})
	}
	sort.Slice(hs, func(i, j int) bool { return hs[i].Name < hs[j].Name })
	return hs
}

func max0(n int) int {
	if n < 0 {
		return 0
	}
	return n
}

func runCheck(verif, prop, tier string, budget time.Duration, nw int) int {
	t0 := time.Now()
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	dir := filepath.Join(verif, "harness")
	e, err := Load(dir, []string{"./h"})
	if err != nil {
		fmt.Fprintln(os.Stderr, "cannot load:", err)
		return 3
	}
	loadT := time.Since(t0)
	e.thorough = tier == "thorough"
	e.stopOnCE = true
	e.seed = int64(seed)
	if e.thorough {
		e.solverTimeout = 60000
	}
	hs := e.harnesses(func(n string) bool {
		return strings.HasPrefix(n, prop+"_") || e.thorough && strings.HasPrefix(n, prop+"T_")
	})
	if len(hs) == 0 {
		fmt.Fprintln(os.Stderr, "no harness for", prop)
		return 3
	}
	e.Run(hs, nw, time.Now().Add(budget))

	var names []string
	for _, h := range hs {
		names = append(names, h.Name)
	}
	rp, err := NewReplayer(dir, names)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	defer rp.Close()

	kn := loadKnown(filepath.Join(verif, "KNOWN_FINDINGS.txt"))
	rdir := filepath.Join(verif, "evidence", "replay")
	os.MkdirAll(rdir, 0o755)
	old, _ := filepath.Glob(filepath.Join(rdir, prop+"-*.json"))
	for _, f := range old {
		os.Remove(f)
	}

	violations, nce := 0, 0
	var notes []string
	knownHit := map[string]bool{}
	for _, h := range hs {
		for _, key := range sortedKeys(h.ces) {
			ce := h.ces[key]
			nce++
			var kf *known
			for i := range kn {
				if kn[i].prop == prop && kn[i].harness == h.Name && kn[i].label == ce.Label {
					kf = &kn[i]
				}
			}
			if kf == nil && violations >= 8 {
				continue
			}
			rf := replayFile{Harness: h.Name, Label: ce.Label, Kind: ce.Kind, Detail: ce.Detail, Trace: ce.Trace, Thorough: e.thorough, Values: ce.Values, Property: prop}
			b, _ := json.MarshalIndent(rf, "", " ")
			path := filepath.Join(rdir, fmt.Sprintf("%s-%d.json", prop, nce))
			os.WriteFile(path, b, 0o644)
			ok, out := rp.Run(path, ce.Kind)
			if !ok {
				if ce.Kind == "bound" {
					notes = append(notes, fmt.Sprintf("%s: bound reached (%s), native run terminates: reduced bound", h.Name, ce.Detail))
				} else {
					notes = append(notes, fmt.Sprintf("%s: counterexample for %q did not reproduce natively: %s", h.Name, ce.Label, firstLines(out, 6)))
				}
				continue
			}
			if kf != nil {
				if !knownHit[kf.what] {
					knownHit[kf.what] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, kf.what)
				}
				os.Remove(path)
				continue
			}
			violations++
			fmt.Printf("  %s: %s [%s]\n  values: %s\n  %s\n", h.Name, ce.Label, ce.Kind, valStr(ce.Values), strings.ReplaceAll(firstLines(out, 12), "\n", "\n  "))
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
		}
	}

	// validate the encoding on completed paths
	var trs []Trace
	for _, h := range hs {
		trs = append(trs, h.traces...)
	}
	valid, bad := rp.Validate(trs, e.thorough)
	for _, b := range bad {
		notes = append(notes, "encoding/native divergence: "+b)
	}

	// evidence
	var q, sats, unsats, unk, ck, dh, ch, merges int64
	var st time.Duration
	for _, w := range e.workers {
		q += w.sol.Queries
		sats += w.sol.Sats
		unsats += w.sol.Unsats
		unk += w.sol.Unknwn
		ck += w.checks
		dh += w.domHits
		ch += w.cacheHits
		merges += w.merges
		st += w.sol.Time
	}
	docs := harnessDocs(e.src)
	var paths, infeas, asserts, conc, obl, disch, dropped, decs int64
	fns := map[string]bool{}
	var samples []any
	var hinfo []map[string]any
	inconclusive := map[string]int64{}
	for _, h := range hs {
		paths += h.paths
		infeas += h.infeasible
		asserts += h.asserts
		conc += h.assertsConc
		obl += h.obligations
		disch += h.discharged
		dropped += h.dropped
		decs += h.decisions
		for f := range h.fns {
			fns[f.name] = true
		}
		for k, v := range h.inconclusive {
			inconclusive[h.Name+": "+k] += v
		}
		if h.dropped > 0 {
			notes = append(notes, fmt.Sprintf("%s: %d subtrees not explored (time budget or enough counterexamples): reduced bound", h.Name, h.dropped))
		}
		if h.asserts == 0 && len(h.ces) == 0 {
			notes = append(notes, h.Name+": VACUOUS, no assertion reached")
		}
		for _, l := range e.reachLabels(h.fn) {
			if h.reach[l] == 0 && h.dropped == 0 {
				notes = append(notes, fmt.Sprintf("%s: reachability witness %q not reached", h.Name, l))
			}
		}
		for i, s := range h.samples {
			if i < 2 && len(samples) < 40 {
				samples = append(samples, h.Name+": "+s)
			}
		}
		hinfo = append(hinfo, map[string]any{"harness": h.Name, "bounds": docs[h.Name], "paths": h.paths, "infeasible": h.infeasible,
			"assertions_reached": h.asserts, "solver_obligations": h.obligations, "discharged": h.discharged, "decided_on_path": h.assertsConc,
			"reach_witnesses": h.reach, "unexplored": h.dropped, "wall_s": round2(h.wall.Seconds())})
	}
	for _, k := range sortedKeys(inconclusive) {
		notes = append(notes, fmt.Sprintf("inconclusive x%d: %s", inconclusive[k], k))
	}
	var fl []string
	for f := range fns {
		fl = append(fl, f)
	}
	sort.Strings(fl)
	if len(samples) == 0 {
		samples = append(samples, "none")
	}
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
		"coverage": map[string]any{
			"states": paths, "transitions": decs, "traces_validated_against_impl": valid, "samples": samples,
			"explanation":        "states = symbolic paths of the real code explored to the end (each stands for all inputs satisfying its path condition); transitions = solver-decided branch decisions on them; traces_validated = completed paths whose solver model was run through the natively compiled code with the same outcome",
			"harnesses":          hinfo,
			"functions_encoded":  fl,
			"n_functions":        len(fl),
			"infeasible_paths":   infeas,
			"assertions_reached": asserts,
			"obligations":        obl,
			"discharged":         disch,
			"decided_on_path":    conc,
			"feasibility_checks": ck,
			"finite_domain":      dh,
			"cached":             ch,
			"smt_queries":        q, "smt_sat": sats, "smt_unsat": unsats, "smt_unknown": unk,
			"solver_time_s":  round2(st.Seconds()),
			"merged_forks":   merges,
			"unexplored":     dropped,
			"inconclusive":   inconclusive,
			"exhaustive":     dropped == 0 && len(inconclusive) == 0,
			"notes":          notes,
			"known_findings": len(knownHit),
		},
		"assumptions": assumptions,
		"wall_s":      round2(time.Since(t0).Seconds()),
		"violations":  violations,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(verif, "evidence", prop+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	for _, n := range notes {
		fmt.Println("note:", n)
	}
	fmt.Printf("%s %s: %d harnesses, %d paths, %d assertions reached (%d decided by path condition, %d/%d solver obligations discharged), %d functions encoded, %d SMT queries (%.1fs), %d traces validated natively, load %.1fs, wall %.1fs, violations %d\n",
		prop, tier, len(hs), paths, asserts, conc, disch, obl, len(fl), q, st.Seconds(), valid, loadT.Seconds(), time.Since(t0).Seconds(), violations)
	if violations > 0 {
		return 1
	}
	return 0
}

var assumptions = []string{
	"bounds are those stated per harness; nothing is claimed outside them",
	"the engine interprets go/ssa of the current /repo source; trusted: go/ssa, this interpreter (validated on every run against native traces), z3",
	"reflect, sync, sync/atomic, bytealg and part of math are modelled; Go map iteration is explored in insertion order only",
	"float formatting is executed only for concrete floats",
}

func round2(f float64) float64 { return float64(int64(f*100)) / 100 }

func firstLines(s string, n int) string {
	ls := strings.Split(strings.TrimSpace(s), "\n")
	if len(ls) > n {
		ls = ls[:n]
	}
	return strings.Join(ls, "\n")
}

func valStr(vs []NDVal) string {
	var sb strings.Builder
	for i, v := range vs {
		if i > 0 {
			sb.WriteByte(' ')
		}
		fmt.Fprintf(&sb, "%s=%d", v.Kind, v.Val)
	}
	return sb.String()
}

// reachLabels collects the constant labels of nd.Reach in the harness and its closures.
func (e *Engine) reachLabels(f *ssa.Function) []string {
	var r []string
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(*ssa.Call); ok {
				if g, ok := c.Call.Value.(*ssa.Function); ok && g.Name() == "Reach" && strings.HasSuffix(pkgPath(g), "/nd") {
					if k, ok := c.Call.Args[0].(*ssa.Const); ok {
						s, _ := strconv.Unquote(k.Value.ExactString())
						r = append(r, s)
					}
				}
			}
		}
	}
	for _, a := range f.AnonFuncs {
		r = append(r, e.reachLabels(a)...)
	}
	return r
}

var _ = rand.Int
