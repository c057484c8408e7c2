package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"
)

type Replayer struct {
	dir string
	bin string
	mu  sync.Mutex
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
	err *bytes.Buffer
}

type replayCase struct {
	Harness string  `json:"harness"`
	Inputs  []NDVal `json:"inputs"`
	Times   int     `json:"times"`
}
type replayResult struct {
	Result string   `json:"result"` // ok | assert:<label> | panic:<msg> | assume
	Reach  []string `json:"reach"`
	Obs    []string `json:"obs"`
	Fatal  string   `json:"fatal"`
}

func newReplayer(repo string, overlay map[string][]byte) (*Replayer, error) {
	dir, err := os.MkdirTemp("", "gosym-replay-")
	if err != nil {
		return nil, err
	}
	rep := map[string]string{}
	i := 0
	for f, b := range overlay {
		i++
		p := filepath.Join(dir, fmt.Sprintf("f%d.go", i))
		if err := os.WriteFile(p, b, 0o644); err != nil {
			return nil, err
		}
		rep[f] = p
	}
	mainSrc := "package main\n\nimport raml \"" + ramlPath + "\"\n\nfunc main() { raml.VerifReplayMain() }\n"
	mp := filepath.Join(dir, "main.go")
	if err := os.WriteFile(mp, []byte(mainSrc), 0o644); err != nil {
		return nil, err
	}
	rep[filepath.Join(repo, "zzverif", "main.go")] = mp
	j, _ := json.Marshal(map[string]any{"Replace": rep})
	oj := filepath.Join(dir, "overlay.json")
	if err := os.WriteFile(oj, j, 0o644); err != nil {
		return nil, err
	}
	bin := filepath.Join(dir, "replay")
	c := exec.Command("go", "build", "-overlay", oj, "-o", bin, "./zzverif")
	c.Dir = repo
	if out, err := c.CombinedOutput(); err != nil {
		return nil, fmt.Errorf("%v\n%s", err, out)
	}
	return &Replayer{dir: dir, bin: bin}, nil
}

func (r *Replayer) close() {
	r.kill()
	os.RemoveAll(r.dir)
}

func (r *Replayer) kill() {
	if r.cmd != nil {
		r.in.Close()
		r.cmd.Process.Kill()
		r.cmd.Wait()
		r.cmd = nil
	}
}

func (r *Replayer) start() error {
	r.cmd = exec.Command(r.bin)
	scratch := filepath.Join(r.dir, "scratch")
	os.MkdirAll(scratch, 0o755)
	r.cmd.Dir = scratch
	r.cmd.Env = append(os.Environ(), "VERIF_SCRATCH="+scratch)
	in, err := r.cmd.StdinPipe()
	if err != nil {
		return err
	}
	out, err := r.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	r.err = &bytes.Buffer{}
	r.cmd.Stderr = r.err
	if err := r.cmd.Start(); err != nil {
		return err
	}
	r.in = in
	r.out = bufio.NewReaderSize(out, 1<<20)
	return nil
}

func (r *Replayer) run(c replayCase, timeout time.Duration) replayResult {
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.cmd == nil {
		if err := r.start(); err != nil {
			return replayResult{Fatal: err.Error()}
		}
	}
	b, _ := json.Marshal(c)
	if _, err := r.in.Write(append(b, '\n')); err != nil {
		r.kill()
		return replayResult{Fatal: "write: " + err.Error()}
	}
	type lr struct {
		s   string
		err error
	}
	ch := make(chan lr, 1)
	rd := r.out
	go func() {
		s, err := rd.ReadString('\n')
		ch <- lr{s, err}
	}()
	select {
	case x := <-ch:
		if x.err != nil {
			r.cmd.Wait()
			msg := r.err.String()
			r.cmd = nil
			first := ""
			for _, l := range strings.Split(msg, "\n") {
				if strings.Contains(l, "stack overflow") || strings.Contains(l, "stack exceeds") || strings.Contains(l, "fatal error") || strings.HasPrefix(l, "panic") {
					first += l + "; "
				}
			}
			return replayResult{Fatal: "process died: " + first}
		}
		var res replayResult
		if err := json.Unmarshal([]byte(x.s), &res); err != nil {
			return replayResult{Fatal: "bad reply: " + x.s}
		}
		return res
	case <-time.After(timeout):
		r.kill()
		return replayResult{Fatal: "timeout: no answer within " + timeout.String()}
	}
}

func reproduces(v *Violation, r replayResult) bool {
	switch v.Kind {
	case "assert":
		return strings.HasPrefix(r.Result, "assert:") || strings.HasPrefix(r.Result, "panic:")
	case "panic":
		return strings.HasPrefix(r.Result, "panic:") || strings.HasPrefix(r.Result, "assert:")
	case "hang":
		return strings.Contains(r.Fatal, "overflow") || strings.Contains(r.Fatal, "exceeds") || strings.HasPrefix(r.Fatal, "timeout")
	}
	return false
}

type known struct{ prop, label, text string }

func loadKnown(verif, prop string) []known {
	b, err := os.ReadFile(filepath.Join(verif, "known_findings.txt"))
	if err != nil {
		return nil
	}
	var out []known
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "known: property="+prop+" ") {
			continue
		}
		rest := strings.TrimPrefix(l, "known: property="+prop+" ")
		if strings.HasPrefix(rest, "label=") {
			lab, txt, _ := strings.Cut(rest[6:], " :: ")
			out = append(out, known{prop, strings.TrimSpace(lab), txt})
		}
	}
	return out
}

func (e *Engine) report(prop, verif string, rp *Replayer, t0 time.Time, tLoad, tExplore time.Duration) int {
	knowns := loadKnown(verif, prop)
	seenKnown := map[string]bool{}
	confirmed := map[string]*Violation{}
	unreproduced := 0
	var unrep []string
	tried := map[string]int{}
	sort.SliceStable(e.viols, func(i, j int) bool { return len(e.viols[i].Inputs) < len(e.viols[j].Inputs) })
	for _, v := range e.viols {
		k := v.Harness + "|" + v.Kind + "|" + v.Label
		if confirmed[k] != nil || tried[k] >= 12 {
			continue
		}
		tried[k]++
		if rp == nil {
			confirmed[k] = v
			continue
		}
		times := 1
		if v.Order {
			times = 300
		}
		to := 20 * time.Second
		res := rp.run(replayCase{v.Harness, v.Inputs, times}, to)
		v.Observed = res.Result + res.Fatal
		if reproduces(v, res) {
			if strings.HasPrefix(res.Result, "panic:") {
				v.Detail = strings.TrimSpace(v.Detail + " " + res.Result)
			} else if l := strings.TrimPrefix(res.Result, "assert:"); l != res.Result && l != v.Label {
				v.Detail = strings.TrimSpace(v.Detail + " (the engine stops at " + v.Kind + " " + v.Label + ")")
				v.Kind, v.Label = "assert", l
			}
			confirmed[k] = v
		} else {
			unreproduced++
			unrep = append(unrep, k+" -> "+res.Result+res.Fatal)
		}
	}
	// validate the encoding on completed paths, and replay paths the engine could not finish
	validated, mismatched, forced := 0, 0, 0
	var mism []string
	if rp != nil {
		deadline := time.Now().Add(20 * time.Second)
		for _, h := range e.harnesses {
			limit := 25
			if e.tier == "thorough" {
				limit = 300
			}
			step := 1
			if len(h.samples) > limit {
				step = len(h.samples) / limit
			}
			for i := 0; i < len(h.samples); i++ {
				s := h.samples[i]
				unfinished := s.End != "done"
				if !unfinished && i%step != 0 {
					continue
				}
				if time.Now().After(deadline) {
					break
				}
				res := rp.run(replayCase{s.H, s.Inputs, 1}, 20*time.Second)
				if unfinished {
					forced++
					if strings.HasPrefix(res.Result, "assert:") || strings.HasPrefix(res.Result, "panic:") || res.Fatal != "" {
						v := &Violation{Harness: s.H, Kind: "assert", Label: strings.TrimPrefix(res.Result, "assert:"), Detail: "path left the engine (" + s.End + ") and failed natively: " + res.Result + res.Fatal, Inputs: s.Inputs, Observed: res.Result + res.Fatal}
						if strings.HasPrefix(res.Result, "panic:") {
							v.Kind, v.Label = "panic", "uncaught panic"
						}
						if res.Fatal != "" {
							v.Kind, v.Label = "hang", "nontermination"
						}
						k := v.Harness + "|" + v.Kind + "|" + v.Label
						if confirmed[k] == nil {
							confirmed[k] = v
						}
					}
					continue
				}
				ok := res.Result == "ok" && strings.Join(res.Reach, ",") == strings.Join(s.Reach, ",") && strings.Join(res.Obs, ",") == strings.Join(s.Obs, ",")
				if ok {
					validated++
				} else {
					mismatched++
					if len(mism) < 8 {
						b, _ := json.Marshal(s)
						rb, _ := json.Marshal(res)
						mism = append(mism, string(b)+" native: "+string(rb))
					}
				}
			}
		}
	}
	// group, apply known findings
	var keys []string
	for k := range confirmed {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	os.MkdirAll(filepath.Join(verif, "evidence", "replay"), 0o755)
	nviol := 0
	var knownSeen []string
	for _, k := range keys {
		v := confirmed[k]
		isKnown := false
		for _, kn := range knowns {
			if kn.label == v.Label || kn.label == v.Harness+"/"+v.Label {
				isKnown = true
				if !seenKnown[kn.label] {
					seenKnown[kn.label] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, kn.text)
					knownSeen = append(knownSeen, kn.label)
				}
			}
		}
		if isKnown {
			continue
		}
		nviol++
		name := fmt.Sprintf("%s_%d.json", prop, nviol)
		path := filepath.Join(verif, "evidence", "replay", name)
		b, _ := json.MarshalIndent(v, "", " ")
		os.WriteFile(path, b, 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
		fmt.Printf("  harness %s, %s %q %s\n  inputs %s\n", v.Harness, v.Kind, v.Label, v.Detail, inputsText(v.Inputs))
	}
	// evidence
	paths, pending := 0, 0
	var per []map[string]any
	reasons := map[string]int{}
	asserts := 0
	var samples []any
	exhaustive := true
	for _, h := range e.harnesses {
		paths += h.Paths
		pending += h.Pending
		a := map[string]any{}
		for l, s := range h.Asserts {
			a[l] = s.Checked
			asserts += s.Checked
		}
		if h.Pending > 0 || len(h.IncReasons) > 0 {
			exhaustive = false
		}
		for r, n := range h.IncReasons {
			reasons[r] += n
		}
		per = append(per, map[string]any{"harness": h.Name, "paths": h.Paths, "completed": h.Completed, "cut_by_assumption": h.Assumed, "unexplored_pending": h.Pending, "asserts_checked": a, "reached": h.Reach, "map_order_paths": h.OrderPaths})
		if len(h.samples) > 0 && len(samples) < 6 {
			s := h.samples[len(h.samples)/2]
			samples = append(samples, map[string]any{"harness": s.H, "inputs": inputsText(s.Inputs), "reached": s.Reach})
		}
	}
	if len(samples) == 0 {
		samples = append(samples, "no completed path")
	}
	var funcs []string
	for f := range e.covered {
		funcs = append(funcs, strings.ReplaceAll(f, ramlPath, "raml"))
	}
	sort.Strings(funcs)
	bounds, assumptions := harnessDocs(verif, prop)
	ev := map[string]any{
		"property": prop, "tier": e.tier, "seed": e.seed, "level": "model_checking",
		"wall_s":     round2(time.Since(t0).Seconds()),
		"violations": nviol,
		"assumptions": append(assumptions,
			"stdlib formatting, regexp, big.Int, yaml.v3 scalar resolution, JSON text and file reads are modelled by the engine (see DESIGN.md), the code of the repository and its other dependencies is executed from its SSA",
			"64-bit linux/amd64 integer and float semantics"),
		"coverage": map[string]any{
			"states":                        paths,
			"transitions":                   e.transitions,
			"traces_validated_against_impl": validated,
			"samples":                       samples,
			"exhaustive":                    exhaustive && len(e.solverErrs) == 0,
			"what_a_state_is":               "one completed symbolic path (a path condition with its assertion results); a transition is one symbolic branch, enumeration or choice point decided",
			"asserts_checked":               asserts,
			"obligations_sent_to_solver":    e.obligations,
			"solver":                        map[string]any{"binary": e.solverBin, "queries": e.queries, "sat": e.sat, "unsat": e.unsat, "unknown": e.unknown, "solver_seconds": round2(e.solverTime.Seconds()), "errors": e.solverErrs},
			"ssa_instructions_executed":     e.steps,
			"functions_encoded":             funcs,
			"functions_encoded_count":       len(funcs),
			"harnesses":                     per,
			"bounds":                        bounds,
			"bound_reductions":              reasons,
			"unexplored_paths":              pending,
			"candidate_counterexamples":     len(e.viols),
			"candidates_not_reproduced":     unrep,
			"encoding_mismatches":           mism,
			"encoding_mismatch_count":       mismatched,
			"paths_finished_by_native_run":  forced,
			"known_findings_seen":           knownSeen,
			"load_s":                        round2(tLoad.Seconds()),
			"explore_s":                     round2(tExplore.Seconds()),
			"notes":                         e.notes,
		},
	}
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(verif, "evidence", prop+".json"), b, 0o644)
	fmt.Printf("property %s: %d paths, %d asserts, %d queries (%.1fs solver), validated %d, mismatches %d, unreproduced %d, pending %d, reductions %d, longest path %d, load %.1fs explore %.1fs total %.1fs\n",
		prop, paths, asserts, e.queries, e.solverTime.Seconds(), validated, mismatched, unreproduced, pending, len(reasons), e.longest, tLoad.Seconds(), tExplore.Seconds(), time.Since(t0).Seconds())
	if e.verbose {
		for _, h := range e.harnesses {
			fmt.Printf("  %s: paths %d completed %d cut %d pending %d order %d\n     reach %v\n     inc %v\n", h.Name, h.Paths, h.Completed, h.Assumed, h.Pending, h.OrderPaths, h.Reach, h.IncReasons)
			for l, s := range h.Asserts {
				fmt.Printf("     assert %-50s checked %d failed %d\n", l, s.Checked, s.Failed)
			}
		}
	}
	for _, m := range mism {
		fmt.Println("ENCODING-MISMATCH", m)
	}
	for _, u := range unrep {
		fmt.Println("NOT-REPRODUCED", u)
	}
	if len(e.solverErrs) > 0 {
		fmt.Println("SOLVER-ERRORS", len(e.solverErrs), e.solverErrs[0])
	}
	if nviol > 0 {
		return 1
	}
	return 0
}

func inputsText(l []NDVal) string {
	var p []string
	for _, v := range l {
		s := v.K
		if v.N != "" {
			s += ":" + v.N
		}
		p = append(p, s+"="+v.V)
	}
	return strings.Join(p, " ")
}

func round2(f float64) float64 { return float64(int(f*100)) / 100 }

// harnessDocs collects "//bound:" and "//assume:" lines of the harness files.
func harnessDocs(verif, prop string) (bounds, assumes []string) {
	files, _ := harnessFiles(verif, prop)
	for _, f := range files {
		b, _ := os.ReadFile(f)
		for _, l := range strings.Split(string(b), "\n") {
			l = strings.TrimSpace(l)
			if strings.HasPrefix(l, "//bound: ") {
				bounds = append(bounds, l[9:])
			}
			if strings.HasPrefix(l, "//assume: ") {
				assumes = append(assumes, l[10:])
			}
		}
	}
	return
}
