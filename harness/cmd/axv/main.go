// axv builds the checks from /repo's working tree and runs them.
//
//	axv check ID          run the check of one property (VERIF_SEED, VERIF_TIER)
//	axv replay FILE       run the case in a replay file again
//	axv setup             build everything once, to warm the build cache
package main

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"axverif/fw"
)

// area maps a property to the props package that holds it.
var area = map[string][]string{
	"chans": {"C01", "C02", "C03", "C04", "C05", "C55"},
	"base": {"C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14",
		"C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22"},
	"maps":     {"C23", "C24", "C25", "C26", "C27", "C28", "C29", "C30", "C31", "C50", "C51", "C52"},
	"guava":    {"C32", "C33", "C34", "C35", "C36", "C37", "C53"},
	"req":      {"C38", "C39", "C40", "C41", "C42", "C43", "C57"},
	"mem":      {"C54"},
	"nested":   {"C58"},
	"own":      {"C59"},
	"builders": {"C56", "C60"},
	"keys":     {"C61"},
	"wait":     {"C44", "C45", "C46", "C47", "C48", "C49"},
}

const repo = "/repo"

var root string // the folder that holds check.sh

func areaOf(id string) string {
	for a, ids := range area {
		for _, x := range ids {
			if x == id {
				return a
			}
		}
	}
	return ""
}

func die(format string, a ...any) {
	fmt.Printf("CHECK-ERROR "+format+"\n", a...)
	os.Exit(2)
}

func main() {
	if len(os.Args) < 2 {
		die("usage: axv check ID | replay FILE | setup")
	}
	root = os.Getenv("AXV_ROOT")
	if root == "" {
		die("AXV_ROOT is not set")
	}
	switch os.Args[1] {
	case "check":
		if len(os.Args) < 3 {
			die("usage: axv check ID")
		}
		check(os.Args[2])
	case "replay":
		if len(os.Args) < 3 {
			die("usage: axv replay FILE")
		}
		replay(os.Args[2])
	case "setup":
		setup()
	default:
		die("unknown command %q", os.Args[1])
	}
}

func buildDir() string { return filepath.Join(root, ".build") }

// build makes the test binary of an area in a flavour.
func build(ar, flavour, overlay string) (string, error) {
	out := filepath.Join(buildDir(), ar+"."+flavour)
	args := []string{"test", "-c", "-vet=off", "-ldflags=-s -w", "-o", out}
	if flavour == "race" {
		args = append(args, "-race")
	}
	if flavour != "plain" && overlay != "" {
		args = append(args, "-overlay", overlay)
	}
	args = append(args, "./props/"+ar)
	c := exec.Command("go", args...)
	c.Dir = filepath.Join(root, "harness")
	b, err := c.CombinedOutput()
	if err != nil {
		return "", fmt.Errorf("go %s: %v\n%s", strings.Join(args, " "), err, b)
	}
	return out, nil
}

func prepareInstrumentation() (string, int) {
	overlay, n, err := instrument(repo, filepath.Join(buildDir(), "instr"))
	if err != nil {
		fmt.Printf("note: not instrumented: %v\n", err)
		return "", 0
	}
	return overlay, n
}

func buildAll(ar string, flavours []string) map[string]string {
	overlay, points := "", 0
	for _, f := range flavours {
		if f != "plain" && overlay == "" {
			overlay, points = prepareInstrumentation()
		}
	}
	_ = points
	out := map[string]string{}
	var mu sync.Mutex
	var wg sync.WaitGroup
	var first error
	for _, f := range flavours {
		wg.Add(1)
		go func() {
			defer wg.Done()
			bin, err := build(ar, f, overlay)
			if err != nil && f != "plain" && overlay != "" {
				fmt.Printf("note: the instrumented build failed, using the plain source: %.300v\n", err)
				bin, err = build(ar, f, "")
			}
			mu.Lock()
			defer mu.Unlock()
			if err != nil && first == nil {
				first = err
			}
			out[f] = bin
		}()
	}
	wg.Wait()
	if first != nil {
		die("build: %v", first)
	}
	return out
}

func setup() {
	must(os.MkdirAll(buildDir(), 0o755))
	for ar := range area {
		if _, err := os.Stat(filepath.Join(root, "harness", "props", ar)); err != nil {
			continue
		}
		buildAll(ar, []string{"plain", "sched", "race"})
	}
	os.RemoveAll(filepath.Join(buildDir(), "instr"))
	fmt.Println("setup done")
}

func must(err error) {
	if err != nil {
		die("%v", err)
	}
}

type plannedPart struct {
	Name, Rule string
	Runs       []fw.Run
}

func planOf(bin, id string) []plannedPart {
	c := exec.Command(bin, "-test.run=^TestAXV$")
	c.Env = append(os.Environ(), "AXV_ROLE=plan", "AXV_ID="+id)
	b, err := c.CombinedOutput()
	if err != nil {
		die("plan: %v\n%s", err, b)
	}
	for _, l := range strings.Split(string(b), "\n") {
		if rest, ok := strings.CutPrefix(l, "AXV-PLAN "); ok {
			var ps []plannedPart
			must(json.Unmarshal([]byte(rest), &ps))
			if len(ps) == 0 {
				die("no such property: %s", id)
			}
			return ps
		}
	}
	die("plan: no answer\n%s", b)
	return nil
}

type knownFile struct {
	Findings []struct {
		Property  string `json:"property"`
		Signature string `json:"signature"`
		What      string `json:"what"`
	} `json:"findings"`
	Fixed []string `json:"fixed"`
}

func readKnown() (k knownFile) {
	b, err := os.ReadFile(filepath.Join(root, "known_findings.json"))
	if err != nil {
		return
	}
	must(json.Unmarshal(b, &k))
	return
}

func seedOf() (uint64, int64) {
	s := os.Getenv("VERIF_SEED")
	if s == "" {
		s = "1"
	}
	n, err := strconv.ParseInt(s, 10, 64)
	if err != nil {
		die("VERIF_SEED=%q is not a number", s)
	}
	return uint64(n), n
}

func drivers(plain string, spec fw.Spec, scratch string) []fw.Out {
	outs := make([]fw.Out, spec.Shards)
	var wg sync.WaitGroup
	for i := 0; i < spec.Shards; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			s := spec
			s.Shard = i
			s.Out = filepath.Join(scratch, fmt.Sprintf("out%d.json", i))
			sf := filepath.Join(scratch, fmt.Sprintf("spec%d.json", i))
			b, _ := json.Marshal(s)
			if err := os.WriteFile(sf, b, 0o644); err != nil {
				outs[i].Errors = []string{err.Error()}
				return
			}
			c := exec.Command(plain, "-test.run=^TestAXV$", "-test.timeout=0")
			c.Env = append(os.Environ(), "AXV_ROLE=driver", "AXV_SPEC="+sf, "GOMAXPROCS=2")
			c.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
			b, err := c.CombinedOutput()
			if err != nil {
				outs[i].Errors = []string{fmt.Sprintf("driver: %v\n%.3000s", err, b)}
				return
			}
			ob, err := os.ReadFile(s.Out)
			if err == nil {
				err = json.Unmarshal(ob, &outs[i])
			}
			if err != nil {
				outs[i].Errors = []string{fmt.Sprintf("driver: %v\n%.3000s", err, b)}
			}
		}()
	}
	wg.Wait()
	return outs
}

func scratchDir() string {
	must(os.MkdirAll(buildDir(), 0o755))
	d, err := os.MkdirTemp(buildDir(), "run-")
	must(err)
	return d
}

func check(id string) {
	start := time.Now()
	ar := areaOf(id)
	if ar == "" {
		die("no such property: %s", id)
	}
	must(os.MkdirAll(buildDir(), 0o755))
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	useed, seed := seedOf()
	plan, flavours := fastPlan(ar, id)
	bins := buildAll(ar, flavours)
	if plan == nil {
		plan = planOf(bins["plain"], id)
		need := map[string]bool{}
		for _, p := range plan {
			for _, r := range p.Runs {
				need[r.Flavour] = true
			}
		}
		var more []string
		for f := range need {
			if bins[f] == "" {
				more = append(more, f)
			}
		}
		if len(more) > 0 {
			for f, b := range buildAll(ar, more) {
				bins[f] = b
			}
		}
	}
	built := time.Since(start)
	scratch := scratchDir()
	defer os.RemoveAll(scratch)
	known := readKnown()
	spec := fw.Spec{
		Property: id, Tier: tier, Seed: useed, Shards: 8, Workers: bins,
		Stop:     filepath.Join(scratch, "stop"),
		Deadline: time.Now().Add(map[string]time.Duration{"quick": 300 * time.Second, "thorough": 3 * time.Hour}[tier]).Unix(),
		Shrink:   map[string]int{"quick": 8, "thorough": 60}[tier],
		Only:     os.Getenv("AXV_PART"),
	}
	for _, f := range known.Findings {
		if f.Property == id {
			spec.Known = append(spec.Known, f.Signature)
		}
	}
	outs := drivers(bins["plain"], spec, scratch)

	parts := map[string]*fw.PartStat{}
	distinct := map[uint64]struct{}{}
	var failures []fw.Failure
	var errs []string
	knownSeen := map[string]string{}
	restarts := 0
	for i, o := range outs {
		errs = append(errs, o.Errors...)
		failures = append(failures, o.Failures...)
		restarts += o.Restarts
		for k, v := range o.Known {
			knownSeen[k] = v
		}
		for n, st := range o.Parts {
			m := parts[n]
			if m == nil {
				m = &fw.PartStat{Labels: map[string]int{}, Flavours: map[string]int{}}
				parts[n] = m
			}
			m.Evaluations += st.Evaluations
			m.NonTrivial += st.NonTrivial
			m.Planned += st.Planned
			m.MaxMS = max(m.MaxMS, st.MaxMS)
			for k, v := range st.Labels {
				m.Labels[k] += v
			}
			for k, v := range st.Flavours {
				m.Flavours[k] += v
			}
			if len(m.Samples) < 2 {
				m.Samples = append(m.Samples, st.Samples...)
				if len(m.Samples) > 2 {
					m.Samples = m.Samples[:2]
				}
			}
		}
		hb, _ := os.ReadFile(filepath.Join(scratch, fmt.Sprintf("out%d.json.hashes", i)))
		for j := 0; j+8 <= len(hb); j += 8 {
			distinct[binary.LittleEndian.Uint64(hb[j:])] = struct{}{}
		}
	}

	// evidence
	var rules, samples []string
	partCov := []map[string]any{}
	evals := 0
	planned := 0
	slowest := 0
	for _, p := range plan {
		st := parts[p.Name]
		if st == nil {
			continue
		}
		evals += st.Evaluations
		slowest = max(slowest, st.MaxMS)
		planned += st.Planned
		rules = append(rules, p.Name+": "+p.Rule)
		for _, s := range st.Samples {
			samples = append(samples, p.Name+" "+s)
		}
		partCov = append(partCov, map[string]any{"part": p.Name, "cases": st.Evaluations, "planned": st.Planned,
			"nontrivial": st.NonTrivial, "slowest_case_ms": st.MaxMS, "by_build": st.Flavours, "classes": topLabels(st.Labels, 40)})
	}
	ev := map[string]any{
		"property": id, "tier": tier, "seed": seed, "level": "exploration",
		"coverage": map[string]any{
			"evaluations": evals, "distinct_nontrivial": len(distinct),
			"rule":    "cases are drawn by rapid generators; a case is non-trivial when -- " + strings.Join(rules, "; "),
			"samples": samples, "parts": partCov, "truncated": evals < planned && len(failures) == 0,
			"worker_starts": restarts, "known_findings_seen": knownSeen,
		},
		"assumptions": []string{
			"the oracle in /verif/harness/props/" + ar + " states the property correctly",
			"search, not proof: only the generated cases and schedules were executed",
		},
		"wall_s":     time.Since(start).Seconds(),
		"violations": len(failures),
	}
	must(os.MkdirAll(filepath.Join(root, "evidence"), 0o755))
	eb, _ := json.MarshalIndent(ev, "", " ")
	must(os.WriteFile(filepath.Join(root, "evidence", id+".json"), append(eb, '\n'), 0o644))

	for _, f := range known.Findings {
		if what, ok := knownSeen[f.Signature]; ok && f.Property == id {
			_ = what
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, f.What)
		}
	}
	if len(failures) > 0 {
		sort.SliceStable(failures, func(i, j int) bool { return len(failures[i].Env.Case) < len(failures[j].Env.Case) })
		f := failures[0]
		path := writeReplay(id, f)
		fmt.Printf("property %s, part %s: %s\n", id, f.Env.Part, f.Msg)
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
		os.RemoveAll(scratch)
		os.Exit(1)
	}
	if len(errs) > 0 {
		os.RemoveAll(scratch)
		die("property %s: %.6000s", id, errs[0])
	}
	if evals < planned/20 {
		os.RemoveAll(scratch)
		die("property %s: only %d of %d cases ran before the deadline", id, evals, planned)
	}
	fmt.Printf("ok property=%s tier=%s cases=%d distinct_nontrivial=%d slowest_case=%dms build=%.1fs wall=%.1fs\n",
		id, tier, evals, len(distinct), slowest, built.Seconds(), time.Since(start).Seconds())
}

func topLabels(m map[string]int, n int) map[string]int {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return m[ks[i]] > m[ks[j]] || m[ks[i]] == m[ks[j]] && ks[i] < ks[j] })
	out := map[string]int{}
	for i, k := range ks {
		if i == n {
			break
		}
		out[k] = m[k]
	}
	return out
}

// fastPlan guesses the flavours a property needs from the last run, so that
// all builds start at once; the real plan is asked from the binary afterwards.
func fastPlan(ar, id string) ([]plannedPart, []string) {
	if b, err := os.ReadFile(filepath.Join(root, "harness", "props", ar, "flavours.json")); err == nil {
		var m map[string][]string
		if json.Unmarshal(b, &m) == nil && len(m[id]) > 0 {
			return nil, m[id]
		}
	}
	return nil, []string{"plain"}
}

func writeReplay(id string, f fw.Failure) string {
	dir := filepath.Join(root, "replays")
	must(os.MkdirAll(dir, 0o755))
	b, _ := json.MarshalIndent(f, "", " ")
	h := uint32(2166136261)
	for _, c := range f.Env.Case {
		h = (h ^ uint32(c)) * 16777619
	}
	p := filepath.Join(dir, fmt.Sprintf("%s-%s-%08x.json", id, f.Env.Part, h))
	must(os.WriteFile(p, append(b, '\n'), 0o644))
	return p
}

func replay(path string) {
	path, err := filepath.Abs(path)
	must(err)
	raw, err := os.ReadFile(path)
	must(err)
	var f fw.Failure
	must(json.Unmarshal(raw, &f))
	id := f.Env.Property
	ar := areaOf(id)
	if ar == "" {
		die("no such property: %s", id)
	}
	fl := []string{"plain"}
	reps := 1
	if f.Env.Flavour != "plain" {
		fl = append(fl, f.Env.Flavour)
		reps = 200
	}
	bins := buildAll(ar, fl)
	scratch := scratchDir()
	defer os.RemoveAll(scratch)
	outs := drivers(bins["plain"], fw.Spec{Property: id, Shards: 1, Workers: bins, Replay: path, ReplayRep: reps, Stop: filepath.Join(scratch, "stop")}, scratch)
	o := outs[0]
	if len(o.Failures) > 0 {
		fmt.Printf("property %s, part %s: %s\n", id, f.Env.Part, o.Failures[0].Msg)
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
		os.RemoveAll(scratch)
		os.Exit(1)
	}
	if len(o.Errors) > 0 {
		os.RemoveAll(scratch)
		die("%s", o.Errors[0])
	}
	fmt.Printf("ok: the case of %s passes\n", path)
}
