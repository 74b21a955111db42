// Command check runs the model-checking check of one property: check <ID> [quick|thorough], or
// check replay <file>.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"

	"verif/harness/checks"
	"verif/harness/mc"
)

func main() {
	debug.SetGCPercent(400)
	root := os.Getenv("VERIF_ROOT")
	if root == "" {
		root = "/verif"
	}
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: check <ID> [quick|thorough] | check replay <file> | check list")
		os.Exit(2)
	}
	if os.Args[1] == "digest" {
		fmt.Println(checks.Digest(os.Args[2:]))
		return
	}
	if os.Args[1] == "list" {
		for _, p := range checks.All() {
			fmt.Println(p.ID)
		}
		return
	}
	if os.Args[1] == "replay" {
		os.Exit(replay(root, os.Args[2]))
	}
	tier := os.Getenv("VERIF_TIER")
	if len(os.Args) > 2 {
		tier = os.Args[2]
	}
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	id := os.Args[1]
	p := checks.Find(id)
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", id)
		os.Exit(2)
	}
	only := ""
	if len(os.Args) > 3 {
		only = os.Args[3]
	}
	os.Exit(run(root, p, tier, seed, only))
}

func knownFindings(root, id string) map[string]string {
	m := map[string]string{}
	f, err := os.Open(filepath.Join(root, "KNOWN_FINDINGS.txt"))
	if err != nil {
		return m
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		// finding: property=C16 key=<key> <what fails>
		if !strings.HasPrefix(l, "finding: property="+id+" key=") {
			continue
		}
		l = strings.TrimPrefix(l, "finding: property="+id+" key=")
		k := l
		d := ""
		if i := strings.IndexByte(l, ' '); i > 0 {
			k, d = l[:i], l[i+1:]
		}
		m[k] = d
	}
	return m
}

func run(root string, p *checks.Property, tier string, seed int, only string) int {
	start := time.Now()
	deadline := 300 * time.Second
	if p.QuickDeadline > 0 {
		deadline = p.QuickDeadline
	}
	if tier == "thorough" {
		deadline = 700 * time.Second
	}
	if s := os.Getenv("VERIF_DEADLINE_S"); s != "" {
		if n, err := strconv.Atoi(s); err == nil && n > 0 {
			deadline = time.Duration(n) * time.Second
		}
	}
	cfg := &mc.Config{
		Property:  p.ID,
		Tier:      tier,
		Seed:      seed,
		Deadline:  deadline,
		Workers:   runtime.NumCPU(),
		Known:     knownFindings(root, p.ID),
		ReplayDir: filepath.Join(root, "evidence", "replay"),
		Only:      only,
	}
	res := mc.Explore(cfg, p.Scenarios)
	if res.HardError != "" {
		fmt.Fprintln(os.Stderr, "HARNESS ERROR:", res.HardError)
		return 2
	}
	var extra map[string]interface{}
	if p.Extra != nil && res.Violation == "" && only == "" {
		extra = p.Extra(cfg, res)
	}
	for _, s := range res.Stats {
		fmt.Printf("  %-28s executions=%d states=%d transitions=%d pruned=%d bound=%d/%d exhaustive=%v %.1fs\n",
			s.Name, s.Executions, s.States, s.Trans, s.Pruned, s.Done, s.Bound, s.Complete, s.WallS)
	}
	nviol := 0
	if res.Violation != "" {
		nviol = 1
	}
	wall := time.Since(start).Seconds()
	if nviol == 0 && only == "" && wall > p.SlowAfter() {
		fmt.Printf("  note: slow (%.1fs)\n", wall)
	}
	if only == "" {
		writeEvidence(root, p, tier, seed, res, extra, wall, nviol)
	}
	for _, k := range mc.SortedKeys(res.Known) {
		fmt.Printf("KNOWN-FINDING: property=%s %s: %s (seen in %d executions)\n", p.ID, k, cfg.Known[k], res.Known[k])
	}
	if nviol > 0 {
		fmt.Println(res.Violation)
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, res.Replay)
		return 1
	}
	fmt.Printf("OK property=%s tier=%s executions=%d states=%d transitions=%d exhaustive=%v wall=%.1fs\n",
		p.ID, tier, res.Execs, res.States, res.Trans, res.Complete, wall)
	return 0
}

func writeEvidence(root string, p *checks.Property, tier string, seed int, res *mc.Result, extra map[string]interface{}, wall float64, nviol int) {
	cov := map[string]interface{}{
		"exhaustive": res.Complete && nviol == 0,
		"samples":    res.Samples,
		"scenarios":  res.Stats,
	}
	if p.Level == "fault_enumeration" {
		cov["evaluations"] = res.Execs
		cov["distinct_nontrivial"] = res.States
		cov["rule"] = p.Rule
	} else {
		cov["states"] = res.States
		cov["transitions"] = res.Trans
		cov["traces_validated_against_impl"] = res.Execs
	}
	for k, v := range extra {
		cov[k] = v
	}
	if len(res.Known) > 0 {
		cov["known_findings_seen"] = res.Known
	}
	ev := map[string]interface{}{
		"property": p.ID, "tier": tier, "seed": seed, "level": p.Level, "coverage": cov,
		"wall_s": wall, "violations": nviol, "assumptions": p.Assumptions,
	}
	if p.Assumptions == nil {
		ev["assumptions"] = []string{}
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(root, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(root, "evidence", p.ID+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, "cannot write evidence:", err)
	}
}

func replay(root, file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var rf mc.ReplayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	p := checks.Find(rf.Property)
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", rf.Property)
		return 2
	}
	cfg := &mc.Config{Property: rf.Property, Tier: rf.Tier, Known: knownFindings(root, rf.Property)}
	msg, log, err := mc.Replay(cfg, p.Scenarios, &rf)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	for _, l := range log {
		fmt.Println("  " + l)
	}
	if msg != "" {
		fmt.Println(msg)
		fmt.Printf("VIOLATION property=%s replay=%s\n", rf.Property, file)
		return 1
	}
	fmt.Println("the recorded execution passes")
	return 0
}

var _ = sort.Strings
