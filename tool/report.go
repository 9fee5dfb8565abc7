package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Ob is one obligation of a property and its verdict.
type Ob struct {
	Rule      string `json:"rule"`
	Construct string `json:"construct"` // stable name: no line numbers
	Pos       string `json:"pos,omitempty"`
	Why       string `json:"why,omitempty"`
	OK        bool   `json:"ok"`
}

func (o Ob) key() string { return o.Rule + "|" + o.Construct }

// Report collects the obligations of one property.
type Report struct {
	p     *Program
	Tier  string
	obs   []Ob
	seen  map[string]int
	stats map[string]interface{}
	rules []string
}

func (r *Report) add(o Ob) {
	if i, ok := r.seen[o.key()]; ok {
		if !o.OK && r.obs[i].OK {
			r.obs[i] = o
		}
		return
	}
	r.seen[o.key()] = len(r.obs)
	r.obs = append(r.obs, o)
}

func (r *Report) ok(rule, construct string) { r.add(Ob{Rule: rule, Construct: construct, OK: true}) }

func (r *Report) bad(rule, construct, pos, why string) {
	r.add(Ob{Rule: rule, Construct: construct, Pos: pos, Why: why})
}

func (r *Report) expect(ok bool, rule, construct, pos, why string) {
	if ok {
		r.ok(rule, construct)
	} else {
		r.bad(rule, construct, pos, why)
	}
}

// atLeast guards against a rule that silently matches nothing.
func (r *Report) atLeast(what string, n, floor int) {
	r.stats[what] = n
	if n < floor {
		r.bad("coverage", what, "", fmt.Sprintf("only %d instances found, at least %d expected: the rule no longer sees the code it was written for", n, floor))
	}
}

func (r *Report) stat(k string, v interface{}) { r.stats[k] = v }

// engine adds the common facts of abstract runs.
func (r *Report) engine(rs []EntryResult) {
	steps, fns := 0, map[string]bool{}
	for _, e := range rs {
		if e.M != nil {
			steps += e.M.steps
			for f := range e.M.visited {
				fns[f.String()] = true
			}
		}
		if e.Abort != "" {
			r.bad("undecided", e.Name, "", "the analysis gave up: "+e.Abort)
		}
	}
	add := func(k string, n int) {
		if v, ok := r.stats[k].(int); ok {
			n += v
		}
		r.stats[k] = n
	}
	add("entry points analysed", len(rs))
	add("functions interpreted", len(fns))
	add("abstract steps", steps)
}

// Property is one check.
type Property struct {
	ID    string
	Rule  string
	Run   func(r *Report)
	Trust []string
}

var properties = map[string]*Property{}

func register(p *Property) { properties[p.ID] = p }

type known struct{ Property, Rule, Construct, What string }

func loadKnown(root string) ([]known, error) {
	f, err := os.Open(filepath.Join(root, "known-findings.txt"))
	if err != nil {
		if os.IsNotExist(err) {
			return nil, nil
		}
		return nil, err
	}
	defer f.Close()
	var out []known
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		if l == "" || strings.HasPrefix(l, "#") || strings.HasPrefix(l, "fixed:") {
			continue
		}
		// property=<id> rule=<rule> construct=<construct> :: what fails
		head, what, ok := strings.Cut(l, " :: ")
		if !ok {
			return nil, fmt.Errorf("known-findings.txt: cannot read %q", l)
		}
		var k known
		k.What = what
		rest := head
		if !strings.HasPrefix(rest, "property=") {
			return nil, fmt.Errorf("known-findings.txt: cannot read %q", l)
		}
		rest = strings.TrimPrefix(rest, "property=")
		k.Property, rest, _ = strings.Cut(rest, " rule=")
		k.Rule, k.Construct, _ = strings.Cut(rest, " construct=")
		out = append(out, k)
	}
	return out, sc.Err()
}

func rootDir() string {
	if d := os.Getenv("VERIF_ROOT"); d != "" {
		return d
	}
	return "/verif"
}

// check runs one property and returns the exit status.
func check(id string) int {
	t0 := time.Now()
	root := rootDir()
	prop := properties[id]
	if prop == nil {
		fmt.Fprintln(os.Stderr, "no such property:", id)
		return 2
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	r := &Report{Tier: tier, seen: map[string]int{}, stats: map[string]interface{}{}}
	p, err := loadProgram()
	if err != nil {
		r.bad("load", "repository", "", err.Error())
	} else {
		r.p = p
		func() {
			defer func() {
				if x := recover(); x != nil {
					if os.Getenv("VERIF_PANIC") != "" {
						panic(x)
					}
					r.bad("internal", "analyser", "", fmt.Sprint(x))
				}
			}()
			prop.Run(r)
		}()
		n := 0
		for _, sp := range p.Pkgs {
			_ = sp
			n++
		}
		r.stat("packages", n)
		r.stat("source files", p.Files)
	}
	kn, err := loadKnown(root)
	if err != nil {
		r.bad("internal", "known-findings", "", err.Error())
	}
	if len(r.obs) == 0 {
		r.bad("coverage", "obligations", "", "no obligation was generated")
	}
	sort.SliceStable(r.obs, func(i, j int) bool { return r.obs[i].key() < r.obs[j].key() })
	rules := map[string]int{}
	discharged, viol := 0, []Ob{}
	samples := []interface{}{}
	perRule := map[string]int{}
	for _, o := range r.obs {
		rules[o.Rule]++
		if o.OK {
			discharged++
			if perRule[o.Rule] < 3 {
				perRule[o.Rule]++
				samples = append(samples, o)
			}
			continue
		}
		isKnown := false
		for _, k := range kn {
			if k.Property == id && k.Rule == o.Rule && k.Construct == o.Construct {
				fmt.Printf("KNOWN-FINDING: property=%s %s %s: %s\n", id, o.Rule, o.Construct, k.What)
				isKnown = true
				break
			}
		}
		if !isKnown {
			viol = append(viol, o)
		}
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	cov := map[string]interface{}{
		"obligations":            len(r.obs),
		"discharged":             discharged,
		"obligations_by_rule":    rules,
		"rule":                   prop.Rule,
		"analysed":               r.stats,
		"samples":                samples,
		"checker_cmd":            "bin/gosipsverif -property " + id,
		"trusted_base":           append([]string{"go/types and golang.org/x/tools/go/ssa v0.52.0 model the Go program faithfully", "the models of the standard library functions in tool/models.go"}, prop.Trust...),
		"explanation":            "Every obligation is decided from the type-checked SSA form of the current /repo tree without running it. " + prop.Rule,
		"known_findings_skipped": len(r.obs) - discharged - len(viol),
	}
	ev := map[string]interface{}{
		"property": id, "tier": tier, "seed": seed, "level": levelOf(id), "coverage": cov,
		"wall_s": time.Since(t0).Seconds(), "violations": len(viol),
	}
	os.MkdirAll(filepath.Join(root, "evidence", "replay"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(root, "evidence", id+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	fmt.Printf("%s: %d obligations, %d discharged, %d violations, %.1fs\n", id, len(r.obs), discharged, len(viol), time.Since(t0).Seconds())
	rp := filepath.Join(root, "evidence", "replay", id+".json")
	if len(viol) == 0 {
		os.Remove(rp)
		return 0
	}
	b, _ = json.MarshalIndent(map[string]interface{}{"property": id, "replay": "bin/gosipsverif -property " + id, "violations": viol}, "", " ")
	os.WriteFile(rp, append(b, '\n'), 0o644)
	for i, o := range viol {
		if i >= 400 {
			fmt.Printf("  ... and %d more\n", len(viol)-i)
			break
		}
		fmt.Printf("  [%s] %s %s\n      %s\n", o.Rule, o.Construct, o.Pos, o.Why)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", id, rp)
	return 1
}

func levelOf(id string) string {
	if l, ok := levels[id]; ok {
		return l
	}
	return "other"
}

var levels = map[string]string{}
