package main

import (
	"encoding/json"
	"fmt"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

// A Report is what one check found about one property.
type Report struct {
	Prop        string
	P           *Prog
	Findings    []Finding
	Obligations int
	Discharged  int
	Rules       []string
	Cov         map[string]interface{}
	Samples     []string
	Trusted     []string
	minima      map[string][2]int
}

// A Finding names one construct that breaks the property. Key identifies it
// independently of line numbers.
type Finding struct {
	Key  string
	Pos  string
	Msg  string
	Path []string
}

func (r *Report) rule(s string) { r.Rules = append(r.Rules, s) }

// ok records a discharged obligation.
func (r *Report) ok(sample string) {
	r.Obligations++
	r.Discharged++
	if len(r.Samples) < 12 && sample != "" {
		r.Samples = append(r.Samples, sample)
	}
}

func (r *Report) bad(key, pos, msg string, path ...string) {
	r.Obligations++
	r.fail(key, pos, msg, path...)
}

// fail reports without counting an obligation.
func (r *Report) fail(key, pos, msg string, path ...string) {
	for _, f := range r.Findings {
		if f.Key == key && f.Pos == pos {
			return
		}
	}
	r.Findings = append(r.Findings, Finding{key, pos, msg, path})
}

func (r *Report) check(ok bool, key, pos, msg string) {
	if ok {
		r.ok(key + " " + pos)
	} else {
		r.bad(key, pos, msg)
	}
}

// need records that a rule matched at least min constructs; a rule that
// matches fewer than what was confirmed by hand has lost its anchors.
func (r *Report) need(what string, got, min int) {
	r.Cov[what] = got
	if got < min {
		r.fail("anchor|"+what, "-", fmt.Sprintf("only %d %s found, at least %d expected: the rule no longer sees what it must check", got, what, min))
	}
}

func (r *Report) srcLine(pos token.Pos) string {
	if !pos.IsValid() {
		return ""
	}
	q := r.P.Fset.Position(pos)
	b, err := os.ReadFile(q.Filename)
	if err != nil {
		return ""
	}
	ls := strings.Split(string(b), "\n")
	if q.Line-1 >= len(ls) {
		return ""
	}
	return strings.Join(strings.Fields(ls[q.Line-1]), " ")
}

type checkDef struct {
	id    string
	level string
	run   func(r *Report, thorough bool)
}

var checkTable = map[string]*checkDef{}

func register(id, level string, run func(r *Report, thorough bool)) {
	checkTable[id] = &checkDef{id, level, run}
}

// known findings: lines "finding: property=<id> key=<key> <text>".
func loadKnown(dir, prop string) map[string]string {
	out := map[string]string{}
	b, err := os.ReadFile(filepath.Join(dir, "known-findings.txt"))
	if err != nil {
		return out
	}
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "finding: property="+prop+" ") {
			continue
		}
		l = strings.TrimPrefix(l, "finding: property="+prop+" ")
		i := strings.Index(l, " :: ")
		if i < 0 || !strings.HasPrefix(l, "key=") {
			continue
		}
		out[l[4:i]] = l[i+4:]
	}
	return out
}

func runCheck(id, repo, dir, tier string) (code int) {
	def := checkTable[id]
	start := time.Now()
	replay := filepath.Join("evidence", id+".violation.txt")
	os.MkdirAll(filepath.Join(dir, "evidence"), 0755)
	r := &Report{Prop: id, Cov: map[string]interface{}{}}
	level := "other"
	defer func() {
		if e := recover(); e != nil {
			if os.Getenv("JC_PANIC") != "" {
				panic(e)
			}
			r.fail("internal", "-", fmt.Sprintf("the analysis did not complete: %v", e))
		}
		code = finish(r, level, dir, tier, replay, start)
	}()
	if def == nil {
		r.fail("internal", "-", "no such check")
		return
	}
	level = def.level
	p, err := loadProg(repo)
	if err != nil {
		r.fail("load", "-", "the source of "+repo+" does not load: "+err.Error())
		return
	}
	r.P = p
	r.Cov["packages"] = len(p.Pkgs)
	r.Cov["module_functions"] = len(p.AllFuncs)
	def.run(r, tier == "thorough")
	return
}

func finish(r *Report, level, dir, tier, replay string, start time.Time) int {
	known := loadKnown(dir, r.Prop)
	sort.Slice(r.Findings, func(i, j int) bool {
		if r.Findings[i].Pos != r.Findings[j].Pos {
			return r.Findings[i].Pos < r.Findings[j].Pos
		}
		return r.Findings[i].Key < r.Findings[j].Key
	})
	nviol := 0
	var rep strings.Builder
	var knownSeen []string
	printed := map[string]bool{}
	for _, f := range r.Findings {
		if txt, ok := known[f.Key]; ok {
			if !printed[f.Key] {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", r.Prop, txt)
				knownSeen = append(knownSeen, f.Key)
				printed[f.Key] = true
			}
			continue
		}
		nviol++
		fmt.Fprintf(&rep, "%s: %s\n  rule instance: %s\n", f.Pos, f.Msg, f.Key)
		for _, s := range f.Path {
			fmt.Fprintf(&rep, "    %s\n", s)
		}
	}
	cov := r.Cov
	if r.Samples == nil {
		r.Samples = []string{}
	}
	if r.Obligations > 0 {
		cov["obligations"] = r.Obligations
		cov["discharged"] = r.Discharged
	} else {
		cov["obligations"] = 0
		cov["discharged"] = 0
	}
	cov["rules"] = r.Rules
	cov["samples"] = r.Samples
	cov["explanation"] = strings.Join(r.Rules, " ")
	cov["checker_cmd"] = "bin/joycheck -prop " + r.Prop
	tb := append([]string{"go/types and go/ssa (x/tools v0.52.0)", "joycheck's inliner, promotion and SSA construction"}, r.Trusted...)
	cov["trusted_base"] = tb
	if knownSeen != nil {
		cov["known_findings"] = knownSeen
	}
	ev := map[string]interface{}{
		"property": r.Prop, "tier": tier, "seed": 1, "level": level, "coverage": cov,
		"wall_s": time.Since(start).Seconds(), "violations": nviol,
	}
	if s := os.Getenv("VERIF_SEED"); s != "" {
		var k int
		fmt.Sscan(s, &k)
		ev["seed"] = k
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(dir, "evidence", r.Prop+".json"), append(b, '\n'), 0644)
	rf := filepath.Join(dir, replay)
	if nviol > 0 {
		os.WriteFile(rf, []byte(rep.String()), 0644)
		fmt.Print(rep.String())
		fmt.Printf("VIOLATION property=%s replay=%s\n", r.Prop, replay)
		return 1
	}
	os.Remove(rf)
	fmt.Printf("%s: %d obligations, all discharged or listed (%.1fs)\n", r.Prop, r.Obligations, time.Since(start).Seconds())
	return 0
}
