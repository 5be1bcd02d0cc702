package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

// Check collects the obligations of one property
type Check struct {
	w       *World
	id      string
	rules   map[string]int // rule -> instances
	fns     map[string]bool
	units   []string
	viol    []Finding
	notes   []string
	seen    map[string]bool
	total   int
	checked map[string]int
	start   time.Time
}

type Finding struct {
	Key  string `json:"key"` // rule and construct, no line numbers
	Pos  string `json:"position"`
	Text string `json:"explanation"`
}

func newCheck(w *World, id string) *Check {
	return &Check{w: w, id: id, rules: map[string]int{}, fns: map[string]bool{}, seen: map[string]bool{}, checked: map[string]int{}, start: time.Now()}
}

// ob records one decided obligation
func (c *Check) ob(rule, construct, pos string, ok bool, msg string) {
	c.total++
	c.rules[rule]++
	if ok {
		return
	}
	key := rule + " | " + construct
	if c.seen[key] {
		return
	}
	c.seen[key] = true
	c.viol = append(c.viol, Finding{key, pos, msg})
}

func (c *Check) bad(rule, construct, pos, msg string) { c.ob(rule, construct, pos, false, msg) }

// need fails the check when fewer instances of a rule were found than the rule needs to mean anything
func (c *Check) need(rule string, n int) {
	if c.rules[rule] < n {
		c.bad("coverage", rule, "", fmt.Sprintf("rule '%s' was applied to %d constructs, at least %d expected: the code it is about could not be found, so the property is not decided", rule, c.rules[rule], n))
	}
}

// engine adds the obligations of an interpreter run; filter selects kinds (nil: all)
func (c *Check) engine(e *Eng, kinds ...string) {
	want := map[string]bool{}
	for _, k := range kinds {
		want[k] = true
	}
	for fn := range e.fnSeen {
		c.fns[c.w.fname(fn)] = true
	}
	if e.gaveUp != "" {
		c.bad("undecided", e.gaveUp, "", "the analysis did not reach a conclusion: "+e.gaveUp)
	}
	for _, k := range e.oblOrder {
		o := e.obls[k]
		if len(want) > 0 && !want[o.Kind] {
			continue
		}
		c.total += o.N
		c.rules[o.Kind]++
		if o.Bad > 0 {
			key := o.Kind + " | " + o.Where
			if !c.seen[key] {
				c.seen[key] = true
				c.viol = append(c.viol, Finding{key, o.Pos, o.Msg})
			}
		}
	}
}

type known struct {
	prop, key, text string
	fixed           bool
}

// known findings: lines "finding: property=<id> key=<rule | construct> -- text"
func readKnown(path string) []known {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var out []known
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "finding: property=") {
			continue
		}
		l = strings.TrimPrefix(l, "finding: property=")
		i := strings.Index(l, " key=")
		j := strings.Index(l, " -- ")
		if i < 0 || j < i {
			continue
		}
		out = append(out, known{prop: l[:i], key: l[i+5 : j], text: l[j+4:]})
	}
	return out
}

func (c *Check) finish(verif string) int {
	for _, m := range c.w.missing {
		c.bad("anchor", m, "", "the construct "+m+" this property is about does not exist any more; the property is not decided")
	}
	if c.total == 0 {
		c.bad("coverage", "no obligations", "", "nothing was analysed")
	}
	ks := readKnown(filepath.Join(verif, "known-findings.txt"))
	var viol, kn []Finding
	for _, v := range c.viol {
		listed := false
		for _, k := range ks {
			if k.prop == c.id && k.key == v.Key {
				listed = true
				fmt.Printf("KNOWN-FINDING: property=%s %s (%s)\n", c.id, k.text, v.Pos)
			}
		}
		if listed {
			kn = append(kn, v)
		} else {
			viol = append(viol, v)
		}
	}
	var fns []string
	for f := range c.fns {
		fns = append(fns, f)
	}
	sort.Strings(fns)
	var rules []map[string]interface{}
	var rn []string
	for r := range c.rules {
		rn = append(rn, r)
	}
	sort.Strings(rn)
	for _, r := range rn {
		rules = append(rules, map[string]interface{}{"rule": r, "constructs": c.rules[r]})
	}
	writeEvidence(c, verif, fns, rules, viol, kn)
	if len(viol) == 0 {
		fmt.Printf("%s: held: %d obligations over %d rules in %d functions (%.1fs)\n", c.id, c.total, len(c.rules), len(fns), time.Since(c.start).Seconds())
		return 0
	}
	rp := filepath.Join(verif, "evidence", c.id+".violation.txt")
	var b strings.Builder
	for _, v := range viol {
		fmt.Fprintf(&b, "rule and construct: %s\nposition: %s\n%s\n\n", v.Key, v.Pos, v.Text)
	}
	os.WriteFile(rp, []byte(b.String()), 0644)
	for i, v := range viol {
		if i == 8 {
			fmt.Printf("  ... %d more in %s\n", len(viol)-i, rp)
			break
		}
		fmt.Printf("  %s [%s]: %s\n", v.Key, v.Pos, v.Text)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", c.id, rp)
	return 1
}

var _ = json.Marshal
