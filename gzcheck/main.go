package main

// gzcheck decides properties of stampzilla/gozwave from its source.
//
//	gzcheck -repo /repo -verif /verif [-tier quick|thorough] PROPERTY...

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"sync/atomic"
	"time"
)

type property struct {
	run     func(w *World, c *Check)
	explain string   // what is decided and how
	assume  []string // what the verdict relies on
}

var props = map[string]*property{}
var tier = "quick"

func main() {
	repo := flag.String("repo", "/repo", "")
	verif := flag.String("verif", "/verif", "")
	flag.StringVar(&tier, "tier", "quick", "")
	flag.Parse()
	debug.SetGCPercent(400)
	if f := os.Getenv("GZPROF"); f != "" {
		h, _ := os.Create(f)
		pprof.StartCPUProfile(h)
		defer pprof.StopCPUProfile()
	}
	go watch()
	rc := 0
	ids := flag.Args()
	if len(ids) == 0 {
		for id := range props {
			ids = append(ids, id)
		}
		sort.Strings(ids)
	}
	w, err := load(*repo)
	for _, id := range ids {
		p := props[id]
		if p == nil {
			fmt.Println("no such property", id)
			os.Exit(2)
		}
		if err != nil {
			c := &Check{id: id, w: &World{}, rules: map[string]int{}, fns: map[string]bool{}, seen: map[string]bool{}, start: time.Now()}
			c.bad("load", "repository", "", err.Error())
			rc |= c.finish(*verif)
			continue
		}
		w.missing = nil
		rc |= one(w, id, p, *verif)
	}
	pprof.StopCPUProfile()
	os.Exit(rc)
}

// outOfBudget is set when the run takes too long or too much memory: what is being analysed then counts as undecided
var outOfBudget atomic.Bool

func watch() {
	t0 := time.Now()
	for range time.Tick(500 * time.Millisecond) {
		var m runtime.MemStats
		runtime.ReadMemStats(&m)
		if time.Since(t0) > 780*time.Second || m.HeapAlloc > 20<<30 {
			outOfBudget.Store(true)
			return
		}
	}
}

func one(w *World, id string, p *property, verif string) (rc int) {
	c := newCheck(w, id)
	defer func() {
		if r := recover(); r != nil {
			if os.Getenv("GZDEBUG") != "" {
				debug.PrintStack()
			}
			c.bad("undecided", "analyser", "", fmt.Sprint("the analysis failed: ", r))
			rc = c.finish(verif)
		}
	}()
	p.run(w, c)
	return c.finish(verif)
}

func writeEvidence(c *Check, verif string, fns []string, rules []map[string]interface{}, viol, kn []Finding) {
	p := props[c.id]
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if viol == nil {
		viol = []Finding{}
	}
	cov := map[string]interface{}{
		"explanation":        p.explain,
		"obligations":        c.total,
		"discharged":         c.total - len(viol) - len(kn),
		"rules":              rules,
		"functions_analysed": fns,
		"units":              c.units,
		"notes":              c.notes,
	}
	if len(viol) > 0 {
		cov["violations_found"] = viol
	}
	if len(kn) > 0 {
		cov["known_findings"] = kn
	}
	ev := map[string]interface{}{
		"property":    c.id,
		"tier":        tier,
		"seed":        seed,
		"level":       "other",
		"coverage":    cov,
		"assumptions": p.assume,
		"wall_s":      time.Since(c.start).Seconds(),
		"violations":  len(viol),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verif, "evidence"), 0755)
	os.WriteFile(filepath.Join(verif, "evidence", c.id+".json"), append(b, '\n'), 0644)
}
