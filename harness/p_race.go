package main

import (
	"fmt"
	"regexp"
	"strings"
)

// Concurrency: the processors work on chunks in parallel.

// These options leave no choice, so that schedule and map order must not show.
var noChoice = []string{"-O", "-s", "-m", "-r", "-c", "--explicit-calendar", "--ensure-stop-parents", "-F", "--drop-too-fast-trips", "--fix-far-away-parents", "--non-overlapping-services", "--group-adj-stop-times", "--drop-single-stop-trips", "--keep-col-order", "--remove-fillers"}

// These give new ids in any order.
var noChoiceButIDs = []string{"-i", "-d", "--snap-stops", "--remove-cal-dates"}

var raceFrame = regexp.MustCompile(`(?m)^  (\S*(?:gtfs|processors|main)\S*)\(`)

// races lists the functions of the reported data races.
func races(stderr string) []string {
	var l []string
	for _, rep := range strings.Split(stderr, "WARNING: DATA RACE")[1:] {
		f := raceFrame.FindAllStringSubmatch(rep, 2)
		s := []string{}
		for _, m := range f {
			s = append(s, m[1][strings.LastIndex(m[1], "/")+1:])
		}
		l = append(l, strings.Join(s, " / "))
	}
	return l
}

func init() {
	reg(&Prop{ID: "P25", Title: "concurrency", Quick: 450, Thorough: 12000, Race: true,
		Rule: "seeded feeds with many entities (so that every worker has a chunk) run in a -race build with 2 to 8 processors and random options, and seeded feeds run repeatedly with 1 to 8 processors with options that leave no choice; non-trivial: distinct option set, keyed with the number of trips, stops and services",
		Case: func(c *Ctx) {
			if c.R.Intn(2) == 0 {
				c.raceCase()
			} else {
				c.scheduleCase()
			}
		}})
}

func (c *Ctx) raceCase() {
	o := DefOpt()
	o.Stops, o.Routes, o.Trips, o.Services, o.Agencies = [2]int{12, 40}, [2]int{8, 30}, [2]int{25, 90}, [2]int{4, 24}, [2]int{1, 12}
	n := 1
	if c.R.Intn(6) == 0 {
		n = 2
	}
	var ins []string
	key := ""
	for i := 0; i < n; i++ {
		f, raw := c.genRaw(o)
		ins = append(ins, c.Put(fmt.Sprint("in", i), raw))
		key += fmt.Sprintf(" %d/%d/%d", len(f.Trips), len(f.Stops), len(f.Services))
	}
	var fl []string
	for k := 1 + c.R.Intn(9); k > 0; k-- {
		fl = append(fl, allFlags[c.R.Intn(len(allFlags))])
	}
	if c.R.Intn(4) == 0 {
		fl = append(fl, []string{"--compress", "--Compress", "--merge", "--Merge"}[c.R.Intn(4)])
	}
	r := c.Exec(c.raceBin, fl, ins, c.tmp("out"), 2+c.R.Intn(7))
	if r.Race {
		l := races(r.Stderr)
		c.Viol("race:"+l[0], "data race with %v between %s: %s", fl, l[0], head(r.Stderr[strings.Index(r.Stderr, "WARNING: DATA RACE"):], 1500))
		return
	}
	c.Count("runs_watched_by_the_race_detector", 1)
	for _, x := range fl {
		c.Seen("options_under_the_race_detector", x)
	}
	c.LoadOut(r)
	if !c.Valid(r) {
		return
	}
	c.Nontrivial(fmt.Sprint("race ", fl, key))
}

func (c *Ctx) scheduleCase() {
	o := DefOpt()
	if c.R.Intn(2) == 0 {
		o.Stops, o.Routes, o.Trips, o.Services = [2]int{8, 25}, [2]int{4, 12}, [2]int{10, 40}, [2]int{3, 16}
	}
	f, raw := c.genRaw(o)
	in := c.Put([]string{"in", "in.zip"}[c.R.Intn(2)], raw)
	var fl []string
	for k := 1 + c.R.Intn(4); k > 0; k-- {
		fl = append(fl, noChoice[c.R.Intn(len(noChoice))])
	}
	ids, merge := false, ""
	switch c.R.Intn(6) {
	case 0, 1:
		ids = true
		fl = append(fl, noChoiceButIDs[c.R.Intn(len(noChoiceButIDs))])
	case 2:
		// which of the duplicates is left is a choice, but not how many are
		merge = []string{"-A", "-C"}[c.R.Intn(2)]
		fl = append(fl, merge)
	}
	for _, x := range fl {
		if x == "--non-overlapping-services" {
			// which of a trip's copies keeps the id of its attribution is a choice
			ids = true
			if t := raw["attributions.txt"]; t != nil && t.col("attribution_id") >= 0 {
				for i := range t.Rows {
					t.Rows[i][t.col("attribution_id")] = ""
				}
				in = c.Put("noids", raw)
			}
		}
	}
	var first *Res
	for i, p := range c.R.Perm(8)[:4] {
		if i == 0 {
			p = 0
		}
		r := c.Exec(c.bin, fl, []string{in}, c.tmp(fmt.Sprint("out", i)), p+1)
		c.LoadOut(r)
		if !c.Valid(r) {
			return
		}
		c.Count("repeated_runs", 1)
		if first == nil {
			first = r
			continue
		}
		switch {
		case merge != "":
			a := fmt.Sprint(len(first.F.Agencies), len(first.F.Services), len(first.F.Trips), len(first.F.Stops), len(first.F.Routes), len(first.F.Shapes))
			b := fmt.Sprint(len(r.F.Agencies), len(r.F.Services), len(r.F.Trips), len(r.F.Stops), len(r.F.Routes), len(r.F.Shapes))
			if a != b {
				c.Viol("schedule"+merge, "%v leaves %s agencies, services, trips, stops, routes and shapes with one, but %s with %d processors", fl, a, b, p+1)
				return
			}
		case ids:
			none := func(n *Node) string { return "" }
			if !c.sameGraph("schedule", first.F.Graph(), r.F.Graph(), none, none) {
				return
			}
		default:
			if d := DiffMaps(Canon(first.F, CanonOpt{}), Canon(r.F, CanonOpt{})); len(d) > 0 {
				c.Viol("schedule", "%v gives another feed with %d processors than with one: %s", fl, p+1, d[0])
				return
			}
		}
	}
	c.Nontrivial(fmt.Sprintf("schedule %v %d/%d/%d", fl, len(f.Trips), len(f.Stops), len(f.Services)))
	c.Sample(map[string]any{"options": fl, "trips": len(f.Trips), "runs": 4})
}
