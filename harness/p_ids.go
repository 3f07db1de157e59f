package main

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
)

// idGen generates a feed for the id checks.
func (c *Ctx) idGen() *Feed {
	o := DefOpt()
	o.Transfers, o.Attrs, o.Fares, o.Pathways, o.Levels, o.Extra = 0.7, 0.7, 0.7, 0.6, 0.6, 0.4
	f := Gen(c.R, o)
	if c.R.Intn(3) > 0 {
		f.unique(0)
	}
	return f
}

var idKinds = []string{"stop", "block", "fare", "shape", "route", "trip", "level", "pathway", "attribution", "service", "agency"}
var keepFlag = map[string]string{"stop": "station", "block": "block", "fare": "fare", "shape": "shape", "route": "route", "trip": "trip", "level": "level",
	"pathway": "pathway", "attribution": "attribution", "service": "service", "agency": "agency"}

// keepFlags chooses kinds of ids to keep.
func (c *Ctx) keepFlags() (map[string]bool, []string) {
	keep := map[string]bool{}
	var fl []string
	switch c.R.Intn(4) {
	case 0:
	case 1:
		fl = append(fl, "--keep-ids")
		for _, k := range idKinds {
			keep[k] = k != "attribution"
		}
	default:
		for _, k := range idKinds {
			if c.R.Intn(3) == 0 {
				keep[k] = true
				fl = append(fl, "--keep-"+keepFlag[k]+"-ids")
			}
		}
	}
	return keep, fl
}

func (f *Feed) ids(kind string) []string {
	var l []string
	for _, n := range f.Graph() {
		if n.Kind == kind {
			l = append(l, n.ID)
		}
	}
	sort.Strings(l)
	return l
}

func init() {
	reg(&Prop{ID: "P14", Title: "id minimization", Quick: 1500, Thorough: 40000,
		Rule: "seeded feeds whose ids are dense, numeric, base-36-like or colliding with the new ones run with -i or -d and any of the --keep-*-ids options; non-trivial: at least two kinds of ids were replaced, keyed by the feed's id style, counts and the kept kinds",
		Case: func(c *Ctx) {
			f0 := c.idGen()
			raw := present(c.R, f0.ToRaw())
			f, prob := ParseRaw(raw)
			if len(prob) > 0 {
				fatal("generator: %v", prob)
			}
			base, fl := 10, []string{"-i"}
			if c.R.Intn(2) == 0 {
				base, fl = 36, []string{"-d"}
			}
			fl = c.maybeF(f, fl)
			fl = append(fl, c.idle(f, "l")...)
			keep, kf := c.keepFlags()
			fl = append(fl, kf...)
			pre := ""
			if c.R.Intn(4) == 0 {
				pre = []string{"x", "1", "#", "de-"}[c.R.Intn(4)]
				fl = append(fl, "--prefix", pre)
			}
			r := c.Tidy(fl, c.Put("in", raw))
			if !c.Valid(r) {
				return
			}
			a, b := f.Graph(), r.F.Graph()
			na, nb := map[string][]string{}, map[string][]string{}
			for _, n := range a {
				na[n.Kind] = append(na[n.Kind], n.ID)
			}
			for _, n := range b {
				nb[n.Kind] = append(nb[n.Kind], n.ID)
			}
			kinds := 0
			for _, k := range idKinds {
				if k == "block" || keep[k] {
					continue
				}
				c.Count("kinds_minimized", 1)
				if len(na[k]) > 0 {
					kinds++
				}
				if len(na[k]) != len(nb[k]) {
					c.Viol("count-"+k, "%d entities of kind %s became %d", len(na[k]), k, len(nb[k]))
					return
				}
				have := map[string]bool{}
				for _, id := range nb[k] {
					have[id] = true
				}
				for i := 1; i <= len(na[k]); i++ {
					c.Count("ids_checked", 1)
					if id := pre + strconv.FormatInt(int64(i), base); !have[id] {
						c.Viol("dense-"+k, "the %d entities of kind %s do not have the ids %q1..%d (base %d), %q is missing: %v", len(na[k]), k, pre, len(na[k]), base, id, nb[k])
						return
					}
				}
			}
			if pre != "" {
				a = prefixed(a, pre)
			}
			init := func(n *Node) string {
				if pre != "" && (keep[n.Kind] || n.Kind != "block" && n.Kind != "zone") {
					return ""
				}
				if keep[n.Kind] || n.Kind == "block" || n.Kind == "zone" {
					return n.ID
				}
				return ""
			}
			if !c.sameGraph("content", a, b, init, init) {
				return
			}
			if kinds > 1 {
				c.Nontrivial(fmt.Sprint(strings.Join(kf, " "), base, kinds, len(a), f.ids("trip"), f.ids("stop")))
				c.Sample(map[string]any{"flags": strings.Join(fl, " "), "entities": len(a), "kinds_minimized": kinds})
			}
		}})
}
