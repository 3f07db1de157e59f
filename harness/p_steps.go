package main

import (
	"fmt"
	"slices"
	"strings"
)

// One run with several options against the same options spread over two runs.

// stepOrder lists the options in the order in which their steps are taken.
var stepOrder = []struct {
	opts []string
	p    float64
}{
	{[]string{"--standard-route-types"}, 0.15},
	{[]string{"--drop-mots=3", "--keep-mots=0,3,109,700", "-M3,1", "--drop-mots=0,2"}, 0.15},
	{[]string{"DATES"}, 0.3},
	{[]string{"--drop-shapes"}, 0.1},
	{[]string{"--drop-single-stop-trips"}, 0.3},
	{[]string{"--drop-too-fast-trips"}, 0.35},
	{[]string{"COMPLETE"}, 0.2},
	{[]string{"-O"}, 0.35},
	{[]string{"-A"}, 0.2},
	{[]string{"--fix-far-away-parents"}, 0.35},
	{[]string{"-m"}, 0.35},
	{[]string{"-s"}, 0.35},
	{[]string{"--snap-stops"}, 0.3},
	{[]string{"-R"}, 0.2},
	{[]string{"-C"}, 0.2},
	{[]string{"--group-adj-stop-times"}, 0.35},
	{[]string{"--non-overlapping-services"}, 0.2},
	{[]string{"-c"}, 0.35},
	{[]string{"--ensure-stop-parents"}, 0.35},
}

func init() {
	reg(&Prop{ID: "P33", Title: "one step after the other", Quick: 1200, Thorough: 30000,
		Rule: "seeded feeds with duplicates and unused entities run with random options at once (with trips too fast or with one stop among them), and with the same options spread over two runs in the order of the steps; non-trivial: both parts have options, keyed by them",
		Case: func(c *Ctx) {
			o := DefOpt()
			o.Trips = [2]int{2, 12}
			o.Dup = 0.4
			g := newG(c.R, o)
			var sel []int
			for i, s := range stepOrder {
				if g.p(s.p) {
					sel = append(sel, i)
				}
			}
			if len(sel) < 2 {
				return
			}
			cut := sel[1+c.R.Intn(len(sel)-1)]
			var a, b []string
			for _, i := range sel {
				s := stepOrder[i]
				if s.opts[0] == "-s" && i >= cut && slices.Contains(a, "-m") {
					continue // -s measures, too, and measuring twice is another thing than measuring once
				}
				x := []string{pick(g, s.opts)}
				if x[0] == "DATES" {
					d := g.day0 + g.r.Intn(40)
					x = []string{"--date-start=" + dstr(d)}
					if g.p(0.5) {
						x = append(x, "--date-end="+dstr(d+g.r.Intn(30)))
					}
				}
				if (s.opts[0] == "--snap-stops" || s.opts[0] == "--non-overlapping-services") && slices.Contains(a, "-O") {
					continue // -O acts again after them
				}
				if x[0] == "COMPLETE" {
					o.Transfers = 0
					p := func() string {
						la, lo := g.off(g.lat0, g.lon0, (g.r.Float64()-0.5)*1.2*g.span, (g.r.Float64()-0.5)*1.2*g.span)
						return fmt.Sprintf("%.5f,%.5f", la, lo)
					}
					x = []string{"--complete-filtered-trips", "--bounding-box=" + p() + "," + p()}
				}
				if i == 1 {
					o.Transfers = 0
				}
				if i < cut {
					a = append(a, x...)
				} else {
					b = append(b, x...)
				}
			}
			if len(a) == 0 || len(b) == 0 {
				return
			}
			g.o = o
			g.All()
			f := g.f
			for _, t := range g.trips { // trips that are too fast or have one stop only
				switch n := len(t.STs); {
				case n > 1 && g.p(0.15):
					for i := range t.STs {
						x, t0 := &t.STs[i], t.STs[0].Arr
						if x.Arr >= 0 {
							x.Arr, x.Dep = t0+(x.Arr-t0)/10, t0+(x.Dep-t0)/10
						}
					}
				case n > 1 && g.p(0.1):
					t.STs = t.STs[:1]
				}
			}
			k := []string{"-F"}
			in := c.Put("in", f.ToRaw())
			one := c.Exec(c.bin, append(append(append([]string(nil), k...), a...), b...), []string{in}, c.tmp("one"), 2)
			c.LoadOut(one)
			if !c.Valid(one) {
				return
			}
			mid := c.Exec(c.bin, append(append([]string(nil), k...), a...), []string{in}, c.tmp("mid"), 2)
			c.LoadOut(mid)
			if !c.Valid(mid) {
				return
			}
			two := c.Exec(c.bin, append(append([]string(nil), k...), b...), []string{c.tmp("mid")}, c.tmp("two"), 2)
			c.LoadOut(two)
			if !c.Valid(two) {
				return
			}
			alignDists(one.F, two.F)
			nodes := func(f *Feed) []*Node {
				if slices.Contains(a, "-R") || slices.Contains(b, "-R") { // routes may be the same with another place in the order
					for _, x := range f.Routes {
						x.Sort = -1
					}
					for _, x := range f.Fares {
						for i := range x.Rules {
							x.Rules[i].X = nil
						}
					}
				}
				used := map[string]bool{}
				for _, t := range f.Trips {
					used[t.Service] = true
				}
				var l []*Node
				for _, n := range f.Graph() {
					if n.Kind == "service" {
						days := f.Services[n.ID].Active()
						if len(days) == 0 && !used[n.ID] { // may be written or not
							continue
						}
						n.Body = fmt.Sprint(days)
					}
					l = append(l, n)
				}
				return l
			}
			none := func(n *Node) string { return "" }
			if !c.sameGraph("differs", nodes(one.F), nodes(two.F), none, none) {
				return
			}
			c.Nontrivial(fmt.Sprint(a, b))
			for _, x := range a {
				for _, y := range b {
					c.Seen("pairs_of_options_apart", strings.SplitN(x, "=", 2)[0]+" | "+strings.SplitN(y, "=", 2)[0])
				}
			}
			c.Count("nodes_compared", len(nodes(two.F)))
			c.Sample(map[string]any{"first": a, "then": b})
		}})
}
