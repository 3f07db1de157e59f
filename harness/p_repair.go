package main

import (
	"fmt"
	"strings"
)

// Repairing broken feeds. The broken feed is made from a valid one by faults
// at known rows; everything a fault can reach through references is tainted,
// the rest has to come out as it was.

// idCols: the columns of each table that say what a row belongs to.
var idCols = map[string][]string{
	"agency.txt": {"agency_id"}, "stops.txt": {"stop_id"}, "routes.txt": {"route_id"}, "trips.txt": {"trip_id"}, "stop_times.txt": {"trip_id"},
	"calendar.txt": {"service_id"}, "calendar_dates.txt": {"service_id"}, "shapes.txt": {"shape_id"}, "fare_attributes.txt": {"fare_id"}, "fare_rules.txt": {"fare_id"},
	"frequencies.txt": {"trip_id"}, "levels.txt": {"level_id"}, "pathways.txt": {"pathway_id"}, "transfers.txt": {}, "attributions.txt": {}, "feed_info.txt": {},
}

var kindOf = map[string]string{
	"agency.txt": "agency", "stops.txt": "stop", "routes.txt": "route", "trips.txt": "trip", "stop_times.txt": "trip", "calendar.txt": "service", "calendar_dates.txt": "service",
	"shapes.txt": "shape", "fare_attributes.txt": "fare", "fare_rules.txt": "fare", "frequencies.txt": "trip", "levels.txt": "level", "pathways.txt": "pathway",
	"transfers.txt": "transfer", "attributions.txt": "attribution", "feed_info.txt": "feed_info",
}

type taint map[string]bool

// spread follows the references of the feed.
func (x taint) spread(f *Feed) {
	for n := -1; n != len(x); {
		n = len(x)
		for id, r := range f.Routes {
			if x["agency "+r.Agency] {
				x["route "+id] = true
			}
		}
		for id, a := range f.Fares {
			if x["agency "+a.Agency] {
				x["fare "+id] = true
			}
			for _, u := range a.Rules {
				if x["route "+u.Route] {
					x["fare "+id] = true
				}
			}
		}
		for id, s := range f.Stops {
			if s.Parent != "" && x["stop "+s.Parent] || s.Level != "" && x["level "+s.Level] {
				x["stop "+id] = true
			}
		}
		for id, t := range f.Trips {
			if x["route "+t.Route] || x["service "+t.Service] || t.Shape != "" && x["shape "+t.Shape] {
				x["trip "+id] = true
			}
			for i := range t.STs {
				if x["stop "+t.STs[i].Stop] {
					x["trip "+id] = true
				}
			}
		}
		for id, p := range f.Pathways {
			if x["stop "+p.From] || x["stop "+p.To] {
				x["pathway "+id] = true
			}
		}
		for _, t := range f.Transfers {
			if x["stop "+t.FS] || x["stop "+t.TS] || x["route "+t.FR] || x["route "+t.TR] || x["trip "+t.FT] || x["trip "+t.TT] {
				x["transfer "+t.Key()] = true
			}
		}
		for _, a := range f.Attributions {
			if x["agency "+a.Agency] || x["route "+a.Route] || x["trip "+a.Trip] {
				x["attribution "+a.str()] = true
			}
		}
	}
}

func init() {
	reg(&Prop{ID: "P27", Title: "repairing feeds", Quick: 1500, Thorough: 40000,
		Rule: "valid feeds broken by faults at known rows (bad values, dangling references, repeated keys, lost rows) and run with --fix, -D, -e; non-trivial: the strict run refuses the feed and the repaired one has content, keyed by faults",
		Case: func(c *Ctx) {
			o := DefOpt()
			o.Trips = [2]int{2, 12}
			g := newG(c.R, o)
			g.All()
			f, prob := ParseRaw(g.f.ToRaw())
			if len(prob) > 0 {
				return
			}
			raw := f.ToRaw()
			x := taint{}
			var what []string
			touch := func(tab string, row []string) {
				for _, col := range idCols[tab] {
					if j := raw[tab].col(col); j >= 0 {
						x[kindOf[tab]+" "+row[j]] = true
						x[kindOf[tab]+" "+strings.TrimSpace(row[j])] = true
						x[kindOf[tab]+" "+strings.TrimSpace(strings.ReplaceAll(row[j], "\ufeff", ""))] = true
					}
				}
				x[kindOf[tab]] = true // the whole kind of things without a key
			}
			names := sortedKeys(raw)
			for n := 1 + g.r.Intn(4); n > 0; n-- {
				switch k := g.r.Intn(10); {
				case k < 6:
					ff := pick(g, fieldFaults)
					if raw[ff.tab] == nil || raw[ff.tab].col(ff.col) < 0 || len(raw[ff.tab].Rows) == 0 {
						n++
						continue
					}
					t := raw[ff.tab]
					row, v := pick(g, t.Rows), pick(g, ff.val)
					touch(ff.tab, row)
					row[t.col(ff.col)] = v
					touch(ff.tab, row)
					what = append(what, fmt.Sprintf("%s.%s=%q", ff.tab, ff.col, v))
				case k < 8:
					nm := pick(g, names)
					t := raw[nm]
					if len(t.Rows) == 0 {
						n++
						continue
					}
					row := pick(g, t.Rows)
					j := g.r.Intn(len(row))
					v := pick(g, hostile)
					for strings.HasPrefix(v, "\ufeff") { // the pinned parser strips it if, and only if, it begins a line
						v = pick(g, hostile)
					}
					if g.p(0.3) {
						v = pick(g, t.Rows)[j]
					}
					touch(nm, row)
					row[j] = v
					touch(nm, row)
					what = append(what, fmt.Sprintf("%s.%s=%q", nm, t.Cols[j], head(v, 20)))
				case k == 8:
					nm := pick(g, names)
					t := raw[nm]
					if len(t.Rows) == 0 {
						n++
						continue
					}
					i := g.r.Intn(len(t.Rows))
					touch(nm, t.Rows[i])
					t.Rows = append(t.Rows[:i:i], t.Rows[i+1:]...)
					what = append(what, nm+" row removed")
				default:
					nm := pick(g, names)
					t := raw[nm]
					if len(t.Rows) == 0 {
						n++
						continue
					}
					row := append([]string(nil), pick(g, t.Rows)...)
					touch(nm, row)
					t.Rows = append(t.Rows, row)
					what = append(what, nm+" row repeated")
				}
			}
			if g.p(0.1) && len(raw["stops.txt"].Rows) > 0 {
				touch("stops.txt", nullStop(g, raw))
				what = append(what, "stop at 0, 0")
			}
			for _, w := range what {
				if strings.HasPrefix(w, "agency.txt.agency_timezone") { // which all agencies have to share
					for id := range f.Agencies {
						x["agency "+id] = true
					}
				}
			}
			x.spread(f)
			in := c.Put([]string{"in", "in.zip"}[c.R.Intn(2)], raw)
			fl := [][]string{{"--fix"}, {"--fix"}, {"-eDnz"}, {"-D"}, {"-D", "-e"}, {"-D", "-n", "-W"}}[g.r.Intn(6)]
			fl = append(append([]string(nil), fl...), "-F")
			strict := c.Exec(c.bin, []string{"-v"}, []string{in}, "", 2)
			r := c.Exec(c.bin, fl, []string{in}, c.tmp("out"), 2)
			if c.crashed(r) {
				return
			}
			if r.Exit != 0 {
				c.Viol("not-repaired", "%v: exit status %d: %s", what, r.Exit, head(r.Stderr, 600))
				return
			}
			c.LoadOut(r)
			if r.LoadErr != nil {
				c.Viol("unreadable", "%v: %v", what, r.LoadErr)
				return
			}
			vo := []string{"-v"}
			if fl[0] == "--fix" || fl[0] == "-eDnz" || len(fl) > 2 && fl[1] == "-n" {
				vo = append(vo, "-n")
			}
			v := c.Exec(c.bin, vo, []string{r.OutPath}, "", 2)
			if v.Exit != 0 {
				c.Viol("still-broken:"+probClass(head(strings.ReplaceAll(strings.ReplaceAll(v.Stderr, "Error while parsing GTFS feed:", ""), "\n", " "), 60)), "%v %v: the repaired feed is not valid: %s", fl, what, head(v.Stderr, 600))
				return
			}
			for _, p := range r.Prob {
				if strings.Contains(p, "dangling") || strings.Contains(p, "twice") || strings.Contains(p, "dup") {
					c.Viol("still-broken:"+probClass(p), "%v %v: the repaired feed is not valid: %s", fl, what, p)
					return
				}
			}
			a, b := Canon(f, CanonOpt{}), Canon(r.F, CanonOpt{})
			tainted := func(k string) bool {
				kind, id, _ := strings.Cut(k, " ")
				switch kind {
				case "fare_rules":
					return x["fare "+id]
				case "transfer", "attribution", "feed_info":
					return x[kind] || x[k]
				}
				return x[k]
			}
			kept := 0
			for _, k := range sortedKeys(a) {
				if tainted(k) {
					continue
				}
				if _, ok := b[k]; !ok {
					c.Viol("lost:"+strings.SplitN(k, " ", 2)[0], "%v %v: %s was lost although no fault concerns it", fl, what, k)
					return
				}
				if a[k] != b[k] {
					c.Viol("changed:"+strings.SplitN(k, " ", 2)[0], "%v %v: %s was changed although no fault concerns it: %s => %s", fl, what, k, a[k], b[k])
					return
				}
				kept++
			}
			for _, k := range sortedKeys(b) {
				if _, ok := a[k]; !ok && !tainted(k) {
					c.Viol("new:"+strings.SplitN(k, " ", 2)[0], "%v %v: %s appeared: %s", fl, what, k, b[k])
					return
				}
			}
			c.Count("untouched_items_compared", kept)
			switch g.r.Intn(5) {
			case 0: // the same under a prefix
				p := pick(g, []string{"q#", "0", "x-"})
				q := c.Exec(c.bin, append(append([]string(nil), fl...), "--prefix", p), []string{in}, c.tmp("out-p"), 2)
				if q.Exit != 0 {
					c.Viol("not-repaired:prefix", "%v --prefix: exit status %d: %s", what, q.Exit, head(q.Stderr, 600))
					return
				}
				c.LoadOut(q)
				if q.LoadErr != nil || !c.sameGraph("prefix", prefixed(r.F.Graph(), p), q.F.Graph(), func(n *Node) string { return "" }, func(n *Node) string { return "" }) {
					return
				}
				c.Count("runs_with_prefix", 1)
			case 1: // and beside a second feed
				o.Trips = [2]int{1, 3}
				in2 := c.Put("second", Gen(c.R, o).ToRaw())
				ins := []string{in, in2}
				if g.p(0.5) {
					ins = []string{in2, in}
				}
				q := c.Exec(c.bin, fl, ins, c.tmp("out-m"), 2)
				if q.Exit != 0 {
					c.Viol("not-repaired:several", "%v with a second feed: exit status %d: %s", what, q.Exit, head(q.Stderr, 600))
					return
				}
				c.LoadOut(q)
				v := c.Exec(c.bin, []string{"-v"}, []string{q.OutPath}, "", 2)
				if v.Exit != 0 {
					c.Viol("still-broken:several", "%v %v with a second feed: the repaired feed is not valid: %s", fl, what, head(v.Stderr, 600))
					return
				}
				if q.LoadErr != nil {
					c.Viol("unreadable:several", "%v: %v", what, q.LoadErr)
					return
				}
				num := "0#"
				if ins[0] == in2 {
					num = "1#"
				}
				for _, k := range idKinds {
					// agencies may do without an id only as long as there is one of them
					if k == "attribution" || k == "block" || strings.Contains(fmt.Sprint(what), "agency") {
						continue
					}
					var l []string
					for _, id := range q.F.ids(k) {
						if strings.HasPrefix(id, num) {
							l = append(l, id[len(num):])
						}
					}
					if a, b := fmt.Sprintf("%q", r.F.ids(k)), fmt.Sprintf("%q", l); a != b {
						c.Viol("repaired-otherwise:"+k, "%v %v: with a second feed the repaired feed has the %ss %s, alone %s", fl, what, k, b, a)
						return
					}
				}
				c.Count("runs_with_a_second_feed", 1)
			}
			if strict.Exit != 0 && len(r.F.Stops) > 0 {
				c.Nontrivial(fmt.Sprint(what, fl))
				for _, w := range what {
					c.Seen("faults", w)
				}
				c.Sample(map[string]any{"faults": what, "options": fl, "unconcerned_items_compared": kept})
			}
		}})
}
