package main

import (
	"fmt"
	"strconv"
	"strings"
)

// options whose result can be told from the feed that comes out
var promises = []string{"-O", "-O", "-A", "-R", "-C", "--remove-cal-dates", "--ensure-stop-parents", "--drop-platform-for-parentless", "-i", "-d"}

// all the others
var helpers = []string{"-m", "-s", "-r", "--snap-stops", "-S", "-c", "-I", "-T", "-E", "-P", "--group-adj-stop-times", "--non-overlapping-services", "--drop-too-fast-trips", "--fix-far-away-parents", "--red-stops-fuzzy", "--red-trips-fuzzy", "--red-trips-aggressive", "--drop-shapes", "--drop-single-stop-trips", "--explicit-calendar", "-D", "-e", "-n", "-z", "--compress", "--Compress", "--merge", "--Merge"}

func init() {
	reg(&Prop{ID: "P32", Title: "options keep their promise in combination", Quick: 2000, Thorough: 50000,
		Rule: "seeded feeds run with one to four options whose result shows in the output and up to four others; non-trivial: something an option clears away was in the input, keyed by the options and the feed that came out",
		Case: func(c *Ctx) {
			g := &G{r: c.R}
			o := orphOpt()
			switch c.R.Intn(3) {
			case 0:
				o = stopOpt()
			case 1:
				o.Dup = 0.7
			}
			// steps of which a later one undoes what an earlier one does
			var fl []string
			if g.p(0.4) {
				fl = append(fl, pick(g, [][]string{{"-O", "--snap-stops"}, {"-O", "-I"}, {"-O", "--non-overlapping-services"}, {"-C", "-I"}, {"-C", "-I", "-c"}, {"-c", "--remove-cal-dates"}, {"-I", "--remove-cal-dates"}, {"-E", "--ensure-stop-parents"}, {"-O", "-E"}, {"-d", "--ensure-stop-parents"}, {"-i", "--snap-stops"}, {"-d", "--remove-cal-dates"}, {"-i", "--non-overlapping-services"}, {"-A", "-R"}})...)
			}
			if strings.Contains(strings.Join(fl, " "), "-I") || g.p(0.1) {
				o = svcOpt(c.R)
				o.Dup, o.Services, o.Trips, o.ST = 0.4, [2]int{1, 6}, [2]int{1, 10}, [2]int{2, 4}
			}
			g = newG(c.R, o)
			g.All()
			if strings.Contains(strings.Join(fl, " "), "-I") {
				g.copies()
			}
			raw := present(c.R, g.f.ToRaw())
			f, prob := ParseRaw(raw)
			if len(prob) > 0 {
				fatal("generator: %v", prob)
			}
			on := map[string]bool{}
			for n := 1 + c.R.Intn(4); n > 0; n-- {
				fl = append(fl, pick(g, promises))
			}
			for n := c.R.Intn(5); n > 0; n-- {
				fl = append(fl, pick(g, helpers))
			}
			c.R.Shuffle(len(fl), func(i, j int) { fl[i], fl[j] = fl[j], fl[i] })
			for _, x := range fl {
				on[x] = true
				switch x {
				case "--compress", "--Compress", "--merge", "--Merge":
					for _, p := range []string{"-O", "-A", "-R", "-C"} {
						on[p] = true
					}
				}
			}
			fl = c.maybeF(f, fl)
			r := c.Tidy(fl, c.Put("in", raw))
			if !c.Valid(r) {
				return
			}
			there := c.leftovers(f, on, nil)
			left := c.leftovers(r.F, on, func(opt, what string) {
				c.Viol("left:"+opt, "%v: %s although %s was given", fl, what, opt)
			})
			c.Count("promises_checked", len(on))
			for _, k := range sortedKeys(there) {
				c.Seen("cleared_away", k)
				if on["-i"] || on["-d"] {
					continue
				}
				c.Count("things_cleared_away", max(0, there[k]-left[k]))
			}
			if len(there) > 0 {
				c.Nontrivial(fmt.Sprint(strings.Join(fl, " "), there, f.ids("trip"), f.ids("stop")))
				c.Sample(map[string]any{"options": strings.Join(fl, " "), "in_the_input": there})
			}
		}})
}

// leftovers counts, per option of on, what this option should have removed from f.
func (c *Ctx) leftovers(f *Feed, on map[string]bool, tell func(opt, what string)) map[string]int {
	n := map[string]int{}
	bad := func(opt, format string, a ...any) {
		if n[opt]++; tell != nil && n[opt] == 1 {
			tell(opt, fmt.Sprintf(format, a...))
		}
	}
	dup := func(opt, kind string, m map[string]string) {
		if !on[opt] {
			return
		}
		seen := map[string]string{}
		for _, id := range sortedKeys(m) {
			if o, ok := seen[m[id]]; ok {
				bad(opt, "%s %s and %s are both left and equal (%s)", kind, o, id, m[id])
			}
			seen[m[id]] = id
		}
	}
	dup("-A", "agencies", agencyClasses(f))
	dup("-R", "routes", routeClasses(f))
	if !on["--remove-cal-dates"] { // which makes services of single dates
		dup("-C", "services", dateKeys(f))
	} else {
		for _, id := range sortedKeys(f.Services) {
			if len(f.Services[id].Exc) > 0 {
				bad("--remove-cal-dates", "service %s has exceptions", id)
			}
		}
	}
	for _, id := range sortedKeys(f.Stops) {
		s := f.Stops[id]
		if on["--ensure-stop-parents"] && s.Loc == 0 && s.Parent == "" {
			bad("--ensure-stop-parents", "stop %s has no parent", id)
		}
		if on["--drop-platform-for-parentless"] && !on["--ensure-stop-parents"] && s.Parent == "" && s.Platform != "" {
			bad("--drop-platform-for-parentless", "stop %s without a parent has the platform code %s", id, s.Platform)
		}
	}
	base := map[bool]int{true: 10, false: 36}[on["-i"]]
	if opt := map[bool]string{true: "-i", false: "-d"}[on["-i"]]; on[opt] {
		for _, k := range idKinds {
			if k == "block" {
				continue
			}
			l := f.ids(k)
			have := map[string]bool{}
			for _, id := range l {
				have[id] = true
			}
			for i := range l {
				if id := strconv.FormatInt(int64(i+1), base); !have[id] {
					bad(opt, "no %s of %d has the id %s: %v", k, len(l), id, l)
				}
			}
		}
	}
	// a trip nobody can alight from any more once its stop times are one has not been an orphan
	if on["-O"] && !on["--group-adj-stop-times"] {
		have := Canon(f, CanonOpt{})
		q := *f
		q.Trips, q.Stops, q.Routes, q.Shapes, q.Services, q.Agencies = cpMap(f.Trips), cpMap(f.Stops), cpMap(f.Routes), cpMap(f.Shapes), cpMap(f.Services), cpMap(f.Agencies)
		expOrphans(&q)
		for _, d := range DiffMaps(have, Canon(&q, CanonOpt{})) {
			bad("-O", "%s is unused", head(d, 300))
		}
	}
	return n
}

func cpMap[V any](m map[string]V) map[string]V {
	r := make(map[string]V, len(m))
	for k, v := range m {
		r[k] = v
	}
	return r
}
