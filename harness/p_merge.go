package main

import (
	"fmt"
	"sort"
	"strings"
)

// stripExtra removes the non-GTFS columns (they are only kept with -F).
func (f *Feed) stripExtra() {
	for _, x := range f.Agencies {
		x.X = nil
	}
	for _, x := range f.Stops {
		x.X = nil
	}
	for _, x := range f.Routes {
		x.X = nil
	}
	for _, x := range f.Trips {
		x.X = nil
		for i := range x.STs {
			x.STs[i].X = nil
		}
		for i := range x.Freqs {
			x.Freqs[i].X = nil
		}
	}
	for _, x := range f.Shapes {
		for i := range x.Pts {
			x.Pts[i].X = nil
		}
	}
	for _, x := range f.Fares {
		x.X = nil
		for i := range x.Rules {
			x.Rules[i].X = nil
		}
	}
	for _, x := range f.Transfers {
		x.X = nil
	}
	for _, x := range f.Levels {
		x.X = nil
	}
	for _, x := range f.Pathways {
		x.X = nil
	}
	for _, x := range f.Attributions {
		x.X = nil
	}
	for _, x := range f.Infos {
		x.X = nil
	}
}

// maybeF decides whether additional fields are kept and adapts the expectation.
func (c *Ctx) maybeF(f *Feed, fl []string) []string {
	if c.R.Intn(2) == 0 {
		return append(fl, "-F")
	}
	f.stripExtra()
	return fl
}

// quotient checks that out holds exactly one member with a shortest id of each
// class of equal entities and returns the id every entity was merged into.
func (c *Ctx) quotient(kind string, class map[string]string, out []string) (map[string]string, bool) {
	members := map[string][]string{}
	for _, id := range sortedKeys(class) {
		members[class[id]] = append(members[class[id]], id)
	}
	rep := map[string]string{}
	for _, id := range out {
		k, ok := class[id]
		if !ok {
			c.Viol("new-"+kind, "%s %s appeared", kind, id)
			return nil, false
		}
		if o, dup := rep[k]; dup {
			c.Viol("dup-left", "%ss %s and %s are equal (%s), but both are left", kind, o, id, k)
			return nil, false
		}
		rep[k] = id
	}
	to := map[string]string{}
	for k, ms := range members {
		r, ok := rep[k]
		if !ok {
			c.Viol("lost-"+kind, "of the equal %ss %v none is left (%s)", kind, ms, k)
			return nil, false
		}
		for _, m := range ms {
			to[m] = r
			if len(m) < len(r) {
				c.Viol("rep", "of the equal %ss %v, %s was kept although %s is shorter", kind, ms, r, m)
			}
		}
	}
	return to, true
}

// rekeyed compares the transfers of f, whose ends have been renamed, with those
// of out: transfers that fell together leave one of them.
func (c *Ctx) rekeyed(f, out *Feed) {
	want := map[string]map[string]bool{}
	str := func(t *Transfer) string { return fmt.Sprintf("type=%d min=%d%s", t.Type, t.MinT, xstr(t.X)) }
	for _, t := range f.Transfers {
		k := t.Key()
		if want[k] == nil {
			want[k] = map[string]bool{}
		}
		want[k][str(t)] = true
	}
	got := map[string]bool{}
	for _, t := range out.Transfers {
		k := t.Key()
		got[k] = true
		if want[k] == nil {
			c.Viol("transfer-new", "transfer %s (%s) appeared", k, str(t))
		} else if !want[k][str(t)] {
			c.Viol("transfer-changed", "transfer %s is %s, was one of %v", k, str(t), sortedKeys(want[k]))
		}
	}
	for _, k := range sortedKeys(want) {
		if !got[k] {
			c.Viol("transfer-lost", "transfer %s is missing", k)
		}
	}
	c.Count("transfers_compared", len(want))
}

func mergedKey(to map[string]string) (string, int) {
	k, n := "", 0
	for _, a := range sortedKeys(to) {
		if to[a] != a {
			k += a + ">" + to[a] + ";"
			n++
		}
	}
	return k, n
}

// agencyClasses: what agencies have to have in common to be the same
func agencyClasses(f *Feed) map[string]string {
	class := map[string]string{}
	for id, a := range f.Agencies {
		class[id] = strings.Join([]string{a.Name, a.URL, a.TZ, a.Lang, a.Phone, a.FareURL, a.Email, xstr(a.X)}, "|")
	}
	return class
}

// routeClasses: what routes have to have in common to be the same
func routeClasses(f *Feed) map[string]string {
	class := map[string]string{}
	for id, x := range f.Routes {
		ru := []string{}
		for fid, fa := range f.Fares {
			for _, u := range fa.Rules {
				if u.Route == id {
					ru = append(ru, fid+"/"+u.Orig+"/"+u.Dest+"/"+u.Cont)
				}
			}
		}
		sort.Strings(ru)
		class[id] = fmt.Sprint(x.Agency, "|", x.Short, "|", x.Long, "|", x.Desc, "|", x.Type, "|", x.URL, "|", x.Color, "|", x.Text, "|", x.CP, "|", x.CD, "|", xstr(x.X), "|", ru)
	}
	return class
}

func init() {
	reg(&Prop{ID: "P08", Title: "agency duplicate removal", Quick: 1500, Thorough: 40000,
		Rule: "seeded feeds with equal and nearly equal agencies run with -A; non-trivial: at least one agency was merged, keyed by the merges",
		Case: func(c *Ctx) {
			o := DefOpt()
			o.Agencies = [2]int{2, 8}
			o.Routes = [2]int{2, 8}
			o.Trips = [2]int{1, 5}
			o.Dup = 0.6
			o.Attrs, o.Fares = 0.7, 0.7
			f, raw := c.genRaw(o)
			fl := c.maybeF(f, []string{"-A"})
			fl = append(fl, c.idle(f, "lAR")...)
			r := c.Tidy(fl, c.Put("in", raw))
			if !c.Valid(r) {
				return
			}
			class := agencyClasses(f)
			to, ok := c.quotient("agency", class, sortedKeys(r.F.Agencies))
			if !ok {
				return
			}
			for id := range f.Agencies {
				if to[id] != id {
					delete(f.Agencies, id)
				}
			}
			for _, x := range f.Routes {
				x.Agency = to[x.Agency]
			}
			for _, x := range f.Fares {
				x.Agency = to[x.Agency]
			}
			for _, x := range f.Attributions {
				if x.Agency != "" {
					x.Agency = to[x.Agency]
				}
			}
			c.Frame("frame", Canon(f, CanonOpt{}), Canon(r.F, CanonOpt{}))
			if k, n := mergedKey(to); n > 0 {
				c.Count("agencies_merged", n)
				c.Nontrivial(k)
				c.Sample(map[string]any{"flags": fl, "merges": k})
			}
		}})

	reg(&Prop{ID: "P07", Title: "route duplicate removal", Quick: 1500, Thorough: 40000,
		Rule: "seeded feeds with equal and nearly equal routes and fare rules run with -R; non-trivial: at least one route was merged, keyed by the merges",
		Case: func(c *Ctx) {
			o := DefOpt()
			o.Agencies = [2]int{1, 2}
			o.Routes = [2]int{3, 10}
			o.Trips = [2]int{1, 8}
			o.Dup = 0.6
			o.Attrs, o.Fares, o.Transfers = 0.7, 0.7, 0.7
			g := newG(c.R, o)
			g.All()
			// often give equal routes the same fare rules
			if c.R.Intn(2) == 0 {
				for _, id := range sortedKeys(g.f.Fares) {
					fa := g.f.Fares[id]
					n := len(fa.Rules)
					for i := 0; i < n; i++ {
						for _, rt := range g.routes {
							if o := g.f.Routes[fa.Rules[i].Route]; o != nil && rt.ID != o.ID && rt.Short == o.Short && rt.Long == o.Long && c.R.Intn(5) > 0 {
								u := fa.Rules[i]
								u.Route = rt.ID
								if c.R.Intn(6) == 0 { // another zone
									z := fmt.Sprintf("z%d", c.R.Intn(3))
									switch c.R.Intn(3) {
									case 0:
										u.Orig = z
									case 1:
										u.Dest = z
									case 2:
										u.Cont = z
									}
								}
								if u.X != nil {
									u.X = map[string]string{"x_rule": u.X["x_rule"] + "c"}
								}
								fa.Rules = append(fa.Rules, u)
							}
						}
					}
					c.R.Shuffle(len(fa.Rules), func(i, j int) { fa.Rules[i], fa.Rules[j] = fa.Rules[j], fa.Rules[i] })
				}
			}
			raw := present(c.R, g.f.ToRaw())
			f, prob := ParseRaw(raw)
			if len(prob) > 0 {
				fatal("generator: %v", prob)
			}
			fl := c.maybeF(f, []string{"-R"})
			fl = append(fl, c.idle(f, "lR")...)
			r := c.Tidy(fl, c.Put("in", raw))
			if !c.Valid(r) {
				return
			}
			class := routeClasses(f)
			to, ok := c.quotient("route", class, sortedKeys(r.F.Routes))
			if !ok {
				return
			}
			mv := func(s *string) {
				if *s != "" {
					*s = to[*s]
				}
			}
			for _, t := range f.Trips {
				mv(&t.Route)
			}
			for _, a := range f.Attributions {
				mv(&a.Route)
			}
			for _, t := range f.Transfers {
				mv(&t.FR)
				mv(&t.TR)
			}
			for _, fa := range f.Fares {
				var ru []Rule
				for _, u := range fa.Rules {
					if u.Route == "" || to[u.Route] == u.Route {
						ru = append(ru, u)
					}
				}
				fa.Rules = ru
			}
			for id := range f.Routes {
				if to[id] != id {
					delete(f.Routes, id)
				}
			}
			c.Frame("frame", Canon(f, CanonOpt{NoTransfer: true}), Canon(r.F, CanonOpt{NoTransfer: true}))
			c.rekeyed(f, r.F)
			if k, n := mergedKey(to); n > 0 {
				c.Count("routes_merged", n)
				c.Nontrivial(k)
				c.Sample(map[string]any{"flags": fl, "merges": k})
			}
		}})
}

func distApprox(a, b *Stop) float64 {
	if !a.HasLL || !b.HasLL {
		return 1e12
	}
	d2r := 3.14159265358979323846 / 180
	la, lb := float64(a.Lat)*d2r, float64(b.Lat)*d2r
	x := (float64(b.Lon) - float64(a.Lon)) * d2r * cos(0.5*(la+lb))
	return hypot(lb-la, x) * earthR
}

// stopEq says whether -P regards two stops as the same place, given their
// (already merged) parents and levels; slack widens the distances.
func stopEq(a, b *Stop, pa, pb, la, lb string, fuzzy bool, slack float64) bool {
	d := distApprox(a, b)
	if !(d <= 5+slack || a.Loc == 1 && d <= 50+slack) {
		return false
	}
	if a.Desc != b.Desc || a.Zone != b.Zone || a.Loc != b.Loc || pa != pb || a.TZ != b.TZ || a.WB != b.WB {
		return false
	}
	if !fuzzy {
		return a.Code == b.Code && a.Name == b.Name && a.URL == b.URL && la == lb && a.Platform == b.Platform && xstr(a.X) == xstr(b.X)
	}
	very := d <= 2.5+slack && pa != "" && pa == pb
	return (very || a.Code == b.Code || a.Code == "" || b.Code == "") && (very || a.Name == b.Name) &&
		(a.URL == "" || b.URL == "" || a.URL == b.URL) && (la == lb || la == "" || lb == "") &&
		(very && (a.Platform == "" || b.Platform == "") || a.Platform == b.Platform)
}

// stopClasses groups the stops of f by being the same place, directly or
// through others; full marks the classes whose members are all directly equal.
func stopClasses(f *Feed, lvl map[string]string, fuzzy bool) (class map[string]string, full map[string]bool) {
	ids := sortedKeys(f.Stops)
	class = map[string]string{}
	for _, id := range ids {
		class[id] = id
	}
	par := func(s *Stop) string {
		if s.Parent == "" {
			return ""
		}
		return class[s.Parent]
	}
	for ch := true; ch; {
		ch = false
		for i, a := range ids {
			for _, b := range ids[i+1:] {
				x, y := f.Stops[a], f.Stops[b]
				if class[a] != class[b] && stopEq(x, y, par(x), par(y), lvl[x.Level], lvl[y.Level], fuzzy, 0.01) {
					o, n := class[b], class[a]
					if o < n {
						o, n = n, o
					}
					for k, v := range class {
						if v == o {
							class[k] = n
						}
					}
					ch = true
				}
			}
		}
	}
	full = map[string]bool{}
	mem := map[string][]string{}
	for _, id := range ids {
		mem[class[id]] = append(mem[class[id]], id)
	}
	for k, ms := range mem {
		ok := true
		for i, a := range ms {
			for _, b := range ms[i+1:] {
				x, y := f.Stops[a], f.Stops[b]
				if !stopEq(x, y, par(x), par(y), lvl[x.Level], lvl[y.Level], fuzzy, -0.01) {
					ok = false
				}
			}
		}
		full[k] = ok
	}
	// a class is only certain to be merged if the parents of its members are
	for ch := true; ch; {
		ch = false
		for k, ms := range mem {
			for _, m := range ms {
				if p := f.Stops[m].Parent; full[k] && p != "" && !full[class[p]] {
					full[k] = false
					ch = true
				}
			}
		}
	}
	return
}

func stopRef(ms []string) string {
	ref := ms[0]
	for _, s := range ms[1:] {
		a, b := strings.Count(s, ":"), strings.Count(ref, ":")
		if a > b || a == b && (len(s) < len(ref) || len(s) == len(ref) && s < ref) {
			ref = s
		}
	}
	return ref
}

func stopOpt() Opt {
	o := DefOpt()
	o.Stops = [2]int{4, 16}
	o.Trips = [2]int{1, 8}
	o.Dup = 0.6
	o.Stations = 0.5
	o.Transfers, o.Pathways, o.Levels = 0.7, 0.7, 0.6
	o.Shapes = [2]int{0, 2}
	o.Extra = 0.1
	return o
}

func init() {
	reg(&Prop{ID: "P09", Title: "stop and level duplicate removal", Quick: 1500, Thorough: 40000,
		Rule: "seeded stop hierarchies with (near-)copies at 0..80 m run with -P, half of them with fuzzy matching; non-trivial: at least one stop was merged, keyed by the stops left",
		Case: func(c *Ctx) {
			f, raw := c.genRaw(stopOpt())
			fuzzy := c.R.Intn(3) == 0
			c.stopMerge(f, raw, "-P", fuzzy)
		}})
}

// stopMerge runs the tool with an option that merges duplicate stops. If the
// option removes platform codes first, these are removed from f, too.
func (c *Ctx) stopMerge(f *Feed, raw Raw, opt string, fuzzy bool) {
	fl := c.maybeF(f, []string{opt})
	fl = append(fl, c.idle(f, map[bool]string{true: "g", false: "gl"}[opt == "-P"])...)
	if fuzzy {
		fl = append(fl, "--red-stops-fuzzy")
	}
	r := c.Tidy(fl, c.Put("in", raw))
	if !c.Valid(r) {
		return
	}
	if opt == "--drop-platform-for-parentless" {
		for _, s := range f.Stops {
			if s.Parent == "" {
				s.Platform = ""
			}
		}
	}
	// levels
	lc := map[string]string{}
	for id, l := range f.Levels {
		lc[id] = fstr(l.Index) + "|" + l.Name
		if !fuzzy {
			lc[id] += "|" + xstr(l.X)
		}
	}
	lvl, ok := c.quotient("level", lc, sortedKeys(r.F.Levels))
	if !ok {
		return
	}
	lvl[""] = ""
	class, full := stopClasses(f, lvl, fuzzy)
	mem := map[string][]string{}
	for _, id := range sortedKeys(class) {
		mem[class[id]] = append(mem[class[id]], id)
	}
	to := map[string]string{"": ""}
	move := func(a, b, what string) bool {
		if to[a] == "" && a != "" {
			to[a] = b
		}
		if to[a] != b {
			c.Viol("inconsistent", "%s refers to stop %q instead of %q, but another reference was changed to %q", what, b, a, to[a])
			return false
		}
		if class[a] != class[b] || r.F.Stops[b] == nil && b != "" {
			c.Viol("not-equal", "%s was moved from stop %q to stop %q, which is not the same place", what, a, b)
			return false
		}
		return true
	}
	for _, id := range sortedKeys(r.F.Stops) {
		if f.Stops[id] == nil {
			c.Viol("new-stop", "stop %s appeared", id)
			return
		}
		to[id] = id
	}
	for _, k := range sortedKeys(mem) {
		left := []string{}
		for _, m := range mem[k] {
			if r.F.Stops[m] != nil {
				left = append(left, m)
			}
		}
		if len(left) == 0 {
			c.Viol("lost-stop", "of the stops %v none is left", mem[k])
			return
		}
		if full[k] {
			c.Count("places_certain", 1)
			if len(left) > 1 {
				c.Viol("dup-left", "stops %v are the same place, but %v are left", mem[k], left)
				return
			}
			if left[0] != stopRef(mem[k]) {
				c.Viol("rep", "of the stops %v, %s was kept instead of %s", mem[k], left[0], stopRef(mem[k]))
			}
		}
		if len(left) == 1 {
			for _, m := range mem[k] {
				to[m] = left[0]
			}
		}
	}
	for _, id := range sortedKeys(f.Trips) {
		t, u := f.Trips[id], r.F.Trips[id]
		if u == nil || len(t.STs) != len(u.STs) {
			c.Viol("trip", "trip %s is missing or has another number of stop times", id)
			return
		}
		for i := range t.STs {
			if !move(t.STs[i].Stop, u.STs[i].Stop, "trip "+id) {
				return
			}
			t.STs[i].Stop = u.STs[i].Stop
		}
	}
	for _, id := range sortedKeys(r.F.Stops) {
		if p := f.Stops[id].Parent; !move(p, r.F.Stops[id].Parent, "parent_station of "+id) {
			return
		}
		f.Stops[id].Parent = r.F.Stops[id].Parent
		f.Stops[id].Level = lvl[f.Stops[id].Level]
	}
	for _, id := range sortedKeys(f.Pathways) {
		p, q := f.Pathways[id], r.F.Pathways[id]
		if q == nil || !move(p.From, q.From, "pathway "+id) || !move(p.To, q.To, "pathway "+id) {
			if q == nil {
				c.Viol("pathway-lost", "pathway %s is missing", id)
			}
			return
		}
		p.From, p.To = q.From, q.To
	}
	known := true
	for _, t := range f.Transfers {
		for _, e := range []*string{&t.FS, &t.TS} {
			if *e != "" && to[*e] == "" {
				known = false
			}
			*e = to[*e]
		}
	}
	if known {
		c.rekeyed(f, r.F)
	} else {
		c.Count("transfers_not_compared", len(f.Transfers))
	}
	for id := range f.Stops {
		if r.F.Stops[id] == nil {
			delete(f.Stops, id)
		}
	}
	for id := range f.Levels {
		if lvl[id] != id {
			delete(f.Levels, id)
		}
	}
	c.Frame("frame", Canon(f, CanonOpt{NoTransfer: true}), Canon(r.F, CanonOpt{NoTransfer: true}))
	if n := len(class) - len(f.Stops); n > 0 {
		c.Count("stops_merged", n)
		k, _ := mergedKey(to)
		c.Nontrivial(k)
		c.Sample(map[string]any{"flags": fl, "merges": k})
	}
}
