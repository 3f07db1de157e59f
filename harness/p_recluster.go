package main

import (
	"fmt"
	"math"
	"regexp"
	"sort"
	"strings"
)

var letters = regexp.MustCompile(`[^\pL]`)

// placeSim rates how likely two stops are the same place: by their distance
// and by the TF-IDF similarity of their names.
func placeSim(f *Feed) func(a, b *Stop) float64 {
	vec := map[string]map[string]float64{}
	df := map[string]float64{}
	for id, s := range f.Stops {
		v := map[string]float64{}
		for _, t := range letters.Split(strings.ToUpper(s.Name), -1) {
			if t != "" {
				v[t]++
			}
		}
		for t := range v {
			df[t]++
		}
		vec[id] = v
	}
	for _, v := range vec {
		for t := range v {
			v[t] *= math.Log(float64(len(f.Stops)) / df[t])
		}
	}
	return func(a, b *Stop) float64 {
		d := haversine(float64(a.Lat), float64(a.Lon), float64(b.Lat), float64(b.Lon))
		geo := 0.5 - 0.5*math.Tanh((d-75)/(75*0.25))
		va, vb := vec[a.ID], vec[b.ID]
		if len(va) == 0 || len(vb) == 0 {
			return geo
		}
		var dot, na, nb float64
		for t, x := range va {
			dot += x * vb[t]
			na += x * x
		}
		for _, x := range vb {
			nb += x * x
		}
		sim := 0.0
		if na == 0 && nb == 0 {
			sim = 1
		} else if na > 0 && nb > 0 {
			sim = dot / math.Sqrt(na) / math.Sqrt(nb)
		}
		if sim > 0.55 {
			sim = 0.5 + (sim-0.55)/(2*0.45)
		} else {
			sim /= 2 * 0.55
		}
		return geo * sim
	}
}

func init() {
	reg(&Prop{ID: "P22", Title: "stop reclustering", Quick: 1500, Thorough: 40000,
		Rule: "seeded stop hierarchies whose stations and stops lie 0..300 m apart and whose names share words run with -E; non-trivial: clusters were merged, keyed by the groups",
		Case: func(c *Ctx) {
			o := stopOpt()
			o.Stops, o.Dup, o.Stations, o.Extra = [2]int{4, 24}, 0.2, 0.5, 0.4
			g := newG(c.R, o)
			g.All()
			// gather the places around a few centres
			names := []string{"Hauptbahnhof", "Hauptbahnhof (Nord)", "Freiburg, Hauptbahnhof", "Market Square", "Market Square 1", "Market", "Am Markt", "Town Hall", "Town Hall Nord", "42", "Zoo", "Zoo Nord", "Zoo, Nord", "Île", "île", "Île Nord", "HAUPTBAHNHOF", "Zoo Zoo Nord", "Вокзал", "Площадь Ленина", "ПЛОЩАДЬ, Парк", "東京駅"}
			g.r.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
			names = names[:pick(g, []int{1, 2, 4, 8, 14, len(names)})]
			shared := g.p(0.15) // a word all of the names share tells nothing
			if shared {
				names = []string{"Wien", "Wien Nord", "Wien, Oper", "Wien Nord 2"}
			}
			nc := 1 + g.r.Intn(3)
			type ctr struct{ la, lo float64 }
			var cs []ctr
			wide := g.p(0.4)
			for i := 0; i < nc; i++ {
				a, b := g.off(g.lat0, g.lon0, g.r.NormFloat64()*3000, g.r.NormFloat64()*3000)
				if wide { // far away, at the borders of 10 km cells
					cell := 10000 * math.Cos(g.lat0*math.Pi/180)
					a, b = g.off(g.lat0, g.lon0, cell*float64(g.r.Intn(3)*i), cell*float64(g.r.Intn(3)*i))
				}
				cs = append(cs, ctr{float64(a), float64(b)})
			}
			spread := pick(g, []float64{15, 40, 80, 150})
			for _, id := range sortedKeys(g.f.Stops) {
				s := g.f.Stops[id]
				if s.Parent != "" || g.p(0.1) && !wide {
					continue
				}
				if g.p(0.1) && s.Loc == 0 { // a station without stops
					t := *s
					t.ID, t.Loc, t.Platform = g.id("st"), 1, ""
					g.f.Stops[t.ID] = &t
					k := pick(g, cs)
					t.Lat, t.Lon = g.off(k.la, k.lo, g.r.NormFloat64()*spread, g.r.NormFloat64()*spread)
				}
				if shared || g.p(0.7) {
					s.Name = pick(g, names)
				}
				la, lo := s.Lat, s.Lon
				k := pick(g, cs)
				s.Lat, s.Lon = g.off(k.la, k.lo, g.r.NormFloat64()*spread, g.r.NormFloat64()*spread)
				for _, jd := range sortedKeys(g.f.Stops) {
					t := g.f.Stops[jd]
					if t.HasLL && jd != id && (t.Parent == id || t.Parent != "" && g.f.Stops[t.Parent].Parent == id) {
						t.Lat += s.Lat - la
						t.Lon += s.Lon - lo
						if shared || g.p(0.5) && t.Loc != 3 && t.Loc != 4 {
							t.Name = s.Name
						}
					}
				}
			}
			// attributes a new station may inherit, and ids it may not take
			same := g.p(0.3)
			for _, id := range sortedKeys(g.f.Stops) {
				s := g.f.Stops[id]
				if s.Loc > 1 || s.Parent != "" {
					continue
				}
				if g.p(0.3) {
					s.WB = g.r.Intn(3)
				}
				if g.p(0.3) {
					s.URL = pick(g, []string{"", "http://stop.example/1", "http://stop.example/2"})
				}
				if g.p(0.3) {
					s.TZ = pick(g, []string{"", "Europe/Berlin", "Europe/Paris"})
				}
				if same {
					s.WB, s.URL, s.TZ = 1, "http://stop.example/1", "Europe/Paris"
				}
				if s.Loc != 0 {
					continue
				}
				for _, p := range []string{"par::", "par1::", "par2::", "par3::"} {
					if g.p(0.35) && g.f.Stops[p+id] == nil && len(g.f.Stops) < 60 {
						t := *s
						t.ID, t.X = p+id, nil
						t.Lat, t.Lon = g.off(g.lat0, g.lon0, g.r.NormFloat64()*3000, g.r.NormFloat64()*3000)
						g.f.Stops[t.ID] = &t
					} else {
						break
					}
				}
				if g.p(0.15) {
					t := &Stop{ID: g.id("st"), Name: s.Name, Loc: 4, Parent: id}
					if g.p(0.4) {
						t.HasLL, t.Lat, t.Lon = true, s.Lat, s.Lon
						g.near(t, 20)
					}
					g.f.Stops[t.ID] = t
				}
			}
			raw := present(c.R, g.f.ToRaw())
			f, prob := ParseRaw(raw)
			if len(prob) > 0 {
				fatal("generator: %v", prob)
			}
			fl := c.maybeF(f, []string{"-E"})
			fl = append(fl, c.idle(f, "l")...)
			r := c.Tidy(fl, c.Put("in", raw))
			if !c.Valid(r) {
				return
			}
			c.reclustered(f, r.F)
		}})
}

func (c *Ctx) reclustered(f, out *Feed) {
	ids := sortedKeys(f.Stops)
	// clusters of the input
	home := map[string]string{}
	mem := map[string][]string{}
	for _, id := range ids {
		h := f.station(id)
		if f.Stops[id].Loc == 4 && f.Stops[h] != nil && f.Stops[h].Loc == 0 && f.Stops[h].Parent == "" {
			h = f.Stops[id].Parent
		}
		home[id] = h
		mem[h] = append(mem[h], id)
	}
	// where they are now
	to := map[string]string{}
	unknown := 0
	for _, h := range sortedKeys(mem) {
		at := ""
		for _, id := range mem[h] {
			s, u := f.Stops[id], out.Stops[id]
			if s.Loc == 1 {
				if u != nil && at == "" {
					at = id
				}
				continue
			}
			if u == nil {
				c.Viol("stop-lost", "stop %s is gone", id)
				return
			}
			if s.Loc == 4 {
				continue
			}
			p := u.Parent
			if p == "" {
				p = id
				if s.Parent != "" {
					c.Viol("parent-lost", "stop %s of station %s has no station anymore", id, s.Parent)
					return
				}
			}
			if at == "" {
				at = p
			}
			if p != at {
				c.Viol("split", "stops of the cluster %v were torn apart: one is at %s now, %s at %s", mem[h], at, id, p)
				return
			}
		}
		if at == "" {
			unknown++
		}
		to[h] = at
	}
	group := map[string][]string{}
	for _, h := range sortedKeys(to) {
		if to[h] != "" {
			group[to[h]] = append(group[to[h]], h)
		}
	}
	// stations
	for _, id := range sortedKeys(out.Stops) {
		s := out.Stops[id]
		if f.Stops[id] != nil {
			continue
		}
		if s.Loc != 1 || len(group[id]) == 0 {
			c.Viol("new-stop", "stop %s appeared: %s", id, s.str())
			return
		}
		var la, lo, n float64
		names := map[string]bool{}
		has := map[string]map[string]bool{"url": {}, "tz": {}, "wb": {}}
		for _, h := range group[id] {
			for _, m := range mem[h] {
				k := f.Stops[m]
				if k.Loc == 1 {
					c.Viol("station-lost", "station %s was removed, but the new station %s took over its stops", m, id)
					return
				}
				names[k.Name] = true
				has["url"][k.URL], has["tz"][k.TZ], has["wb"][fmt.Sprint(k.WB)] = true, true, true
				if k.HasLL {
					la, lo, n = la+float64(k.Lat), lo+float64(k.Lon), n+1
				}
			}
		}
		if s.Name == "" || !names[s.Name] || s.Code+s.Desc+s.Zone+s.Platform+s.Level+s.Parent+xstr(s.X) != "" {
			c.Viol("new-station", "station %s of %v is not made of these: %s", id, group[id], s.str())
			return
		}
		for _, k := range []string{"url", "tz", "wb"} {
			v, none := map[string]string{"url": s.URL, "tz": s.TZ, "wb": fmt.Sprint(s.WB)}[k], map[string]string{"wb": "0"}[k]
			vals := has[k]
			_, unset := vals[none]
			delete(vals, none)
			switch {
			case len(vals) != 1 && v != none:
				c.Viol("disagreed", "station %s has %s %s, of which the stops it is made of have %v", id, k, v, sortedKeys(vals))
				return
			case len(vals) == 1 && !vals[v] && (v != none || !unset):
				c.Viol("agreed", "station %s has %s %q, but the stops it is made of have %v", id, k, v, sortedKeys(vals))
				return
			}
			if len(vals) > 1 {
				c.Count("attributes_disagreed", 1)
			}
		}
		if d := haversine(la/n, lo/n, float64(s.Lat), float64(s.Lon)); !s.HasLL || !(d < 5) {
			c.Viol("new-position", "station %s of %v is at %g,%g, %.1f m from their centre", id, group[id], s.Lat, s.Lon, d)
			return
		}
		c.Count("stations_created", 1)
	}
	sim := placeSim(f)
	best := func(a, b string) (mx, avg float64, near bool) {
		n := 0.0
		for _, x := range mem[a] {
			for _, y := range mem[b] {
				s, t := f.Stops[x], f.Stops[y]
				if s.HasLL && t.HasLL {
					v := sim(s, t)
					mx = max(mx, v)
					avg += v
					n++
				}
			}
		}
		return mx, avg, n > 0
	}
	count := func(a []string) (n int) {
		for _, h := range a {
			for _, x := range mem[h] {
				if f.Stops[x].HasLL {
					n++
				}
			}
		}
		return
	}
	key := ""
	merged := 0
	for _, p := range sortedKeys(group) {
		hs := group[p]
		if len(hs) < 2 {
			continue
		}
		merged += len(hs) - 1
		key += p + "<" + strings.Join(hs, ",") + ";"
		c.Count("groups_merged", 1)
		// each group must hold together by similar stops
		seen := map[string]bool{hs[0]: true}
		todo := []string{hs[0]}
		for len(todo) > 0 {
			h := todo[0]
			todo = todo[1:]
			for _, k := range sortedKeys(to) {
				if !seen[k] && (to[k] == p || to[k] == "") {
					if mx, _, _ := best(h, k); mx >= 0.49 {
						seen[k] = true
						todo = append(todo, k)
					}
				}
			}
		}
		for _, h := range hs {
			if !seen[h] {
				c.Viol("unlike", "clusters %v were merged, but no stops of %s (%v) resemble the others", hs, h, mem[h])
				return
			}
		}
	}
	if unknown == 0 {
		ps := sortedKeys(group)
		for i, p := range ps {
			for _, q := range ps[i+1:] {
				sum := 0.0
				for _, a := range group[p] {
					for _, b := range group[q] {
						_, s, _ := best(a, b)
						sum += s
					}
				}
				n := count(group[p]) * count(group[q])
				c.Count("group_pairs_decided", 1)
				if n > 0 && sum/float64(n) >= 0.51 {
					c.Viol("left-apart", "the groups %v and %v have a similarity of %.3f, but were not merged", group[p], group[q], sum/float64(n))
					return
				}
			}
		}
	} else {
		c.Count("feeds_with_unknown_stations", 1)
	}
	// references to removed stations
	ren := map[string]string{"": ""}
	for _, id := range ids {
		ren[id] = id
		if out.Stops[id] == nil {
			ren[id] = to[id]
		}
	}
	infer := func(a, b, what string) bool {
		if ren[a] == "" && a != "" && out.Stops[b] != nil && out.Stops[b].Loc == 1 {
			ren[a] = b
		}
		if ren[a] != b {
			c.Viol("reference", "%s refers to stop %q instead of %q, which is %q now", what, b, a, ren[a])
			return false
		}
		return true
	}
	for _, id := range sortedKeys(f.Pathways) {
		p, q := f.Pathways[id], out.Pathways[id]
		if q == nil {
			c.Viol("pathway-lost", "pathway %s is missing", id)
			return
		}
		if !infer(p.From, q.From, "pathway "+id) || !infer(p.To, q.To, "pathway "+id) {
			return
		}
		p.From, p.To = q.From, q.To
	}
	known := true
	for _, t := range f.Transfers {
		for _, e := range []*string{&t.FS, &t.TS} {
			if *e != "" && ren[*e] == "" {
				known = false
			}
			*e = ren[*e]
		}
	}
	if known {
		c.rekeyed(f, out)
	}
	for _, id := range ids {
		s := f.Stops[id]
		switch u := out.Stops[id]; {
		case u == nil:
			delete(f.Stops, id)
		case s.Loc != 4 && s.Loc != 1:
			s.Parent = u.Parent
		}
	}
	for _, id := range sortedKeys(out.Stops) {
		if f.Stops[id] == nil {
			delete(out.Stops, id)
		}
	}
	if !c.Frame("frame", Canon(f, CanonOpt{NoTransfer: true}), Canon(out, CanonOpt{NoTransfer: true})) {
		return
	}
	if merged > 0 {
		sort.Strings(ids)
		c.Count("clusters_merged", merged)
		c.Nontrivial(key)
		c.Sample(map[string]any{"groups": head(key, 300), "stops": len(ids)})
	}
}
