package main

// expOrphans removes from f what nothing uses: the specification of -O.
func expOrphans(f *Feed) {
	// trips nobody can board or alight from
	for id, t := range f.Trips {
		if len(t.STs) == 0 && len(t.Freqs) == 0 {
			delete(f.Trips, id)
			continue
		}
		r := f.Routes[t.Route]
		pu, do := false, false
		for _, s := range t.STs {
			if s.PT != 1 || s.CP != 1 || r.CP != 1 {
				pu = true
			}
			if s.DT != 1 || s.CD != 1 || r.CD != 1 {
				do = true
			}
		}
		if !pu || !do {
			delete(f.Trips, id)
		}
	}
	usedStop, usedRoute := map[string]bool{}, map[string]bool{}
	for _, t := range f.Trips {
		usedRoute[t.Route] = true
		for _, s := range t.STs {
			for q := f.Stops[s.Stop]; q != nil; q = f.Stops[q.Parent] {
				usedStop[q.ID] = true
			}
		}
	}
	var tr []*Transfer
	for _, x := range f.Transfers {
		ok := func(st, rt, tp string) bool {
			return (st == "" || usedStop[st]) && (rt == "" || usedRoute[rt]) && (tp == "" || f.Trips[tp] != nil)
		}
		if ok(x.FS, x.FR, x.FT) && ok(x.TS, x.TR, x.TT) {
			tr = append(tr, x)
		}
	}
	f.Transfers = tr
	for {
		ref := map[string]bool{}
		for _, t := range f.Trips {
			for _, s := range t.STs {
				ref[s.Stop] = true
			}
		}
		for _, x := range f.Transfers {
			ref[x.FS], ref[x.TS] = true, true
		}
		for _, p := range f.Pathways {
			ref[p.From], ref[p.To] = true, true
		}
		for id, s := range f.Stops {
			if s.Parent != "" {
				ref[s.Parent] = true
			}
			if s.Loc == 2 {
				ref[id] = true
			}
		}
		n := len(f.Stops)
		for id := range f.Stops {
			if !ref[id] {
				delete(f.Stops, id)
			}
		}
		if len(f.Stops) == n {
			break
		}
	}
	sh, sv := map[string]bool{}, map[string]bool{}
	for _, t := range f.Trips {
		sh[t.Shape], sv[t.Service] = true, true
	}
	for id := range f.Shapes {
		if !sh[id] {
			delete(f.Shapes, id)
		}
	}
	for id := range f.Services {
		if !sv[id] {
			delete(f.Services, id)
		}
	}
	for _, a := range f.Fares {
		for _, u := range a.Rules {
			usedRoute[u.Route] = true
		}
	}
	ag := map[string]bool{}
	for id, r := range f.Routes {
		if !usedRoute[id] {
			delete(f.Routes, id)
		} else {
			ag[r.Agency] = true
		}
	}
	for _, a := range f.Fares {
		ag[a.Agency] = true
	}
	for id := range f.Agencies {
		if !ag[id] {
			delete(f.Agencies, id)
		}
	}
	var at []*Attribution
	for _, a := range f.Attributions {
		if (a.Agency == "" || f.Agencies[a.Agency] != nil) && (a.Route == "" || f.Routes[a.Route] != nil) && (a.Trip == "" || f.Trips[a.Trip] != nil) {
			at = append(at, a)
		}
	}
	f.Attributions = at
}

func orphOpt() Opt {
	o := DefOpt()
	o.Trips = [2]int{1, 6}
	o.Services = [2]int{2, 6}
	o.Shapes = [2]int{1, 6}
	o.Stations = 0.6
	o.StAttr = 0.25
	o.NoBoard = 0.15
	o.Routes = [2]int{2, 8}
	return o
}

func init() {
	reg(&Prop{ID: "P13", Title: "orphan removal is exact", Quick: 1500, Thorough: 40000,
		Rule: "seeded feeds with unused and transitively unused entities run with -O; non-trivial: at least one entity had to be removed, keyed by the set of removed entities",
		Case: func(c *Ctx) {
			o := orphOpt()
			f, raw := c.genRaw(o)
			in := c.Put("in", raw)
			fl := append([]string{"-O", "-F"}, c.idle(f, "l")...)
			r := c.Tidy(fl, in)
			if !c.OK(r) {
				return
			}
			orig := Canon(f, CanonOpt{})
			expOrphans(f)
			want := Canon(f, CanonOpt{})
			gone := ""
			for _, k := range sortedKeys(orig) {
				if _, ok := want[k]; !ok {
					gone += k + ";"
					c.Count("entities_that_had_to_go", 1)
				}
			}
			c.Frame("orphans", want, Canon(r.F, CanonOpt{}))
			if gone != "" {
				c.Nontrivial(gone)
				c.Sample(map[string]any{"removed": head(gone, 300), "kept": len(want)})
			}
			if len(r.Prob) > 0 {
				c.Viol("invalid:"+probClass(r.Prob[0]), "output is not valid: %v", r.Prob[:1])
			}
		}})
}
