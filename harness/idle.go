package main

import "fmt"

// idle returns, every now and then, up to four options that have nothing to do
// in feed f, so that the result has to be the one without them. Kinds of
// options in not are left out, because the check's own option makes work for
// them: h shapes, c calendars, g grouping, A R C duplicates, t types, l
// platform codes (does what -P does), r repairing.
func (c *Ctx) idle(f *Feed, not string) (fl []string) {
	g := &G{r: c.R}
	if !g.p(0.3) {
		return nil
	}
	var all []string
	add := func(kind byte, ok bool, opts ...string) {
		for i := range not {
			ok = ok && not[i] != kind
		}
		if ok {
			all = append(all, pick(g, opts))
		}
	}
	distinct := func(m map[string]string) bool {
		seen := map[string]bool{}
		for _, k := range m {
			seen[k] = true
		}
		return len(seen) == len(m)
	}
	exc, grp, std, plat := false, false, true, false
	types := map[int]bool{}
	for _, s := range f.Services {
		exc = exc || len(s.Exc) > 0
	}
	single := false
	for _, t := range f.Trips {
		single = single || len(t.STs) < 2
		for i := 1; i < len(t.STs); i++ {
			grp = grp || t.STs[i].Stop == t.STs[i-1].Stop
		}
	}
	for _, r := range f.Routes {
		types[r.Type] = true
		std = std && r.Type <= 12
	}
	for _, s := range f.Stops {
		plat = plat || s.Parent == "" && s.Platform != ""
	}
	none := len(f.Shapes) == 0
	add('h', none, "-s", "-m", "-s", "-r")
	add('h', none, "--snap-stops")
	add('h', none, "-S", "--drop-shapes")
	add('c', !exc, "-c")
	add('g', !grp, "--group-adj-stop-times")
	add('A', distinct(agencyClasses(f)), "-A")
	add('R', distinct(agencyClasses(f)) && distinct(routeClasses(f)), "-R")
	add('C', distinct(dateKeys(f)), "-C")
	add('t', std, "--standard-route-types")
	add('l', !plat, "--drop-platform-for-parentless")
	add('s', !single, "--drop-single-stop-trips")
	add('r', true, "-D", "-e", "-z", "-W")
	for _, x := range []int{900, 1700, 11, 0, 3} {
		if !types[x] {
			add('N', true, fmt.Sprintf("--drop-mots=%d", x))
			break
		}
	}
	add('x', true, "--unsorted-files", "--zip-compression-level=3")
	c.R.Shuffle(len(all), func(i, j int) { all[i], all[j] = all[j], all[i] })
	fl = all[:min(len(all), 1+c.R.Intn(4))]
	for _, x := range fl {
		c.Seen("idle_options", x)
	}
	return fl
}

// company returns, every now and then, up to four options that change other
// parts of the feed than the one a check looks at, given as the candidates.
func (c *Ctx) company(cands ...string) (fl []string) {
	if c.R.Intn(4) > 0 {
		return nil
	}
	for n := 1 + c.R.Intn(4); n > 0; n-- {
		x := cands[c.R.Intn(len(cands))]
		c.Seen("company", x)
		fl = append(fl, x)
	}
	return fl
}
