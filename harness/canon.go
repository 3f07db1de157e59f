package main

import (
	"fmt"
	"sort"
	"strings"
)

// CanonOpt selects what the canonical view of a feed shows.
type CanonOpt struct {
	SvcByDates bool // show the service of a trip as its active dates and hide the services themselves
	NoSvc      bool
	NoShapes   bool // hide shapes.txt
	NoTripShp  bool
	NoDist     bool // hide shape_dist_traveled in stop_times
	NoAttr     bool
	NoInfo     bool
	NoTrips    bool
	NoFreq     bool
	NoStops    bool
	NoExtra    bool
	NoTransfer bool
	NoExc      bool
}

func xstr(m map[string]string) string {
	if len(m) == 0 {
		return ""
	}
	var b strings.Builder
	for _, k := range sortedKeys(m) {
		fmt.Fprintf(&b, " %s=%s", k, m[k])
	}
	return b.String()
}

func (s *Service) String() string {
	if s == nil {
		return "<no service>"
	}
	ds := []int{}
	for d := range s.Exc {
		ds = append(ds, d)
	}
	sort.Ints(ds)
	e := ""
	for _, d := range ds {
		if s.Exc[d] {
			e += " +" + dstr(d)
		} else {
			e += " -" + dstr(d)
		}
	}
	if !s.HasCal {
		return "nocal" + e
	}
	return fmt.Sprintf("%v %s..%s%s", s.Days, dstr(s.Start), dstr(s.End), e)
}

func (s *ST) str(o *CanonOpt) string {
	d := fstr(s.Dist)
	if o.NoDist {
		d = ""
	}
	x := ""
	if !o.NoExtra {
		x = xstr(s.X)
	}
	if s.Headsign != "" {
		x = " to=" + s.Headsign + x
	}
	return fmt.Sprintf("#%d %s-%s @%s pu%d do%d cp%d cd%d tp%v d%s%s", s.Seq, tstr(s.Arr), tstr(s.Dep), s.Stop, s.PT, s.DT, s.CP, s.CD, s.TP, d, x)
}

func (a *Attribution) str() string {
	return fmt.Sprintf("id=%s ag=%s rt=%s tr=%s org=%s %v %v %v %s %s %s%s", a.ID, a.Agency, a.Route, a.Trip, a.Org, a.Prod, a.Op, a.Auth, a.URL, a.Email, a.Phone, xstr(a.X))
}

func (s *Stop) str() string {
	c := "none"
	if s.HasLL {
		c = fstr(s.Lat) + "," + fstr(s.Lon)
	}
	return fmt.Sprintf("name=%s code=%s desc=%s at=%s zone=%s url=%s loc=%d parent=%s tz=%s wb=%d level=%s plat=%s%s", s.Name, s.Code, s.Desc, c, s.Zone, s.URL, s.Loc, s.Parent, s.TZ, s.WB, s.Level, s.Platform, xstr(s.X))
}

// Canon maps entity keys to their full content.
func Canon(f *Feed, o CanonOpt) map[string]string {
	m := map[string]string{}
	x := func(v map[string]string) string {
		if o.NoExtra {
			return ""
		}
		return xstr(v)
	}
	for k, a := range f.Agencies {
		m["agency "+k] = fmt.Sprintf("%s|%s|%s|%s|%s|%s|%s%s", a.Name, a.URL, a.TZ, a.Lang, a.Phone, a.FareURL, a.Email, x(a.X))
	}
	if !o.NoStops {
		for k, s := range f.Stops {
			m["stop "+k] = s.str()
		}
	}
	for k, r := range f.Routes {
		m["route "+k] = fmt.Sprintf("ag=%s short=%s long=%s desc=%s type=%d url=%s col=%s txt=%s sort=%d cp=%d cd=%d%s", r.Agency, r.Short, r.Long, r.Desc, r.Type, r.URL, r.Color, r.Text, r.Sort, r.CP, r.CD, x(r.X))
	}
	if !o.SvcByDates && !o.NoSvc {
		for k, s := range f.Services {
			m["service "+k] = s.norm()
		}
	}
	if !o.NoShapes {
		for k, s := range f.Shapes {
			var b strings.Builder
			for _, p := range s.Pts {
				fmt.Fprintf(&b, "#%d %s,%s d%s%s; ", p.Seq, fstr(p.Lat), fstr(p.Lon), fstr(p.Dist), x(p.X))
			}
			m["shape "+k] = b.String()
		}
	}
	if !o.NoTrips {
		for k, t := range f.Trips {
			m["trip "+k] = f.tripStr(t, &o)
		}
	}
	for k, a := range f.Fares {
		m["fare "+k] = fmt.Sprintf("%s %s pm%d tf%d dur%d ag=%s%s", a.Price, a.Cur, a.PM, a.Transfers, a.Dur, a.Agency, x(a.X))
		ru := []string{}
		for _, u := range a.Rules {
			ru = append(ru, fmt.Sprintf("rt=%s o=%s d=%s c=%s%s", u.Route, u.Orig, u.Dest, u.Cont, x(u.X)))
		}
		sort.Strings(ru)
		m["fare_rules "+k] = strings.Join(ru, "; ")
	}
	if !o.NoTransfer {
		for _, t := range f.Transfers {
			m["transfer "+t.Key()] = fmt.Sprintf("type=%d min=%d%s", t.Type, t.MinT, x(t.X))
		}
	}
	for k, l := range f.Levels {
		m["level "+k] = fmt.Sprintf("%s %s%s", fstr(l.Index), l.Name, x(l.X))
	}
	for k, p := range f.Pathways {
		m["pathway "+k] = fmt.Sprintf("%s->%s mode=%d bi=%v len=%s t=%d st=%d sl=%s w=%s %s|%s%s", p.From, p.To, p.Mode, p.Bidi, fstr(p.Length), p.Time, p.Stairs, fstr(p.Slope), fstr(p.Width), p.Sign, p.RSign, x(p.X))
	}
	if !o.NoAttr {
		for _, a := range f.Attributions {
			m["attribution "+a.str()] += "+"
		}
	}
	if !o.NoInfo {
		for i, a := range f.Infos {
			m[fmt.Sprintf("feed_info %d", i)] = fmt.Sprintf("%v", *a)
		}
	}
	return m
}

func (f *Feed) tripStr(t *Trip, o *CanonOpt) string {
	var b strings.Builder
	sv := t.Service
	if o.SvcByDates {
		if s := f.Services[t.Service]; s != nil {
			sv = "{" + s.ActiveKey() + "}"
		} else {
			sv = "<none>"
		}
	}
	if o.NoSvc {
		sv = ""
	}
	sh := t.Shape
	if o.NoTripShp {
		sh = ""
	}
	xs := ""
	if !o.NoExtra {
		xs = xstr(t.X)
	}
	fmt.Fprintf(&b, "rt=%s sv=%s head=%s short=%s dir=%d blk=%s shp=%s wa=%d ba=%d%s |", t.Route, sv, t.Headsign, t.Short, t.Dir, t.Block, sh, t.WA, t.BA, xs)
	for i := range t.STs {
		b.WriteString(" " + t.STs[i].str(o) + ";")
	}
	if !o.NoFreq {
		fr := []string{}
		for _, q := range t.Freqs {
			xf := ""
			if !o.NoExtra {
				xf = xstr(q.X)
			}
			fr = append(fr, fmt.Sprintf("%s-%s/%d x%v%s", tstr(q.Start), tstr(q.End), q.Headway, q.Exact, xf))
		}
		sort.Strings(fr)
		fmt.Fprintf(&b, " FREQ %v", fr)
	}
	return b.String()
}

// DiffMaps lists the differences between two canonical views.
func DiffMaps(a, b map[string]string) []string {
	var d []string
	for k, v := range a {
		w, ok := b[k]
		if !ok {
			d = append(d, fmt.Sprintf("lost %s (%s)", k, head(v, 300)))
		} else if v != w {
			d = append(d, fmt.Sprintf("changed %s: %s  =>  %s", k, head(v, 900), head(w, 900)))
		}
	}
	for k, v := range b {
		if _, ok := a[k]; !ok {
			d = append(d, fmt.Sprintf("appeared %s (%s)", k, head(v, 300)))
		}
	}
	sort.Strings(d)
	return d
}

// Frame reports a violation if the two canonical views differ.
func (c *Ctx) Frame(key string, a, b map[string]string) bool {
	c.Count("entities_compared", len(a))
	d := DiffMaps(a, b)
	if len(d) > 0 {
		w := strings.Fields(d[0])
		k := key
		if len(w) > 1 {
			k += ":" + w[0] + "-" + w[1]
		}
		c.Viol(k, "%d unexpected differences: %s", len(d), strings.Join(d[:min(3, len(d))], " ;; "))
		return false
	}
	return true
}
