package main

// Feeds as graphs: the content of an entity without ids, and its references.
// Two feeds that differ only in their ids have equally coloured graphs.

import (
	"crypto/sha1"
	"encoding/hex"
	"fmt"
	"sort"
	"strings"
)

type Ref struct{ Tag, Kind, ID string }

type Node struct {
	Kind, ID, Body string
	Refs           []Ref
}

func (n *Node) key() string { return n.Kind + " " + n.ID }

// agency refers to an agency, whose id may be empty.
func (n *Node) agency(f *Feed, id string) {
	if id != "" || f.Agencies[""] != nil {
		n.Refs = append(n.Refs, Ref{"agency", "agency", id})
	}
}

func (n *Node) ref(tag, kind, id string) {
	if id != "" {
		n.Refs = append(n.Refs, Ref{tag, kind, id})
	}
}

// Graph lists the nodes of a feed. Blocks and fare zones are nodes, too.
func (f *Feed) Graph() []*Node {
	var l []*Node
	add := func(kind, id, body string) *Node {
		n := &Node{Kind: kind, ID: id, Body: body}
		l = append(l, n)
		return n
	}
	for _, k := range sortedKeys(f.Agencies) {
		a := f.Agencies[k]
		add("agency", k, fmt.Sprintf("%s|%s|%s|%s|%s|%s|%s%s", a.Name, a.URL, a.TZ, a.Lang, a.Phone, a.FareURL, a.Email, xstr(a.X)))
	}
	zones, blocks := map[string]bool{}, map[string]bool{}
	for _, k := range sortedKeys(f.Stops) {
		s := *f.Stops[k]
		n := add("stop", k, "")
		n.ref("parent", "stop", s.Parent)
		n.ref("level", "level", s.Level)
		n.ref("zone", "zone", s.Zone)
		zones[s.Zone] = true
		s.Parent, s.Level, s.Zone = "", "", ""
		n.Body = s.str()
	}
	for _, k := range sortedKeys(f.Routes) {
		r := f.Routes[k]
		n := add("route", k, fmt.Sprintf("short=%s long=%s desc=%s type=%d url=%s col=%s txt=%s sort=%d cp=%d cd=%d%s", r.Short, r.Long, r.Desc, r.Type, r.URL, r.Color, r.Text, r.Sort, r.CP, r.CD, xstr(r.X)))
		n.agency(f, r.Agency)
	}
	for _, k := range sortedKeys(f.Services) {
		add("service", k, f.Services[k].norm())
	}
	for _, k := range sortedKeys(f.Shapes) {
		var b strings.Builder
		for _, p := range f.Shapes[k].Pts {
			fmt.Fprintf(&b, "#%d %s,%s d%s%s; ", p.Seq, fstr(p.Lat), fstr(p.Lon), fstr(p.Dist), xstr(p.X))
		}
		add("shape", k, b.String())
	}
	for _, k := range sortedKeys(f.Trips) {
		t := *f.Trips[k]
		n := add("trip", k, "")
		n.ref("route", "route", t.Route)
		n.ref("service", "service", t.Service)
		n.ref("shape", "shape", t.Shape)
		n.ref("block", "block", t.Block)
		blocks[t.Block] = true
		sts := make([]ST, len(t.STs))
		for i, s := range t.STs {
			n.ref(fmt.Sprintf("st%d", i), "stop", s.Stop)
			s.Stop = ""
			sts[i] = s
		}
		t.STs = sts
		t.Route, t.Service, t.Shape, t.Block = "", "", "", ""
		n.Body = f.tripStr(&t, &CanonOpt{})
	}
	for _, k := range sortedKeys(f.Fares) {
		a := f.Fares[k]
		n := add("fare", k, fmt.Sprintf("%s %s pm%d tf%d dur%d%s", a.Price, a.Cur, a.PM, a.Transfers, a.Dur, xstr(a.X)))
		n.agency(f, a.Agency)
		for i, u := range a.Rules {
			rn := add("fare_rule", fmt.Sprintf("%s/%d", k, i), xstr(u.X))
			rn.ref("fare", "fare", k)
			rn.ref("route", "route", u.Route)
			rn.ref("origin", "zone", u.Orig)
			rn.ref("destination", "zone", u.Dest)
			rn.ref("contains", "zone", u.Cont)
			zones[u.Orig], zones[u.Dest], zones[u.Cont] = true, true, true
		}
	}
	for i, t := range f.Transfers {
		n := add("transfer", fmt.Sprint(i), fmt.Sprintf("type=%d min=%d%s", t.Type, t.MinT, xstr(t.X)))
		n.ref("fs", "stop", t.FS)
		n.ref("ts", "stop", t.TS)
		n.ref("fr", "route", t.FR)
		n.ref("tr", "route", t.TR)
		n.ref("ft", "trip", t.FT)
		n.ref("tt", "trip", t.TT)
	}
	for _, k := range sortedKeys(f.Levels) {
		v := f.Levels[k]
		add("level", k, fmt.Sprintf("%s %s%s", fstr(v.Index), v.Name, xstr(v.X)))
	}
	for _, k := range sortedKeys(f.Pathways) {
		p := f.Pathways[k]
		n := add("pathway", k, fmt.Sprintf("mode=%d bi=%v len=%s t=%d st=%d sl=%s w=%s %s|%s%s", p.Mode, p.Bidi, fstr(p.Length), p.Time, p.Stairs, fstr(p.Slope), fstr(p.Width), p.Sign, p.RSign, xstr(p.X)))
		n.ref("from", "stop", p.From)
		n.ref("to", "stop", p.To)
	}
	for _, a := range f.Attributions {
		x := *a
		id := x.ID
		x.ID, x.Agency, x.Route, x.Trip = "", "", "", ""
		n := add("attribution", id, x.str())
		n.ref("agency", "agency", a.Agency)
		n.ref("route", "route", a.Route)
		n.ref("trip", "trip", a.Trip)
	}
	for i, a := range f.Infos {
		add("feed_info", fmt.Sprint(i), fmt.Sprintf("%v", *a))
	}
	for _, k := range sortedKeys(zones) {
		if k != "" {
			add("zone", k, "")
		}
	}
	for _, k := range sortedKeys(blocks) {
		if k != "" {
			add("block", k, "")
		}
	}
	return l
}

// colours refines the contents of the nodes by the contents of what they refer
// to and of what refers to them. init adds to the content of a node, e.g. its id
// if that has to stay; rounds limits how far a difference spreads.
func colours(l []*Node, init func(n *Node) string, rounds int) []string {
	at := map[string]int{}
	for i, n := range l {
		if n.Kind != "attribution" && n.Kind != "transfer" && n.Kind != "fare_rule" {
			at[n.key()] = i
		}
	}
	h := func(s string) string {
		d := sha1.Sum([]byte(s))
		return hex.EncodeToString(d[:10])
	}
	col := make([]string, len(l))
	for i, n := range l {
		s := n.Kind + "|" + n.Body
		if init != nil {
			s += "|" + init(n)
		}
		col[i] = h(s)
	}
	for r := 0; r < rounds; r++ {
		in := make([][]string, len(l))
		next := make([]string, len(l))
		for i, n := range l {
			var b strings.Builder
			b.WriteString(col[i])
			for _, q := range n.Refs {
				j, ok := at[q.Kind+" "+q.ID]
				if !ok {
					b.WriteString(" " + q.Tag + ">dangling")
					continue
				}
				b.WriteString(" " + q.Tag + ">" + col[j])
				in[j] = append(in[j], q.Tag+"<"+n.Kind+col[i])
			}
			next[i] = b.String()
		}
		for i := range l {
			sort.Strings(in[i])
			col[i] = h(next[i] + " / " + strings.Join(in[i], " "))
		}
	}
	return col
}

// sameGraph reports a violation if the two feeds differ in more than ids.
func (c *Ctx) sameGraph(key string, a, b []*Node, initA, initB func(n *Node) string) bool {
	for rounds := 0; rounds <= 4; rounds++ {
		ca, cb := colours(a, initA, rounds), colours(b, initB, rounds)
		cnt := map[string]int{}
		for _, x := range cb {
			cnt[x]++
		}
		rest := map[string]int{}
		for i, x := range ca {
			if cnt[x] == 0 {
				c.Viol(key+":lost-"+a[i].Kind, "%s (%s, refers to %v) has no equal in the output (distance %d)", a[i].key(), head(a[i].Body, 300), a[i].Refs[:min(8, len(a[i].Refs))], rounds)
				return false
			}
			cnt[x]--
			rest[x]++
		}
		for i, x := range cb {
			if rest[x] == 0 {
				c.Viol(key+":new-"+b[i].Kind, "%s (%s, refers to %v) of the output has no equal in the input (distance %d)", b[i].key(), head(b[i].Body, 300), b[i].Refs[:min(8, len(b[i].Refs))], rounds)
				return false
			}
			rest[x]--
		}
	}
	c.Count("entities_compared", len(a))
	return true
}

// unique gives all entities contents of their own.
func (f *Feed) unique(tag int) {
	n := 0
	u := func(s *string) {
		n++
		*s = strings.TrimSpace(fmt.Sprintf("%s u%d.%d", *s, tag, n))
	}
	for _, k := range sortedKeys(f.Agencies) {
		u(&f.Agencies[k].Name)
	}
	for _, k := range sortedKeys(f.Stops) {
		u(&f.Stops[k].Name)
	}
	for _, k := range sortedKeys(f.Routes) {
		u(&f.Routes[k].Short)
	}
	for _, k := range sortedKeys(f.Trips) {
		u(&f.Trips[k].Headsign)
	}
	for _, k := range sortedKeys(f.Levels) {
		u(&f.Levels[k].Name)
	}
	for _, k := range sortedKeys(f.Pathways) {
		u(&f.Pathways[k].Sign)
	}
	for _, a := range f.Attributions {
		u(&a.Org)
	}
	for i, k := range sortedKeys(f.Shapes) {
		for j := range f.Shapes[k].Pts {
			f.Shapes[k].Pts[j].Lat += float32(tag*50+i) * 0.0001
		}
	}
	for i, k := range sortedKeys(f.Fares) {
		f.Fares[k].Price = fmt.Sprintf("%d.5", tag*1000+i+1)
	}
	for i, k := range sortedKeys(f.Services) {
		s := f.Services[k]
		if s.Exc == nil {
			s.Exc = map[int]bool{}
		}
		s.Exc[civil(2031, 1, 1)+tag*100+i] = true
	}
}
