package main

import (
	"fmt"
	"strings"
)

// prefixed adds a prefix to all ids of the nodes of a feed.
func prefixed(l []*Node, p string) []*Node {
	for _, n := range l {
		if n.Kind != "feed_info" && (n.Kind != "attribution" || n.ID != "") {
			n.ID = p + n.ID
		}
		for i := range n.Refs {
			n.Refs[i].ID = p + n.Refs[i].ID
		}
	}
	return l
}

func init() {
	reg(&Prop{ID: "P15", Title: "several feeds, prefixes and kept ids", Quick: 1200, Thorough: 30000,
		Rule: "one to four seeded feeds with equal, colliding and prefix-like ids are read together, with --prefix, any --keep-*-ids, -i/-d or neither; non-trivial: ids of at least two feeds collided or a prefix was removed again, keyed by flags and ids",
		Case: func(c *Ctx) {
			n := 1 + c.R.Intn(4)
			pre := ""
			if n == 1 || c.R.Intn(3) == 0 {
				pre = []string{"x", "a", "0#", "p-", "1", "10#"}[c.R.Intn(6)]
			}
			o := DefOpt()
			o.Trips, o.Routes, o.Stops = [2]int{1, 6}, [2]int{1, 4}, [2]int{3, 6}
			o.Transfers, o.Attrs, o.Fares, o.Pathways, o.Levels, o.Extra = 0.7, 0.7, 0.7, 0.6, 0.6, 0.3
			o.IDStyle = c.R.Intn(9)
			if c.R.Intn(3) == 0 {
				o.IDStyle = 6
			}
			uniq := c.R.Intn(4) > 0
			var feeds []*Feed
			var ins []string
			withF := c.R.Intn(2) == 0
			for i := 0; i < n; i++ {
				f0 := Gen(c.R, o)
				if uniq {
					f0.unique(i)
				}
				if c.R.Intn(8) == 0 && len(f0.Agencies) == 1 { // no agency id
					for k, a := range f0.Agencies {
						delete(f0.Agencies, k)
						a.ID = ""
						f0.Agencies[""] = a
						for _, r := range f0.Routes {
							r.Agency = ""
						}
						for _, q := range f0.Fares {
							q.Agency = ""
						}
						for _, q := range f0.Attributions { // cannot refer to it
							if q.Agency != "" {
								q.Agency = ""
							}
						}
					}
				}
				raw := present(c.R, f0.ToRaw())
				f, prob := ParseRaw(raw)
				if len(prob) > 0 {
					fatal("generator: %v", prob)
				}
				if !withF {
					f.stripExtra()
				}
				feeds = append(feeds, f)
				name := fmt.Sprintf("in%d", i)
				if c.R.Intn(4) == 0 {
					name += ".zip"
				}
				ins = append(ins, c.Put(name, raw))
			}
			var fl []string
			if withF {
				fl = append(fl, "-F")
			}
			if pre != "" {
				fl = append(fl, "--prefix", pre)
			}
			keep, kf := c.keepFlags()
			fl = append(fl, kf...)
			min := c.R.Intn(5) == 0
			if min {
				fl = append(fl, []string{"-i", "-d"}[c.R.Intn(2)])
			}
			r := c.Tidy(fl, ins...)
			if !c.Valid(r) {
				return
			}
			var want []*Node
			orig := map[*Node]string{}
			var prefixes []string
			for i, f := range feeds {
				p := pre
				if n > 1 {
					p += fmt.Sprintf("%d#", i)
				}
				prefixes = append(prefixes, p)
				l := f.Graph()
				ids := make([]string, len(l))
				for j, q := range l {
					ids[j] = q.ID
				}
				prefixed(l, p)
				for j, q := range l {
					orig[q] = ids[j]
				}
				want = append(want, l...)
			}
			got := r.F.Graph()
			init := func(q *Node) string {
				switch q.Kind {
				case "fare_rule", "transfer", "feed_info":
					return ""
				}
				if keep[q.Kind] || min && q.Kind != "zone" && q.Kind != "block" {
					return ""
				}
				return q.ID
			}
			// a feed_info line is not numbered
			if !c.sameGraph("content", want, got, init, init) {
				return
			}
			// kept ids
			wc, gc := colours(want, init, 4), colours(got, init, 4)
			byCol := map[string]*Node{}
			for i, q := range want {
				if byCol[wc[i]] != nil {
					byCol[wc[i]] = &Node{Kind: "ambiguous"}
				} else {
					byCol[wc[i]] = q
				}
			}
			restored, coll := 0, 0
			for _, k := range idKinds {
				if !keep[k] {
					continue
				}
				have := map[string]*Node{}
				groups := map[string]int{}
				for _, q := range want {
					if q.Kind == k && !(k == "attribution" && orig[q] == "") {
						groups[orig[q]]++
					}
				}
				for i, q := range got {
					if q.Kind != k || k == "attribution" && q.ID == "" {
						continue
					}
					w := byCol[gc[i]]
					have[q.ID] = q
					if w == nil || w.Kind == "ambiguous" {
						continue
					}
					c.Count("kept_ids_checked", 1)
					if q.ID != w.ID && q.ID != orig[w] {
						c.Viol("id-"+k, "%s %s of the input has the id %q (prefixed: %q)", k, orig[w], q.ID, w.ID)
						return
					}
					if q.ID != w.ID {
						restored++
					}
				}
				for id, m := range groups {
					if m > 1 {
						coll++
					}
					if have[id] == nil && !(k == "agency" && id == "" && len(r.F.Agencies) > 1) {
						c.Viol("not-kept-"+k, "the %s id %q of the input is gone (%d feeds had it), prefixes %v, ids left: %s", k, id, m, prefixes, head(strings.Join(r.F.ids(k), " "), 300))
						return
					}
				}
			}
			c.Count("ids_restored", restored)
			c.Seen("prefix_sets", strings.Join(prefixes, " "))
			if n > 1 || restored > 0 {
				c.Nontrivial(fmt.Sprint(fl, len(want), coll, restored, feeds[0].ids("trip"), feeds[0].ids("stop"), c.Idx))
				c.Sample(map[string]any{"flags": strings.Join(fl, " "), "feeds": n, "entities": len(want), "ids_restored": restored, "ids_colliding": coll})
			}
		}})
}
