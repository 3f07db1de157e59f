package main

import "fmt"

func (c *Ctx) genRaw(o Opt) (*Feed, Raw) {
	f := Gen(c.R, o)
	raw := present(c.R, f.ToRaw())
	f2, prob := ParseRaw(raw)
	if len(prob) > 0 {
		fatal("generator produced an invalid feed: %v", prob)
	}
	return f2, raw
}

var allFlags = []string{"-O", "-s", "-m", "-r", "-S", "-R", "-C", "-c", "-T", "-I", "-A", "-P", "-E", "--remove-cal-dates", "--explicit-calendar", "--ensure-stop-parents", "--keep-col-order", "-F", "--drop-too-fast-trips", "--red-trips-fuzzy", "--red-trips-aggressive", "--red-stops-fuzzy", "--fix-far-away-parents", "--drop-shapes", "--snap-stops", "--non-overlapping-services", "--group-adj-stop-times", "--drop-single-stop-trips", "--drop-platform-for-parentless", "-i", "-d"}

func init() {
	reg(&Prop{ID: "P01", Title: "output is a valid feed", Quick: 1200, Thorough: 20000,
		Rule: "seeded feed x random flag combination; non-trivial: distinct flag set with a feed whose output differs from the input",
		Case: func(c *Ctx) {
			_, raw := c.genRaw(DefOpt())
			in := c.Put("in", raw)
			fl := []string{}
			k := 1
			if c.R.Intn(2) == 0 {
				k = c.R.Intn(8)
			}
			for i := 0; i < k; i++ {
				fl = append(fl, allFlags[c.R.Intn(len(allFlags))])
			}
			if c.R.Intn(5) == 0 {
				fl = append(fl, []string{"--compress", "--Compress", "--merge", "--Merge"}[c.R.Intn(4)])
			}
			r := c.Tidy(fl, in)
			c.Valid(r)
			c.Nontrivial(fmt.Sprint(fl))
		}})
}
