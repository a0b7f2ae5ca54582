package main

import "strings"

// keptResult is a result that belongs to the caller: later requests and edits must not change it
type keptResult struct {
	what string
	rows [][]string
	want string
}

func joinRows(rows [][]string) string {
	parts := []string{}
	for _, r := range rows {
		parts = append(parts, rkey(r))
	}
	return strings.Join(parts, "\n")
}

// keep remembers a result (a list of rules or names) until the end of the case.
// Some results are overwritten instead, what must not have an influence on later requests.
func (c *C) keep(what string, rows ...[]string) {
	if len(rows) == 0 || len(rows) > 50 || len(c.kept) >= 60 {
		return
	}
	// the content decides, not the generator: cases stay reproducible
	want := joinRows(rows)
	if (len(want)+len(c.kept))%5 == 0 {
		for i, r := range rows {
			for j := range r {
				r[j] = "\x00overwritten"
			}
			_ = append(r, "\x00appended")
			rows[i] = nil
		}
		c.Count("results overwritten by the caller")
		return
	}
	c.kept = append(c.kept, keptResult{what, rows, want})
}

func (c *C) checkKept() {
	for _, k := range c.kept {
		c.Eval()
		if got := joinRows(k.rows); got != k.want {
			c.Failf("a result of %s, which was kept, changed later from\n%s\nto\n%s", k.what, strings.ReplaceAll(k.want, "\x00", " "), strings.ReplaceAll(got, "\x00", " "))
		}
	}
	if len(c.kept) > 0 {
		c.CountN("results kept until the end", len(c.kept))
	}
	c.kept = nil
}
