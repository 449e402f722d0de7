// Package arb checks the summaries of an arbitration round.
package arb

import (
	"trypo/pkg/arbiter"
	"trypo/zzverif/hx"
	"trypo/zzverif/sym"
)

type failure struct{ at int }

func (failure) Error() string { return "failed" }

func addr(i int) arbiter.Addr { return arbiter.Addr{IP: "n", Port: string(rune('0' + i))} }

// Errors: the error summary of a round of 0..4 (6) nodes, any of which had an error of its own.
//
//sym:prop=C24 reach=failed,clean
func Errors() {
	n := sym.Pick("nodes", 0, hx.Bound(4, 6))
	errs := arbiter.ArbErrs{}
	had := make([]bool, n)
	some := false
	for i := range had {
		had[i] = sym.Bool("failed")
		some = sym.Or(some, had[i])
		errs[addr(i)] = nil
		if had[i] {
			errs[addr(i)] = failure{i}
		}
	}
	at, err := errs.CheckAll()
	sym.Assert(sym.Iff(err != nil, some), "error-exactly-when-a-node-had-one")
	if err != nil {
		f, ok := err.(failure)
		sym.Assert(ok, "a-node's-own-error")
		sym.Assert(had[f.at] && at == addr(f.at), "the-node-that-had-the-error")
		sym.Reach("failed")
	} else {
		sym.Assert(at == arbiter.Addr{}, "no-node-named-without-error")
		sym.Reach("clean")
	}
	sym.Assert(len(errs) == n, "unchanged")
}

// Statuses: the status summary of a round of 0..4 (8) nodes with arbitrary status codes, for an arbitrary code.
//
//sym:prop=C24 reach=uniform,mixed maporder=0
func Statuses() {
	n := sym.Pick("nodes", 0, hx.Bound(4, 8))
	stats := arbiter.ArbStats{}
	code := arbiter.StatusCode(sym.Int("code", -1<<31, 1<<31-1))
	all := true
	for i := 0; i < n; i++ {
		c := arbiter.StatusCode(sym.Int("status", -1<<31, 1<<31-1))
		stats[addr(i)] = c
		all = sym.And(all, c == code)
	}
	got := stats.UniformStatus(code)
	sym.Assert(sym.Iff(got, all), "uniform-exactly-when-all-have-the-code")
	if got {
		sym.Reach("uniform")
	} else {
		sym.Reach("mixed")
	}
	sym.Assert(len(stats) == n, "unchanged")
}
