//go:build !vsched || sched

// Package fuel bounds the number of library statements an operation may run.
package fuel

// On reports whether the library is instrumented.
const On = false

// Set gives the next operation n statements.
func Set(n int64) {}

// Used is the number of statements run since Set.
func Used() int64 { return 0 }

// Exhausted is the panic value when fuel runs out.
const Exhausted = "fuel"
