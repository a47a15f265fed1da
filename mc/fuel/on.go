//go:build vsched && !sched

// Package fuel bounds the number of library statements an operation may run.
package fuel

import "github.com/danhhz/zeropb/vsched_verif"

// On reports whether the library is instrumented.
const On = true

var given int64

// Set gives the next operation n statements.
func Set(n int64) { given, vsched_verif.Fuel = n, n }

// Used is the number of statements run since Set.
func Used() int64 { return given - vsched_verif.Fuel }

// Exhausted is the panic value when fuel runs out.
const Exhausted = vsched_verif.Exhausted
