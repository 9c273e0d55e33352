//go:build !yield

package checks

const yieldAvailable = false

func withLabel(s *sched, f func()) { f() }
