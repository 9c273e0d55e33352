//go:build !maphook

package checks

const hookAvailable = false

func setIterHook(seed uint64, f func(used uint64) uint64) {}
