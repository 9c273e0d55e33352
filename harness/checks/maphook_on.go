//go:build maphook

package checks

import _ "unsafe"

//go:linkname runtimeIterHook internal/runtime/maps.IterHook
var runtimeIterHook func(used uint64) uint64

//go:linkname runtimeSeedHook internal/runtime/maps.SeedHook
var runtimeSeedHook uint64

const hookAvailable = true

func setIterHook(seed uint64, f func(used uint64) uint64) { runtimeSeedHook, runtimeIterHook = seed, f }
