//go:build yield

package checks

import (
	"unsafe"

	pdft "github.com/signintech/pdft"
	gopdf "github.com/signintech/pdft/minigopdf"
	"github.com/signintech/pdft/minigopdf/fontmaker/core"
)

const yieldAvailable = true

//go:linkname getLabel runtime/pprof.runtime_getProfLabel
func getLabel() unsafe.Pointer

//go:linkname setLabel runtime/pprof.runtime_setProfLabel
func setLabel(p unsafe.Pointer)

func init() {
	h := func(class int) {
		if s := (*sched)(getLabel()); s != nil {
			s.point(class)
		}
	}
	pdft.VerifHook, gopdf.VerifHook, core.VerifHook = h, h, h
}

// withLabel runs f with its scheduling points reported to s.
func withLabel(s *sched, f func()) {
	old := getLabel()
	setLabel(unsafe.Pointer(s))
	defer setLabel(old)
	f()
}
