package simrt

import "github.com/klauspost/cpuid/v2"

var (
	haveAVX2   = cpuid.CPU.Supports(cpuid.AVX2)
	haveSSSE3  = cpuid.CPU.Supports(cpuid.SSSE3)
	haveSSE2   = cpuid.CPU.Supports(cpuid.SSE2)
	haveAVX512 = cpuid.CPU.Supports(cpuid.AVX512F, cpuid.AVX512BW)
)

// applyCPU changes the features that CPU detection reports; code that caches
// them at start-up sees them at the next Boot.
func applyCPU(c string) {
	set := func(have, on bool, id cpuid.FeatureID) {
		if have && on {
			cpuid.CPU.Enable(id)
		} else {
			cpuid.CPU.Disable(id)
		}
	}
	avx2, ssse3, sse2 := true, true, true
	switch c {
	case "noavx2":
		avx2 = false
	case "nossse3":
		avx2, ssse3 = false, false
	case "nosse2":
		avx2, ssse3, sse2 = false, false, false
	case "noavx512":
	}
	set(haveAVX2, avx2, cpuid.AVX2)
	set(haveSSSE3, ssse3, cpuid.SSSE3)
	set(haveSSE2, sse2, cpuid.SSE2)
	a512 := avx2 && c != "noavx512"
	set(haveAVX512, a512, cpuid.AVX512F)
	set(haveAVX512, a512, cpuid.AVX512BW)
}
