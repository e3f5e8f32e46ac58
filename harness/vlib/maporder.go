package vlib

import (
	"fmt"
	"os"
	_ "unsafe" // for go:linkname
)

// The overlay of internal/runtime/maps (see mkoverlay.py) routes the start of every map iteration
// through this hook: iteration order becomes an environment choice that the explorer decides.
//
//go:linkname verifHook internal/runtime/maps.VerifHook
var verifHook func(used uint64) uint64

func init() {
	verifHook = func(uint64) uint64 { return 0 }
	// prove that the hook is in force: the same map always iterates in the same order
	m := map[int]int{0: 0, 1: 1, 2: 2, 3: 3, 4: 4}
	first := ""
	for k := range m {
		first += fmt.Sprint(k)
	}
	for i := 0; i < 64; i++ {
		cur := ""
		for k := range m {
			cur += fmt.Sprint(k)
		}
		if cur != first {
			fmt.Fprintln(os.Stderr, "map iteration order is not under control")
			os.Exit(3)
		}
	}
}

// MapOrders explores body under every choice of map-iteration starting slots that deviates from the
// default at no more than maxDev iterations. Serial use only. It returns the number of executions.
func MapOrders(maxDev int, maxRuns int, body func(dev string)) (runs int, complete bool) {
	complete = true
	type point struct{ slots uint64 }
	exec := func(devs map[int]uint64) []point {
		points := []point{}
		verifHook = func(used uint64) uint64 {
			i := len(points)
			slots := uint64(8)
			for slots*7/8 < used {
				slots *= 2
			}
			if used <= 1 {
				slots = 1
			}
			points = append(points, point{slots})
			return devs[i]
		}
		defer func() { verifHook = func(uint64) uint64 { return 0 } }()
		body(fmt.Sprint(devs))
		return points
	}
	var rec func(devs map[int]uint64, from int)
	rec = func(devs map[int]uint64, from int) {
		runs++
		points := exec(devs)
		if len(devs) >= maxDev {
			return
		}
		for i := from; i < len(points); i++ {
			for off := uint64(1); off < points[i].slots; off++ {
				if runs >= maxRuns {
					complete = false
					return
				}
				nd := map[int]uint64{}
				for k, v := range devs {
					nd[k] = v
				}
				nd[i] = off
				rec(nd, i+1)
			}
		}
	}
	rec(map[int]uint64{}, 0)
	return runs, complete
}
