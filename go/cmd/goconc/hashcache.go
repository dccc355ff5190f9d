//go:build hashcache

package main

import (
	"bytes"
	"fmt"

	"github.com/Fantom-foundation/Tosca/go/interpreter/lfvm"
	"github.com/Fantom-foundation/Tosca/go/tosca"
	"verif/ref"
	"verif/vsync"
)

var hashKeys = func() (res [][]byte) {
	res = append(res, make([]byte, 32), make([]byte, 64)) // the zero words are cached initially
	for i := byte(1); i < 5; i++ {
		res = append(res, append(bytes.Repeat([]byte{7}, 31), i))
	}
	for i := byte(1); i < 5; i++ {
		res = append(res, append(bytes.Repeat([]byte{9}, 63), i))
	}
	return append(res, nil, []byte{7}, make([]byte, 33), make([]byte, 31))
}()

var hashValues = func() (res []tosca.Hash) {
	for _, k := range hashKeys {
		res = append(res, tosca.Hash(ref.Keccak(k)))
	}
	return
}()

// hashHistories looks up all sequences of values in caches of small capacities.
func hashHistories(e *explorer) {
	family := "hash cache histories"
	e.schedules[family] = 0
	e.order = append(e.order, family)
	run := func(al []int, capacity, depth int) {
		hist := make([]int, depth)
		var rec func(d int)
		rec = func(d int) {
			if d == 3 {
				e.n++
				if (e.n-1)%e.shares != e.share {
					return
				}
			}
			if e.failed[family] > 0 {
				return
			}
			if d == depth {
				c := lfvm.VerifHashCache(capacity, capacity)
				e.schedules[family]++
				for i, k := range hist {
					if c.Hash(hashKeys[k]) != hashValues[k] {
						e.failed[family]++
						fmt.Fprintf(vsync.Out, "FINDING %s|capacity %d: after hashing %v, the hash of %v is wrong\n", family, capacity, hist[:i], hashKeys[k])
						return
					}
				}
				return
			}
			for _, k := range al {
				hist[d] = k
				rec(d + 1)
			}
		}
		rec(0)
	}
	d := 7
	if e.thorough {
		d = 8
	}
	for _, capacity := range []int{0, 2, 3, 4} {
		run([]int{0, 2, 3, 4, 5}, capacity, d)
		run([]int{1, 6, 7, 8, 9}, capacity, d-1)
		run([]int{0, 1, 2, 6, 10, 11, 12, 13}, capacity, d-2)
	}
}

// hashInterleavings explores concurrent lookups in caches of small capacities.
func hashInterleavings(e *explorer) {
	run := func(capacity int, bound int, progs ...[]int) {
		var wrong string
		e.explore("hash cache", fmt.Sprintf("capacity %d, lookups %v", capacity, progs), bound, func() []func() {
			wrong = ""
			c := lfvm.VerifHashCache(capacity, capacity)
			var bodies []func()
			errs := make([]string, len(progs))
			for t, p := range progs {
				bodies = append(bodies, func() {
					for _, k := range p {
						if c.Hash(hashKeys[k]) != hashValues[k] {
							errs[t] = fmt.Sprintf("thread %d got a wrong hash for key %d", t, k)
						}
					}
				})
			}
			hashCheck = func() string {
				for _, s := range errs {
					if s != "" {
						return s
					}
				}
				for _, k := range []int{0, 2, 3, 4, 5, 4, 3, 2, 0, 5, 3} {
					if c.Hash(hashKeys[k]) != hashValues[k] {
						return fmt.Sprintf("wrong hash for key %d afterwards", k)
					}
				}
				return wrong
			}
			return bodies
		}, func() string { return hashCheck() })
	}
	b := 2
	if e.thorough {
		b = 3
	}
	keys := []int{0, 2, 3, 4}
	for _, capacity := range []int{2, 3} {
		for _, x := range keys {
			for _, y := range keys {
				for _, z := range keys {
					for _, v := range keys {
						run(capacity, b, []int{x, y}, []int{z, v})
						if x <= z {
							run(capacity, b, []int{x, y, x}, []int{z, v, y})
						}
						run(capacity, b-1, []int{x, y}, []int{z}, []int{v})
					}
				}
			}
		}
	}
}

var hashCheck func() string
