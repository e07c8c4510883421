// Package vbulk stands in for the parts of bulk that walk maps.
package vbulk

import "github.com/PatchLens/go-update-lens/zzverif/vsim"

func MapKeysSlice[K comparable, V any](m map[K]V) []K {
	return vsim.MapKeys(m)
}

func MapValuesSlice[K comparable, V any](ms ...map[K]V) []V {
	var out []V
	n := 0
	for _, m := range ms {
		n += len(m)
	}
	if n > 0 {
		out = make([]V, 0, n)
	}
	for _, m := range ms {
		for _, v := range vsim.RangeMap(m) {
			out = append(out, v)
		}
	}
	return out
}

func MapInvert[K comparable, V comparable](m map[K]V) map[V]K {
	r := make(map[V]K, len(m))
	MapInvertInto(r, m)
	return r
}

func MapInvertInto[K comparable, V comparable](dest map[V]K, m map[K]V) {
	for k, v := range vsim.RangeMap(m) {
		vsim.MW(dest)[v] = k
	}
}
