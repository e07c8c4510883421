// Package vfnv stands in for hash/fnv. Hashes of paths choose locks; the scratch
// directory differs between simulator processes, so it is left out of what is
// hashed to keep one seed one execution.
package vfnv

import (
	"bytes"
	"hash"
	"hash/fnv"

	"github.com/PatchLens/go-update-lens/zzverif/vsim"
)

type h64 struct{ hash.Hash64 }

func (h h64) Write(b []byte) (int, error) {
	h.Hash64.Write(clean(b))
	return len(b), nil
}

type h32 struct{ hash.Hash32 }

func (h h32) Write(b []byte) (int, error) {
	h.Hash32.Write(clean(b))
	return len(b), nil
}

func clean(b []byte) []byte {
	if w := vsim.W; w != nil && w.Root() != "" {
		return bytes.ReplaceAll(b, []byte(w.Root()), nil)
	}
	return b
}

func New64() hash.Hash64  { return h64{fnv.New64()} }
func New64a() hash.Hash64 { return h64{fnv.New64a()} }
func New32() hash.Hash32  { return h32{fnv.New32()} }
func New32a() hash.Hash32 { return h32{fnv.New32a()} }
