// Package shim holds executable models of library functions the engine does not run from source.
package shim

import (
	real "crypto/sha512"
	"hash"
)

// ErrorsIs models errors.Is for comparable errors
func ErrorsIs(err error, target error) bool {
	for {
		if err == nil {
			return target == nil
		}
		if err == target {
			return true
		}
		if x, ok := err.(interface{ Is(error) bool }); ok && x.Is(target) {
			return true
		}
		u, ok := err.(interface{ Unwrap() error })
		if !ok {
			return false
		}
		err = u.Unwrap()
		if err == nil {
			return false
		}
	}
}

func sortSwap(s interface{}, i, j int) {}

func sliceLen(s interface{}) int { return 0 }

// SortSlice is a stable insertion sort
func SortSlice(s interface{}, less func(i, j int) bool) {
	n := sliceLen(s)
	for i := 1; i < n; i++ {
		for j := i; j > 0 && less(j, j-1); j-- {
			sortSwap(s, j, j-1)
		}
	}
}

func sha512(data []byte) [64]byte { return real.Sum512(data) }

type digest struct{ buf []byte }

// NewSHA512 models sha512.New
func NewSHA512() hash.Hash { return &digest{} }

// Sum512 models sha512.Sum512
func Sum512(data []byte) [64]byte { return sha512(data) }

func (d *digest) Write(p []byte) (int, error) {
	d.buf = append(d.buf, p...)
	return len(p), nil
}

func (d *digest) Sum(b []byte) []byte {
	s := sha512(d.buf)
	return append(b, s[:]...)
}

func (d *digest) Reset() { d.buf = nil }

func (d *digest) Size() int { return 64 }

func (d *digest) BlockSize() int { return 128 }
