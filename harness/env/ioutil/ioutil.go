// Package ioutil models the file helpers.
package ioutil

import (
	"io"

	"github.com/steve-care-software/rodkina/verifh/env/os"
)

// Discard as in the modelled package
var Discard = io.Discard

// ReadFile as in the modelled package
func ReadFile(name string) ([]byte, error) { return os.ReadFile(name) }

// WriteFile as in the modelled package
func WriteFile(name string, data []byte, perm os.FileMode) error {
	return os.WriteFile(name, data, perm)
}

// ReadAll as in the modelled package
func ReadAll(r io.Reader) ([]byte, error) { return io.ReadAll(r) }

// TempFile as in the modelled package
func TempFile(dir, pattern string) (*os.File, error) { return os.CreateTemp(dir, pattern) }
