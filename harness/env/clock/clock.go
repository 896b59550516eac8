// Package clock models the wall clock.
package clock

import (
	"time"

	"github.com/steve-care-software/rodkina/verifh/env/core"
)

// Now returns the model's time
func Now() time.Time { return core.Now() }

// Since as in the modelled package
func Since(t time.Time) time.Duration { return Now().Sub(t) }

// Until as in the modelled package
func Until(t time.Time) time.Duration { return t.Sub(Now()) }

// Sleep does nothing
func Sleep(d time.Duration) {}
