// Package h holds the harnesses.
package h

import (
	"github.com/steve-care-software/rodkina/libs/cryptography/domain/hash"
	"github.com/steve-care-software/rodkina/verifh/sym"
)

// H_Smoke exercises the engine
func H_Smoke() {
	n := sym.Choice("n", 4)
	b := sym.Bytes("b", n)
	p, err := hash.NewAdapter().FromBytes(b)
	if n == 0 {
		sym.Observe("err", err != nil)
	}
	if err != nil {
		return
	}
	q, err := hash.NewAdapter().FromString(p.String())
	sym.Assert(err == nil, "parse")
	sym.Assert(p.Compare(*q), "round trip")
	sym.Observe("h", p.String())
	sym.Reach("end")
}
