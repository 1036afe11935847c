// Package rand is the simulated counterpart of crypto/rand.
package rand

import (
	"crypto/rand"
	"io"
	"math/big"

	"github.com/fredbi/go-typeset/zsim/simrt"
)

type reader struct{}

func (reader) Read(b []byte) (int, error) {
	for i := range b {
		b[i] = byte(simrt.Draw(256))
	}
	return len(b), nil
}

// Reader of random bytes.
var Reader io.Reader = reader{}

func Read(b []byte) (int, error)                      { return Reader.Read(b) }
func Int(r io.Reader, max *big.Int) (*big.Int, error) { return rand.Int(r, max) }
