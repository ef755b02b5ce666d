// Package suite holds the one instance of the group (making one tests primes)
package suite

import (
	"sync"

	"github.com/dedis/crypto/abstract"
	"github.com/dedis/crypto/nist"
)

var once sync.Once
var theSuite abstract.Suite

// Get returns the group
func Get() abstract.Suite {
	once.Do(func() { theSuite = nist.NewAES128SHA256QR512() })
	return theSuite
}
