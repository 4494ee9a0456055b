// Package zz_vsum exposes the internal checksum packages to the harness.  It
// is added to the module with -overlay.
package zz_vsum

import (
	"hash"

	"github.com/chronos-tachyon/flate/internal/adler32"
	"github.com/chronos-tachyon/flate/internal/crc32"
)

// Adler returns a new Adler-32.
var Adler = func() hash.Hash32 { return adler32.New() }

// CRC returns a new CRC-32.
var CRC = func() hash.Hash32 { return crc32.New() }

// AdlerChecksum is the one-shot Adler-32.
var AdlerChecksum = adler32.Checksum
