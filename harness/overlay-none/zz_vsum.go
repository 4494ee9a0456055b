// Package zz_vsum stands in for the one in ../overlay where the internal
// checksum packages are not as they were: there is no direct access then.
package zz_vsum

import "hash"

// Adler would return a new Adler-32.
var Adler func() hash.Hash32

// CRC would return a new CRC-32.
var CRC func() hash.Hash32

// AdlerChecksum would be the one-shot Adler-32.
var AdlerChecksum func(p []byte) uint32
