package rsa

// SimKey replaces key generation in the simulation, which takes seconds for
// one key of the usual size.
var SimKey func(bits int) *PrivateKey
