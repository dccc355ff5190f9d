// Package stateless is a minimal offline stand-in.
package stateless

// Witness is not used before the Verkle fork.
type Witness struct{}
