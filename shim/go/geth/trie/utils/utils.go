// Package utils is a minimal offline stand-in.
package utils

// PointCache is not used before the Verkle fork.
type PointCache struct{}
