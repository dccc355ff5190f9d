//go:build !hashcache

package main

func hashHistories(*explorer)     {}
func hashInterleavings(*explorer) {}
