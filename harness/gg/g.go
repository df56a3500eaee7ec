// Package gg identifies goroutines.
package gg

// G returns the address of the calling goroutine's descriptor.
func G() uintptr
