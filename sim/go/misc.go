package main

import (
	"context"
	"unsafe"
)

var bg = context.Background()

func ptr(p []byte) unsafe.Pointer {
	if len(p) == 0 {
		return nil
	}
	return unsafe.Pointer(&p[0])
}
