package main

import (
	"syscall"
	"unsafe"
)

func ptr(l *syscall.Rlimit) uintptr { return uintptr(unsafe.Pointer(l)) }
