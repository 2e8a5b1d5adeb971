package main

import (
	"syscall"
	"unsafe"
)

// utimes sets the times of a name, without following symlinks.
func utimes(fn string, ts syscall.Timespec) {
	p, err := syscall.BytePtrFromString(fn)
	must(err)
	both := [2]syscall.Timespec{ts, ts}
	at := -100
	if _, _, e := syscall.Syscall6(syscall.SYS_UTIMENSAT, uintptr(at), uintptr(unsafe.Pointer(p)), uintptr(unsafe.Pointer(&both)), 0x100, 0, 0); e != 0 {
		panic(e)
	}
}
