//go:build !race

package main

import "syscall"

// A call that asks for too much memory must end this process with an error of
// its own, not the machine.  (The race detector reserves address space.)
func init() {
	l := syscall.Rlimit{Cur: 12 << 30, Max: 12 << 30}
	must(syscall.Setrlimit(syscall.RLIMIT_AS, &l))
}
