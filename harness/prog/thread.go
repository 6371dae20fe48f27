package prog

import "runtime"

// lockThread keeps the thread alive while the goroutine runs: the kernel ends
// the child (Pdeathsig) with the thread that started it.
func lockThread() { runtime.LockOSThread() }
