package harness

import "unsafe"

func ptrOf[T any](p *T) unsafe.Pointer { return unsafe.Pointer(p) }
