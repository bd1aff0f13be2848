package pbt

import "runtime"

func stackAll(buf []byte) int { return runtime.Stack(buf, true) }
