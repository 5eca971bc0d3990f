// Package runtime keeps the program from changing process-wide settings.
package runtime

var MemProfileRate int

func GOMAXPROCS(n int) int { return 8 }
func GC()                  {}
func NumGoroutine() int    { return 1 }
