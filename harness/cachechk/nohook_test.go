//go:build !verif

package cachechk

func hookDelays(on bool) {}
func hookSlow(g uint32)  {}
func hookCount() int64   { return 0 }
