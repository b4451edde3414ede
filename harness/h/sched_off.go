//go:build !instr

package h

func schedStart(seed uint64, hot int, maxSleep uint32, sleeps int64, light uint64) {}
func schedStop()                                                                  {}
func schedVisited() int                                                           { return 0 }
