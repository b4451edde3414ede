//go:build instr

package h

import "github.com/funny-falcon/go-iproto/zzverif"

func schedStart(seed uint64, hot int, maxSleep uint32, sleeps int64, light uint64) {
	zzverif.Start(seed, hot, maxSleep, sleeps, light)
}
func schedStop()        { zzverif.Stop() }
func schedVisited() int { return zzverif.Visited() }
