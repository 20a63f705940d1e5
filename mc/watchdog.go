package mc

import (
	"fmt"
	"os"
	"runtime"
	"sync/atomic"
	"syscall"
	"time"
)

// Progress counts scheduling steps and executions; the watchdog looks at it.
var Progress int64

// CPUSeconds is the processor time this process has used.
func CPUSeconds() float64 {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return float64(ru.Utime.Sec+ru.Stime.Sec) + float64(ru.Utime.Usec+ru.Stime.Usec)/1e6
}

// Watchdog ends the process when the code under test burns a lot of processor
// time (not wall time) without reaching a single scheduling point.
func Watchdog(limit float64) {
	go func() {
		last, at := int64(-1), 0.0
		for {
			time.Sleep(500 * time.Millisecond)
			p, c := atomic.LoadInt64(&Progress), CPUSeconds()
			if p != last {
				last, at = p, c
				continue
			}
			if c-at > limit {
				buf := make([]byte, 1<<16)
				n := runtime.Stack(buf, true)
				fmt.Fprintf(os.Stderr, "CPU-LOOP the code under test ran for %.0f seconds of processor time without reaching a synchronisation operation\n%s\n", c-at, buf[:n])
				os.Exit(3)
			}
		}
	}()
}
