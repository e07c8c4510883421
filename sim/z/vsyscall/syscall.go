// Package vsyscall stands in for the system calls that touch other processes.
package vsyscall

import (
	"syscall"

	"github.com/PatchLens/go-update-lens/zzverif/vexec"
	"github.com/PatchLens/go-update-lens/zzverif/vsim"
)

// Kill only ever looks at simulated processes.
func Kill(pid int, sig syscall.Signal) error {
	vsim.Op("kill")
	if f, ok := vsim.W.Vals["kill"].(func(pid int, sig syscall.Signal) error); ok {
		if err := f(pid, sig); err != nil {
			return err
		}
	}
	if !vexec.SimAlive(pid) {
		return syscall.ESRCH
	}
	if sig != 0 {
		vsim.Fail("signal", "signal %v sent to process %d", sig, pid)
	}
	return nil
}
