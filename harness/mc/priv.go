package mc

import (
	"fmt"
	"os"
	"syscall"
)

const nobody, nogroup = 65534, 65533

// DropPrivileges turns a root process into an unprivileged one, so that calls of the
// code under test that escape their directory can reach nothing real.  The report and
// trace files named on the command line stay writable; dirs are handed over.
func DropPrivileges(dirs ...string) error {
	if os.Getuid() != 0 {
		return nil
	}
	for i, a := range os.Args[:len(os.Args)-1] {
		if a == "-out" || a == "-trace" {
			f, err := os.OpenFile(os.Args[i+1], os.O_CREATE|os.O_RDWR, 0666)
			if err != nil {
				return err
			}
			f.Close()
			os.Chown(os.Args[i+1], nobody, nogroup)
		}
	}
	for _, d := range dirs {
		if err := os.Chown(d, nobody, nogroup); err != nil {
			return err
		}
	}
	if err := syscall.Setgroups(nil); err != nil {
		return fmt.Errorf("setgroups: %v", err)
	}
	if err := syscall.Setgid(nogroup); err != nil {
		return fmt.Errorf("setgid: %v", err)
	}
	if err := syscall.Setuid(nobody); err != nil {
		return fmt.Errorf("setuid: %v", err)
	}
	if os.Geteuid() == 0 || os.Getuid() == 0 {
		return fmt.Errorf("still root")
	}
	return nil
}
