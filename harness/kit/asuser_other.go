//go:build !js

package kit

import (
	"os/exec"
	"syscall"
)

func asNobody(cmd *exec.Cmd) {
	cmd.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: 65534, Gid: 65534}}
}
