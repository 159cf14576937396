//go:build !verifrace

package harness

import "github.com/juju/worker/v4/verifsched"

func installHook() { verifsched.Hook = hook }

func collectSites() {}
