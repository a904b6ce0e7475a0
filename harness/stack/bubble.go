// Package stack drives the running parts of willow (heartbeat supervisors, the three services and their clients) inside
// a synctest bubble: time is virtual, so timeouts of any length are explored exactly and at no cost.
package stack

import (
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"strings"
	"testing"
	"testing/synctest"
)

var curT *testing.T

// Bubble runs f with virtual time. Goroutines that f leaves behind, blocked for good, are reported through left.
func Bubble(f func() error) (err error, left bool) {
	defer func() {
		if r := recover(); r != nil {
			s := fmt.Sprint(r)
			if strings.Contains(s, "deadlock") {
				left = true
				if os.Getenv("DEBUG_STACKS") != "" {
					b := make([]byte, 1<<20)
					os.WriteFile(os.Getenv("DEBUG_STACKS"), b[:runtime.Stack(b, true)], 0o644)
				}
				return
			}
			err = fmt.Errorf("panic: %v\n%s", r, cut(string(debug.Stack()), 2500))
		}
	}()
	synctest.Test(curT, func(t *testing.T) {
		defer func() {
			if r := recover(); r != nil {
				err = fmt.Errorf("panic: %v\n%s", r, cut(string(debug.Stack()), 2500))
			}
		}()
		err = f()
	})
	return err, left
}

func cut(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}
