//go:build ov

package main

import "verif/harness/fshook"

func init() { redirectPath = fshook.Redirect }
