package main

import "runtime"

func lockThread() { runtime.LockOSThread() }
