//go:build go1.22

package main

import "os"

func remove(p string) error { return os.Remove(p) }
