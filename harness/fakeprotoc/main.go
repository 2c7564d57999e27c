//go:build go1.22

// fakeprotoc stands in for protoc: it sends its arguments to the check over a
// unix socket and does what the check answers.
package main

import (
	"encoding/json"
	"fmt"
	"io/ioutil"
	"net"
	"os"
	"syscall"
)

type reply struct {
	Stdout string
	Stderr string
	Exit   int
	Signal int
	Files  map[string][]byte
}

func main() {
	if len(os.Args) > 1 && os.Args[1] == "--version" {
		fmt.Println("libprotoc 3.11.0")
		return
	}
	conn, err := net.Dial("unix", os.Getenv("VERIF_SOCK"))
	if err != nil {
		fmt.Fprintln(os.Stderr, "fakeprotoc:", err)
		os.Exit(99)
	}
	wd, _ := os.Getwd()
	if err := json.NewEncoder(conn).Encode(map[string]interface{}{"Args": os.Args, "Wd": wd, "Pid": os.Getpid()}); err != nil {
		os.Exit(98)
	}
	var r reply
	if err := json.NewDecoder(conn).Decode(&r); err != nil {
		os.Exit(97)
	}
	for path, data := range r.Files {
		if err := ioutil.WriteFile(path, data, 0644); err != nil {
			fmt.Fprintln(os.Stderr, "fakeprotoc:", err)
		}
	}
	os.Stdout.WriteString(r.Stdout)
	os.Stderr.WriteString(r.Stderr)
	if r.Signal != 0 {
		_ = syscall.Kill(os.Getpid(), syscall.Signal(r.Signal))
		select {}
	}
	os.Exit(r.Exit)
}
