package main

import (
	"fmt"
	"os"
	"runtime/debug"
)

func main() {
	debug.SetGCPercent(400)
	root := os.Getenv("REPO")
	if root == "" {
		root = "/repo"
	}
	if len(os.Args) < 2 {
		fmt.Println("usage: checker <property> [quick|thorough] | dump ...")
		os.Exit(2)
	}
	if os.Args[1] == "dump" {
		pr, err := Load(root, Config{})
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		dump(pr, os.Args[2:])
		return
	}
	tier := "quick"
	if len(os.Args) > 2 {
		tier = os.Args[2]
	}
	out := os.Getenv("EVIDENCE_DIR")
	if out == "" {
		out = "/verif/evidence"
	}
	os.Exit(runProperty(root, os.Args[1], tier, out))
}
