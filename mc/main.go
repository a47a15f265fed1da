package main

import (
	"fmt"
	"os"

	"verifmc/fw"
	"verifmc/props"
)

func main() {
	if len(os.Args) == 4 && os.Args[1] == "-c15gen" {
		if err := props.C15Gen(os.Args[2], os.Args[3]); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		return
	}
	if len(os.Args) == 2 && os.Args[1] == "-c16alone" {
		props.C16Alone()
	}
	if len(os.Args) > 3 && os.Args[1] == "-fsize" {
		props.ExecLimited(os.Args[2], os.Args[3:])
	}
	os.Exit(fw.Main(props.All, os.Args[1:]))
}
