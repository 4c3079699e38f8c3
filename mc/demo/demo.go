// Package demo runs call trees and prints everything observable of them; the demonstrations of planted changes are made of it.
package demo

import (
	"fmt"

	"vmc/script"
	"vmc/vmx"
)

// Tree runs a tree of calls on a fresh host.
func Tree(root *script.Node, tx script.Tx) { TreeOpt(root, tx, vmx.Opt{Gas: script.Gas()}) }

// TreeOpt runs a tree of calls on a fresh host with options.
func TreeOpt(root *script.Node, tx script.Tx, opt vmx.Opt) {
	p, err := script.Compile(root)
	if err != nil {
		panic(err)
	}
	w := script.BaseWorld(p)
	h := vmx.MustHost(w, opt)
	out, err, aerr := vmx.Run(h, w, p.Input(tx))
	fmt.Printf("%s\n%v\n%s\n", vmx.Canon(out, err), aerr, w.Canon())
}
