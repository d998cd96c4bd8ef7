package main

import "github.com/levilutz/basiccoin/verifsim/hx"

func main() { hx.Main() }
