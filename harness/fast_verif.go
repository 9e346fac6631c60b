//go:build verif

package main

import "github.com/hexbee-net/etxe/pkg/etx"

func init() { reused = etx.VerifParser() }
