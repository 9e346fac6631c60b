package main

import "github.com/hexbee-net/etxe/pkg/etx"

// reused parses as etx.ParseString does, with a parser that is built once. It
// is nil when the hook is not there. ParseString spends most of its time on
// building a parser, so most cases run on this first, and what fails is judged
// by running the case again on ParseString itself.
var reused func(string) (*etx.AST, error)
