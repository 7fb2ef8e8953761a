package main

import "go/token"

type pos0 = token.Pos
