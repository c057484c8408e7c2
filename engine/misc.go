package main

import "go/token"

const tokADD = token.ADD
