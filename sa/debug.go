package main

import "os"

var debugLoops = os.Getenv("NIMCHECK_LOOPS") != ""
