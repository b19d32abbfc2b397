package signal

import "os"

// SimNotify replaces signal registration in the simulation.
var SimNotify func(c chan<- os.Signal, sig []os.Signal)
