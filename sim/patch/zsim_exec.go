package exec

// SimOutput replaces Cmd.Output in the simulation.
var SimOutput func(c *Cmd) ([]byte, error)
