package net

import "context"

// SimDial and SimListen route all connections into the simulated network.
var (
	SimDial   func(ctx context.Context, d *Dialer, network, address string) (Conn, error)
	SimListen func(network, address string) (Listener, error)
)
