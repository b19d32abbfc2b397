module github.com/strangelove-ventures/horcrux/zzsim

go 1.23
