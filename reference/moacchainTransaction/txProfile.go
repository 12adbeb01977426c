package moacchainTransaction

const (
	SmallTag       byte = 0xC0
	LargeTag       byte = 0xF7
	ChainIDMainnet byte = 99
	ChainIDTestnet byte = 101
)
