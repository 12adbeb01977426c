package binancechainTransaction

const (
	Bech32Prefix = "bnb"
	ChainID      = "Binance-Chain-Tigris"
)