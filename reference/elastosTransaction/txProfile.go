package elastosTransaction

const (
	TxTypeTransferAsset   = byte(0x02)
	DefaultPayloadVersion = byte(0x00)
	AddressPrefix         = byte(0x21)
	OP_CHECKSIG           = byte(0xAC)
	AssetID_ELA           = "a3d0eaa466df74983b5d7c543de6904f4c9418ead5ffd6d25814234a96db37b0"
)
