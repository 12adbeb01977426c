package virtualeconomyTransaction

var (
	TxTypeTransfer  = byte(2)
	DefaultFeeScale = uint16(100)
	DefaultFixedFee = uint64(10000000)
)
