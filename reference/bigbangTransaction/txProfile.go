package bigbangTransaction

const (
	DefaultVersion = uint16(1)
	TxType_Token   = uint16(0)
	DefaultLockUntil = uint32(0)
)

const (
	alphaBet = "0123456789abcdefghjkmnpqrstvwxyz"
	pubkeyPrefix = "1"
)