package evaioTransaction

import "strconv"

type TxStruct struct {
	AccountNumber string    `json:"account_number"`
	ChainID       string    `json:"chain_id"`
	Fee           FeeStruct `json:"fee"`
	Memo          string    `json:"memo"`
	Message       []Message `json:"msgs"`
	Sequence      string    `json:"sequence"`
}

func NewTxStruct(chainID, memo string, accountNumber, sequence int, fee *FeeStruct, message []Message) TxStruct {
	txFee := *fee
	if txFee.Amount[0].Amount == "" {
		txFee.Amount = Coins{}
	}
	return TxStruct{
		AccountNumber: strconv.FormatInt(int64(accountNumber), 10),
		ChainID:       chainID,
		Fee:           txFee,
		Memo:          memo,
		Message:       message,
		Sequence:      strconv.FormatInt(int64(sequence), 10),
	}
}
