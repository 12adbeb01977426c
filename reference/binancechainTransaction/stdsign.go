package binancechainTransaction

