package evaioTransaction
