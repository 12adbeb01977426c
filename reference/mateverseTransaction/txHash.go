package mateverseTransaction

