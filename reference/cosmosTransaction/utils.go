package cosmosTransaction
