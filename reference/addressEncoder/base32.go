package addressEncoder
