module github.com/blocktree/go-owcdrivers

go 1.12

require (
	github.com/assetsadapterstore/tivalue-adapter v1.0.3
	github.com/astaxie/beego v1.11.1
	github.com/binance-chain/go-sdk v1.0.8
	github.com/blocktree/arkecosystem-adapter v1.0.4
	github.com/blocktree/bitshares-adapter v1.0.5
	github.com/blocktree/ddmchain-adapter v1.0.5
	github.com/blocktree/eosio-adapter v1.0.0
	github.com/blocktree/ethereum-adapter v1.1.10
	github.com/blocktree/futurepia-adapter v1.0.12
	github.com/blocktree/go-owcrypt v1.1.13
	github.com/blocktree/moacchain-adapter v1.0.3
	github.com/blocktree/nulsio-adapter v1.1.7
	github.com/blocktree/ontology-adapter v1.0.8
	github.com/blocktree/openwallet v1.5.4
	github.com/blocktree/rcproto-adapter v1.0.0
	github.com/blocktree/ripple-adapter v1.0.13
	github.com/blocktree/virtualeconomy-adapter v1.1.5
	github.com/blocktree/waykichain-adapter v1.0.3
	github.com/google/gofuzz v1.0.0 // indirect
	github.com/pkg/errors v0.8.1
	github.com/tendermint/tendermint v0.31.2-rc0
	github.com/tidwall/gjson v1.2.1
)

// replace github.com/blocktree/go-owcrypt => /Users/heshuchao/workspace/go-workspace/go-owcrypt
