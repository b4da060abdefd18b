module github.com/skycoin/net

go 1.23

require github.com/skycoin/skycoin v0.0.0

replace github.com/skycoin/skycoin => ../skycoin
