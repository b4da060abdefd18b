module verif/h

go 1.23

require (
	github.com/DiSiqueira/GoTree v0.0.0
	github.com/boltdb/bolt v0.0.0
	github.com/peterh/liner v0.0.0
	github.com/skycoin/cxo v0.0.0
	github.com/skycoin/net v0.0.0
	github.com/skycoin/skycoin v0.0.0
	pgregory.net/rapid v1.3.0
)

replace (
	github.com/DiSiqueira/GoTree => ../shims/gotree
	github.com/boltdb/bolt => ../shims/bolt
	github.com/peterh/liner => ../shims/liner
	github.com/skycoin/cxo => /repo
	github.com/skycoin/net => ../shims/net
	github.com/skycoin/skycoin => ../shims/skycoin
)
