module replay

go 1.23

require (
	github.com/prospik/libsignal-protocol-go v0.0.0
	golang.org/x/crypto v0.0.0-20200820211705-5c72a883971a
	github.com/golang/protobuf v1.3.1
	github.com/RadicalApp/complete v0.0.0-20170329192659-17e6c0ee499b
)

replace github.com/prospik/libsignal-protocol-go => /repo
