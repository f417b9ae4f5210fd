module vharness

go 1.18

require github.com/RomiChan/protobuf v0.0.0

require github.com/RomiChan/syncx v0.0.0-20240418144900-b7402ffdebc7 // indirect

replace github.com/RomiChan/protobuf => /repo
