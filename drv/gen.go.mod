module example.com/gen
go 1.24
require (
	github.com/golang/glog v1.0.0
	github.com/json-iterator/go v1.1.12
)
require (
	github.com/modern-go/concurrent v0.0.0-20180228061459-e0a39a4cb421 // indirect
	github.com/modern-go/reflect2 v1.0.2 // indirect
)
