module verifharness

go 1.23

require (
	github.com/ThinkiumGroup/go-common v0.0.0
	github.com/anishathalye/porcupine v1.3.1
	github.com/hashicorp/golang-lru v0.5.5-0.20210104140557-80c98217689d
	github.com/holiman/uint256 v1.2.2
	github.com/sirupsen/logrus v1.9.0
	github.com/stephenfire/go-rtl v1.1.1
	github.com/syndtr/goleveldb v1.0.1-0.20210819022825-2ae1ddf74ef7
	golang.org/x/crypto v0.10.0
	pgregory.net/rapid v1.3.0
)

require (
	github.com/golang/snappy v0.0.4 // indirect
	github.com/lestrrat-go/file-rotatelogs v2.4.0+incompatible // indirect
	github.com/lestrrat-go/strftime v1.0.4 // indirect
	github.com/pkg/errors v0.8.1 // indirect
	golang.org/x/sys v0.9.0 // indirect
)

replace github.com/ThinkiumGroup/go-common => /repo
