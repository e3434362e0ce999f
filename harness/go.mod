module verif/harness

go 1.23

require (
	github.com/senghoo/modsecurity-go v0.0.0
	github.com/sirupsen/logrus v1.4.2
)

require (
	github.com/davecgh/go-spew v1.1.1 // indirect
	golang.org/x/sys v0.0.0-20190422165155-953cdadca894 // indirect
)

replace github.com/senghoo/modsecurity-go => /repo
