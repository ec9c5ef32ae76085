module verifharness

go 1.20

require (
	github.com/mariotoffia/goannoy v0.0.0
	verifrt v0.0.0
)
