module github.com/pkg/profile

go 1.20
