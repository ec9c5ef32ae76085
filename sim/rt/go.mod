module verifrt

go 1.20
