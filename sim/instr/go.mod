module verifinstr

go 1.20
