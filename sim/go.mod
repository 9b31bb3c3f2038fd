module verifsim

go 1.26
