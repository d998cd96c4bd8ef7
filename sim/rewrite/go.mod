module verifrewrite

go 1.23
