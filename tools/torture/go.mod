module torture

go 1.20
