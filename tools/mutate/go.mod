module mutgen
go 1.24
