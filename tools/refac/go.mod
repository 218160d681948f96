module refac
go 1.23
