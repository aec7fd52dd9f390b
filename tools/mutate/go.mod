module mutate
go 1.23
