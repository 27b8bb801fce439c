module instrument

go 1.22
