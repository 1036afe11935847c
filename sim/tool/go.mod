module simtool

go 1.23
