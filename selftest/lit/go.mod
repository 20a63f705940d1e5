module example.org/lit

go 1.21
