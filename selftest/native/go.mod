module native

go 1.21

require example.org/lit v0.0.0

replace example.org/lit => ../lit
