module verif

go 1.21
