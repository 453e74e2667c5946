module verif/lib

go 1.24
