module verif/gh

go 1.22.0
