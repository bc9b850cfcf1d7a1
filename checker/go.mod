module verif/checker

go 1.23
