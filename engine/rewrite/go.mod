module verif/rewrite

go 1.22
