module verif3mf

go 1.25

require github.com/hpinc/go3mf v0.0.0

require github.com/qmuntal/opc v0.7.10

replace github.com/hpinc/go3mf => /repo
