module verif/harness

go 1.18

require github.com/hsiaosiyuan0/mole v0.0.0

replace github.com/hsiaosiyuan0/mole => /repo
