module verif/mc

go 1.23

require github.com/pbnjay/grate v0.0.0

replace github.com/pbnjay/grate => /repo
