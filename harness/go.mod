module verifharness

go 1.21

require github.com/jtejido/linear v0.0.0

replace github.com/jtejido/linear => /repo
