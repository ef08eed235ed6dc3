module verif/harness

go 1.21

require github.com/amarin/query v0.0.0

replace github.com/amarin/query => /repo
