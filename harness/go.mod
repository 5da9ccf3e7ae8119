module verif/harness

go 1.23

require github.com/lyraproj/dgo v0.0.0

replace github.com/lyraproj/dgo => /repo
