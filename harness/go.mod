module verif

go 1.16

require github.com/zellyn/diskii v0.0.0

replace github.com/zellyn/diskii => /repo
