module verif

go 1.24

require github.com/miniLCT/gosb v0.0.0

replace github.com/miniLCT/gosb => /repo
