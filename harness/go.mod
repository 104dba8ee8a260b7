module verif/harness

go 1.21

require (
	github.com/apparentlymart/go-textseg v1.0.0
	github.com/hashicorp/hcl2 v0.0.0
	github.com/zclconf/go-cty v1.0.0
	golang.org/x/text v0.3.2
)

require (
	github.com/agext/levenshtein v1.2.1 // indirect
	github.com/bsm/go-vlq v0.0.0-20150828105119-ec6e8d4f5f4e // indirect
	github.com/google/go-cmp v0.2.0 // indirect
	github.com/mitchellh/go-wordwrap v0.0.0-20150314170334-ad45545899c7 // indirect
)

replace github.com/hashicorp/hcl2 => /repo
