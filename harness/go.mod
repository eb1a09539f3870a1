module vh

go 1.25

require github.com/spacemonkeygo/monkit/v3 v3.0.0

replace github.com/spacemonkeygo/monkit/v3 => /repo
