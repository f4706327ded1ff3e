module vsim

go 1.24

require golang.org/x/sys v0.0.0-20190310054646-10058d7d4faa
