module vharness

go 1.20
