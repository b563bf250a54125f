module github.com/amarin/gomorphy/verif

go 1.23

require (
	github.com/amarin/binutils v0.6.0
	github.com/amarin/gomorphy v0.0.0
	github.com/amarin/libxml v0.1.2 // indirect
	github.com/amarin/logging v0.1.0
	github.com/chzyer/readline v0.0.0-20180603132655-2972be24d48e // indirect
	pgregory.net/rapid v1.3.0
)

replace github.com/amarin/gomorphy => /repo

replace github.com/amarin/logging => ./shim/logging

replace github.com/amarin/libxml => ./shim/libxml
