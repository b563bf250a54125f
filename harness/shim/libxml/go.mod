module github.com/amarin/libxml

go 1.20
