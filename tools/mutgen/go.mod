module mutgen

go 1.22
