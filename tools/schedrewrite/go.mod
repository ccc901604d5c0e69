module schedrewrite

go 1.25
