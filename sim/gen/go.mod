module verifgen

go 1.23
