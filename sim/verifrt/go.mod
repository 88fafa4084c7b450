module verifrt

go 1.23
