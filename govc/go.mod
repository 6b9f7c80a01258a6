module govc

go 1.22
