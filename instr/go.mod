module vinstr

go 1.23
