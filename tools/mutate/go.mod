module mutate

go 1.27
