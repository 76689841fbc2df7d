module github.com/NVIDIA/vdisc

go 1.13
