module gitlab.mpi-sws.org/cld/tracing/tracing-framework-go

go 1.20
