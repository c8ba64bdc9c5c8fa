module verifharness

go 1.26.0

require (
	github.com/NVIDIA/sortedmap v0.0.0
	github.com/anishathalye/porcupine v1.3.1
	pgregory.net/rapid v1.3.0
)

require github.com/NVIDIA/cstruct v0.0.0-20221206222058-cbc877f192d5 // indirect

replace github.com/NVIDIA/sortedmap => /repo
