module verif.local/sim

go 1.27

require (
	github.com/fadhilkurnia/shamir v0.0.0
	github.com/hashicorp/vault v1.9.9
	github.com/klauspost/cpuid/v2 v2.0.9
	github.com/klauspost/reedsolomon v1.9.15
	github.com/starius/aesctrat v0.0.0-20220106011601-da278dad2aaa
	github.com/anishathalye/porcupine v1.3.1
)
replace github.com/fadhilkurnia/shamir => /repo
