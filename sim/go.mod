module verif.local/sim

go 1.26

require (
	github.com/anishathalye/porcupine v1.3.1
	github.com/google/uuid v1.1.2
	github.com/milosgajdos/netscrape v0.0.0
	gonum.org/v1/gonum v0.9.1
)

replace github.com/milosgajdos/netscrape => /repo
