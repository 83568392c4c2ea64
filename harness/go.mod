module fvh

go 1.21

require (
	github.com/abichinger/fastac v0.0.0
	github.com/abichinger/govaluate v1.5.1-0.20220503123756-74b96f998566
	github.com/go-ini/ini v1.66.4
	github.com/vansante/go-event-emitter v1.0.2
)

require (
	github.com/sirupsen/logrus v1.8.1 // indirect
	golang.org/x/sys v0.0.0-20200323222414-85ca7c5b95cd // indirect
)

replace github.com/abichinger/fastac => /repo
