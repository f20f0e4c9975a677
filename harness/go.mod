module verif.local/trcmon

go 1.26.0

require (
	github.com/bernerdschaefer/eventsource v0.0.0-20130606115634-220e99a79763
	github.com/peterbourgon/trc v0.0.0
	golang.org/x/net v0.61.0
)

require github.com/oklog/ulid/v2 v2.1.0 // indirect

replace github.com/peterbourgon/trc => /repo
