module vh
go 1.27
require github.com/peterbourgon/trc v0.0.0
replace github.com/peterbourgon/trc => /repo
require (
	github.com/bernerdschaefer/eventsource v0.0.0-20130606115634-220e99a79763
	github.com/google/go-cmp v0.5.9
	github.com/oklog/run v1.1.0
	github.com/oklog/ulid/v2 v2.1.0
	github.com/peterbourgon/ff/v4 v4.0.0-alpha.3
)
