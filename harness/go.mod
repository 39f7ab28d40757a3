module verif/harness

go 1.27.3

require (
	github.com/WatchBeam/amf0 v0.0.0
	github.com/WatchBeam/rtmp v0.0.0
)

replace github.com/WatchBeam/amf0 => ./amf0

replace github.com/WatchBeam/rtmp => /repo
