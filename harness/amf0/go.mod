module github.com/WatchBeam/amf0

go 1.27.3
