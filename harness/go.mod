module github.com/Azure/go-amqp/vf

go 1.27

require (
	github.com/moby/spdystream v0.2.0
	github.com/Azure/go-amqp v1.0.4
	github.com/anishathalye/porcupine v1.3.1
	github.com/c-kruse/vanflow v0.0.0
	github.com/cenkalti/backoff/v4 v4.2.1
)

require github.com/google/go-cmp v0.7.0 // indirect

replace github.com/c-kruse/vanflow => /repo
